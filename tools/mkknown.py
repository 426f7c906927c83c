"""Writes known_findings.json: the fixed list from /repo's fix: commits, the open findings from FINDINGS below."""
import json, subprocess, os
PROP = {"9ccb512": "C06", "2220a48": "C01", "8473f7c": "C05", "a304307": "C05", "de6be01": "C05", "b905867": "C04", "9b418f1": "C15",
        "1617f3c": "C15", "3763dda": "C08", "918965d": "C07", "9189e03": "C07", "8dba5a6": "C03", "4d4dc96": "C02", "8efde2c": "C02", "fc28509": "C01",
        "693df40": "C01", "e9a8159": "C03", "1e64511": "C01", "e965fd0": "C01", "7634ca9": "C01", "5a02b35": "C01", "2b219c7": "C01", "ec6e96b": "C01",
        "30e8afb": "C01", "c77468a": "C02", "7e0279b": "C02", "777a80f": "C02", "e9a60ca": "C02", "f9e594b": "C02"}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixprops.json")
if os.path.exists(extra):
    PROP.update(json.load(open(extra)))
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split("|", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (PROP[h[:7]], h[:7], s[5:]))
p = "/verif/known_findings.json"
cur = json.load(open(p)) if os.path.exists(p) else {"findings": []}
json.dump({"findings": cur["findings"], "fixed": fixed}, open(p, "w"), indent=1)
print(len(fixed))
