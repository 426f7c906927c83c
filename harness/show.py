"""Compact display of a replay file: show.py evidence/replay_X.json [n]"""
import json
import sys


def num(z):
    n = int.from_bytes(bytes(z["m"]), "big")
    return str(-n if z["s"] else n)


def con(c):
    if c["op"] == "range":
        return "%s..%s" % ("MIN" if c["lo"]["inf"] else num(c["lo"]["n"]), "MAX" if c["hi"]["inf"] else num(c["hi"]["n"]))
    if c["op"] == "single":
        return "|".join(num(v) for v in c["vs"])
    if c["op"] == "none":
        return ""
    return "(" + (" %s " % c["op"]).join(con(a) for a in c["args"]) + ")"


def siz(z):
    return "" if not z["has"] else "(%s..%s%s)" % (z["lo"], "MAX" if z["hi"] == -1 else z["hi"], ",..." if z["ext"] else "")


def ty(t):
    k = t["k"]
    if k == "int":
        return "INT(%s%s)" % (con(t["c"]), ",..." if t["ext"] else "")
    if k in ("bits", "octs"):
        return k.upper() + siz(t["z"])
    if k == "enum":
        return "ENUM{%s%s%s}" % (",".join("%s=%s" % (e["n"], e["x"]) for e in t["root"][:6]), ",..." if t["ext"] else "", "".join("," + e["n"] for e in t["adds"][:6]))
    if k == "seqof":
        return "SEQOF%s %s" % (siz(t["z"]), ty(t["e"]))
    if k == "bool":
        return "BOOL"
    f = lambda c: "%s %s%s" % (c["n"], ty(c["t"]), {"m": "", "o": " OPT", "d": " DEF " + (val(c["d"]) if c.get("p") == "d" else "")}[c.get("p", "m")])
    parts = [f(c) for c in t["root"]] + (["..."] if t["ext"] else [])
    for a in t["adds"]:
        s = ", ".join(f(c) for c in a["c"])
        parts.append("[[" + s + "]]" if a["g"] else s)
    return "%s{%s}" % (k.upper(), ", ".join(parts))


def val(v):
    if not isinstance(v, dict):
        return repr(v)
    k = v.get("k")
    if k == "int":
        return num(v["n"])
    if k == "bool":
        return str(v["b"])
    if k == "enum":
        return v["e"]
    if k == "bits":
        return "b" + "".join(map(str, v["x"]))[:80] + "/%d" % len(v["x"])
    if k == "octs":
        return "x" + bytes(v["x"]).hex()[:60] + "/%d" % len(v["x"])
    if k == "seqof":
        return "[" + ", ".join(val(x) for x in v["l"][:10]) + "]/%d" % len(v["l"])
    if k == "choice":
        return "%s:%s" % (v["n"], val(v["v"]))
    if k == "seq":
        return "{" + ", ".join("%s %s" % (e["n"], val(e["v"])) for e in v["c"]) + "}"
    return json.dumps(v)[:300]


if __name__ == "__main__":
    data = json.load(open(sys.argv[1]))
    lim = int(sys.argv[2]) if len(sys.argv) > 2 else 10
    data.sort(key=lambda d: len(json.dumps(d)))
    count = {}
    for d in data:
        count[d["kind"]] = count.get(d["kind"], 0) + 1
        if count[d["kind"]] > lim:
            continue
        print("==", d["kind"], d.get("note", ""))
        for t, x in d["types"].items():
            print("  T%s = %s" % (t, ty(x)[:600]))
        for e in d["events"][-12:]:
            s = " ".join("%s=%s" % (k, val(x)[:300] if k in ("v", "d") else bytes(x).hex()[:120] if k in ("x", "y") else x) for k, x in e.items() if k != "op")
            print("   ", e["op"], s[:700])
    print(count)
