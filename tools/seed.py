"""Plant a bug: seed.py <spec.py>. The spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python, exits nonzero on breakage).
Confirms in a scratch copy: applies, non-parsing (or all, with FULL=1) tests as before, demo 0 without / nonzero with."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ns = runpy.run_path(sys.argv[1])
out = "/verif/seeded/" + ns["ID"]
d = tempfile.mkdtemp(prefix="seed_")
try:
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    r = d + "/repo"
    demo = d + "/demo"
    os.makedirs(demo)
    open(demo + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    open(demo + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(demo + "/demo.sh", 0o755)
    rc = subprocess.call(["bash", demo + "/demo.sh"], cwd=r)
    assert rc == 0, "demo fails on the unchanged tree"
    for f, old, new in ns["EDITS"]:
        s = open(r + "/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(r + "/" + f, "w").write(s.replace(old, new))
    rc = subprocess.call(["bash", demo + "/demo.sh"], cwd=r, timeout=300)
    assert rc != 0, "demo passes with the change"
    a = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "asn1PERser/test", "--deselect",
         "asn1PERser/test/per/decoder/test_per_decode_sequence_of.py::test_no_constrains_sequence_of_integer_can_be_decoded"]
    if not (os.environ.get("FULL") or ns.get("FULL")):
        a += ["--ignore", "asn1PERser/test/parsing"]
    p = subprocess.run(a, cwd=r, capture_output=True, text=True)
    print(p.stdout[-400:])
    assert p.returncode == 0, "tests fail"
    p = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(p.stdout)
    for f in ("demo.py", "demo.sh"):
        shutil.copy(demo + "/" + f, out + "/" + f)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    print("kept", out)
finally:
    shutil.rmtree(d)
