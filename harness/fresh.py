"""Parses schemas, each in a process of its own (forked right after import): fresh.py IN.json OUT.json SECONDS [plain].
IN: list of texts. OUT: list of [outcome, code]: "ok", "err" or "hang" (no answer within SECONDS).
plain: without packrat parsing, which is how the library runs unless its user asks pyparsing for it."""
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("VF_REPO", "/repo")]
sys.setrecursionlimit(20000)
if "plain" not in sys.argv[4:]:
    from pyparsing import ParserElement
    ParserElement.enablePackrat(None)
import asn1PERser

out = []
for s in json.load(open(sys.argv[1])):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(int(sys.argv[3]))
        os.close(rd)
        try:
            res = ["ok", asn1PERser.parse_asn1_schema(s)]
        except Exception as e:
            res = ["err", type(e).__name__]
        with os.fdopen(wr, "w") as f:
            json.dump(res, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        res = f.read()
    os.waitpid(pid, 0)
    out.append(json.loads(res) if res else ["hang", ""])
json.dump(out, open(sys.argv[2], "w"))
