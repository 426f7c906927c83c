"""One shard: exercise the real code for one property, record the trace, have TLC judge it."""
import json
import os
import random
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("VF_REPO", "/repo")]
sys.setrecursionlimit(20000)
try:
    sys.set_int_max_str_digits(0)
except AttributeError:
    pass


def main():
    prop, shard, nshards, tier, seed, work = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), sys.argv[6]
    out = {"ok": False}
    try:
        try:
            from pyparsing import ParserElement
            ParserElement.enablePackrat(None)
            import asn1PERser
            from asn1PERser.classes.data import builtin
            import asn
        except Exception as e:
            out = {"ok": True, "import_error": "%s: %s" % (type(e).__name__, e)}
            return
        import scen
        import scen_session
        import scen_schema
        import tlc
        from kinds import KINDS, known_findings, matches
        from rec import Rec
        rec = Rec()
        ctx = scen.Ctx(rec, random.Random("%s/%d/%d" % (prop, seed, shard)), shard, nshards, tier, work)
        t0 = time.time()
        scen.SCENARIOS[prop](ctx)
        t1 = time.time()
        bad, states, gen = [], 0, 0
        tp = os.path.join(work, "types%d.json" % shard)
        json.dump(rec.types, open(tp, "w"))
        module = scen.MODULE.get(prop, "SessionTrace")
        for ci, idx in enumerate(rec.chunks()):
            trp, op = os.path.join(work, "trace%d_%d.ndjson" % (shard, ci)), os.path.join(work, "out%d_%d.json" % (shard, ci))
            with open(trp, "w") as f:
                for i in idx:
                    f.write(json.dumps({k: v for k, v in rec.events[i].items() if k not in ("note", "what")}) + "\n")
            rc, text = tlc.run(module, {"TYPES": tp, "TRACE": trp, "OUT": op})
            if not os.path.exists(op):
                m = re.search(r"(\d+) states generated", text)
                n = int(m.group(1)) if m else 0
                raise RuntimeError("TLC did not finish the trace (line %d: %s)\n%s" % (
                    n, json.dumps(rec.events[idx[min(max(n - 1, 0), len(idx) - 1)]])[:1500], text[-3000:]))
            res = json.load(open(op))
            m = re.search(r"(\d+) states generated, (\d+) distinct", text)
            gen += int(m.group(1))
            states += int(m.group(2))
            for c, k in (res.get("tally") or {}).items():
                rec.info["texts of class " + c] = rec.info.get("texts of class " + c, 0) + k
            for b in res["bad"]:
                bad.append((idx[b["line"] - 1], b["kind"]))
            if not os.environ.get("VF_KEEP"):
                os.unlink(trp)
        viol = []
        for i, kind in bad:
            case = rec.case_of[i]
            viol.append({"kind": kind, "i": i, "case": case})
        details, known = [], {}
        seen = {}
        mine = set(KINDS[prop])
        kf = [f for f in known_findings()["findings"] if f["property"] == prop]
        by_case = {}
        for j, c in enumerate(rec.case_of):
            by_case.setdefault(c, []).append(j)
        for b in viol:
            if b["kind"] not in mine or not kf and (seen.get(b["kind"], 0) >= 5 or len(details) >= 40):
                continue
            evs = [rec.events[j] for j in by_case[b["case"]] if b["i"] - 400 <= j <= b["i"]]
            ts = {e[k] for e in evs for k in ("t",) if k in e}
            d = {"kind": b["kind"], "events": evs, "types": {str(t): rec.types[t - 1] for t in ts}}
            fs = [f for f in kf if matches(f, d)]
            if fs:
                known[fs[0]["id"]] = known.get(fs[0]["id"], 0) + 1
                continue
            if seen.get(b["kind"], 0) >= 5 or len(details) >= 40:
                continue
            seen[b["kind"]] = seen.get(b["kind"], 0) + 1
            details.append(d)
        sam = []
        for c in sorted(random.Random(seed).sample(range(1, rec.cases + 1), min(3, rec.cases))):
            es = [rec.events[j] for j in range(len(rec.events)) if rec.case_of[j] == c][1:6]
            sam.append(json.dumps(es)[:900])
        kinds = {}
        for b in viol:
            kinds[b["kind"]] = kinds.get(b["kind"], 0) + 1
        ops = {}
        for e in rec.events:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
        out = {"ok": True, "lines": len(rec.events), "cases": rec.cases, "distinct": len(rec.distinct), "states": states, "generated": gen,
               "kinds": kinds, "details": details, "known": known, "samples": sam, "ops": ops, "info": rec.info, "t_real": t1 - t0, "t_tlc": time.time() - t1}
    except BaseException as e:
        import traceback
        out = {"ok": False, "error": traceback.format_exc()}
    finally:
        json.dump(out, open(os.path.join(work, "result%d.json" % shard), "w"))


main()
