"""Entry point of every check: run.py <property> (VERIF_TIER, VERIF_SEED)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from kinds import KINDS, META, known_findings


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    n = int(os.environ.get("VF_SHARDS") or "8")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="")
    try:
        mc = META[prop].get("mc")
        procs = []
        if mc:
            procs.append(subprocess.Popen([sys.executable, os.path.join(HERE, "mc.py"), mc, tier, str(seed), work], env=env))
        for s in range(n):
            procs.append(subprocess.Popen([sys.executable, os.path.join(HERE, "shard.py"), prop, str(s), str(n), tier, str(seed), work], env=env))
        for p in procs:
            p.wait()
        results = []
        for s in range(n):
            f = os.path.join(work, "result%d.json" % s)
            r = json.load(open(f)) if os.path.exists(f) else {"ok": False, "error": "shard %d died" % s}
            if not r["ok"]:
                print("INTERNAL ERROR in shard %d:\n%s" % (s, r["error"]))
                return 2
            results.append(r)
        imp = [r["import_error"] for r in results if "import_error" in r]
        details, kinds = [], {}
        if imp:
            details = [{"kind": "import", "events": [], "types": {}, "note": imp[0]}]
            kinds = {"import": 1}
            results = []
        for r in results:
            for k, c in r["kinds"].items():
                kinds[k] = kinds.get(k, 0) + c
            details += r["details"]
        mcres = None
        if mc:
            mcres = json.load(open(os.path.join(work, "mc.json")))
            if not mcres["ok"]:
                print("INTERNAL ERROR: model checking of %s failed:\n%s" % (mc, mcres["text"]))
                return 2
        mine = set(KINDS[prop]) | {"import"}
        kf = [f for f in known_findings()["findings"] if f["property"] == prop]
        hit = {i for r in results for i in r["known"]}
        viol = [d for d in details if d["kind"] in mine]
        for f in kf:
            if f["id"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        samples = [s for r in results for s in r["samples"]][:6]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": META[prop].get("level", "model_checking"),
              "coverage": {
                  "states": sum(r["states"] for r in results) + (mcres["distinct"] if mcres else 0),
                  "transitions": sum(r["generated"] for r in results) + (mcres["generated"] if mcres else 0),
                  "traces_validated_against_impl": sum(r["cases"] for r in results),
                  "calls_judged": sum(r["lines"] - r["ops"].get("reset", 0) for r in results),
                  "distinct_nontrivial": sum(r["distinct"] for r in results),
                  "rule": META[prop]["rule"],
                  "samples": samples or ["none"],
                  "calls_by_kind": sum_ops(results),
                  "spec_model": mcres or {},
                  "other_outcomes_seen": {k: c for k, c in kinds.items() if k not in mine},
                  "info": merge_info(results),
              },
              "assumptions": META[prop].get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if os.environ.get("VF_VERBOSE"):
            print("kinds:", kinds, "lines:", sum(r["lines"] for r in results), "cases:", sum(r["cases"] for r in results),
                  "t_real %.1f t_tlc %.1f" % (max([r["t_real"] for r in results] or [0]), max([r["t_tlc"] for r in results] or [0])), "wall", ev["wall_s"])
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
        if os.path.exists(rp):
            os.unlink(rp)
        if viol:
            rp = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
            json.dump(viol[:40], open(rp, "w"), indent=1)
            d = viol[0]
            print("%d outcome(s) the specification does not admit; first: %s" % (len(viol), json.dumps(d)[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("property %s held: %d cases, %d calls judged by the specification (%.0f s)" % (
            prop, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["calls_judged"], ev["wall_s"]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def sum_ops(results):
    out = {}
    for r in results:
        for k, c in r["ops"].items():
            out[k] = out.get(k, 0) + c
    return out


def merge_info(results):
    out = {}
    for r in results:
        for k, c in r["info"].items():
            if isinstance(c, (int, float)):
                out[k] = out.get(k, 0) + c
            elif isinstance(c, list):
                out[k] = (out.get(k, []) + c)[:20]
    return out


sys.exit(main())
