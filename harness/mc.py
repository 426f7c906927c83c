"""Model checking of the specification itself: mc.py NAME TIER SEED WORK -> WORK/mc.json."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc

# (module, configuration, holds): configurations with holds = False describe a wrong design and must be refuted
RUNS = {
    "wire": {"quick": [("Wire", "Wire1", True)], "thorough": [("Wire", "Wire1", True), ("Wire", "Wire2", True), ("Wire", "Wire3", True)]},
    "garble": {"quick": [("Garble", "Garble1", True), ("Garble", "Garble2", True)],
               "thorough": [("Garble", "Garble1", True), ("Garble", "Garble2", True), ("Garble", "Garble3", True), ("Garble", "Garble4", True), ("Garble", "Garble5", True)]},
    "threads": {"quick": [("Threads", "Threads", True), ("Threads", "ThreadsShared", False)]},
    "process": {"quick": [("Process", "Process", True), ("Process", "ProcessKeep", False)],
                "thorough": [("Process", "Process", True), ("Process", "ProcessKeep", False), ("Process", "Process4", True)]},
    "store": {"quick": [("Store", "Store", True), ("Store", "StoreAlias", False)],
              "thorough": [("Store", "StoreAll", True), ("Store", "StoreBig", True), ("Store", "StoreAlias", False)]},
}


def main():
    name, tier, seed, work = sys.argv[1:5]
    out = {"ok": True, "distinct": 0, "generated": 0, "runs": [], "text": ""}
    for module, cfg, holds in RUNS[name].get(tier) or RUNS[name]["quick"]:
        t0 = time.time()
        rc, text = tlc.run(module, {}, cfg=cfg + ".cfg", workers="4", stack="100m", timeout=850)
        m = re.search(r"(\d+) states generated, (\d+) distinct", text)
        ok = m and (("No error has been found" in text) if holds else "is violated" in text)
        if not ok:
            out["ok"] = False
            out["text"] += "%s: %s\n" % (cfg, text[-2500:])
            continue
        if holds:
            out["generated"] += int(m.group(1))
            out["distinct"] += int(m.group(2))
        out["runs"].append({"model": module, "config": cfg, "outcome": "holds" if holds else "refuted, as it must be", "distinct": int(m.group(2)), "seconds": round(time.time() - t0, 1)})
    json.dump(out, open(os.path.join(work, "mc.json"), "w"))


main()
