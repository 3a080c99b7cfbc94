#!/usr/bin/env python3
"""soak.py SEED CALLS MUT [families]: every observation compared, on all families, a share MUT of the scenarios mutated"""
import os, sys, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import props, run
from fam import Fam
from mutate import mutate
from run import Run, scalar
seed, calls, mut = int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3])
fams = sys.argv[4:] or sorted({f for p in props.P.values() for _, f in p["fams"]})
run.build()
r = Run("soak", "quick", seed)
try:
    for fam in fams:
        f = Fam("soak/%s/%d" % (fam, seed))
        out, n = [], 0
        while n < calls:
            s = props.scenario(f, fam)
            if f.r.random() < mut:
                s = mutate(f.r, s)
            s = dict(s, id="%s-%d" % (fam, len(out)), cfg=dict(s["cfg"], snap=3))
            n += len(s["steps"])
            out.append(s)
        lines = r.harness(out)
        ok = [s for s in out if s["id"] in lines]
        r.judge("Trace", [scalar(lines[s["id"]]) for s in ok], ["*"], [len(s["steps"]) for s in ok])
        by = {s["id"]: s for s in out}
        print(fam, len(out), "mismatches", len(r.mism), "crashes", len(r.crashes), flush=True)
        kinds = {}
        for m in r.mism:
            kinds.setdefault(m["diff"]["f"], []).append(m)
        for k, ms in kinds.items():
            ms.sort(key=lambda m: len(json.dumps(by[m["id"]]["steps"])))
            m = ms[0]
            s = by[m["id"]]
            print("  ", len(ms), k, json.dumps(m["diff"])[:700])
            print("     ", json.dumps(s["cfg"]), json.dumps(s["verdicts"]), "at", m["step"])
            for x in s["steps"][:30]:
                print("        ", x["op"], bytes(x["d"]) if "d" in x else x.get("n"))
        for c in r.crashes:
            print("  CRASH", c, [(x["op"], bytes(x["d"]) if "d" in x else x.get("n")) for x in by[c["id"]]["steps"]])
        r.mism, r.crashes = [], []
finally:
    r.close()
