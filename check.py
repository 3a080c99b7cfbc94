#!/usr/bin/env python3
"""check.py <property> | check.py --replay <file>

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line
otherwise.  Exit 2: the check itself failed."""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import mc  # noqa: E402
import near  # noqa: E402
import props  # noqa: E402
import run  # noqa: E402
from fam import Fam  # noqa: E402
from mutate import mutate  # noqa: E402
from run import Run, ToolError, scalar  # noqa: E402


def readable(s):
    st = []
    for x in s.get("steps", []):
        st.append([x["op"], bytes(x["d"]).decode("latin1")[:300] if x.get("d") is not None else x.get("n")])
    if "pieces" in s:
        st = [bytes(x).decode("latin1") for x in s["pieces"]]
    if s.get("fn") in ("bstr", "table", "cnull"):
        return s
    return {"id": s["id"], "cfg": s["cfg"], "verdicts": s.get("verdicts", []), "calls": st[:40]}


def generate(pid, pr, seed, budget):
    """scenarios worth about `budget` calls, with ids"""
    out = []
    rnd = random.Random("%s/%d" % (pid, seed))

    def add(s, name):
        s = dict(s)
        s["id"] = "%s-%d" % (name, len(out))
        out.append(s)
    if pr.get("systematic"):
        f = Fam(rnd.random())
        for s in props.systematic(f, pr["systematic"]):
            add(s, pr["systematic"])
    few = budget == pr["quick"]
    for s in near.near(rnd, pid, pr.get("near", 5000) if few else 10 ** 9 if seed % 1000 == 0 else 30000):
        add(s, "near")
    for s in near.actions(rnd, pid, pr.get("actions", 2500) if few else 10 ** 9 if seed % 1000 == 0 else 10000):
        add(props.capi(Fam(rnd.random()), s) if pr.get("mode") == "capi" else s, "act")
    tot = sum(w for w, _ in pr["fams"])
    for w, fam in pr["fams"]:
        f = Fam("%s/%s/%d" % (pid, fam, seed))
        f.fine = pid in ("C03", "C22")
        n = 0
        while n < budget * w / tot:
            s = props.scenario(f, fam)
            if f.r.random() < pr.get("mutated", 0.25):
                s = mutate(f.r, s)
            n += len(s["steps"])
            add(s, fam)
    return out


def report(r, scens, kind="run"):
    """violations of this run, with replay files"""
    by = {s["id"]: s for s in scens}
    out = []
    for m in r.mism:
        if "k" in m:
            by[m["id"]]["mass"]["only"] = m["k"]
        out.append((m["id"], m["diff"]["f"], "call %s: %s: specified %s, observed %s" % (m["step"], m["diff"]["f"], json.dumps(m["diff"]["want"])[:600], json.dumps(m["diff"]["got"])[:600]), m))
    for c in r.crashes:
        out.append((c["id"], "crash", c["what"], c))
    r.mism, r.crashes = [], []
    vs = []
    d = os.path.join(run.VERIF, "replays")
    seen = {}
    for sid, f, what, raw in out:
        seen[f] = seen.get(f, 0) + 1
        if seen[f] > 2 or len(vs) >= 10:
            continue
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (r.prop, sid.replace("/", "_")))
        with open(p, "w") as h:
            json.dump({"property": r.prop, "kind": kind, "what": what, "mismatch": raw, "scenario": by.get(sid)}, h)
        vs.append((p, what))
    return vs, len(out)


def check_traces(r, pr, scens, proj=None):
    lines = r.harness(scens, pr.get("mode", "run"))
    ok = [s for s in scens if s["id"] in lines]
    r.steps += sum(len(s["steps"]) for s in ok)
    r.judge("Trace", [scalar(lines[s["id"]]) for s in ok], proj or pr["proj"], [len(s["steps"]) for s in ok])


def check_groups(r, scens):
    """groups of executions of the same bytes (C03)"""
    lines = r.harness(scens)
    groups = {}
    for s in scens:
        groups.setdefault(s["meta"]["group"], []).append(s)
    ls, ws = [], []
    for g, ss in groups.items():
        if any(s["id"] not in lines for s in ss):
            continue
        ls.append('{"id":"%s","runs":[%s]}' % (g, ",".join(lines[s["id"]] for s in ss)))
        ws.append(sum(len(s["steps"]) for s in ss))
        r.steps += ws[-1]
    r.judge("Group", ls, ["*"], ws, batch=60000)
    r.traces += len(scens) - len(ls)


def check_mass(r, pid, scens):
    """very many variants of the scenarios, judged by what holds in every history"""
    lines = r.harness(scens, "mass")
    ok = [s for s in scens if s["id"] in lines]
    n0 = r.traces
    r.judge("Safe", [lines[s["id"]] for s in ok], [pid], [s["mass"]["n"] * len(s["steps"]) for s in ok], batch=60000)
    r.traces = n0
    r.notes["variants"] = r.notes.get("variants", 0) + sum(s["mass"]["n"] for s in ok)


def mass(pid, seed, n, per):
    """n scenarios of all kinds, to be varied"""
    f = Fam("%s/mass/%d" % (pid, seed))
    out = []
    for i in range(n):
        s = props.scenario(f, f.r.choice(props.MASS))
        s = dict(s, id="mass-%d" % i, mass={"seed": f.r.randrange(2 ** 52), "n": per})
        s.pop("meta", None)
        out.append(s)
    return out


def check_fns(r, scens):
    lines = r.harness(scens, "fn")
    r.judge("Fns", [scalar(lines[s["id"]]) for s in scens if s["id"] in lines], ["*"], [1] * len(scens), batch=20000)


def check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pr = props.P[pid]
    run.build()
    r = Run(pid, tier, seed)
    viol, count = [], 0

    def take(scens, kind):
        nonlocal viol, count
        v, n = report(r, scens, kind)
        viol += v
        count += n
    try:
        budget = pr[tier]
        part = pr.get("part") or (budget if tier == "quick" else 150000)
        rounds = max(1, budget // part)
        for i in range(rounds):
            s = seed * 1000 + i
            scens = generate(pid, pr, s, part) if pr["fams"] else []
            if i == 0:
                r.samples = [readable(x) for x in scens[:: max(1, len(scens) // 3)][:3]]
            if scens:
                check_traces(r, pr, scens)
                take(scens, "run")
            if i == 0:
                r.error = ToolError
                bs = mc.behaviours(r, pid, pr.get("replay", 6000) if tier == "quick" else 300000, seed, tier != "quick")
                if bs:
                    check_traces(r, pr, bs)
                    r.samples.append(readable(bs[len(bs) // 2]))
                    take(bs, "run")
            if pr.get("groups"):
                f = Fam("%s/groups/%d" % (pid, s))
                gs = []
                for g in range(60 if tier == "quick" else 200):
                    for x in f.cut_group("g%d" % g, 25 if tier == "quick" else 120):
                        gs.append(dict(x, id="cut-%d-%d" % (g, len(gs))))
                check_groups(r, gs)
                r.samples.append(readable(gs[3]))
                take(gs, "group")
            if pr.get("mass"):
                ms = mass(pid, s, pr["mass"] if tier == "quick" else 4 * pr["mass"], 40)
                check_mass(r, pid, ms)
                take(ms, "mass")
            if pr.get("cnull") and i == 0:
                cs = [{"id": "null-" + n, "fn": "cnull", "name": n, "cfg": {}} for n in props.CFUNCTIONS]
                check_fns(r, cs)
                take(cs, "fn")
            if pr.get("strings"):
                ss = list(props.strings(Fam("%s/strings/%d" % (pid, s)), pr["strings"] if tier == "quick" else 150000, i == 0))
                ss = [dict(x, id="%s-%d" % (x["fn"], n), cfg={}) for n, x in enumerate(ss)]
                check_fns(r, ss)
                r.samples += [ss[7], ss[-7]]
                take(ss, "fn")
            if pr.get("url"):
                f = Fam("%s/url/%d" % (pid, s))
                us = [dict(f.urlenc_fn(), id="url-%d" % x, **({"exp": True} if pr.get("urlexp") else {})) for x in range(12000 if tier == "quick" else 60000)]
                check_fns(r, us)
                r.samples.append(readable(us[5]))
                take(us, "fn")
            if viol:
                break
        wall = time.time() - r.t0
        evd = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 1), "violations": count,
               "coverage": {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces, "calls_compared": r.steps,
                            "projection": pr["proj"], "samples": r.samples, **r.notes},
               "assumptions": ["The specification (spec/*.tla) is the oracle; observations are those the harness records through the public API.",
                               "Scenarios are generated from the grammar in lib/ with the given seed; inputs outside it are not covered by this run."]}
        os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(run.VERIF, "evidence", pid + ".json"), "w") as h:
            json.dump(evd, h, indent=1)
        print("%s %s: %d executions, %d calls, %d states, %.1f s" % (pid, tier, r.traces, r.steps, r.states, wall))
    finally:
        r.close()
    for p, what in viol:
        print("  " + what)
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    run.build()
    r = Run(d["property"], "quick", 0)
    try:
        s = d["scenario"]
        print(json.dumps(readable(s), indent=1))
        if d["kind"] == "fn":
            check_fns(r, [s])
        elif d["kind"] == "mass":
            check_mass(r, d["property"], [s])
            print(json.dumps(r.harness([s], "mass"))[:6000])
        elif d["kind"] == "group":
            whole = dict(s, id="whole", steps=merge(s["steps"]))
            check_groups(r, [whole, s])
        else:
            check_traces(r, props.P[d["property"]], [s])
        for m in r.mism + r.crashes:
            print(json.dumps(m, indent=1)[:4000])
        print("VIOLATION property=%s replay=%s" % (d["property"], path) if r.mism or r.crashes else "the property holds here now")
        return 1 if r.mism or r.crashes else 0
    finally:
        r.close()


def merge(steps):
    """adjacent pieces of the same direction put together (a message, or several, in one piece)"""
    out = []
    for x in steps:
        if out and x["op"] in ("c", "s") and out[-1]["op"] == x["op"]:
            out[-1] = dict(out[-1], d=out[-1]["d"] + x["d"])
        else:
            out.append(x)
    return out


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except ToolError as e:
        print("ERROR", e)
        sys.exit(2)
