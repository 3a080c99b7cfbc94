"""Runs scenarios against the library built from /repo and has TLC judge what was recorded."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
VH = os.path.join(HARNESS, "target", "debug", "vh")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def build():
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; cargo build --offline 2>&1"], cwd=HARNESS, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-3000:])


class Run:
    """one run of a check: scratch directory, counters, violations"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(VERIF, "work"))
        self.states = self.transitions = self.traces = self.steps = 0
        self.crashes, self.mism = [], []
        self.samples = []
        self.notes = {}
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%04d.%s" % (self.n, name))

    # -- the real code ----------------------------------------------------------
    def harness(self, scens, mode="run"):
        """returns {id: output line}; a scenario that kills or hangs the process is a crash"""
        shards = [scens[i::CORES] for i in range(CORES)]
        out = {}

        def one(shard):
            res, crashes = {}, []
            left = shard
            while left:
                data = "\n".join(json.dumps(x, separators=(",", ":")) for x in left) + "\n"
                p = subprocess.run([VH, mode], input=data.encode(), capture_output=True)
                lines = p.stdout.split(b"\n")
                lines = [x.decode() for x in lines[:-1]]
                for s, l in zip(left, lines):
                    res[s["id"]] = l
                if p.returncode == 0:
                    if len(lines) != len(left):
                        raise ToolError("harness ended early: " + p.stderr.decode()[-300:])
                    break
                if len(lines) >= len(left):
                    break
                bad = left[len(lines)]
                crashes.append({"id": bad["id"], "what": "the call did not return" if p.returncode == 77 else "the process died (exit %d) %s" % (p.returncode, p.stderr.decode(errors="replace")[-200:])})
                if p.returncode == 101:
                    raise ToolError("harness failed: " + p.stderr.decode()[-500:])
                left = left[len(lines) + 1:]
                if len(crashes) >= 3:
                    break
            return res, crashes
        with cf.ThreadPoolExecutor(CORES) as ex:
            for res, crashes in ex.map(one, [s for s in shards if s]):
                out.update(res)
                self.crashes += crashes
        return out

    # -- TLC ----------------------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, workers=2, heap="3g", args=()):
        md = self.path("md")
        p = subprocess.run(["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
                            "-workers", str(workers), "-metadir", md, "-config", cfg or module + ".cfg", *args, module + ".tla"],
                           cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True)
        shutil.rmtree(md, ignore_errors=True)
        o = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "").replace("  ", " ")) or re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", o)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return {"rc": p.returncode, "out": o, "gen": gen, "distinct": dist}

    def judge(self, module, lines, proj=("*",), weight=None, batch=25000, jvms=4):
        """lines: JSON lines; weight: steps per line.  Collects mismatches."""
        weight = weight or [1] * len(lines)
        pj = self.path("proj.json")
        with open(pj, "w") as f:
            json.dump(list(proj), f)
        total = sum(weight)
        size = max(500, min(batch, total // jvms + 1))
        files, cur, w = [], [], 0
        for l, x in zip(lines, weight):
            cur.append(l)
            w += x
            if w >= size:
                files.append(cur)
                cur, w = [], 0
        if cur:
            files.append(cur)

        def one(ls):
            f = self.path("nd")
            with open(f, "w") as h:
                h.write("\n".join(ls) + "\n")
            r = self.tlc(module, {"TRACES": f, "PROJ": pj})
            os.unlink(f)
            mm = []
            for l in r["out"].splitlines():
                if l.startswith('"MISMATCH '):
                    mm.append(json.loads(json.loads(l)[9:]))
            if r["rc"] != 0 or "Model checking completed. No error" not in r["out"]:
                i = r["out"].find("Error")
                raise ToolError("TLC failed on %s (rc %d): %s" % (module, r["rc"], r["out"][i:i + 3000]))
            return r, mm
        with cf.ThreadPoolExecutor(jvms) as ex:
            for r, mm in ex.map(one, files):
                self.states += r["distinct"]
                self.transitions += max(0, r["gen"])
                self.mism += mm
        self.traces += len(lines)


def scalar(l):
    """no limit is null for the library and -1 in the specification"""
    return l.replace('"layer_limit":null', '"layer_limit":-1').replace('"lzma_layers":null', '"lzma_layers":-1')
