"""Runs the tools: TLC on the specifications, and the harnesses on the real code."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/"
CORES = 8


class Broken(Exception):
    """The machinery failed (not the code under test)."""


class Engine:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-check-")
        self.n = 0
        self.classes = os.path.join(self.dir, "classes")
        r = subprocess.run(["javac", "-cp", TLA + "tla2tools.jar", "-d", self.classes, os.path.join(HERE, "java/vp/Overrides.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr[-2000:])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tools(self):
        rc, out = self.tlc("Prim.tla", "", ["-help"])
        if "TLC" not in out:
            raise Broken(out[-2000:])
        return out.split("\n")[0][:60]

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%04d-%s" % (self.n, name))

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ---- TLC --------------------------------------------------------------------------------------
    def tlc(self, spec, cfg, args=(), env=None, timeout=800, heap="3g", parallel_gc=False):
        """Runs TLC; returns (exit code, output)."""
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseParallelGC" if parallel_gc else "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + heap,
               "-Dtlc2.overrides.TLCOverrides=vp.Overrides:tlc2.overrides.TLCOverrides", "-DTLA-Library=" + os.path.join(HERE, "spec"),
               "-cp", ":".join([self.classes, TLA + "tla2tools.jar", TLA + "CommunityModules-deps.jar"]), "tlc2.TLC", "-deadlock",
               "-noGenerateSpecTE", "-metadir", meta, *args, "-config", self.write("x.cfg", cfg), os.path.join(HERE, "spec", spec)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=self.dir, env=dict(os.environ, VP_CORPUS=os.path.join(HERE, "corpus"), **(env or {})))
        except subprocess.TimeoutExpired:
            raise Broken("TLC took too long on " + spec)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, name, spec, cfg, workers=CORES, timeout=800, heap="6g"):
        """An exhaustive run; all properties must hold. Returns the counts."""
        t = time.time()
        rc, out = self.tlc(spec, cfg, ["-workers", str(workers)], timeout=timeout, heap=heap, parallel_gc=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc or not m or "No error has been found" not in out:
            raise Broken("the specification itself fails (%s):\n%s" % (name, out[-3000:]))
        return {"model": name, "states": int(m.group(2)), "transitions": int(m.group(1)), "wall_s": round(time.time() - t, 1)}

    def printed(self, out, tag):
        """The JSON records that a specification printed with a tag in front."""
        res = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def generate(self, spec, cfg, num, depth, seed):
        """Random behaviours, printed as programs."""
        rc, out = self.tlc(spec, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1"])
        ps = self.printed(out, "PROGRAM")
        if not ps or "Error:" in out:
            raise Broken("no programs from %s:\n%s" % (spec, out[-3000:]))
        return ps

    def judge(self, spec, cfg, traces, workers=CORES, var="VP_TRACES", tag="TRACE", heap="6g"):
        """Replays recorded traces through a specification; one verdict per trace.
        A trace that the specification cannot even evaluate is a violation as well."""
        verdicts, outputs = {}, []

        def run(ts, w):
            p = self.write("traces.json", json.dumps(ts))
            rc, out = self.tlc(spec, cfg, ["-workers", str(w)], env={var: p}, heap=heap, parallel_gc=True)
            os.unlink(p)
            if "Parsing or semantic analysis failed" in out or "ConfigFileException" in out:
                raise Broken(out[-3000:])
            for v in self.printed(out, tag):
                verdicts[v["id"]] = v
            return out
        left, blamed = list(traces), 0
        while left:
            if blamed >= 4:          # enough of those that cannot be evaluated: what is left is not judged
                for t in left:
                    verdicts[t["id"]] = {"id": t["id"], "n": 0, "bad": [], "hit": []}
                break
            out = run(left, workers)
            at = re.findall(r"^/\\ t = (\d+)$", out, re.M)
            first = left[int(at[-1]) - 1] if at and "Error:" in out and int(at[-1]) <= len(left) else None
            left = [t for t in left if t["id"] not in verdicts]
            if not left:
                break
            # individually, to find those that cannot be evaluated
            alone = ([first] if first in left else []) + [t for t in left if t is not first][:16 if first in left else 64]
            with ThreadPoolExecutor(CORES) as ex:
                outs = list(ex.map(lambda t: run([t], 1), alone))
            for t, o in zip(alone, outs):
                if t["id"] not in verdicts:
                    if "Error:" not in o:
                        raise Broken("TLC gave no verdict:\n" + o[-2000:])
                    verdicts[t["id"]] = {"id": t["id"], "n": 0, "bad": [[0, "*", "the specification has no such behaviour"]], "hit": [], "why": o[-3000:]}
                    blamed += 1
            left = [t for t in left if t["id"] not in verdicts]
        return verdicts

    # ---- the real code --------------------------------------------------------------------------------
    def harness(self, script, programs, timeout=600, chunks=CORES):
        """Runs programs against the code in REPO, in parallel processes; returns the traces."""
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")
        parts = [programs[i::chunks] for i in range(chunks)]

        def run(part):
            if not part:
                return []
            src, dst = self.write("programs.json", json.dumps(part)), self.path("out.json")
            try:
                r = subprocess.run([PYTHON, os.path.join(HERE, "harness", script), src, dst], capture_output=True, text=True, timeout=timeout, env=env, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise Broken("the harness took too long")
            if r.returncode:
                raise Broken("harness %s: %s" % (script, (r.stdout + r.stderr)[-3000:]))
            with open(dst) as f:
                res = json.load(f)
            os.unlink(src), os.unlink(dst)
            return res
        with ThreadPoolExecutor(chunks) as ex:
            traces = [t for ts in ex.map(run, parts) for t in ts]
        order = {p["id"]: i for i, p in enumerate(programs)}
        return sorted(traces, key=lambda t: order[t["id"]])
