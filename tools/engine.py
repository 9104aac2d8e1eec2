"""Runs TLC on the models, the harness on the cases, and TLC again on the recorded traces."""

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

import zones

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


# -- TLC -------------------------------------------------------------------

STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", re.M)


def tlc(module, cfg, work, env=None, heap="1500m", workers=1, timeout=800):
    """Runs TLC on a module of the specification: (output, ok, generated, distinct)."""
    os.makedirs(work, exist_ok=True)
    # TLC reads its modules where it runs: each run has its own link to them.
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"), "-config", cfg, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on %s (%s)" % (module, cfg)) from x
    out = p.stdout.decode("utf8", "replace")
    m = STATES.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = p.returncode == 0 and "No error has been found" in out
    shutil.rmtree(os.path.join(work, "meta"), ignore_errors=True)
    return out, ok, gen, dist


def printed(out):
    """The JSON values printed by the specification."""
    for line in out.splitlines():
        if line.startswith('"@@'):
            yield json.loads(json.loads(line)[2:])


# -- models ------------------------------------------------------------------


class Model:
    """An exhaustive configuration: its constants, its invariants and the cases it yields."""

    def __init__(self, module, consts=None, quick=None, thorough=None, invariants=("Safe",), init="Init", nxt="Next", props=(), zones=None):
        self.module = module
        self.consts = dict(consts or {})
        self.quick = quick or {}
        self.thorough = thorough or {}
        self.invariants = invariants
        self.props = props
        self.init, self.next = init, nxt
        # How many changes of each time zone it's given.
        self.zones = zones

    def run(self, tier, work, tag):
        consts = dict(self.consts)
        consts.update(self.thorough if tier == "thorough" else self.quick)
        os.makedirs(work, exist_ok=True)
        cfg = os.path.join(work, tag + ".cfg")
        with open(cfg, "w") as f:
            f.write("INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (self.init, self.next))
            for i in self.invariants:
                f.write("INVARIANT %s\n" % i)
            for i in self.props:
                f.write("PROPERTY %s\n" % i)
            if consts:
                f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write("  %s = %s\n" % (k, v))
        env = {}
        if self.zones:
            env["ZONES"] = zones.tables(os.path.join(work, tag + ".zones"), self.zones[tier == "thorough"])
        out, ok, gen, dist = tlc(self.module, cfg, os.path.join(work, tag), env=env, workers=2, heap="2500m")
        if not ok:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-3000:]
            raise ToolError("the model %s fails:\n%s" % (self.module, tail))
        return list(printed(out)), gen, dist


# -- harness -----------------------------------------------------------------


def build_crate(name, cwd):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode("utf8", "replace")


def build_harness():
    ok, out = build_crate("harness", os.path.join(ROOT, "harness"))
    if not ok:
        raise ToolError("the harness doesn't build:\n" + out[-4000:])
    return os.path.join(BUILD, "target", "debug", "harness")


class Uncompilable(Exception):
    pass


def run_macros(cases, work):
    """Traces of the uses of the macros."""
    ok, out = build_crate("macros", os.path.join(ROOT, "macros"))
    if not ok:
        raise Uncompilable("the uses of the macros don't compile:\n" + out[-4000:])
    src, dst = os.path.join(work, "macros.cases"), os.path.join(work, "macros.traces")
    with open(src, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    env = dict(os.environ, TZ="UTC")
    env.pop("RUST_BACKTRACE", None)
    p = subprocess.run([os.path.join(BUILD, "target", "debug", "macros"), src, dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ToolError("the macros failed: " + p.stderr.decode("utf8", "replace")[-2000:])
    return [json.loads(l) for l in open(dst)]


def run_chunk(binary, cases, work, tag, env):
    """Traces of the cases; a case which hangs or aborts has a trace saying so."""
    src = os.path.join(work, tag + ".cases")
    dst = os.path.join(work, tag + ".traces")
    traces = []
    rest = list(cases)
    stuck = 0
    while rest:
        with open(src, "w") as f:
            for c in rest:
                f.write(json.dumps(c) + "\n")
        if os.path.exists(dst):
            os.unlink(dst)
        p = subprocess.run([binary, src, dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        got = []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
        traces += got
        if p.returncode == 0:
            if len(got) != len(rest):
                raise ToolError("the harness lost cases")
            break
        if p.returncode == 4:
            raise ToolError("the harness failed: " + p.stderr.decode("utf8", "replace")[-2000:])
        if p.returncode == 3:
            rest = rest[len(got):]
        else:
            # Killed: by the case after the last one recorded.
            if len(got) >= len(rest):
                raise ToolError("the harness died: %s" % p.returncode)
            c = rest[len(got)]
            op = dict(c["ops"][0])
            op["e"] = op.pop("op")
            op["out"] = {"st": "hang"}
            traces.append({"id": c["id"], "fam": c["fam"], "ev": [op]})
            rest = rest[len(got) + 1:]
        stuck += 1
        # Enough is known: each one costs the time of the watchdog.
        if stuck >= 2:
            break
    return traces


def run_cases(binary, cases, work, env):
    os.makedirs(work, exist_ok=True)
    n = max(1, min(JOBS, (len(cases) + 19) // 20))
    chunks = [cases[k::n] for k in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: run_chunk(binary, chunks[k], work, "h%d" % k, env), range(n)))
    return [t for r in res for t in r]


# -- validation of traces ---------------------------------------------------------


def validate_chunk(traces, work, tag, known):
    """Reports of the specification on these traces."""
    src = os.path.join(work, tag + ".ndjson")
    kn = os.path.join(work, tag + ".known")
    with open(kn, "w") as f:
        for k in known:
            f.write(json.dumps(k) + "\n")
    reports, gen, dist, done = [], 0, 0, 0
    rest = list(traces)
    tries = 0
    while rest:
        with open(src, "w") as f:
            for t in rest:
                f.write(json.dumps(t) + "\n")
        out, ok, g, d = tlc("Trace", os.path.join(SPEC, "Trace.cfg"), os.path.join(work, tag), env={"TRACES": src, "KNOWN": kn})
        got = list(printed(out))
        gen, dist = gen + g, dist + d
        if ok:
            reports += [r for r in got if r["r"] != "done"]
            fin = [r["n"] for r in got if r["r"] == "done"]
            done += fin[0]
            bad = len([r for r in got if r["r"] == "bad"])
            if fin[0] + bad != len(rest):
                raise ToolError("traces lost: %d of %d" % (fin[0] + bad, len(rest)))
            break
        # The specification has no meaning for an event: it isn't allowed.
        m = re.findall(r"^(?:/\\ )?trNo = (\d+)", out, re.M)
        tries += 1
        if not m or tries > 4:
            raise ToolError("TLC failed on traces:\n" + "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-3000:])
        k = int(m[-1]) - 1
        i = re.findall(r"^/\\ evNo = (\d+)", out, re.M)
        ev = int(i[-1]) if i else 0
        reports.append({"r": "bad", "t": rest[k]["id"], "fam": rest[k]["fam"], "ev": ev + 1,
                        "op": rest[k]["ev"][ev]["e"] if ev < len(rest[k]["ev"]) else "?", "what": "meaningless", "keys": [],
                        "error": "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-1500:]})
        del rest[k]
    return reports, gen, dist, done


def cost(t):
    return sum(40 + len(e.get("text") or []) + (600 if e["e"] in ("write", "reread") else 0) for e in t["ev"])


def validate(traces, work, known):
    os.makedirs(work, exist_ok=True)
    n = max(1, min(JOBS, (len(traces) + 39) // 40))
    chunks = [[] for _ in range(n)]
    loads = [0] * n
    for t in sorted(traces, key=cost, reverse=True):
        k = loads.index(min(loads))
        chunks[k].append(t)
        loads[k] += cost(t)
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: validate_chunk(chunks[k], work, "v%d" % k, known), range(n)))
    reports = [r for x in res for r in x[0]]
    return reports, sum(x[1] for x in res), sum(x[2] for x in res), sum(x[3] for x in res)
