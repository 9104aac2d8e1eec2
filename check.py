#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides a property: exit 0 if it held on everything explored, 1 with a VIOLATION line otherwise,
2 if the check itself couldn't work. VERIF_SEED and VERIF_TIER are the seed and the tier."""

import collections
import concurrent.futures as cf
import json
import os
import shutil
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))

import engine  # noqa: E402
import families  # noqa: E402
from engine import ToolError, log  # noqa: E402


def known_findings(prop):
    """The deviations which are tolerated for this property: key -> what fails."""
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path):
        if line.startswith("known: property=%s " % prop):
            key, what = line.split(" key=", 1)[1].strip().split(" ", 1)
            out[key] = what
    return out


def text_of(cps):
    return "".join(chr(c) for c in cps)


def pretty(x):
    """Texts as strings, for the reader of a replay file."""
    if isinstance(x, dict):
        return {k: pretty(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 3 and all(isinstance(c, int) and 0 <= c < 0x110000 for c in x) and not all(c < 10 for c in x):
            try:
                s = text_of(x)
                if sum(32 <= ord(c) < 127 or c in "\r\n" for c in s) * 2 > len(s):
                    return s
            except ValueError:
                pass
        return [pretty(v) for v in x]
    return x


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    work = os.path.join(engine.BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    replay_dir = os.path.join(ROOT, "gen", prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    family = families.FAMILIES[prop]
    family.tier, family.seed = tier, seed
    known = known_findings(prop)

    violations = []
    batches = collections.defaultdict(list)  # environment -> cases
    gen = dist = 0
    model_cases = 0

    with cf.ThreadPoolExecutor(4) as ex:
        building = ex.submit(engine.build_harness)
        replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
        if replay:
            rec = json.load(open(replay))
            batches[rec["tz"]].append(rec["case"])
        else:
            models = [(m, ex.submit(m.run, tier, os.path.join(work, "models"), "m%d" % k)) for k, m in enumerate(family.models)]
            for tz, cases in family.generate(seed, tier):
                batches[tz] += cases
            for k, (m, fut) in enumerate(models):
                out, g, d = fut.result()
                gen, dist = gen + g, dist + d
                cases = list(family.from_model(m, out))
                log("model %s: %d states, %d cases" % (m.module, d, len(cases)))
                model_cases += len(cases)
                for c in cases:
                    batches[c.pop("tz", "UTC")].append(c)
            families.wholes([c for cases in batches.values() for c in cases], seed)
        binary = building.result()

    extra, extra_cases = [], []
    if replay and rec["case"]["ops"][0]["op"] == "macro":
        extra_cases = batches.pop(rec["tz"])
        extra = engine.run_macros(extra_cases, work)
    elif not replay:
        try:
            extra, extra_cases = family.extra(work, tier, seed)
        except engine.Uncompilable as x:
            # What could be written before can't any more, the library itself being fine.
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, "compiler.txt")
            with open(path, "w") as f:
                f.write(str(x))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            sys.exit(1)
    reports, total, done, traces_all, events = [], 0, 0, [], 0
    jobs = []
    for n, (tz, cases) in enumerate(batches.items()):
        ids = set()
        for k, c in enumerate(cases):
            c["id"] = "%s-%d-%d" % (c["fam"], n, k)
            assert c["id"] not in ids
        env = dict(os.environ, TZ=tz)
        env.pop("RUST_BACKTRACE", None)
        by_id = {c["id"]: c for c in cases}
        traces = engine.run_cases(binary, cases, os.path.join(work, "h%d" % n), env)
        for t in traces:
            t["tz"] = tz
            if "zone" in by_id[t["id"]]:
                t["zone"] = by_id[t["id"]]["zone"]
            traces_all.append(t)
        for c in cases:
            c["tz"] = tz
        jobs.append(by_id)
        total += len(cases)
    for t in extra:
        t["tz"] = "UTC"
        traces_all.append(t)
    total += len(extra)
    jobs.append({c["id"]: dict(c, tz="UTC") for c in extra_cases})
    cases_by_id = {k: v for j in jobs for k, v in j.items()}
    ran = time.time()
    log("%d cases run (%.1f s)" % (len(traces_all), ran - start))
    by_trace = {t["id"]: t for t in traces_all}
    events = sum(len(t["ev"]) for t in traces_all)
    reports, g, d, done = engine.validate([{k: t[k] for k in ("id", "fam", "zone", "ev") if k in t} for t in traces_all],
                                          os.path.join(work, "v"), sorted(known))
    gen, dist = gen + g, dist + d
    log("%d traces validated, %d events (%.1f s)" % (done, events, time.time() - ran))

    bad = [r for r in reports if r["r"] == "bad"]
    seen = collections.Counter(k for r in reports if r["r"] == "known" for k in r["keys"])

    for key, what in known.items():
        print("KNOWN-FINDING: property=%s %s: %s (%d events)" % (prop, key, what, seen[key]))

    os.makedirs(replay_dir, exist_ok=True)
    shown = collections.Counter()
    for n, r in enumerate(sorted(bad, key=lambda r: len(json.dumps(by_trace[r["t"]])))):
        sig = (r["fam"], r["op"], r["what"])
        shown[sig] += 1
        if shown[sig] > 2 or len(shown) > 12:
            continue
        path = os.path.join(replay_dir, "%d.json" % n)
        case = cases_by_id.get(r["t"])
        tr = by_trace[r["t"]]
        with open(path, "w") as f:
            json.dump({"property": prop, "report": r, "tz": tr["tz"], "case": case,
                       "event": pretty(tr["ev"][r["ev"] - 1] if r["ev"] <= len(tr["ev"]) else None), "trace": tr}, f,
                      indent=1, ensure_ascii=False)
        log("%s: %s at event %d (%s)" % (r["t"], r["what"], r["ev"], r["op"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

    if not replay:
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": dist, "transitions": gen, "traces_validated_against_impl": done,
                "cases": total, "cases_from_models": model_cases, "events": events,
                "families": dict(collections.Counter(t["fam"] for t in traces_all)),
                "known_deviations_seen": dict(seen),
                "samples": [clip(pretty(t)) for t in sample(traces_all)],
            },
            "assumptions": family.assumptions,
            "wall_s": round(time.time() - start, 1), "violations": len(bad),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)

    log("%s: %d cases, %d states, %d violations, %.1f s" % (prop, total, dist, len(bad), time.time() - start))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if bad else 0)


def clip(x):
    """What is long is cut, so that the evidence stays small."""
    if isinstance(x, str):
        return x if len(x) <= 300 else "%s... (%d characters)" % (x[:300], len(x))
    if isinstance(x, list):
        return [clip(v) for v in x[:20]] + (["... (%d items)" % len(x)] if len(x) > 20 else [])
    if isinstance(x, dict):
        return {k: clip(v) for k, v in x.items()}
    return x


def sample(traces):
    """One small trace of each family, up to some."""
    out = {}
    for t in traces:
        if t["fam"] not in out or len(t["ev"]) < len(out[t["fam"]]["ev"]):
            out[t["fam"]] = t
    return [dict(t, ev=t["ev"][:4]) for t in list(out.values())[:6]]


if __name__ == "__main__":
    try:
        main()
    except ToolError as x:
        print("ERROR:", x, file=sys.stderr)
        sys.exit(2)
