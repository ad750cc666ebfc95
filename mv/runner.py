"""Entry point: shards a check over processes, aggregates, writes the evidence file, prints the verdict."""
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import time
from . import env

VERIF = pathlib.Path(__file__).resolve().parent.parent
WALL = {"quick": 600, "thorough": 3000}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nshards = int(os.environ.get("MV_SHARDS", "8"))
    start = time.monotonic()
    wall = int(os.environ.get("MV_WALL", WALL[tier]))
    child_env = dict(os.environ, **env.CHILD_ENV)
    work = pathlib.Path(tempfile.mkdtemp(prefix="mv-run-"))
    procs = []
    try:
        for i in range(nshards):
            out = work / f"{i}.json"
            log = open(work / f"{i}.log", "wb")
            cmd = [sys.executable, "-B", "-m", "mv.shard", prop, tier, str(i), str(nshards), str(seed), str(out), str(wall)]
            procs.append((subprocess.Popen(cmd, cwd=VERIF, env=child_env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), out, work / f"{i}.log"))
        results, errors, stuck = [], [], 0
        for p, out, log in procs:
            left = max(1.0, start + wall + 60 - time.monotonic())
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                stuck += 1
                rc = None
            if rc is None or p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            if out.exists():
                results.append(json.loads(out.read_text()))
            elif rc is not None:
                errors.append(f"shard exited with {rc}:\n{log.read_text(errors='replace')[-4000:]}")
        return report(prop, tier, seed, results, errors, stuck, time.monotonic() - start)
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def report(prop, tier, seed, results, errors, stuck, wall_s):
    subs, failures, harness, known = {}, [], list(errors), set()
    meta = {}
    for r in results:
        meta = r.get("meta") or meta
        harness += r["errors"]
        known.update(tuple(k) for k in r["known"])
        for o in r["outcomes"]:
            s = subs.setdefault(o["sub"], {"evaluations": 0, "nontrivial": set(), "classes": {}, "samples": [], "inconclusive": 0})
            s["evaluations"] += o["evaluations"]
            s["nontrivial"].update(o["nontrivial"])
            for k, v in o["classes"].items():
                s["classes"][k] = s["classes"].get(k, 0) + v
            s["samples"] += o["samples"]
            s["inconclusive"] += bool(o["inconclusive"])
            if o["failure"]:
                failures.append((o["sub"], o["failure"]))
    samples = []
    for name, s in sorted(subs.items()):
        for x in s["samples"][:2]:
            samples.append({"sub": name, "case": x})
    rules = "; ".join(f"{k}: {v}" for k, v in (meta.get("rules") or {}).items())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": sum(len(s["nontrivial"]) for s in subs.values()),
            "rule": "cases are JSON values drawn by Hypothesis from a seed derived from VERIF_SEED; non-trivial: " + rules,
            "samples": samples[:24],
            "per_sub": {k: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["nontrivial"]), "classes": dict(sorted(s["classes"].items())), "shards_out_of_time": s["inconclusive"]} for k, s in sorted(subs.items())},
            "shards": len(results), "shards_killed": stuck,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall_s, 2),
        "violations": len({f[0] for f in failures}),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    if failures:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        by_sub = {}
        for sub, f in failures:
            if sub not in by_sub or len(json.dumps(f["case"])) < len(json.dumps(by_sub[sub]["case"])):
                by_sub[sub] = f
        for sub, f in sorted(by_sub.items()):
            path = rdir / f"{prop}-{sub}.json"
            path.write_text(json.dumps({"property": prop, "sub": sub, "seed": seed, "tier": tier, **f}, indent=1))
            print(f"--- {prop}/{sub}: {f['message'][:1500]}")
            print(f"    case: {json.dumps(f['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        for h in harness:
            print("harness error (beside the violation):", h[-1500:], file=sys.stderr)
        return 1
    if harness:
        for h in sorted(set(harness))[:3]:
            print("HARNESS ERROR", h[-3000:])
        return 2
    c = evidence["coverage"]
    print(f"OK property={prop} evaluations={c['evaluations']} distinct_nontrivial={c['distinct_nontrivial']} wall={wall_s:.1f}s" + (f" (inconclusive: {stuck} shards out of time)" if stuck else ""))
    return 0


def replay(path):
    d = json.loads(pathlib.Path(path).read_text())
    child_env = dict(os.environ, **env.CHILD_ENV)
    return subprocess.call([sys.executable, "-B", "-m", "mv.shard", "--replay", str(pathlib.Path(path).absolute())], cwd=VERIF, env=child_env)


if __name__ == "__main__":
    sys.exit(main())
