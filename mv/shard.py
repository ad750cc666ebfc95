"""One process of a check."""
import importlib
import json
import os
import pathlib
import sys
import time
import traceback
import zlib


def load_known(prop):
    path = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
    entries = json.loads(path.read_text())["open"] if path.exists() else []
    entries = [e for e in entries if e["property"] == prop]
    hits = set()

    def known(sub, case, message):
        for e in entries:
            if e["sub"] == sub and e["message_contains"] in message and all(case.get(k) == v for k, v in e.get("case", {}).items()):
                hits.add((prop, e["what"]))
                return True
        return False
    return known, hits


def main():
    from . import env
    env.setup()
    from . import core
    if sys.argv[1] == "--replay":
        d = json.loads(pathlib.Path(sys.argv[2]).read_text())
        mod = importlib.import_module(f"mv.checks.{d['property'].lower()}")
        sub = {s.name: s for s in mod.SUBS}[d["sub"]]
        try:
            sub.run(d["case"])
        except core.Violation as v:
            print(f"reproduced: {v}")
            print(f"VIOLATION property={d['property']} replay={sys.argv[2]}")
            return 1
        except Exception as e:
            if not core.from_sut(e):
                raise
            traceback.print_exc()
            print(f"VIOLATION property={d['property']} replay={sys.argv[2]}")
            return 1
        finally:
            core.remove_scratch()
        print("not reproduced: the case passes")
        return 0

    prop, tier, shard, nshards, seed, out, wall = sys.argv[1:8]
    shard, nshards, seed, wall = int(shard), int(nshards), int(seed), float(wall)
    deadline = time.monotonic() + wall
    known, hits = load_known(prop)
    res = {"outcomes": [], "errors": [], "known": [], "meta": {}}
    try:
        mod = importlib.import_module(f"mv.checks.{prop.lower()}")
        res["meta"] = {
            "level": getattr(mod, "LEVEL", "exploration"),
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "rules": {s.name: s.rule for s in mod.SUBS},
        }
        only = os.environ.get("MV_SUB")
        scale = float(os.environ.get("MV_SCALE", "1"))
        for index, sub in enumerate(mod.SUBS):
            if only and sub.name not in only.split(","):
                continue
            total = max(1, int(sub.count(tier) * scale))
            active = min(nshards, sub.shard_cap or nshards, total)
            position = (shard - index) % nshards  # spread the capped sub-checks over the shards
            if position >= active:
                continue
            n = total // active + (1 if position < total % active else 0)
            sub_seed = zlib.crc32(f"{prop}/{sub.name}/{seed}/{position}".encode())
            t = time.monotonic()
            try:
                o = core.drive(sub, n, sub_seed, deadline, known)
                res["outcomes"].append(o.as_json())
            except BaseException:
                res["errors"].append(f"{prop}/{sub.name}: {traceback.format_exc()}")
            if os.environ.get("MV_TIMES"):
                print(f"{sub.name}: {n} cases {time.monotonic() - t:.1f}s", file=sys.stderr)
                with open(os.environ["MV_TIMES"], "a") as f:
                    f.write(f"{prop} {sub.name} shard={shard} n={n} {time.monotonic() - t:.1f}s\n")
    except BaseException:
        res["errors"].append(f"{prop}: {traceback.format_exc()}")
    finally:
        core.remove_scratch()
    res["known"] = sorted(hits)
    tmp = pathlib.Path(out + ".tmp")
    tmp.write_text(json.dumps(res))
    tmp.rename(out)
    sys.stdout.flush()
    os._exit(0)  # threads stuck in the code under test must not keep the process alive


if __name__ == "__main__":
    sys.exit(main())
