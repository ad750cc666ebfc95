"""Core of the machinery: cases, violations, and the Hypothesis driver of one sub-check.

A sub-check has a strategy that draws a JSON-able *case* (all the randomness is in it) and a function that runs
the case against the code under test and an oracle. The function raises Violation when the property is broken; any
other exception that escapes it is an error of the harness, never a violation. It returns a verdict on the
non-triviality of the case: a bool, or a string naming the class of the case (None/False/"" = trivial).
"""
import contextlib
import dataclasses
import hashlib
import json
import os
import pathlib
import shutil
import tempfile
import time
import traceback
from typing import Any, Callable, List


class Violation(Exception):
    pass


class Abort(KeyboardInterrupt):
    """Leaves Hypothesis immediately (time is up)."""


@contextlib.contextmanager
def sut(what: str):
    """Code under test on a valid input: any exception is a violation."""
    try:
        yield
    except (Violation, Abort):
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e}\n{tb}") from e


def must_raise(what: str, fn: Callable, *exceptions):
    """Code under test on an invalid input: it has to raise one of the exceptions (default: any Exception)."""
    exceptions = exceptions or (Exception,)
    try:
        res = fn()
    except exceptions as e:
        return e
    except (Violation, Abort):
        raise
    except Exception as e:
        raise Violation(f"{what}: expected {'/'.join(x.__name__ for x in exceptions)}, got {type(e).__name__}: {e}") from e
    raise Violation(f"{what}: accepted (returned {str(res)[:200]!r}), expected {'/'.join(x.__name__ for x in exceptions)}")


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Any
    run: Callable[[Any], Any]
    quick: int               # total number of cases of the quick tier, over all shards
    thorough: int = 0        # same for the thorough tier (default: 12 x quick)
    rule: str = ""
    shard_cap: int = 0       # run on at most this many shards (0: all)

    def count(self, tier):
        return self.quick if tier == "quick" else (self.thorough or self.quick * 12)


def canonical(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


@dataclasses.dataclass
class Outcome:
    sub: str
    evaluations: int = 0
    invalid: int = 0
    nontrivial: set = dataclasses.field(default_factory=set)
    classes: dict = dataclasses.field(default_factory=dict)
    samples: list = dataclasses.field(default_factory=list)
    failure: Any = None       # {"case","message"}
    inconclusive: bool = False

    def as_json(self):
        d = dataclasses.asdict(self)
        d["nontrivial"] = sorted(self.nontrivial)
        return d


SCRATCH = None


def scratch_root() -> pathlib.Path:
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and not os.environ.get("MV_NO_SHM") else None
        SCRATCH = pathlib.Path(tempfile.mkdtemp(prefix="mv-", dir=base))
    return SCRATCH


def remove_scratch():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


@contextlib.contextmanager
def scratch():
    d = pathlib.Path(tempfile.mkdtemp(dir=scratch_root()))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def from_sut(e) -> bool:
    from . import env
    return any(f.filename.startswith(env.REPO + "/sd_mecha") for f in traceback.extract_tb(e.__traceback__))


def drive(sub: Sub, n: int, seed: int, deadline: float, known, shrink_seconds=float(os.environ.get("MV_SHRINK", "25"))) -> Outcome:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    out = Outcome(sub.name)
    best = None
    first_failure_at = None

    def body(case):
        nonlocal best, first_failure_at
        now = time.monotonic()
        if now > deadline:
            out.inconclusive = True
            raise Abort
        if first_failure_at is not None and now - first_failure_at > shrink_seconds:
            raise Abort
        case = json.loads(canonical(case))
        key = canonical(case)
        if first_failure_at is None:
            out.evaluations += 1
        try:
            verdict = sub.run(case)
        except Violation as v:
            sig = known(sub.name, case, str(v))
            if sig:
                return
            if first_failure_at is None:
                first_failure_at = time.monotonic()
            if best is None or len(key) <= len(canonical(best["case"])):
                best = {"case": case, "message": str(v)}
            raise
        except Exception as e:
            # an exception raised by the code under test where the harness expected none is a violation;
            # one that never went through the code under test is an error of the harness
            if not from_sut(e):
                raise
            v = Violation(f"unexpected {type(e).__name__}: {e}\n{''.join(traceback.format_tb(e.__traceback__, -6))}")
            if known(sub.name, case, str(v)):
                return
            if first_failure_at is None:
                first_failure_at = time.monotonic()
            if best is None or len(key) <= len(canonical(best["case"])):
                best = {"case": case, "message": str(v)}
            raise v from e
        if first_failure_at is None and verdict:
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            out.nontrivial.add(h)
            label = verdict if isinstance(verdict, str) else "nontrivial"
            out.classes[label] = out.classes.get(label, 0) + 1
            if len(out.samples) < 2 and len(key) < 3000:
                out.samples.append(case)

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False, suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Abort:
        pass
    except Violation:
        pass
    except BaseException:
        # Flaky and the like: a violation was seen; otherwise this is an error of the harness
        if best is None:
            raise
    out.failure = best
    return out
