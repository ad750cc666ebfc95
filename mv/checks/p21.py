import collections
import contextlib
import gc
import os
import threading
import time
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import merge_method, Parameter, Return
from torch import Tensor
from ..core import Sub, Violation, sut, scratch, check
from .. import recipes as R, st as stf, sched, faults

import tqdm
tqdm.tqdm.monitor_interval = 0  # no monitor thread

ASSUMPTIONS = ["a merge of a few small tensors that neither ends nor uses any CPU for 20 s is considered to be deadlocked"]


class Custom(Exception):
    pass


ERRORS = {"runtime": RuntimeError, "value": ValueError, "key": KeyError, "type": TypeError, "zero": ZeroDivisionError, "custom": Custom, "index": IndexError, "stop": StopIteration, "os": OSError, "memory": MemoryError, "interrupt": KeyboardInterrupt, "exit": SystemExit}
PLAN = {"active": False}
LOCK = threading.Lock()


def hit(where, key):
    p = PLAN
    if not p["active"] or p["where"] != where:
        return
    with LOCK:
        p["calls"] += 1
        fire = key in p["keys"] if p["by"] == "key" else p["calls"] > p["after"]
        if fire:
            e = ERRORS[p["error"]](f"injected {where} {len(p['raised'])}")
            p["raised"].append(e)
    if fire:
        raise e


@merge_method(identifier="mv_boom")
def mv_boom(a: Parameter(Tensor), **kwargs) -> Return(Tensor):
    hit("method", kwargs["key"])
    return a


FAIL = {}


@merge_method(identifier="mv_fail_on")
def mv_fail_on(a: Parameter(Tensor), tag: Parameter(int, model_config=None) = 0, **kwargs) -> Return(Tensor):
    if FAIL and kwargs["key"] in FAIL["plan"][tag]:
        e = FAIL["error"](f"injected at {tag} {kwargs['key']}")
        FAIL["raised"].append(e)
        raise e
    return a


class Source(dict):
    def __getitem__(self, k):
        v = super().__getitem__(k)
        hit("input", k)
        return v


class Sink(collections.abc.MutableMapping):
    def __init__(self):
        self.data = {}

    def __setitem__(self, k, v):
        hit("output", k)
        self.data[k] = v

    def __getitem__(self, k):
        return self.data[k]

    def __delitem__(self, k):
        del self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


class Progress:
    def __init__(self, *a, **k):
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def set_postfix(self, *a, **k):
        pass

    def update(self, n=1):
        hit("progress", None)


class Wrapped(R.Built):
    """wraps some of the nodes in a method that can fail"""
    def build(self, ins):
        if ins[0] == "model" and ins[1] in self.mem and self.prog["where"] == "input":
            self.mem[ins[1]] = Source(self.mem[ins[1]])
        node = super().build(ins)
        if self.prog["where"] == "method" and self.prog["wrap"][len(self.nodes) % len(self.prog["wrap"])] and self.prog["spaces_ok"](ins):
            node = mv_boom(node)
        return node


@st.composite
def cases(draw):
    where = draw(st.sampled_from(["method", "method", "method", "input", "output", "progress", "none", "missing_file", "cut_file", "bad_header", "space"]))
    stores = {"input": ("mem", "mem", "file"), "missing_file": ("file",), "cut_file": ("file",), "bad_header": ("file",)}.get(where, ("mem", "file"))
    prog = draw(R.programs(max_ops=4, stores=stores, min_models=2 if "file" in where or "header" in where else 1))
    return {
        "prog": prog, "where": where, "error": draw(st.sampled_from(sorted(ERRORS))), "by": draw(st.sampled_from(["key", "count"])),
        "keys": draw(st.lists(st.integers(0, 8), min_size=1, max_size=3, unique=True)), "after": draw(st.integers(0, 12)),
        "wrap": draw(st.lists(st.booleans(), min_size=1, max_size=5)), "wrap_root": draw(st.booleans()),
        "threads": draw(st.sampled_from([0, 1, 2, 4, 8, None])), "out": "mem" if where == "output" else "file" if where == "space" else draw(st.sampled_from(["mem", "file"])),
        "buffer": draw(st.sampled_from([0, 100, 2**20])), "noise": draw(st.sampled_from([0, 0, 0.05, 0.3])), "seed": draw(st.integers(0, 10**6)),
        "victim": draw(st.integers(0, 2)), "space": draw(st.integers(0, 1500)),
    }


def open_files(d):
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(str(d)):
            res.append(target)
    return res


def guarded(fn):
    """runs fn in a thread; a deadlock is detected as the absence of progress and of CPU use"""
    box = []

    def target():
        try:
            box.append((fn(), None))
        except BaseException as e:
            box.append((None, e))
    t = threading.Thread(target=target, daemon=True)
    t.start()
    t.join(20)
    while t.is_alive():
        cpu = time.process_time()
        t.join(20)
        if t.is_alive() and time.process_time() - cpu < 1:
            raise Violation("deadlock: merge neither ends nor uses the CPU")
    return box[0]


def run(case):
    prog = dict(case["prog"], where=case["where"], wrap=case["wrap"], spaces_ok=lambda ins: ins[0] not in ("corner",))
    all_keys = R.POOL_KEYS if prog["mode"] == "config" else R.STRUCT_KEYS
    want = R.Reference(case["prog"]).result()
    PLAN.clear()
    PLAN.update(active=False, where=case["where"], by=case["by"], keys={all_keys[i % len(all_keys)] for i in case["keys"]}, after=case["after"], calls=0, raised=[],
                error="index" if case["error"] == "key" and case["where"] == "input" else case["error"])  # a KeyError of an input is a missing key
    with scratch() as d:
        with sut("building the recipe"):
            b = Wrapped(prog, d)
            root = mv_boom(b.root) if case["wrap_root"] else b.root
        used = sorted({prog["instr"][i][1] for i in R.Reference(case["prog"]).reachable() if prog["instr"][i][0] == "model"})
        saved = None
        if case["where"].endswith(("_file", "_header")):
            saved = b.paths[used[case["victim"] % len(used)]]
            content = saved.read_bytes()
            if case["where"] == "missing_file":
                saved.rename(d / "elsewhere")
            elif case["where"] == "bad_header":
                saved.write_bytes(content[:8] + b"!" + content[9:])
            else:
                saved.write_bytes(content[:8 + int.from_bytes(content[:8], "little")])

        def merge(name):
            out = d / f"{name}.safetensors" if case["out"] == "file" else Sink()
            sd_mecha.merge(root, fallback_model=b.fallback, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"], total_buffer_size=case["buffer"],
                           strict_weight_space=False, output=out, **({"tqdm": Progress} if case["where"] == "progress" else {}))
            return stf.load(out)[0] if case["out"] == "file" else out.data

        threads_before = set(threading.enumerate())
        PLAN["active"] = True
        try:
            full = faults.faulty_files(d, fail="space", space=case["space"]) if case["where"] == "space" else contextlib.nullcontext({"failed": 0})
            with sched.noise(case["seed"], case["noise"]), full as plan:
                got, error = guarded(lambda: merge("first"))
        finally:
            PLAN["active"] = False
        raised = PLAN["raised"]
        left = [t for t in threading.enumerate() if t not in threads_before and t.is_alive()]
        for t in left:
            t.join(0.2)  # the thread that ran merge may be ending
        left = [t.name for t in left if t.is_alive()]
        check(not left, lambda: f"after merge ended ({error!r}), threads are still running: {left}")
        files = open_files(d)
        check(not files, lambda: f"after merge ended ({error!r}), files are still open: {files}")
        label = "ok"
        if raised:
            check(error is not None, lambda: f"{raised[0]!r} was raised during the merge, but merge returned normally")
            check(any(type(error) is type(e) and str(error) == str(e) for e in raised), lambda: f"{raised[0]!r} was raised during the merge, but merge raised {error!r}")
            label = f"{case['where']} {'threads' if case['threads'] != 0 else 'this thread'}"
        elif plan["failed"]:
            check(isinstance(error, OSError), lambda: f"the disk is full, but merge raised {error!r}" if error else "the disk is full, but merge returned normally")
            label = "space"
        elif saved:
            label = case["where"]
            if case["where"] in ("missing_file", "bad_header"):
                check(error is not None, lambda: f"merge returned normally although an input file is unusable ({case['where']})")
            elif error is None:
                R.compare(got, want, "merge of a truncated file that was not needed")
                label = "ok"
            else:
                check(not isinstance(error, KeyError), f"a truncated file was reported as {error!r}")
        else:
            check(error is None, lambda: f"merge raised {type(error).__name__}: {error} although nothing failed")
            R.compare(got, want)
        del error, raised
        PLAN["raised"] = []
        if saved:
            saved.write_bytes(content)
        got, error = guarded(lambda: merge("second"))
        check(error is None, lambda: f"merging the same recipe again raised {type(error).__name__}: {error}")
        R.compare(got, want, "merging the same recipe again")
        files = open_files(d)
        check(not files, lambda: f"files are still open: {files}")
        del b, root, got
        return label != "ok" and label


@st.composite
def nested_cases(draw):
    prog = draw(R.programs(max_ops=5, stores=("file", "file", "file", "mem"), min_models=2))
    n = len(prog["instr"])
    ops, level = [], 0
    for _ in range(draw(st.integers(2, 9))):
        op = draw(st.sampled_from(["open", "open", "close", "close_error", "merge", "merge", "fail", "gone", "gone_open", "convert"]))
        if op in ("close", "close_error") and not level:
            op = "open"
        level += {"open": 1, "close": -1, "close_error": -1}.get(op, 0)
        ops.append([op, prog["root"] if draw(st.integers(0, 2)) == 0 else draw(st.integers(0, n - 1)), draw(st.sampled_from([0, 0, 2, None]) if op in ("merge", "fail", "gone") else st.integers(0, 2))])
    return {"prog": prog, "ops": ops, "buffer": draw(st.sampled_from([0, 64, 2**20])), "key": draw(st.integers(0, 8))}


def run_nested(case):
    prog = case["prog"]
    instr = prog["instr"]
    keys = R.POOL_KEYS if prog["mode"] == "config" else R.STRUCT_KEYS
    want = R.Reference(prog).result()

    def leaves(i):
        res, todo, seen = set(), [i], set()
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            todo += R.Reference.children(instr[j])
            if instr[j][0] == "model" and prog["models"][instr[j][1]]["store"] == "file":
                res.add(j)
        return res

    all_leaves = {j for i in range(len(instr)) for j in leaves(i)}
    root_leaves = leaves(prog["root"]) | (leaves(prog["fallback"]) if prog["fallback"] is not None else set())
    PLAN.clear()
    PLAN.update(active=False, where="method", by="key", keys={keys[case["key"] % len(keys)]}, after=0, calls=0, raised=[], error="custom")
    label = 0
    with scratch() as d:
        with sut("building the recipe"):
            b = R.Built(prog, d)
            boom = mv_boom(b.root)
        original = {j: b.nodes[j].model_config for j in all_leaves}
        stored = {j: R.stored_tensors(prog, instr[j][1]) for j in all_leaves}
        blocks = []  # (context manager, the nodes that it opened, their configs)

        def verify(after):
            inferred = {j: c for _, _, configs in blocks for j, c in configs.items()}
            for j in sorted(all_leaves):
                node = b.nodes[j]
                if j not in inferred:
                    check(node.state_dict is None, lambda: f"after {after}: the input {j} is open outside of every block that uses it")
                    check(node.model_config is original[j], lambda: f"after {after}: the config of the input {j} is {node.model_config} outside of every block that uses it, it was {original[j]}")
                    continue
                check(node.state_dict is not None, lambda: f"after {after}: the input {j} of an open block is closed")
                check(node.model_config is not None and node.model_config.identifier == inferred[j], lambda: f"after {after}: the config of the input {j} of an open block is {node.model_config}, it was {inferred[j]}")
                with sut(f"after {after}: reading an input of an open block"):
                    got = {k: node.state_dict[k] for k in node.state_dict}
                R.compare(got, {k: v.to(torch.float64) for k, v in stored[j].items()}, f"after {after}: the input {j} of an open block")

        def merge(root, threads):
            return sd_mecha.merge(root, fallback_model=b.fallback, merge_dtype=torch.float64, output_dtype=torch.float64, threads=threads, total_buffer_size=case["buffer"], strict_weight_space=False)

        def close(exc=None):
            cm = blocks.pop()[0]
            if exc is None:
                with sut("closing a block"):
                    cm.__exit__(None, None, None)
                return
            try:
                raise exc
            except Custom as e:
                try:
                    swallowed = cm.__exit__(Custom, e, e.__traceback__)
                except Custom as other:
                    check(other is e, lambda: f"{e!r} was raised in a block, but {other!r} came out of it")
                    swallowed = False
                check(not swallowed, lambda: f"an error raised inside a block was swallowed")

        try:
            for step, (op, i, x) in enumerate(case["ops"]):
                opened = {j for _, new, _ in blocks for j in new}
                what = f"step {step} ({op})"
                # the configs inferred for a block hold until it is closed: they decide the keys of a recipe without a known config, and make
                # dictionaries of recipes invalid that mix nodes of the block with nodes whose config is not inferred yet
                exact = prog["explicit"] or not blocks or prog["mode"] == "config" and all(ins[0] != "rdict" for ins in instr)
                if op == "open":
                    cm = sd_mecha.open_input_dicts(b.nodes[i], buffer_size_per_dict=case["buffer"])
                    with sut(what):
                        cm.__enter__()
                    new = leaves(i) - opened
                    blocks.append((cm, new, {j: getattr(b.nodes[j].model_config, "identifier", None) for j in new}))
                elif op == "close":
                    close()
                elif op == "close_error":
                    close(Custom("from the block"))
                elif op == "merge":
                    with sut(what) if exact else contextlib.suppress(Exception):
                        got = merge(b.root, x)
                    if exact:
                        R.compare(got, want, what)
                    label += bool(opened & root_leaves)
                elif op == "fail":
                    PLAN.update(active=True, raised=[], calls=0)
                    try:
                        got, error = merge(boom, x), None
                    except Exception as e:
                        got, error = None, e
                    finally:
                        PLAN["active"] = False
                    if not exact:
                        pass
                    elif PLAN["raised"]:
                        check(type(error) is Custom, lambda: f"{what}: {PLAN['raised'][0]!r} was raised during the merge, but merge {'raised ' + repr(error) if error else 'returned normally'}")
                        label += bool(opened & root_leaves)
                    else:
                        check(error is None, lambda: f"{what}: merge raised {error!r} although nothing failed")
                        R.compare(got, want, what)
                    PLAN["raised"] = []
                    del error
                elif op in ("gone", "gone_open"):
                    used = sorted(root_leaves if op == "gone" else leaves(i))
                    if used:
                        path = b.paths[instr[used[i % len(used) if op == "gone" else x % len(used)]][1]]
                        needed = any(b.paths[instr[j][1]] == path for j in set(used) - opened)
                        path.rename(d / "elsewhere")
                        try:
                            if op == "gone":
                                got = merge(b.root, x)
                            else:
                                with sd_mecha.open_input_dicts(b.nodes[i], buffer_size_per_dict=case["buffer"]):
                                    pass
                            error = None
                        except Exception as e:
                            error = e
                        finally:
                            (d / "elsewhere").rename(path)
                        check(not exact and error is not None or (error is not None) == needed, lambda: f"{what}: a file is missing that is {'' if needed else 'already open or '}{'needed' if needed else 'not needed'}, but the call {'raised ' + repr(error) if error else 'returned normally'}")
                        if error is None and exact and op == "gone":
                            R.compare(got, want, what)
                        label += needed and bool(opened & set(used))
                        del error
                elif op == "convert" and prog["mode"] == "config" and all_leaves:
                    target = sorted(all_leaves)[x % len(all_leaves)]
                    with sut(what) if exact else contextlib.suppress(Exception):
                        sd_mecha.convert(b.nodes[i], b.nodes[target])
                    label += bool(opened & ({target} | leaves(i)))
                verify(what)
            while blocks:
                close()
                verify("closing a block")
        finally:
            while blocks:
                try:
                    blocks.pop()[0].__exit__(None, None, None)
                except Exception:
                    pass
        left = open_files(d)
        check(not left, lambda: f"after every block is closed, files are still open: {left}")
    return label and ("one" if label == 1 else "several")


@merge_method(identifier="mv_boom_all")
def mv_boom_all(*xs: Parameter(Tensor)) -> Return(Tensor):
    return sum(xs[1:], xs[0])


@st.composite
def priority_cases(draw):
    ks = st.sets(st.integers(0, 5), max_size=3).map(sorted)
    arg = st.fixed_dictionaries({"missing": ks, "fail": ks, "boom": st.booleans(), "depth": st.integers(0, 3)})
    return {"args": draw(st.lists(arg, min_size=2, max_size=4)), "error": draw(st.sampled_from([e for e in sorted(ERRORS) if e not in ("key", "interrupt", "exit")])),
            "threads": draw(st.sampled_from([0, 0, 1, 3])), "fallback": draw(st.sampled_from([False, False, True]))}


def run_priority(case):
    """the arguments of one node: some lack a key, others fail to evaluate it"""
    keys = R.POOL_KEYS[:6]
    values = [{k: torch.tensor([float(7 * i + n)], dtype=torch.float64) for n, k in enumerate(keys) if n not in a["missing"]} for i, a in enumerate(case["args"])]
    PLAN.clear()
    PLAN.update(active=False)
    with sut("building the recipe"):
        nodes = []
        for i, (a, v) in enumerate(zip(case["args"], values)):
            node = sd_mecha.literal({**v, R.POOL_KEYS[8]: torch.ones(1, dtype=torch.float64)}, config="mvt-pool", merge_space="weight")
            for d in range(a["depth"]):
                node = mv_boom_all(node)
            if a["boom"]:
                node = mv_fail_on(node, tag=i)
            nodes.append(node)
        root = mv_boom_all(*nodes)
    fall = {k: torch.tensor([-3.0], dtype=torch.float64) for k in keys} if case["fallback"] else None
    FAIL.clear()
    FAIL.update(plan={i: {keys[n] for n in a["fail"]} for i, a in enumerate(case["args"])}, raised=[], error=ERRORS[case["error"]])
    expected_failures = [(i, keys[n]) for i, a in enumerate(case["args"]) if a["boom"] for n in a["fail"] if n not in a["missing"]]
    try:
        got, error = guarded(lambda: dict(sd_mecha.merge(root, fallback_model=fall and sd_mecha.literal(fall, config="mvt-pool", merge_space="weight"), merge_dtype=torch.float64,
                                                         output_dtype=torch.float64, threads=case["threads"], check_finite=False)))
    finally:
        raised = FAIL["raised"]
        FAIL.clear()
    lacking = sorted({n for a in case["args"] for n in a["missing"]})
    if expected_failures:
        check(error is not None, lambda: f"evaluating {expected_failures} fails, but merge returned normally ({sorted(got)}); keys missing from some input: {[keys[n] for n in lacking]}")
        check(any(type(error) is type(e) and str(error) == str(e) for e in raised), lambda: f"evaluating {expected_failures} fails with {raised}, but merge raised {error!r}")
        return "hidden" if any(keys[n] == k for n in lacking for _, k in expected_failures) else None
    check(error is None, lambda: f"merge raised {error!r} although nothing failed")
    for n, k in enumerate(keys):
        if n in lacking:
            if case["fallback"]:
                check(k in got and got[k].tolist() == [-3.0], lambda: f"{k} is missing from an input: expected the value of the fallback, got {got.get(k)}")
            else:
                check(k not in got, lambda: f"{k} is missing from an input, the result has {got[k]}")
        else:
            want = sum(float(7 * i + n) for i in range(len(case["args"])))
            check(k in got and got[k].tolist() == [want], lambda: f"{k}: expected {want}, got {got.get(k)}")
    return lacking and ("missing, fallback" if case["fallback"] else "missing")


SUBS = [Sub("errors", cases(), run, quick=1200, rule="an error was raised while merging (class: where, whether worker threads are used)"),
        Sub("nested", nested_cases(), run_nested, quick=600, rule="a merge, a failing merge or open, or a conversion ran inside an open block that shares inputs with it"),
        Sub("priority", priority_cases(), run_priority, quick=800, rule="some arguments of a node lack keys and others fail for them (class: a failure that a missing key could hide, missing keys only)")]
