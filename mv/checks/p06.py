import functools
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings
import numpy as np
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import serialization
from sd_mecha.extensions import model_configs
from ..core import Sub, sut, scratch, check
from .. import recipes as R, st as stf, builtins as B

ASSUMPTIONS = ["torch's global generator is seeded identically before merges that use random methods", "in-place changes made by user-written merge methods are out of scope"]


def snapshot(x):
    """a value that changes when x is modified"""
    if isinstance(x, torch.Tensor):
        return ("t", str(x.dtype), tuple(x.shape), stf.raw(x))
    if isinstance(x, dict):
        return ("d", tuple((k, id(v) if isinstance(v, torch.Tensor) else None, snapshot(v)) for k, v in x.items()))
    return ("v", type(x).__name__, repr(x))


def configs_digest(identifiers):
    def entry(v):
        return v.shape, v.dtype, tuple(v.aliases), v.optional

    res = []
    for i in identifiers:
        c = model_configs.resolve(i)
        res.append((i, [(name, [(k, *entry(v)) for k, v in comp.keys().items()]) for name, comp in c.components().items()], [(k, *entry(v)) for k, v in c.keys().items()],
                    [(k, v.shape, v.dtype) for k, v in c.metadata().items()], [(k, tuple(v)) for k, v in c.aliases().items()]))
    res.append([c.identifier for c in model_configs.get_all()])
    return res


# ------------------------------------------------------------------ built-in methods leave their inputs alone
@st.composite
def builtin_cases(draw):
    c = draw(B.calls())
    c["shapes"] = draw(st.lists(st.sampled_from(B.SHAPES), min_size=1, max_size=3))
    c["seed"] = draw(st.integers(0, 9999))
    c["dtype"] = draw(st.sampled_from(["float64", "float64", "float32", "float32", "float16", "bfloat16"]))
    c["merge_dtype"] = draw(st.sampled_from([None, "same", "same", "float64"]))
    c["output_dtype"] = draw(st.sampled_from([None, "same", "float16"]))
    c["threads"] = draw(st.sampled_from([0, 0, 2]))
    c["equal"] = draw(st.integers(0, 5)) == 0
    c["config"] = draw(st.integers(0, 9)) > 0
    c["omit"] = draw(st.booleans())
    return c


def run_builtin(case):
    keys = R.FREE_KEYS[:len(case["shapes"])]
    dtype = getattr(torch, case["dtype"])
    g = torch.Generator().manual_seed(case["seed"])
    dicts = [{k: torch.randn(s, generator=g, dtype=torch.float64).to(dtype) for k, s in zip(keys, case["shapes"])} for _ in range(case["n"])]
    if case["equal"]:
        dicts = [{k: v.clone() for k, v in dicts[0].items()} for _ in dicts]
    hyper, owned = B.hyper(case, keys)
    inputs = dicts + owned
    before = [snapshot(x) for x in inputs]
    with sut("building a valid recipe"):
        nodes = [sd_mecha.model(d, R.free_config() if case["config"] else None, s) for d, s in zip(dicts, B.spaces(case))]
        recipe = B.resolve(case["method"])(*nodes, **hyper)
    dt = {"same": dtype, None: None, "float64": torch.float64, "float16": torch.float16}
    results = []
    for _ in range(2):
        torch.manual_seed(case["seed"])
        try:
            out = sd_mecha.merge(recipe, merge_dtype=dt[case["merge_dtype"]], output_dtype=dt[case["output_dtype"]], strict_weight_space=False, check_finite=False,
                                 threads=case["threads"] if case["method"] != "copy_distribution" else 0, omit_extra_keys=case["omit"])
            results.append(("ok", {k: snapshot(v) for k, v in out.items()}))
        except Exception as e:  # some methods do not support every dtype and shape; inputs must be intact all the same
            results.append((type(e).__name__, None))
        for x, b, i in zip(inputs, before, range(len(inputs))):
            check(snapshot(x) == b, lambda: f"{case['method']} modified its input {i}: was {describe(b)}, now {describe(snapshot(x))}")
    if case["method"] not in ("rotate", "truncate_rank") or case["threads"] == 0:  # these draw random projections per key
        check(results[0] == results[1], lambda: f"merging the same {case['method']} recipe twice gives different results: {results[0][0]} {describe(results[0][1])} then {results[1][0]} {describe(results[1][1])}")
    return results[0][0] == "ok" and case["method"]


def describe(s):
    return str(s)[:400]


# ------------------------------------------------------------------ histories over shared nodes
@st.composite
def options(draw):
    return {
        "threads": draw(st.sampled_from([0, 2])), "dtype": draw(st.sampled_from(["float64", "float32", None])), "omit_extra_keys": draw(st.booleans()),
        "check_mandatory_keys": draw(st.integers(0, 4)) == 0, "strict_weight_space": draw(st.integers(0, 3)) == 0, "out": draw(st.sampled_from(["mem", "mem", "file"])),
        "buffer": draw(st.sampled_from([0, 300, 2**20])),
    }


@st.composite
def histories(draw):
    prog = draw(R.programs(max_ops=5))
    n = len(prog["instr"])
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        op = draw(st.sampled_from(["merge", "merge", "merge", "serialize", "extend"]))
        c = {"op": op, "node": draw(st.one_of(st.just(prog["root"]), st.integers(0, n - 1)))}
        if op != "serialize":
            c["options"] = draw(options())
            c["fallback"] = draw(st.one_of(st.none(), st.integers(0, n - 1)))
        ops.append(c)
    return {"prog": prog, "ops": ops}


def perform(built, op, directory, tag):
    """-> outcome that can be compared"""
    node = built.nodes[op["node"]]
    try:
        if op["op"] == "serialize":
            return "text", serialization.serialize(node)
        if op["op"] == "extend":  # a new recipe around an existing node
            node = sd_mecha.weighted_sum(node, node | node, alpha=0.25)
        o = op["options"]
        dt = getattr(torch, o["dtype"]) if o["dtype"] else None
        out = directory / f"{tag}.safetensors" if o["out"] == "file" else {}
        sd_mecha.merge(node, fallback_model=built.nodes[op["fallback"]] if op["fallback"] is not None else None, merge_dtype=dt, output_dtype=dt, threads=o["threads"], total_buffer_size=o["buffer"],
                       omit_extra_keys=o["omit_extra_keys"], check_mandatory_keys=o["check_mandatory_keys"], strict_weight_space=o["strict_weight_space"], output=out)
        if o["out"] == "file":
            got, meta = stf.load(out)
            return "file", ({k: snapshot(v) for k, v in sorted(got.items())}, meta)
        return "dict", {k: snapshot(v) for k, v in sorted(out.items())}
    except stf.Malformed as e:
        return "malformed", str(e)
    except Exception as e:
        return "raised", type(e).__name__


def run_history(case):
    prog = case["prog"]
    with scratch() as d:
        with sut("building a valid recipe"):
            shared = R.Built(prog, d)
        before = {i: snapshot(x) for i, x in shared.mem.items()}
        files = {p: p.read_bytes() for p in shared.paths.values()}
        literals = [(n, snapshot(n.value)) for n in walk_literals(shared)]
        node_configs = [(n, n.model_config) for n in shared.nodes]
        digest = configs_digest_pool()
        merged = 0
        for i, op in enumerate(case["ops"]):
            got = perform(shared, op, d, f"shared{i}")
            fresh = perform(R.Built(prog, d), op, d, f"fresh{i}")
            check(got == fresh, lambda: f"step {i} ({op}) gives {describe(got)} after {i} earlier operations, but {describe(fresh)} on a new recipe")
            merged += got[0] in ("dict", "file")
            for k, x in shared.mem.items():
                check(snapshot(x) == before[k], lambda: f"step {i} ({op}) modified the in-memory model {k}: was {describe(before[k])}, now {describe(snapshot(x))}")
            for p, b in files.items():
                check(p.read_bytes() == b, lambda: f"step {i} ({op}) modified {p.name}")
            for n, s in literals:
                check(snapshot(n.value) == s, lambda: f"step {i} ({op}) modified a literal: was {describe(s)}, now {describe(snapshot(n.value))}")
            check(configs_digest_pool() == digest, f"step {i} ({op}) modified a registered config")
            for n, c in node_configs:
                check(n.model_config is c, lambda: f"step {i} ({op}) changed the config of a node from {getattr(c, 'identifier', c)} to {getattr(n.model_config, 'identifier', n.model_config)}")
    return merged >= 2 and R.depth(prog) >= 2


def configs_digest_pool():
    c = R.pool_config()
    return repr((list(c.keys().items()), sorted(c.aliases().items()), {k: list(v.keys()) for k, v in c.components().items()}))


def walk_literals(built):
    from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode
    seen, todo = {}, list(built.nodes)
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        if isinstance(n, MergeRecipeNode):
            todo += [*n.args, *n.kwargs.values()]
    return [n for n in seen.values() if isinstance(n, LiteralRecipeNode) and not (isinstance(n.value, dict) and any(hasattr(v, "accept") for v in n.value.values()))]


# ------------------------------------------------------------------ registered configs
COMPONENTS = [*model_configs.resolve("sd1-ldm").components(), "nothing"]


@st.composite
def registered(draw, small):
    components = ["model", "vae", "ema", "nothing"] if small else COMPONENTS
    ops = []
    for _ in range(draw(st.integers(2, 4))):
        ops.append({"what": draw(st.sampled_from(["plain", "plain", "sum", "pick", "omit", "ema", "convert"])), "threads": draw(st.sampled_from([0, 2])),
                    "omit_ema": draw(st.sampled_from([None, True, False])), "omit_extra_keys": draw(st.sampled_from([None, True, False])), "out": draw(st.sampled_from(["mem", "mem", "file"])),
                    "component": draw(st.sampled_from(components))})
    return {"small": small, "seed": draw(st.integers(0, 9999)), "ops": ops, "keys": draw(st.lists(st.integers(0, 3000), min_size=3, max_size=12, unique=True)), "extra": draw(st.booleans())}


def perform_registered(nodes, op, directory, tag):
    a, b, kohya = nodes
    try:
        recipe = {
            "plain": lambda: a, "sum": lambda: sd_mecha.weighted_sum(a, b), "pick": lambda: sd_mecha.pick_component(a, op["component"]), "omit": lambda: sd_mecha.omit_component(b, op["component"]),
            "ema": lambda: sd_mecha.exchange_ema(a), "infer": lambda: a - b | a, "convert": lambda: sd_mecha.weighted_sum(sd_mecha.convert(kohya, a) | a, b),
        }[op["what"]]()
        kw = {k: op[k] for k in ("omit_ema", "omit_extra_keys") if op[k] is not None}
        out = directory / f"{tag}.safetensors" if op["out"] == "file" else {}
        sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=torch.float64, threads=op["threads"], strict_weight_space=False, output=out, **kw)
        if op["out"] == "file":
            return "file", ({k: snapshot(v) for k, v in sorted(stf.load(out)[0].items())})
        return "dict", {k: snapshot(v) for k, v in sorted(out.items())}
    except stf.Malformed as e:
        return "malformed", str(e)
    except Exception as e:
        return "raised", type(e).__name__


def run_registered(case):
    if case["small"]:
        cfg = kohya = R.ema_config()
        names = kohya_names = R.EMA_KEYS
        ema = R.EMA_KEYS[-3:]
    else:
        cfg = model_configs.resolve("sd1-ldm")
        kohya = model_configs.resolve("sd1-kohya")
        names, kohya_names = sorted(cfg.keys()), sorted(kohya.keys())
        ema = [k for k in names if k.startswith("model_ema.")]
    with scratch() as d:
        def build():
            nodes = []
            for j, c in enumerate((cfg, cfg, kohya)):
                ns = kohya_names if j == 2 else names
                ks = {ns[i * (j + 7) % len(ns)] for i in case["keys"]} | ({ema[case["seed"] % len(ema)]} if j < 2 else set())
                t = {k: R.model_tensor(case["seed"] + 31 * j + n) for n, k in enumerate(sorted(ks))}
                if case["extra"] and j == 0:
                    t["some.extra.key"] = R.model_tensor(case["seed"] + 99)
                nodes.append(sd_mecha.model(t, c))
            return nodes
        identifiers = (cfg.identifier, kohya.identifier)
        digest = configs_digest(identifiers)
        shared = build()
        merged = 0
        for i, op in enumerate(case["ops"]):
            got = perform_registered(shared, op, d, f"shared{i}")
            fresh = perform_registered(build(), op, d, f"fresh{i}")
            check(got == fresh, lambda: f"step {i} ({op}) gives {describe(got)} after {i} earlier operations, but {describe(fresh)} on a new recipe")
            merged += got[0] in ("dict", "file")
        check(configs_digest(identifiers) == digest, "the operations modified a registered config")
    return merged >= 2


# ------------------------------------------------------------------ concurrent merges of separate recipes
@st.composite
def parallel_cases(draw):
    prog = draw(R.programs(max_ops=6, fallback=False))
    roots = [i for i, ins in enumerate(prog["instr"]) if ins[0] != "corner"]
    runs = [{"root": draw(st.one_of(st.just(prog["root"]), st.sampled_from(roots))), "threads": draw(st.sampled_from([0, 1, 2])), "buffer": draw(st.sampled_from([0, 70, 300, 2**20])),
             "out": draw(st.sampled_from(["mem", "file"])), "repeat": draw(st.integers(1, 3)), "how": draw(st.sampled_from(["merge", "merge", "merge", "text"]))} for _ in range(draw(st.integers(2, 4)))]
    return {"prog": prog, "runs": runs}


def run_parallel(case):
    prog = case["prog"]
    results, errors = {}, []
    with scratch() as d:
        with sut("building a valid recipe"):
            builts = [R.Built(prog, d) for _ in case["runs"]]
        for b in builts:
            for i in b.mem:  # the recipes have different nodes, but the same dictionaries and files
                b.mem[i].update(builts[0].mem[i])
        start = threading.Barrier(len(case["runs"]))

        def work(n):
            o, b = case["runs"][n], builts[n]
            try:
                start.wait(60)
                for j in range(o["repeat"]):
                    node = b.nodes[o["root"]]
                    if o["how"] == "text":
                        try:
                            node = serialization.deserialize(serialization.serialize(node))
                        except TypeError:  # in-memory models have no text
                            pass
                    out = {} if o["out"] == "mem" else d / f"out{n}-{j}.safetensors"
                    sd_mecha.merge(node, merge_dtype=torch.float64, output_dtype=torch.float64, threads=o["threads"], total_buffer_size=o["buffer"], strict_weight_space=False, output=out)
                    results[n, j] = out
            except BaseException as e:
                errors.append((n, e))

        before = [{i: snapshot(x) for i, x in b.mem.items()} for b in builts]
        threads = [threading.Thread(target=work, args=(n,)) for n in range(len(case["runs"]))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for n, e in errors:
            with sut(f"merge {n} next to other merges"):
                raise e
        for (n, j), out in sorted(results.items()):
            want = R.Reference(dict(prog, root=case["runs"][n]["root"])).result()
            if not isinstance(out, dict):
                out, _ = stf.load(out)
            R.compare(out, want, f"merge {n}, repetition {j}, next to {len(case['runs']) - 1} other merges")
        for b, s in zip(builts, before):
            check({i: snapshot(x) for i, x in b.mem.items()} == s, "a concurrent merge modified an in-memory model")
    return R.depth(prog) >= 2 and sum(o["repeat"] for o in case["runs"]) > 2


# ------------------------------------------------------------------ an output file that is also an input
@st.composite
def overwrite_cases(draw):
    return {"n": draw(st.integers(1, 3)), "keys": draw(st.integers(1, 6)), "victim": draw(st.integers(0, 2)), "target": draw(st.sampled_from(["input", "input", "input", "copy", "new"])),
            "via": draw(st.sampled_from(["same", "symlink", "hardlink", "dots", "relative", "directory link"])), "how": draw(st.sampled_from(["path", "str"])),
            "place": draw(st.sampled_from(["argument", "nested", "fallback", "dict", "parameter"])), "lacks": draw(st.integers(0, 3)), "open": draw(st.booleans()),
            "threads": draw(st.sampled_from([0, 1, 3])), "buffer": draw(st.sampled_from([0, 64, 2 ** 20])), "grow": draw(st.booleans()), "seed": draw(st.integers(0, 9999))}


def run_overwrite(case):
    """the output is either refused and nothing changes, or it is exact; the other inputs never change"""
    keys = [f"k{i}.w" for i in range(case["keys"])]
    g = torch.Generator().manual_seed(case["seed"])
    n, victim = case["n"], case["victim"] % case["n"]
    with scratch() as d:
        (d / "in").mkdir()
        (d / "link").symlink_to(d / "in")
        values, paths = [], []
        for i in range(n):
            v = {k: torch.randint(-8, 9, (5,), generator=g).half() for k in keys}
            if i == victim and case["place"] == "dict":
                v = {k: x for j, (k, x) in enumerate(v.items()) if j >= min(case["lacks"], len(keys) - 1)}  # the first keys do not need this file
            values.append(v)
            paths.append(d / "in" / f"m{i}.safetensors")
            stf.save(paths[-1], v)
        with sut("building the recipe"):
            nodes = [sd_mecha.model(p, merge_space="weight") for p in paths]
            v = nodes[victim]
            for _ in range({"nested": 3}.get(case["place"], 0)):
                nodes[victim] = sd_mecha.n_average(nodes[victim])
            fallback = None
            if case["place"] == "fallback":
                fallback = v
                nodes = [x for i, x in enumerate(nodes) if i != victim] or [sd_mecha.literal({k: torch.zeros(5).half() for k in keys}, merge_space="weight")]
            elif case["place"] == "dict":
                nodes[victim] = v | sd_mecha.literal({k: torch.ones(5).half() for k in keys}, merge_space="weight")
            elif case["place"] == "parameter":
                nodes.append(sd_mecha.add_difference(sd_mecha.literal({k: torch.zeros(5).half() for k in keys}, merge_space="weight"), sd_mecha.subtract(v, v)))
            root = sd_mecha.n_average(*nodes)
        options = dict(fallback_model=fallback, threads=case["threads"], total_buffer_size=case["buffer"], merge_dtype=torch.float64, output_dtype=torch.float64 if case["grow"] else torch.float16)
        with sut("merging to a dictionary"):
            want = dict(sd_mecha.merge(root, **options))
        dirs = []
        if case["target"] == "new":
            out = d / "in" / "new.safetensors"
        elif case["target"] == "copy":
            out = d / "in" / "old.safetensors"
            out.write_bytes(paths[victim].read_bytes())
        else:
            out = paths[victim]
            if case["via"] == "symlink":
                out = d / "alias.safetensors"
                out.symlink_to(paths[victim])
            elif case["via"] == "hardlink":
                out = d / "alias.safetensors"
                out.hardlink_to(paths[victim])
        if case["via"] == "dots":
            out = out.parent / ".." / out.parent.name / out.name
        elif case["via"] == "relative":
            dirs, out = [out.parent], out.relative_to(out.parent)
        elif case["via"] == "directory link" and out.parent == d / "in":
            out = d / "link" / out.name
        before = {p.name: p.read_bytes() for p in paths}
        error = None
        try:
            if case["open"]:
                with sd_mecha.open_input_dicts(root):
                    sd_mecha.merge(root, output=str(out) if case["how"] == "str" else out, model_dirs=dirs, **options)
            else:
                sd_mecha.merge(root, output=str(out) if case["how"] == "str" else out, model_dirs=dirs, **options)
        except Exception as e:
            error = e
        what = f"saving over {case['target']} via {case['via']}"
        if error is not None:
            check(case["target"] == "input", lambda: f"{what}: merge raised {error!r}")
        for i, p in enumerate(paths):
            if error is None and i == victim and case["target"] == "input":
                continue
            check(p.is_file() and p.read_bytes() == before[p.name], lambda: f"{what} {'raised ' + repr(error) if error else 'succeeded'}, and input {i} was modified")
        if error is None:
            got = stf.load(dirs[0] / out if dirs else out)[0]
            R.compare(got, {k: v.double() for k, v in want.items()}, what)
    return case["target"] == "input" and f"{case['via']}, {case['place']}"


# ------------------------------------------------------------------ inputs that change between merges
@functools.cache
def twin_configs():
    """two configs whose keys have the same lengths"""
    res = {}
    for kind in "ab":
        cfg = model_configs.ModelConfigImpl(identifier=f"mvw{kind}-{kind}", components={"all": {f"mvw.{kind}.{i}": {"shape": [2], "dtype": "float32"} for i in range(4)}})
        model_configs.register_aux(cfg)
        res[kind] = list(cfg.keys())
    return res


@st.composite
def rewritten_cases(draw):
    write = st.fixed_dictionaries({"op": st.just("write"), "where": st.sampled_from(["f0", "f0", "f1", "mem"]), "kind": st.sampled_from("aaab"), "order": st.permutations(range(4)), "dtype": st.sampled_from(["float16", "float16", "bfloat16", "float32"]),
                                   "how": st.sampled_from(["in place", "replaced"]), "keep_time": st.booleans(), "seed": st.integers(0, 999)})
    merge = st.fixed_dictionaries({"op": st.just("merge"), "recipe": st.sampled_from(["one", "two", "mixed"]), "threads": st.sampled_from([0, 0, 2]), "out": st.sampled_from([None, None, "out", "f1"]), "open": st.booleans()})
    return {"ops": draw(st.lists(st.one_of(write, merge, merge), min_size=3, max_size=9))}


def run_rewritten(case):
    """each merge reads its inputs as they are at that time"""
    keys = twin_configs()
    count = 0
    with scratch() as d:
        paths = {"f0": d / "f0.safetensors", "f1": d / "f1.safetensors"}
        mem, now = {}, {}

        def write(o):
            g = torch.Generator().manual_seed(o["seed"])
            order = o["order"]
            values = {keys[o["kind"]][i]: torch.randint(-8, 9, (2 + i % 2,), generator=g).to(getattr(torch, o["dtype"])) for i in order}
            now[o["where"]] = o["kind"], values
            if o["where"] == "mem":
                mem.clear()
                mem.update({k: v.clone() for k, v in values.items()})
                return
            p = paths[o["where"]]
            times = (p.stat().st_atime_ns, p.stat().st_mtime_ns) if p.exists() and o["keep_time"] else None
            if o["how"] == "replaced" and p.exists():
                stf.save(d / "new.safetensors", values)
                os.replace(d / "new.safetensors", p)
            else:
                stf.save(p, values)
            if times:
                os.utime(p, ns=times)
        for i, where in enumerate(("f0", "f1", "mem")):
            write({"where": where, "kind": "a", "order": range(4), "dtype": "float16", "how": "in place", "keep_time": False, "seed": i})
        with sut("building the recipes"):
            a, b, m = (sd_mecha.model(x) for x in (paths["f0"], paths["f1"], mem))
            built = {"one": (a, ["f0"]), "two": (sd_mecha.weighted_sum(a, b, alpha=0.25), ["f0", "f1"]), "mixed": (sd_mecha.weighted_sum(m, a, alpha=0.25), ["mem", "f0"])}
        for n, o in enumerate(case["ops"]):
            if o["op"] == "write":
                write(o)
                continue
            root, used = built[o["recipe"]]
            what = f"merge {n} of recipe {o['recipe']}"
            into = o["out"] if o["out"] not in used else None  # the sub "overwrite" has these
            out = None if into is None else d / f"{into}.safetensors"
            options = dict(threads=o["threads"], merge_dtype=torch.float64, output_dtype=torch.float16 if into else torch.float64, strict_weight_space=False, **({} if out is None else {"output": out}))
            kinds = {now[u][0] for u in used}
            if len(kinds) > 1:
                # not a valid recipe, for now
                try:
                    sd_mecha.merge(root, **{**options, "output": {}})
                except Exception:
                    pass
                continue
            x = [now[u][1] for u in used]
            want = {k: v.double() if len(x) == 1 else v.double() * 0.75 + x[1][k].double() * 0.25 for k, v in x[0].items()}
            with sut(what):
                if o["open"]:
                    with sd_mecha.open_input_dicts(root):
                        got = sd_mecha.merge(root, **options)
                else:
                    got = sd_mecha.merge(root, **options)
            if out is not None:
                got = stf.load(out)[0]
                if into == "f1":
                    now["f1"] = kinds.pop(), {k: want[k].half() for k in got}
            R.compare({k: v.double() for k, v in got.items()}, want if into is None else {k: v.half().double() for k, v in want.items()}, what)
            count += any(e["op"] == "write" for e in case["ops"][:n])
    return count > 0 and f"{min(count, 3)} merges after a change"


# ------------------------------------------------------------------ the settings of the process
class Marker(UserWarning):
    pass


def settings():
    return {
        "warning filters": list(warnings.filters), "warnings.showwarning": warnings.showwarning, "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(), "default dtype": torch.get_default_dtype(), "default device": str(torch.empty(0).device), "number of torch threads": torch.get_num_threads(),
        "deterministic algorithms": torch.are_deterministic_algorithms_enabled(), "matmul precision": torch.get_float32_matmul_precision(), "print options": repr(torch.tensor([1 / 3, 1e6])), "random state of torch": stf.raw(torch.get_rng_state()), "random state of numpy": repr(np.random.get_state()),
        "random state of python": random.getstate(), "numpy errors": np.geterr(), "working directory": os.getcwd(), "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "excepthook": (sys.excepthook, threading.excepthook), "SIGINT": signal.getsignal(signal.SIGINT), "locale": locale.setlocale(locale.LC_ALL), "standard streams": (sys.stdin, sys.stdout, sys.stderr), "logging": (logging.getLogger().level, logging.root.manager.disable), "umask": umask(), "import path": list(sys.path),
        "threads": [t.name for t in threading.enumerate() if t.is_alive() and "tqdm" not in t.name],
    }


def umask():
    res = os.umask(0o022)
    os.umask(res)
    return res


METHODS = ["weighted_sum", "slerp", "n_average", "geometric_median", "add_difference", "dropout", "ties_with_dare", "rotate", "model_stock", "convert", "subtract", "failing"]


@st.composite
def settings_cases(draw):
    return {"keys": draw(st.sampled_from([1, 4, 20, 60])), "files": draw(st.booleans()), "out": draw(st.sampled_from(["memory", "file"])), "threads": draw(st.sampled_from([0, 1, 4, 8])), "dtype": draw(st.sampled_from(["float32", "float64", "bfloat16"])), "grad": draw(st.sampled_from([True, True, False])),
            "default": draw(st.sampled_from(["float32", "float32", "float64"])), "error": draw(st.booleans()), "open": draw(st.booleans()), "buffer": draw(st.sampled_from([64, 2 ** 20])), "recipes": draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=2)), "seed": draw(st.integers(0, 2 ** 31))}


@sd_mecha.merge_method(identifier="mv_p06_failing", register=False)
def failing(a: sd_mecha.Parameter(torch.Tensor), **kwargs) -> sd_mecha.Return(torch.Tensor):
    if kwargs["key"].endswith("3.w"):
        raise RuntimeError("this key always fails")
    return a


def run_settings(case):
    g = torch.Generator().manual_seed(case["seed"])
    n = 3
    with scratch() as d:
        models = []
        for i in range(n):
            v = {f"k{j}.w": torch.randn(4, 4, generator=g) for j in range(case["keys"])}
            if case["files"]:
                stf.save(d / f"m{i}.safetensors", v)
                v = d / f"m{i}.safetensors"
            models.append(v)
        filters = warnings.filters[:]
        state = torch.is_grad_enabled(), torch.get_default_dtype(), np.geterr()
        warnings.filterwarnings("default", category=Marker)
        try:
            torch.set_grad_enabled(case["grad"])
            torch.set_default_dtype(getattr(torch, case["default"]))
            np.seterr(all="raise" if case["error"] else "warn")
            before = settings()
            for name in case["recipes"]:
                with sut("building the recipe"):
                    a, *rest = [sd_mecha.model(m, merge_space="weight") for m in models]
                    seed = case["seed"]
                    root = {
                        "weighted_sum": lambda: sd_mecha.weighted_sum(a, rest[0], alpha=0.25), "slerp": lambda: sd_mecha.slerp(a, rest[0], alpha=0.25), "n_average": lambda: sd_mecha.n_average(a, *rest), "geometric_median": lambda: sd_mecha.geometric_median(a, *rest),
                        "add_difference": lambda: sd_mecha.add_difference(a, rest[0], rest[1], alpha=0.5), "dropout": lambda: sd_mecha.dropout(a, *rest, seed=seed), "ties_with_dare": lambda: sd_mecha.ties_with_dare(a, *rest, seed=seed), "rotate": lambda: sd_mecha.rotate(a, rest[0], alignment=0.5),
                        "model_stock": lambda: sd_mecha.n_model_stock(a, *rest), "convert": lambda: sd_mecha.n_average(a, *rest), "subtract": lambda: sd_mecha.subtract(a, rest[0]), "failing": lambda: failing(a),
                    }[name]()
                out = d / "out.safetensors" if case["out"] == "file" else None
                options = dict(threads=case["threads"], merge_dtype=getattr(torch, case["dtype"]), total_buffer_size=case["buffer"], strict_weight_space=False, **({} if out is None else {"output": out}))
                ok = not (name == "failing" and case["keys"] > 3)

                def go():
                    if name == "convert":
                        try:
                            sd_mecha.convert(root, "sd1-ldm")
                        except ValueError:
                            pass
                    if case["open"]:
                        with sd_mecha.open_input_dicts(root):
                            return sd_mecha.merge(root, **options)
                    return sd_mecha.merge(root, **options)
                try:
                    go()
                except Exception as e:
                    # some methods have no implementation for some dtypes, or warn of rounding
                    ok = ok and None
                    del e
                after = settings()
                for k, v in before.items():
                    if name == "rotate" and k == "random state of torch":
                        before[k] = after[k]  # large matrices are projected at random
                        continue
                    check(after[k] == v, lambda: f"a merge with {name} ({case['threads']} threads) changed the {k}: {str(v)[:300]} became {str(after[k])[:300]}")
        finally:
            torch.set_grad_enabled(state[0])
            torch.set_default_dtype(state[1])
            np.seterr(**state[2])
            warnings.filters[:] = filters
            warnings._filters_mutated()
    return case["threads"] > 1 and case["keys"] > 1 and f"{'files' if case['files'] else 'memory'} to {case['out']}"


SUBS = [
    Sub("settings", settings_cases(), run_settings, quick=400, rule="several keys and threads"),
    Sub("rewritten", rewritten_cases(), run_rewritten, quick=480, rule="at least one merge after an input has changed"),
    Sub("overwrite", overwrite_cases(), run_overwrite, quick=800, rule="the output is an input of the recipe (class: how it is named, where it is used)"),
    Sub("parallel", parallel_cases(), run_parallel, quick=240, rule="at least three merges of a recipe of depth >= 2 run next to each other"),
    Sub("builtins", builtin_cases(), run_builtin, quick=2000, rule="the merge succeeds (class: built-in method)"),
    Sub("histories", histories(), run_history, quick=480, rule="at least two merges succeed, on a recipe of depth >= 2"),
    Sub("components", registered(True), run_registered, quick=240, rule="at least two merges of models with several components succeed"),
    Sub("registered", registered(False), run_registered, quick=16, rule="at least two merges of SD1 models succeed"),
]
