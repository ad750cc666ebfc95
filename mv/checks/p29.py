import threading
import typing
import torch
import sd_mecha
from collections.abc import Mapping
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, StateDictKeyError, merge_method
from sd_mecha.extensions import merge_methods
from torch import Tensor
from ..core import Sub, sut, scratch, check, must_raise
from .. import recipes as R

ASSUMPTIONS = [
    "values read through a view are not modified in place by the method",
    "names that are not keys of the model config (aliases, extra keys) are only read when no input provides them",
]
V = typing.TypeVar("V", float, Tensor)
READS = ["get", "get", "get", "twice", "in", "dget", "thread"]
LISTS = ["keys", "iter", "len", "config", "unknown", "write", "values", "items"]


@st.composite
def op(draw, views):
    kind = draw(st.sampled_from(READS + READS + LISTS))
    return [kind, draw(st.integers(0, views - 1)), draw(st.sampled_from([0, 0, 1, 1, 2, -1, 5]))]


@st.composite
def cases(draw):
    prog = draw(R.programs(max_ops=5, fallback=False))
    spaces_ok = [i for i, ins in enumerate(prog["instr"]) if ins[0] != "corner"]
    corners = [i for i, ins in enumerate(prog["instr"]) if ins[0] == "corner"]
    views = [{"node": draw(st.one_of(st.just(prog["root"]), st.sampled_from(spaces_ok))), "type": draw(st.sampled_from(["Tensor", "Tensor", "T", "bare", "V"]))}]
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.sampled_from(["node", "node", "dict", "dict", "corner", "tensors"]))
        if k == "node":
            views.append({"node": draw(st.sampled_from(spaces_ok)), "type": draw(st.sampled_from(["Tensor", "T", "bare", "V"]))})
        elif k == "corner" and corners:
            views.append({"node": draw(st.sampled_from(corners)), "type": draw(st.sampled_from(["float", "T", "V"]))})
        else:
            all_keys = R.POOL_KEYS if prog["mode"] == "config" else R.STRUCT_KEYS
            ks = [all_keys[0]] + [k for k in all_keys[1:] if draw(st.integers(0, 3))]
            if k == "tensors":
                views.append({"tensors": {k: draw(st.integers(0, 999)) for k in ks}, "type": draw(st.sampled_from(["Tensor", "T", "bare"]))})
            else:
                views.append({"dict": {k: draw(st.sampled_from(R.ALPHAS)) for k in ks}, "type": draw(st.sampled_from(["float", "float", "T", "V", "Tensor"]))})
    return {
        "prog": prog, "views": views, "ops": draw(st.lists(op(len(views)), min_size=2, max_size=8)), "plain": draw(st.sampled_from(spaces_ok)),
        "where": [draw(st.sampled_from(["pos", "kw"])) for _ in views], "threads": draw(st.sampled_from([0, 1, 2, 3])), "buffer": draw(st.sampled_from([0, 70, 300, 2**20])),
        "cache": draw(st.sampled_from([None, None, "default", "given"])), "outer": draw(st.sampled_from([None, None, "view", "wsum", "add"])), "catch": draw(st.booleans()),
    }


def annotation(name):
    return {"Tensor": StateDict[Tensor], "float": StateDict[float], "T": StateDict[merge_methods.T], "bare": StateDict, "V": StateDict[V]}[name]


def record(value):
    return value.clone() if isinstance(value, Tensor) else value


def perform(kind, view, target):
    if kind in ("get", "twice"):
        x = record(view[target])
        return [x, record(view[target])] if kind == "twice" else x
    if kind == "in":
        return target in view
    if kind == "dget":
        return record(view.get(target, "absent"))
    if kind == "thread":
        box = []

        def read():
            try:
                box.append(record(view[target]))
            except Exception as e:
                box.append(e)
        t = threading.Thread(target=read)
        t.start()
        t.join()
        if isinstance(box[0], Exception):
            raise box[0]
        return box[0]
    if kind == "keys":
        return list(view.keys())
    if kind == "iter":
        return list(view)
    if kind == "len":
        return len(view)
    if kind == "config":
        return view.model_config
    if kind == "unknown":
        return view["mvq.no.such.key"]
    if kind == "values":
        return [record(v) for v in view.values()]
    if kind == "items":
        return [(k, record(v)) for k, v in view.items()]
    if kind == "write":
        view[target] = 0
    raise AssertionError(kind)


def make_method(case, log, lock):
    views = case["views"]
    pos = [i for i, w in enumerate(case["where"]) if w == "pos"]
    kws = [i for i, w in enumerate(case["where"]) if w == "kw"]
    ops = case["ops"]

    def body(named, key, cache):
        all_keys = case["all_keys"]
        entries = []
        if cache is not None:
            with lock:
                cache[key] = cache.get(key, 0) + 1
        try:
            for n, (kind, v, rel) in enumerate(ops):
                target = all_keys[(all_keys.index(key) + rel) % len(all_keys)] if key in all_keys else key
                try:
                    entries.append((n, target, "ok", perform(kind, named[v], target), type(named[v])))
                except Exception as e:
                    entries.append((n, target, "raised", e, type(named[v])))
                    if not case["catch"] and isinstance(e, StateDictKeyError):
                        raise
        finally:
            with lock:
                log.append((key, cache, entries, [isinstance(x, StateDict) and isinstance(x, Mapping) for x in named.values()]))

    # a function with one parameter per view
    names = {i: f"v{i}" for i in range(len(views))}
    code = f"def probe({', '.join(['plain', *(names[i] for i in pos), '*', *(names[i] for i in kws), '**kwargs'] if kws else ['plain', *(names[i] for i in pos), '**kwargs'])}):\n" \
           f"    body({{{', '.join(f'{i}: {names[i]}' for i in names)}}}, kwargs['key'], kwargs['cache'])\n    return plain + 1\n"
    env = {"body": body}
    exec(code, env)
    probe = env["probe"]
    sym = sd_mecha.extensions.merge_spaces
    both = [sym.resolve("weight"), sym.resolve("delta"), sym.resolve("param")]
    probe.__annotations__ = {"plain": Parameter(Tensor, both), "return": Return(Tensor, "weight")} | {names[i]: Parameter(annotation(v["type"]), both) for i, v in enumerate(views)}
    return merge_method(probe, identifier="mv_probe_view", register=False), pos, kws, names


def evaluate(case, ref, view, key):
    if "node" in view:
        return ref.ev(view["node"], key)
    if "dict" in view:
        return view["dict"].get(key, R.MISSING)
    return R.model_tensor(view["tensors"][key]).to(torch.float64) if key in view["tensors"] else R.MISSING


def same(got, want, declared):
    if isinstance(want, Tensor):
        return isinstance(got, Tensor) and got.dtype == torch.float64 and got.shape == want.shape and torch.equal(got, want)
    # a number, which is given as a tensor where tensors are accepted
    if isinstance(got, Tensor):
        return declared != "float" and got.numel() == 1 and got.item() == want
    return declared != "Tensor" and isinstance(got, float) and got == want


def run(case):
    prog = dict(case["prog"], root=case["plain"])
    nodes_used = [v["node"] for v in case["views"] if "node" in v]
    ref = R.Reference(prog)
    ref.reachable = lambda: reachable(prog, [case["plain"], *nodes_used])
    if prog["mode"] != "config":
        keys = set(R.STRUCT_KEYS)
        for ks in ref.leaf_keys():
            keys &= set(ks)
        for v in case["views"]:
            for d in ("dict", "tensors"):
                if d in v:
                    keys &= set(v[d])
        ref.keys = sorted(keys)
    case = dict(case, all_keys=ref.keys)
    log, lock = [], threading.Lock()
    with scratch() as d:
        with sut("building and merging a valid recipe that reads state dicts"):
            b = R.Built(prog, d)
            method, pos, kws, names = make_method(case, log, lock)

            def arg(v):
                if "node" in v:
                    return b.nodes[v["node"]]
                if "dict" in v:
                    return dict(v["dict"])
                return sd_mecha.model({k: R.model_tensor(s) for k, s in v["tensors"].items()}, b.config, "weight")
            node = method(b.nodes[case["plain"]], *(arg(case["views"][i]) for i in pos), **{names[i]: arg(case["views"][i]) for i in kws})
            given = {"mine": 1}
            if case["cache"] == "default":
                node.set_cache()
            elif case["cache"] == "given":
                node.set_cache(given)
            recipe = node
            if case["outer"] == "view":
                recipe = R.mv_total(node, node)  # all the keys are read again for every key
            elif case["outer"] == "wsum":
                recipe = sd_mecha.weighted_sum(node, node, alpha=0.5)
            elif case["outer"] == "add":
                recipe = R.mv_lin(node, node)
            out = sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"], total_buffer_size=case["buffer"], strict_weight_space=False, omit_extra_keys=True)
    want_keys = ref.keys
    check(log or not any(ref.ev(case["plain"], k) is not R.MISSING for k in want_keys), "the merge method was never called")
    caches = {id(c) for _, c, _, _ in log}
    check(len(caches) <= 1, "the method received different caches for different keys")
    if log:
        c = log[0][1]
        if case["cache"] is None:
            check(c is None, lambda: f"the method received the cache {c} although none was set")
        else:
            check(c is (given if case["cache"] == "given" else node.cache) and isinstance(c, dict), lambda: f"the method received {c} instead of the cache that was set")
            counts = {}
            for k, *_ in log:
                counts[k] = counts.get(k, 0) + 1
            check({k: v for k, v in c.items() if k != "mine"} == counts, lambda: f"entries of the cache were lost: {c}, calls: {counts}")
            check(case["cache"] == "default" or c["mine"] == 1, "the entries of the cache that was given were lost")
    missing_reads = 0
    others = 0
    for key, _, entries, is_view in log:
        check(key in want_keys, lambda: f"the method was called for {key}, which is not a key of the merge")
        check(all(is_view), lambda: f"an argument declared as StateDict was given as {[type(x) for x in is_view]}")
        for n, target, status, got, _ in entries:
            kind, v, rel = case["ops"][n]
            view = case["views"][v]
            want = evaluate(case, ref, view, target)
            where = f"while merging {key}: operation {kind} {target} on view {v}"
            if kind in ("get", "twice", "thread", "dget"):
                others += target != key and want is not R.MISSING
                missing_reads += want is R.MISSING
            if kind in ("get", "twice", "thread"):
                if want is R.MISSING:
                    check(status == "raised" and isinstance(got, StateDictKeyError), lambda: f"{where}: the key is missing, expected StateDictKeyError, got {status} {got!r}")
                else:
                    check(status == "ok", lambda: f"{where}: raised {got!r}, expected {want}")
                    for g in got if kind == "twice" else [got]:
                        check(same(g, want, view["type"]), lambda: f"{where}: read {g!r}, expected {want!r}")
            elif kind == "in":
                check(status == "ok" and got is (want is not R.MISSING), lambda: f"{where}: {status} {got!r}, expected {want is not R.MISSING}")
            elif kind == "dget":
                check(status == "ok" and (got == "absent" if want is R.MISSING else not isinstance(got, str) and same(got, want, view["type"])), lambda: f"{where}: {status} {got!r}, expected {want!r}")
            elif kind in ("keys", "iter", "len"):
                check(status == "ok", lambda: f"{where}: raised {got!r}")
                if kind == "len":
                    check(got == len(want_keys), lambda: f"{where}: {got}, expected {len(want_keys)}")
                else:
                    check(sorted(got) == sorted(want_keys), lambda: f"{where}: listed {got}, expected {want_keys}")
            elif kind == "config":
                check(status == "ok" and (got is R.pool_config() if prog["mode"] == "config" else sorted(got.keys()) == want_keys), lambda: f"{where}: {status} {got!r}")
            elif kind == "unknown":
                check(status == "raised" and isinstance(got, StateDictKeyError), lambda: f"{where}: reading an unknown key: {status} {got!r}")
            elif kind == "write":
                check(status == "raised" and isinstance(got, TypeError), lambda: f"{where}: views can be assigned: {status} {got!r}")
            elif kind in ("values", "items"):
                all_values = {k: evaluate(case, ref, view, k) for k in want_keys}
                if any(x is R.MISSING for x in all_values.values()):
                    check(status == "raised" and isinstance(got, StateDictKeyError), lambda: f"{where}: some keys are missing, got {status} {got!r}")
                else:
                    check(status == "ok", lambda: f"{where}: raised {got!r}")
                    check(len(got) == len(want_keys), lambda: f"{where}: {len(got)} entries, expected {len(want_keys)}")
                    if kind == "items":
                        check(sorted(k for k, _ in got) == want_keys, lambda: f"{where}: keys {[k for k, _ in got]}")
                        check(all(same(x, all_values[k], view["type"]) for k, x in got), lambda: f"{where}: {got}")
    # the result: plain + 1 where the method did not stop at a missing key
    expected = {}
    for key in want_keys:
        x = ref.ev(case["plain"], key)
        if x is not R.MISSING and (case["catch"] or not any(stops(case, ref, o, key, want_keys) for o in case["ops"])):
            expected[key] = x + 1
    if case["outer"] == "view":
        total = sum((expected[k] if k in expected else 100) for k in want_keys) if want_keys else 0
        expected = {k: x + total for k, x in expected.items()}
    elif case["outer"] == "add":
        expected = {k: x * 3 for k, x in expected.items()}
    R.compare(out, expected)
    if others:
        return f"{prog['mode']}{'+missing' if missing_reads else ''}{'+cache' if case['cache'] else ''}"


def stops(case, ref, o, key, keys):
    kind, v, rel = o
    if kind == "unknown":
        return True
    view = case["views"][v]
    if kind in ("get", "twice", "thread"):
        return evaluate(case, ref, view, keys[(keys.index(key) + rel) % len(keys)]) is R.MISSING
    if kind in ("values", "items"):
        return any(evaluate(case, ref, view, k) is R.MISSING for k in keys)
    return False


def reachable(prog, roots):
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += R.Reference.children(prog["instr"][i])
    return seen


SUBS = [Sub("views", cases(), run, quick=1500, rule="a key other than the one being merged is read and present (class: config kind, missing keys, cache)")]
