import functools
import itertools
import os
import pathlib
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from torch import Tensor
from ..core import Sub, sut, check, must_raise, scratch
from .. import st as stf

ASSUMPTIONS = [
    "when several shortest chains exist, any of them is accepted, but one chain has to be used for all the tensors",
    "conversions stay registered for the life of the process: every generated graph uses configs of its own",
]
COUNT = itertools.count()
N_KEYS = 3


def key(tag, c, i):
    return f"{tag}.c{c}.k{i}"


@st.composite
def graphs(draw):
    """conversions between n configs: routes of several lengths between two of them, and some more edges"""
    n = draw(st.integers(2, 8))
    src, tgt = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    pairs = []
    for _ in range(draw(st.integers(0, 4))):
        route = [src, *draw(st.lists(st.integers(0, n - 1), max_size=5, unique=True)), tgt]
        pairs += zip(route, route[1:])
    pairs += draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=8))
    pairs = draw(st.permutations(pairs))
    return n, [[a, b, draw(st.integers(2, 9)), draw(st.integers(-3, 3))] for a, b in pairs], src, tgt


@st.composite
def cases(draw):
    n, edges, src, tgt = draw(graphs())
    return {"n": n, "edges": edges, "space": draw(st.sampled_from(["weight", "weight", "param"])),
            "queries": [{"src": draw(st.sampled_from([src, src, draw(st.integers(0, n - 1))])), "tgt": draw(st.sampled_from([tgt, tgt, draw(st.integers(0, n - 1))])),
                         "input": draw(st.sampled_from(["model", "inferred", "file", "file inferred", "relative", "merge", "raw", "nested"])),
                         "target": draw(st.sampled_from(["id", "id", "config", "recipe", "inferred recipe", "file recipe"])), "drop": draw(st.booleans()), "use": draw(st.sampled_from(["plain", "plain", "mixed", "again"]))}
                        for _ in range(draw(st.integers(1, 5)))]}


def make(case):
    tag = f"mvg{os.getpid()}x{next(COUNT)}"
    configs = []
    for c in range(case["n"]):
        cfg = model_configs.ModelConfigImpl(identifier=f"mvg-{tag}_{c}", components={"all": {key(tag, c, i): {"shape": [2], "dtype": "float32", "optional": True} for i in range(N_KEYS)}})
        model_configs.register_aux(cfg)
        configs.append(cfg)
    for j, (a, b, mul, add) in enumerate(case["edges"]):
        converter(tag, j, configs, a, b, mul, add, case["space"])
    return tag, configs


def converter(tag, j, configs, a, b, mul, add, space):
    typ = float if space == "param" else Tensor

    def conv(x: Parameter(StateDict[typ], space, configs[a]), **kwargs) -> Return(typ, space, configs[b]):
        i = int(kwargs["key"].rsplit(".k", 1)[1])
        # the conversion also moves the tensors
        return x[key(tag, a, (i + j) % N_KEYS)] * mul + add
    merge_method(conv, identifier=f"mvg_{tag}_{j}", is_conversion=True)


def shortest_chains(edges, src, tgt):
    if src == tgt:
        return [[]]
    level, seen = [(src, [])], {src}
    while level:
        nxt, new = [], set()
        for node, chain in level:
            for j, (a, b, *_) in enumerate(edges):
                if a == node and b not in seen:
                    nxt.append((b, chain + [j]))
                    new.add(b)
        found = [c for b, c in nxt if b == tgt]
        if found:
            return found
        seen |= new
        level = nxt
    return []


def apply_chain(edges, chain, vals):
    for j in chain:
        _, _, mul, add = edges[j]
        vals = {i: vals[(i + j) % N_KEYS] * mul + add for i in range(N_KEYS) if (i + j) % N_KEYS in vals}
    return vals


def run(case):
    with scratch() as d:
        tag, configs = make(case)
        param = case["space"] == "param"
        res = set()
        for qi, q in enumerate(case["queries"]):
            what = f"query {qi} of {case}"
            src, tgt = q["src"], q["tgt"]
            vals = {i: (float(i + 1 + qi) if param else torch.tensor([i + 1.0 + qi, -i - 2.0], dtype=torch.float64)) for i in range(N_KEYS) if not (q["drop"] and i == 1)}
            sd = {key(tag, src, i): v for i, v in vals.items()}
            kind = q["input"]
            if param and kind in ("file", "file inferred", "relative", "inferred"):
                kind = "raw"
            if not param and kind == "raw":
                kind = "inferred"
            dirs = ()
            scale = 1
            with sut(f"{what}: input"):
                if kind == "raw":
                    recipe = dict(sd)
                elif kind == "model":
                    recipe = sd_mecha.literal(sd, configs[src]) if param else sd_mecha.model(sd, configs[src])
                elif kind == "inferred":
                    recipe = sd_mecha.model(sd)
                elif kind in ("merge", "nested"):
                    base = sd_mecha.literal(sd, configs[src]) if param else sd_mecha.model(sd, configs[src] if kind == "merge" else None)
                    recipe = base if param else sd_mecha.weighted_sum(base, base, alpha=0.5)
                else:
                    stf.save(d / f"m{qi}.safetensors", sd)
                    recipe = sd_mecha.model(pathlib.Path(f"m{qi}.safetensors") if kind == "relative" else d / f"m{qi}.safetensors", *([configs[src]] if kind == "file" else []))
                    dirs = [d] if kind == "relative" else ()
            if q["target"] == "id":
                target = configs[tgt].identifier
            elif q["target"] == "config":
                target = configs[tgt]
            else:
                tsd = {key(tag, tgt, i): torch.zeros(2) for i in range(N_KEYS)}
                if q["target"] == "file recipe":
                    stf.save(d / f"t{qi}.safetensors", tsd)
                    dirs = [d]
                    target = sd_mecha.model(f"t{qi}.safetensors")
                else:
                    target = sd_mecha.model(tsd, *([configs[tgt]] if q["target"] == "recipe" else []))
            chains = shortest_chains(case["edges"], src, tgt)
            if not chains:
                must_raise(f"{what}: no chain", lambda: sd_mecha.convert(recipe, target, dirs), ValueError)
                res.add("no chain")
                continue
            with sut(f"{what}: convert"):
                node = sd_mecha.convert(recipe, target, dirs) if dirs else sd_mecha.convert(recipe, target)
            if src == tgt:
                if isinstance(recipe, sd_mecha.recipe_nodes.RecipeNode):
                    check(node is recipe, lambda: f"{what}: a recipe that already has the config was changed to {node}")
            else:
                check(node.model_config is not None and node.model_config.identifier == configs[tgt].identifier, lambda: f"{what}: the result has config {node.model_config}")
            options = [apply_chain(case["edges"], c, vals) for c in chains]
            with sut(f"{what}: merge"):
                final = node
                if q["use"] == "mixed" and not param:
                    # converted tensors can be used like those of any other model of this config
                    final = sd_mecha.weighted_sum(node, sd_mecha.model({key(tag, tgt, i): torch.zeros(2) for i in range(N_KEYS)}, configs[tgt]), alpha=0.5)
                    scale = 0.5
                out = sd_mecha.merge(final, threads=0, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, model_dirs=dirs)
                if q["use"] == "again":
                    out = sd_mecha.merge(sd_mecha.convert(recipe, target, dirs), threads=2, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, model_dirs=dirs)
            ok = any(set(out) == {key(tag, tgt, i) for i in o} and all(same(out[key(tag, tgt, i)], v, scale) for i, v in o.items()) for o in options)
            check(ok, lambda: f"{what}: got {show(out)}, expected one of {options} times {scale} (chains {chains})")
            res.add(f"chain of {len(chains[0])}" if chains[0] else "")
    res.discard("")
    return ", ".join(sorted(res))


def same(got, want, scale):
    want = want * scale
    if isinstance(got, Tensor):
        return bool((got == (torch.tensor(want, dtype=torch.float64) if isinstance(want, float) else want)).all())
    return got == want


def show(out):
    return {k: (v.tolist() if isinstance(v, Tensor) else v) for k, v in out.items()}


# --------------------------------------------------------------- dictionaries whose keys fit several configs
@st.composite
def ambiguous(draw):
    n = draw(st.integers(2, 5))
    return {"sizes": [draw(st.sampled_from([1, 2, 5, 10, 15, 20])) for _ in range(n)], "starts": [draw(st.integers(0, 12)) for _ in range(n)], "chain": [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(n)],
            "aliases": [draw(st.sampled_from([False, False, True])) for _ in range(n)], "n": draw(st.integers(1, 25)), "first": draw(st.integers(0, 8)), "extra": draw(st.sampled_from([1, 1, 2, 8])), "target": draw(st.sampled_from(["id", "config"])), "param": draw(st.booleans())}


def run_ambiguous(case):
    """the config of a dictionary is the one that has the most of its keys, of those that can be converted"""
    tag = f"mvg{os.getpid()}x{next(COUNT)}"
    typ, space = (float, "param") if case["param"] else (Tensor, None)
    keys = [f"{tag}.x{i}" for i in range(40)]
    mk = lambda name, ks, alias=False: model_configs.ModelConfigImpl(identifier=f"mvg-{tag}_{name}", components={"all": {(f"{k}.of.{name}" if alias else k): {"shape": [2], "dtype": "float32", "optional": True, **({"aliases": [k]} if alias else {})} for k in ks}})
    target = mk("target", [f"{tag}.target"])
    configs, own = [], []

    def converter(name, src, tgt, mul):
        src_keys = list(src.keys())

        def conv(x: Parameter(StateDict[typ], space, src), **kwargs) -> Return(typ, space, tgt):
            for k in src_keys:
                try:
                    return x[k] * 0 + mul
                except sd_mecha.StateDictKeyError:
                    pass
            raise sd_mecha.StateDictKeyError(kwargs["key"])
        merge_method(conv, identifier=f"mvg_{tag}_{name}", is_conversion=True)
    for i, (size, start) in enumerate(zip(case["sizes"], case["starts"])):
        own.append(set(keys[start:start + size]))
        configs.append(mk(f"c{i}", keys[start:start + size], case["aliases"][i]))
    for c in (target, *configs):
        model_configs.register_aux(c)
    for i, n in enumerate(case["chain"]):
        if n == 1:
            converter(f"a{i}", configs[i], target, i + 1.0)
        elif n == 2:
            mid = mk(f"mid{i}", [f"{tag}.mid{i}"])
            model_configs.register_aux(mid)
            converter(f"m{i}", configs[i], mid, i + 1.0)
            converter_of_mid(tag, i, mid, typ, space, target)
    # some of the keys are of no config: none matches all of them
    given = keys[case["first"]:case["first"] + case["n"]] + [f"{tag}.none{i}" for i in range(case["extra"])]
    score = [len(o & set(given)) for o in own]
    fit = [i for i, n in enumerate(score) if n >= len(given) * 0.1 and case["chain"][i]]
    best = [i for i in fit if score[i] == max(score[j] for j in fit)]
    sd = {k: 7.0 if case["param"] else torch.full((2,), 7.0) for k in given}
    go = lambda: sd_mecha.convert(dict(sd), target if case["target"] == "config" else target.identifier)
    if not fit:
        must_raise(f"{case}: conversion of keys that fit {score} of the configs", go, ValueError)
        return any(score) and "no config that can be converted"
    with sut(f"{case}: convert"):
        out = sd_mecha.merge(go(), threads=0, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, check_finite=False)
    got = out.get(f"{tag}.target")
    check(list(out) == [f"{tag}.target"] and any(same(got, i + 1.0, 1) for i in best), lambda: f"{case}: got {show(out)}, expected the conversion of one of the configs {best}, keys that match: {score}")
    return max(score) > score[best[0]] and "a better match that cannot be converted" or sum(n > 0 for n in score) > 1 and "several matches"


def converter_of_mid(tag, i, mid, typ, space, target):
    mid_key = f"{tag}.mid{i}"

    def conv(x: Parameter(StateDict[typ], space, mid), **kwargs) -> Return(typ, space, target):
        return x[mid_key]
    merge_method(conv, identifier=f"mvg_{tag}_n{i}", is_conversion=True)


# --------------------------------------------------------------- invalid requests
@st.composite
def invalid(draw):
    n, edges, _, _ = draw(graphs())
    return {"n": n, "edges": edges, "kind": draw(st.sampled_from(["unknown target", "unknown keys", "unknown raw keys", "structural", "unknown target of the same name", "no config", "target without config"])), "src": draw(st.integers(0, n - 1)), "tgt": draw(st.integers(0, n - 1)),
            "name": draw(st.sampled_from(["mvg-none", "", "sd1", "weight", "structural", "SD1-LDM"])), "target": draw(st.sampled_from(["id", "config"]))}


def run_invalid(case):
    tag, configs = make(case | {"space": "weight"})
    src, tgt = configs[case["src"]], configs[case["tgt"]]
    target = tgt.identifier if case["target"] == "id" else tgt
    sd = {key(tag, case["src"], i): torch.ones(2) for i in range(N_KEYS)}
    if case["kind"].startswith("unknown target"):
        name = case["name"] if case["kind"] == "unknown target" else src.identifier + "_"
        must_raise(f"{case}: conversion to {name!r}", lambda: sd_mecha.convert(sd_mecha.model(sd, src), name), ValueError)
    elif case["kind"] == "unknown keys":
        must_raise(f"{case}: conversion of unknown keys", lambda: sd_mecha.convert(sd_mecha.model({f"{tag}.none.{i}": torch.ones(2) for i in range(30)}), target), ValueError)
    elif case["kind"] == "unknown raw keys":
        must_raise(f"{case}: conversion of unknown keys", lambda: sd_mecha.convert({f"{tag}.none.{i}": 1.0 for i in range(30)}, target), ValueError)
    elif case["kind"] == "structural":
        must_raise(f"{case}: conversion of a structural model", lambda: sd_mecha.convert(sd_mecha.weighted_sum(sd_mecha.model({f"{tag}.none.{i}": torch.ones(2) for i in range(30)}), sd_mecha.model({f"{tag}.none.{i}": torch.ones(2) for i in range(20)}), alpha=0.5), target), ValueError)
    elif case["kind"] == "no config":
        must_raise(f"{case}: conversion of a number", lambda: sd_mecha.convert(1.0, target), ValueError)
        must_raise(f"{case}: conversion of a literal number", lambda: sd_mecha.convert(sd_mecha.literal(1.0), target), ValueError)
    elif case["kind"] == "target without config":
        must_raise(f"{case}: conversion to a literal number", lambda: sd_mecha.convert(sd_mecha.model(sd, src), sd_mecha.literal(1.0)), ValueError)
    return case["kind"]


# --------------------------------------------------------------- builtin conversions
def builtin():
    for c in merge_methods.get_all_converters():
        if c.identifier.startswith("mvg_"):
            continue
        inputs = c.get_input_configs()
        yield inputs.args[0].identifier, c.get_return_config(inputs.args, inputs.kwargs).identifier, c.identifier


@st.composite
def pairs(draw):
    ids = sorted(c.identifier for c in model_configs.get_all() if not c.identifier.startswith("mv"))
    return {"src": draw(st.sampled_from(ids)), "tgt": draw(st.sampled_from(ids)), "target": draw(st.sampled_from(["id", "config"])), "raw": draw(st.sampled_from([0, 0, 0, 2, 20]))}


def run_pairs(case):
    edges = list(builtin())
    src, tgt = model_configs.resolve(case["src"]), model_configs.resolve(case["tgt"])
    chains = shortest_chains(edges, case["src"], case["tgt"])
    a = sd_mecha.model({k: torch.ones(1) for k in list(src.keys())[:2]}, src)
    if case["src"].endswith("_blocks"):
        a = sd_mecha.literal({k: 1.0 for k in list(src.keys())[:2]}, src)
    target = tgt if case["target"] == "config" else case["tgt"]
    if case["raw"]:
        # a dictionary is of any of the configs that have its keys
        raw = {k: 1.0 for k in list(src.keys())[:case["raw"]]}
        fit = [c.identifier for c in model_configs.get_all() if not c.identifier.startswith("mv") and ({*c.keys(), *(a for v in c.aliases().values() for a in v)} & raw.keys())]
        reach = [c for c in fit if shortest_chains(edges, c, case["tgt"])]
        if not reach:
            must_raise(f"{case}: no chain of conversions from any of {fit}", lambda: sd_mecha.convert(raw, target), ValueError)
            return "dictionary that cannot be converted"
        if len(fit) == 1 and fit[0].endswith("_blocks"):
            with sut(f"{case}: convert"):
                node = sd_mecha.convert(raw, target)
            check(node is not None and node.model_config == (tgt if fit != [case["tgt"]] else src), lambda: f"{case}: the result is {node}, config {getattr(node, 'model_config', None)}")
            return "dictionary of one config"
        return False
    if not chains:
        must_raise(f"{case}: no chain of conversions", lambda: sd_mecha.convert(a, target), ValueError)
        return False
    with sut(f"{case}: convert"):
        node = sd_mecha.convert(a, target)
    used, n = [], node
    while n is not a:
        check(isinstance(n, sd_mecha.recipe_nodes.MergeRecipeNode), lambda: f"{case}: the converted recipe does not use the input: {node}")
        used.append(n.merge_method.identifier)
        n = (*n.args, *n.kwargs.values())[0]
    check(used[::-1] in [[edges[j][2] for j in c] for c in chains], lambda: f"{case}: used {used[::-1]}, expected one of {[[edges[j][2] for j in c] for c in chains]}")
    check(node.model_config == (tgt if used else a.model_config), lambda: f"{case}: the result has config {node.model_config}")
    return bool(used)


SUBS = [
    Sub("graphs", cases(), run, 280, rule="the input and target configs differ"),
    Sub("ambiguous", ambiguous(), run_ambiguous, 200, rule="the keys of the dictionary fit several configs"),
    Sub("invalid", invalid(), run_invalid, 120, rule="every case"),
    Sub("builtin", pairs(), run_pairs, 200, rule="the conversion exists"),
]
