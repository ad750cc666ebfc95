import functools
import random
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import model_configs
from ..core import Sub, sut, must_raise, scratch, check
from .. import recipes as R, st as stf

ASSUMPTIONS = ["a state dict that holds several names of a key is read by the key itself, else by the first of its aliases in the order of the config",
               "with omit_extra_keys off, an unknown key may come from any input that has it",
               "the state dicts used for recognition contain every key of a config, possibly under an alias, and a few unknown ones"]


# --------------------------------------------------------------------- recognition of registered configs
@functools.cache
def registered():
    R.pool_config(), R.ema_config()
    return sorted(c.identifier for c in model_configs.get_all() if c.identifier != "mvf-free" and not c.identifier.startswith("mv_"))


@st.composite
def infer_cases(draw):
    return {"config": draw(st.sampled_from(registered())), "seed": draw(st.integers(0, 9999)), "order": draw(st.sampled_from(["shuffled", "shuffled", "sorted", "config", "reversed"])), "alias": draw(st.booleans()),
            "extra": draw(st.sampled_from([0, 0, 1, 4])), "store": draw(st.sampled_from(["mem", "mem", "file"])), "via": draw(st.sampled_from(["convert", "open", "keys", "merge"]))}


def run_infer(case):
    config = model_configs.resolve(case["config"])
    rng = random.Random(case["seed"])
    names = {}
    for k, m in config.keys().items():
        aliases = list(m.aliases)
        names[rng.choice(aliases) if case["alias"] and aliases and rng.random() < 0.5 else k] = k
    extra = [f"mv_unknown.{case['seed']}.{i}" for i in range(case["extra"] if len(names) >= 60 else 0)]
    keys = list(names) + extra
    if case["order"] == "shuffled":
        rng.shuffle(keys)
    elif case["order"] == "sorted":
        keys.sort()
    elif case["order"] == "reversed":
        keys.reverse()
    value = torch.ones(1)
    data = {k: value for k in keys}
    with scratch() as d, sut("recognising the config of a state dict"):
        if case["via"] == "keys":
            best = sd_mecha.infer_model_configs(keys)
            check(len(best) > 0 and best[0] == {config}, lambda: f"infer_model_configs: best configs are {best[:1]}, expected {{{config}}}")
        else:
            if case["store"] == "file":
                stf.save(d / "m.safetensors", data)
                data = d / "m.safetensors"
            node = sd_mecha.model(data)
            if case["via"] == "open":
                with sd_mecha.open_input_dicts(node):
                    got = node.model_config
                    check(got.identifier == config.identifier, lambda: f"the state dict is recognised as {got}, expected {config}")
            elif case["via"] == "convert":
                check(sd_mecha.convert(node, config) is node, "converting to the config of the state dict is not the identity: the config has not been recognised")
            else:
                out = sd_mecha.merge(node, merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, omit_ema=False, threads=0, total_buffer_size=2**18)
                check(set(out) == set(config.keys()), lambda: f"output keys: missing {sorted(set(config.keys()) - set(out))[:4]}, unexpected {sorted(set(out) - set(config.keys()))[:4]}")
    return f"{case['via']} {'alias' if set(names) != set(names.values()) else ''}"


# --------------------------------------------------------------------- selection of the output keys
@st.composite
def select_cases(draw):
    n = draw(st.integers(1, 9))
    comps = ["model", "vae", "ema"][:draw(st.integers(1, 3))]
    keys = [{"name": f"{'k' if draw(st.booleans()) else 'a'}{i}", "component": draw(st.sampled_from(comps)), "optional": draw(st.booleans()), "aliases": draw(st.integers(0, 2))} for i in range(n)]
    models = []
    complete = draw(st.booleans())
    for _ in range(draw(st.integers(1, 3))):
        models.append({
            "have": [draw(st.sampled_from(["key", "key", "alias", "alias2", "all", "all aliases"] + ([] if complete else ["no", "optional"]))) for _ in keys],
            "extra": draw(st.lists(st.integers(0, 3), max_size=3, unique=True)), "store": draw(st.sampled_from(["mem", "file"])), "space": "weight", "dtype": draw(st.sampled_from(["float32", "float64", "float16"])),
        })
    return {"keys": keys, "models": models, "op": draw(st.sampled_from(["first", "sum", "sum", "sum", "fallback", "or"])), "omit_extra": draw(st.sampled_from([None, True, False])), "omit_ema": draw(st.sampled_from([None, True, False])),
            "mandatory": draw(st.sampled_from([None, True, True, False])), "explicit": draw(st.sampled_from(["object", "object", "id", "one", "none"])), "threads": draw(st.sampled_from([0, 3])), "seed": draw(st.integers(0, 999)),
            "output": draw(st.sampled_from(["mem", "mem", "file"]))}


def aliases_of(key):
    return [f"old.{key['name']}.{j}" for j in range(key["aliases"])]


def run_select(case):
    config_keys = {k["name"]: k for k in case["keys"]}
    if len(config_keys) < len(case["keys"]):
        return None
    components = {}
    for k in case["keys"]:
        components.setdefault(k["component"], {})[k["name"]] = {"shape": [2], "dtype": "float32", "aliases": aliases_of(k), "optional": k["optional"]}
    config = model_configs.ModelConfigImpl(identifier="mvs-select", components=components)
    register = case["explicit"] != "object"
    op = case["op"]
    used = case["models"][:{"first": 1, "fallback": 2}.get(op)]
    loaded, raw, missing_mandatory = [], [], False
    for n, m in enumerate(used):
        data, names = {}, {}
        for i, (k, have) in enumerate(zip(case["keys"], m["have"])):
            if have == "no" or have == "optional" and k["optional"]:
                missing_mandatory |= not k["optional"]
                continue
            al = aliases_of(k)
            name = k["name"] if have in ("key", "optional", "all") or not al else al[min(int(have == "alias2"), len(al) - 1)]
            if have in ("all", "all aliases"):
                # the names that come later hold something else
                for j, other in enumerate(al[al.index(name) + 1:] if name in al else al):
                    data[other] = torch.tensor([500 + i, j], dtype=getattr(torch, m["dtype"]))
            data[name] = torch.tensor([case["seed"] % 50 + 10 * n + i, -i], dtype=getattr(torch, m["dtype"]))
            names[k["name"]] = data[name]
        for e in m["extra"]:
            data[f"extra.{e}"] = torch.tensor([1000 + 100 * n + e], dtype=getattr(torch, m["dtype"]))
        loaded.append(names)
        raw.append(data)
    explicit = case["explicit"]
    if any(not d or len(d) < 8 and explicit in ("none", "one") or len(d) < 2 * len(case["models"][n]["extra"]) for n, d in enumerate(raw)) or explicit == "none" and any(not n for n in loaded):
        explicit = "id" if register else "object"
    omit_extra = case["omit_extra"] if case["omit_extra"] is not None else True
    omit_ema = case["omit_ema"] if case["omit_ema"] is not None else omit_extra
    options = {k: v for k, v in (("omit_extra_keys", case["omit_extra"]), ("omit_ema", case["omit_ema"]), ("check_mandatory_keys", case["mandatory"])) if v is not None}
    try:
        if register:
            model_configs.register_aux(config)
        with scratch() as d:
            nodes = []
            for n, (m, data) in enumerate(zip(used, raw)):
                given = None if explicit == "none" or explicit == "one" and n > 0 else config if explicit == "object" else config.identifier
                if m["store"] == "file":
                    stf.save(d / f"m{n}.safetensors", data)
                    data = d / f"m{n}.safetensors"
                nodes.append(sd_mecha.model(data, given))
            fallback = None
            if op == "sum":
                node = sd_mecha.n_average(*nodes) if len(nodes) != 2 else sd_mecha.weighted_sum(nodes[0], nodes[1], alpha=0.25)
            elif op == "or":
                node = nodes[0]
                for other in nodes[1:]:
                    node = node | other
            else:
                node = nodes[0]
                fallback = nodes[1] if len(nodes) > 1 else None
            output = d / "out.safetensors" if case["output"] == "file" else None
            if fallback is not None:
                options["fallback_model"] = fallback
            if case["seed"] % 16:
                options["total_buffer_size"] = 2 ** (10 + case["seed"] % 7)

            def merge():
                return sd_mecha.merge(node, output=output, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"], **options)

            if case["mandatory"] and missing_mandatory:
                must_raise("merging a model that lacks a mandatory key, with check_mandatory_keys", merge, RuntimeError)
                return "mandatory key missing"
            with sut("merging models of a known config"):
                out = merge()
                if output is not None:
                    out = stf.load(output)[0]
    finally:
        model_configs._model_configs_registry_aux.pop(config.identifier, None)
    want = {}
    for name, k in config_keys.items():
        if omit_ema and k["component"] == "ema":
            continue
        values = [l[name].double() if name in l else None for l in loaded]
        if op == "sum":
            if all(v is not None for v in values):
                want[name] = sum(values) / len(values) if len(values) != 2 else 0.75 * values[0] + 0.25 * values[1]
        else:
            have = [v for v in values if v is not None]
            if have:
                want[name] = have[0]
    config_names = set(config_keys) | {a for k in case["keys"] for a in aliases_of(k)}
    unknown = {}
    if not omit_extra:
        for data in raw:
            for k, v in data.items():
                if k not in config_names:
                    unknown.setdefault(k, []).append(v.double())
        for name in set(config_keys) - set(want):
            # a key of the config that the recipe cannot compute may be forwarded as well
            if name in out and not (omit_ema and config_keys[name]["component"] == "ema"):
                have = [l[name].double() for l in loaded if name in l]
                check(any(torch.equal(out[name].double(), v) for v in have), lambda: f"{name}: {out[name].tolist()} is not the tensor of any input")
                out = {k: v for k, v in out.items() if k != name}
    expected = set(want) | set(unknown)
    check(set(out) == expected, lambda: f"output keys: missing {sorted(expected - set(out))}, unexpected {sorted(set(out) - expected)} (omit_extra_keys={omit_extra}, omit_ema={omit_ema})")
    for k, w in want.items():
        check(torch.allclose(out[k].double(), w, rtol=1e-12, atol=0), lambda: f"{k}: expected {w.tolist()}, got {out[k].tolist()}")
        check(out[k].dtype == torch.float64, lambda: f"{k}: dtype {out[k].dtype}")
    for k, vs in unknown.items():
        if op == "sum" and len(vs) == len(raw):
            # every input has it: it is merged like the other keys
            vs = [sum(vs) / len(vs) if len(vs) != 2 else 0.75 * vs[0] + 0.25 * vs[1]]
            check(torch.allclose(out[k].double(), vs[0], rtol=1e-12, atol=0), lambda: f"unknown key {k}: expected {vs[0].tolist()}, got {out[k].tolist()}")
            continue
        check(any(torch.equal(out[k].double(), v) for v in vs), lambda: f"unknown key {k}: {out[k].tolist()} is not one of {[v.tolist() for v in vs]}")
    aliased = any(set(l) - set(r) for l, r in zip(loaded, raw))
    if not want:
        return None
    return f"{op}{' aliases' if aliased else ''}{' extra' if unknown else ''}{' ema' if any(k['component'] == 'ema' for k in case['keys']) else ''}"


# --------------------------------------------------------------------- state dicts of no known config
@st.composite
def structural_cases(draw):
    models = [{"keys": draw(st.lists(st.integers(0, 7), min_size=1, max_size=8, unique=True)), "store": draw(st.sampled_from(["mem", "file"]))} for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        for m in models[1:]:
            m["keys"] = sorted(set(m["keys"]) | {models[0]["keys"][0]})
    elif len(models) == 3 and draw(st.booleans()):
        # the first two share nothing
        models[0]["keys"], models[1]["keys"] = sorted(k for k in models[0]["keys"] if k < 4) or [0], sorted(k for k in models[1]["keys"] if k >= 4) or [7]
    return {"models": models, "op": draw(st.sampled_from(["sum", "sum", "scale", "slerp", "or", "or", "fallback"])), "known": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "threads": draw(st.sampled_from([0, 3])), "repeat": draw(st.booleans())}


def run_structural(case):
    models = [{f"zz.part{i}.w": torch.tensor([float(case["seed"] + 10 * n + i), -1.0], dtype=torch.float64) for i in m["keys"]} for n, m in enumerate(case["models"])]
    shared = set(models[0]).intersection(*models)
    with scratch() as d:
        nodes = []
        for n, (m, data) in enumerate(zip(case["models"], models)):
            if m["store"] == "file":
                stf.save(d / f"m{n}.safetensors", data)
                data = d / f"m{n}.safetensors"
            nodes.append(sd_mecha.model(data))
        if case["op"] == "scale":
            node, shared = sd_mecha.weighted_sum(nodes[0], nodes[0], alpha=0.5), set(models[0])
            want = {k: models[0][k] for k in shared}
        elif case["op"] in ("or", "fallback"):
            node = nodes[0]
            for other in nodes[1:len(nodes) if case["op"] == "or" else -1]:
                node = node | other
            want = {k: models[0][k] for k in shared}
        else:
            node = sd_mecha.n_average(*nodes)
            want = {k: sum(m[k] for m in models) / len(models) for k in shared}
        for _ in range(2 if case["repeat"] else 1):
            with sut("merging state dicts of no known config"):
                out = sd_mecha.merge(node, fallback_model=nodes[-1] if case["op"] == "fallback" else None, merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, threads=case["threads"], total_buffer_size=2**18)
            check(set(out) == set(want), lambda: f"output keys {sorted(out)}, expected the shared keys {sorted(want)}")
            for k, w in want.items():
                check(torch.allclose(out[k], w, rtol=1e-12, atol=1e-12), lambda: f"{k}: expected {w.tolist()}, got {out[k].tolist()}")
    return bool(shared) and f"{len(models)} models, {len(shared)} shared keys"


SUBS = [
    Sub("recognise", infer_cases(), run_infer, 300, rule="a state dict with all the keys of a registered config"),
    Sub("select", select_cases(), run_select, 2400, rule="some output key is expected, or a mandatory key is missing"),
    Sub("structural", structural_cases(), run_structural, 300, rule="at least one key shared by all the inputs"),
]
