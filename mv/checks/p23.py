import functools
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods, model_configs
from ..core import Sub, sut, check, must_raise, scratch
from .. import st as stf

ASSUMPTIONS = [
    "the EMA counterpart of a live key of sd1-ldm is written from the format of the checkpoints: 'model.' is replaced by 'model_ema.' and the dots of the rest are removed",
    "exchanging a key whose counterpart is missing from the model leaves out the key, as for every missing tensor",
]
PARTS = {
    "diffuser": ["model.diffusion_model.input_blocks.0.0.weight", "model.diffusion_model.input_blocks.0.0.bias", "model.diffusion_model.out.2.weight", "model.diffusion_model.time_embed.0.bias", "model.diffusion_model.input_blocks.11.0.weight"],
    "vae": ["first_stage_model.decoder.conv_in.weight", "first_stage_model.decoder.conv_in.bias"],
    "clip_l": ["cond_stage_model.transformer.text_model.final_layer_norm.weight", "cond_stage_model.model.w"],
    "scheduler": ["betas", "alphas_cumprod", "model_weight"],
}


def ema_name(k):
    return "model_ema." + "".join(k.split(".")[1:])


@functools.cache
def config(kind):
    """small configs: the identifier selects the EMA names, 'overlap' has a key in two components"""
    if kind == "real":
        return model_configs.resolve("sd1-ldm")
    key = lambda k: {"shape": [2], "dtype": "float32", "aliases": ["old." + k] if k.endswith("weight") else [], "optional": not k.startswith("model.diff")}
    parts = {n: {k: key(k) for k in ks} for n, ks in PARTS.items()}
    live = PARTS["diffuser"]
    parts["ema"] = {ema_name(k): key(ema_name(k)) for k in (live[:-1] if kind == "sd1" else live)} | {"model_ema.decay": key("model_ema.decay"), "model_ema.num_updates": key("model_ema.num_updates")}
    if kind == "overlap":
        parts["vae"][live[0]] = key(live[0])
    return model_configs.ModelConfigImpl(identifier="sd1-ldm" if kind == "sd1" else f"mvx-{kind}", components=parts)


def components(kind):
    return {n: list(c.keys()) for n, c in config(kind).components().items()}


def partner(kind, k):
    """the key whose tensor a key gets"""
    keys = config(kind).keys()
    if kind in ("sd1", "real"):
        if k.startswith("model."):
            return ema_name(k) if ema_name(k) in keys else k
        if k.startswith("model_ema."):
            for x in keys:
                if x.startswith("model.") and ema_name(x) == k:
                    return x
    return k


@functools.cache
def partners(kind):
    keys = list(config(kind).keys())
    if kind in ("sd1", "real"):
        there = {k: ema_name(k) for k in keys if k.startswith("model.") and ema_name(k) in keys}
    else:
        there = {}
    return there | {v: k for k, v in there.items()}


OPS = {"pick": 1, "omit": 1, "ema": 1, "ema twice": 1, "wsum": 2, "or": 2, "split": 1, "parts": 1, "swap": 2}


@st.composite
def cases(draw, kinds=("sd1", "sd1", "plain", "overlap"), max_ops=5):
    kind = draw(st.sampled_from(kinds))
    parts = list(components(kind))
    models = [{"seed": draw(st.integers(0, 999)), "without": draw(st.lists(st.sampled_from(parts), unique=True, max_size=2)) if draw(st.booleans()) else [], "drop": draw(st.sampled_from([0, 0, 2, 3, 5])), "alias": draw(st.booleans()), "file": draw(st.integers(0, 3)) == 0} for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for i in range(draw(st.integers(1, max_ops))):
        op = draw(st.sampled_from(sorted(OPS)))
        # what comes last is used most
        args = [len(models) + i - 1 if draw(st.booleans()) else draw(st.integers(0, len(models) + i - 1)) for _ in range(OPS[op])]
        ops.append([op, args, draw(st.sampled_from(parts))])
    return {"kind": kind, "models": models, "ops": ops, "threads": draw(st.sampled_from([0, 0, 2])), "omit_ema": draw(st.sampled_from([False, False, False, True])), "save": draw(st.integers(0, 4)) == 0}


def present(case, m, i):
    kind = case["kind"]
    comps = components(kind)
    gone = {k for p in m["without"] for k in comps[p]}
    g = torch.Generator().manual_seed(m["seed"])
    res = {}
    for j, k in enumerate(config(kind).keys()):
        v = torch.randint(-50, 50, [2], generator=g).double()
        if k not in gone and (not m["drop"] or (j + m["seed"]) % m["drop"]):
            res[k] = v
    return res


def reference(case, sds):
    kind = case["kind"]
    comps, pair = components(kind), partners(kind)
    vals = list(sds)
    exchange = lambda sd: {k: sd[pair.get(k, k)] for k in config(kind).keys() if pair.get(k, k) in sd}
    for op, args, c in case["ops"]:
        xs = [vals[i] for i in args]
        if op == "pick":
            r = {k: v for k, v in xs[0].items() if k in comps[c]}
        elif op == "omit":
            r = {k: v for k, v in xs[0].items() if k not in comps[c]}
        elif op == "ema":
            r = exchange(xs[0])
        elif op in ("ema twice", "split", "parts"):
            r = xs[0]
        elif op == "wsum":
            r = {k: xs[0][k] * .75 + xs[1][k] * .25 for k in xs[0] if k in xs[1]}
        elif op == "or":
            r = {**xs[1], **xs[0]}
        elif op == "swap":
            r = {k: v for k, v in xs[0].items() if k not in comps[c]} | {k: v for k, v in xs[1].items() if k in comps[c]}
        vals.append(r)
    return vals[-1]


def build(case, models):
    pick, omit, ema = (merge_methods.resolve(x) for x in ("pick_component", "omit_component", "exchange_ema"))
    vals = list(models)
    for op, args, c in case["ops"]:
        xs = [vals[i] for i in args]
        if op == "pick":
            r = pick(xs[0], c)
        elif op == "omit":
            r = omit(xs[0], component=c)
        elif op == "ema":
            r = ema(xs[0])
        elif op == "ema twice":
            r = ema(ema(xs[0]))
        elif op == "wsum":
            r = sd_mecha.weighted_sum(xs[0], xs[1], alpha=0.25)
        elif op == "or":
            r = xs[0] | xs[1]
        elif op == "split":
            r = omit(xs[0], c) | pick(xs[0], c)
        elif op == "parts":
            r = functools.reduce(lambda a, b: a | b, [pick(xs[0], n) for n in components(case["kind"])])
        elif op == "swap":
            r = omit(xs[0], c) | pick(xs[1], c)
        vals.append(r)
    return vals[-1]


def run(case):
    cfg = config(case["kind"])
    sds = [present(case, m, i) for i, m in enumerate(case["models"])]
    if not all(sds):
        return False
    expected = reference(case, sds)
    if case["omit_ema"]:
        expected = {k: v for k, v in expected.items() if k not in components(case["kind"])["ema"]}
    with scratch() as d:
        models = []
        for i, (m, sd) in enumerate(zip(case["models"], sds)):
            aliases = cfg.aliases()
            stored = {(aliases[k][-1] if m["alias"] and aliases.get(k) else k): v for k, v in sd.items()}
            if m["file"]:
                stf.save(d / f"m{i}.safetensors", stored)
            models.append(sd_mecha.model(d / f"m{i}.safetensors" if m["file"] else stored, cfg))
        with sut("recipe"):
            node = build(case, models)
        with sut("merge"):
            out = sd_mecha.merge(node, threads=case["threads"], merge_dtype=torch.float64, output_dtype=torch.float64, omit_ema=case["omit_ema"], strict_weight_space=False, output=d / "o.safetensors" if case["save"] else None, total_buffer_size=2 ** 14)
        if case["save"]:
            out = stf.load(d / "o.safetensors")[0]
    check(set(out) == set(expected), lambda: f"keys of {case}: missing {sorted(set(expected) - set(out))[:5]}, unexpected {sorted(set(out) - set(expected))[:5]}")
    for k, v in expected.items():
        check(torch.equal(out[k], v), lambda: f"{case}: key {k}: {out[k].tolist()}, expected {v.tolist()}")
    kinds = {o[0] for o in case["ops"]}
    return bool(expected) and ("ema" if "ema" in kinds and partners(case["kind"]) else "components" if kinds & {"pick", "omit", "swap", "split", "parts"} else "ema" if "ema twice" in kinds else False)


# --------------------------------------------------------------- unknown components
@st.composite
def unknown(draw):
    kind = draw(st.sampled_from(["sd1", "plain", "overlap", "structural"]))
    known = list(components(kind)) if kind != "structural" else []
    name = draw(st.one_of(st.text("abcdefghijklmnopqrstuvwxyz_. ", max_size=8), st.sampled_from([k[:-1] for k in known] + [k + " " for k in known] + [k.upper() for k in known] + ["all", "", "model", "unet"])))
    return {"kind": kind, "method": draw(st.sampled_from(["pick_component", "omit_component"])), "name": name, "under": draw(st.sampled_from(["", "", "wsum", "ema", "to"])), "threads": draw(st.sampled_from([0, 2])), "empty": draw(st.booleans())}


def run_unknown(case):
    kind, name = case["kind"], case["name"]
    if kind == "structural":
        a = sd_mecha.model({f"mvk.{i}": torch.ones(2) for i in range(4)})
    else:
        if name in components(kind):
            return False
        keys = list(config(kind).keys())
        a = sd_mecha.model({k: torch.ones(2) for k in keys[:1 if case["empty"] else None]}, config(kind))

    def go():
        node = merge_methods.resolve(case["method"])(a, name)
        if case["under"] == "wsum":
            node = sd_mecha.weighted_sum(a, node, alpha=0.5)
        elif case["under"] == "ema":
            node = merge_methods.resolve("exchange_ema")(node)
        elif case["under"] == "to":
            node = node.to(dtype=torch.float32)
        return sd_mecha.merge(node, threads=case["threads"])
    e = must_raise(f"{case}: unknown component", go, ValueError)
    check(not name or name in str(e), lambda: f"{case}: the error does not name the component: {e}")
    return f"{case['method']} {kind}"


SUBS = [
    Sub("recipes", cases(), run, 700, rule="components or EMA weights take part, and the result is not empty"),
    Sub("sd1-ldm", cases(kinds=("real",), max_ops=3), run, 24, thorough=240, rule="as above, with the registered config"),
    Sub("unknown components", unknown(), run_unknown, 240, rule="the config has no such component"),
]
