import functools
import random
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import model_configs, merge_methods
from ..core import Sub, sut, scratch, check
from .. import layouts as L, st as stf

METHOD = {p: f"convert_'{p[0]}'_to_'{p[1]}'" for p in L.PAIRS[:3]} | {L.PAIRS[3]: "convert_flux_to_backbone_only", L.PAIRS[4]: "convert_flux_backbone_to_full"}


@functools.cache
def table(pair):
    """-> [(source key, target key, slot, operation)] for every source key, with None as target when there is none"""
    src = model_configs.resolve(pair[0])
    return [(k, *(L.counterpart(*pair, k) or (None, None, None))) for k in sorted(src.keys())]


@functools.cache
def targets(pair):
    res = {}
    for k, t, slot, op in table(pair):
        if t is not None:
            res.setdefault(t, {})[slot or 0] = (k, op)
    fused = {t for k, t, slot, op in table(pair) if slot is not None}
    for t in fused:
        for i in range(3):
            res[t].setdefault(i, None)
    return res


def expected(pair, tensors):
    """conversion of a dict of tensors, from the correspondence of the layouts"""
    res = {}
    for t, parts in targets(pair).items():
        if any(p is None or p[0] not in tensors for p in parts.values()):
            continue
        xs = []
        for i in sorted(parts):
            x = tensors[parts[i][0]]
            if parts[i][1] == "transpose":
                x = x.mT if x.ndim == 2 else x
            elif parts[i][1] == "conv1x1":
                x = x[:, :, None, None]
            xs.append(x)
        res[t] = xs[0] if len(xs) == 1 else torch.cat(xs)
    return res


@st.composite
def small_cases(draw):
    pair = draw(st.sampled_from(L.PAIRS))
    keys = sorted(model_configs.resolve(pair[0]).keys())
    how = draw(st.sampled_from(["full", "half", "few", "few", "most"]))
    return {"pair": list(pair), "how": how, "pick": draw(st.lists(st.integers(0, len(keys) - 1), min_size=1, max_size=12, unique=True)), "seed": draw(st.integers(0, 9999)),
            "dtype": draw(st.sampled_from(["float32", "float16", "float64", "bfloat16"])), "store": draw(st.sampled_from(["mem", "file"])), "recipe": draw(st.sampled_from(["model", "model", "sum", "method", "delta", "infer"])),
            "target": draw(st.sampled_from(["id", "config"])), "threads": draw(st.sampled_from([0, 2]))}


def chosen(case, keys):
    """keys of the model: the fused projections of the picked keys are kept whole most of the time"""
    rng = random.Random(case["seed"])
    if case["how"] == "full" or case["recipe"] == "infer":
        return keys
    if case["how"] == "half":
        return [k for k in keys if rng.random() < 0.5]
    picked = {keys[i] for i in case["pick"]}
    if case["how"] == "most":
        return [k for k in keys if k not in picked]
    for k in sorted(picked):
        for a in "qkv":
            for b in "qkv":
                if rng.random() < 0.9 and f".{a}_proj." in k and k.replace(f".{a}_proj.", f".{b}_proj.") in keys:
                    picked.add(k.replace(f".{a}_proj.", f".{b}_proj."))
    return sorted(picked)


def tensors_of(case, keys, config, salt=0):
    rng = random.Random(f"{case['seed']}/{salt}")
    g = torch.Generator().manual_seed(case["seed"] * 10 + salt)
    meta = config.keys()
    res = {}
    for n, k in enumerate(keys):
        shape = [1 if s == 1 else 1 + (s * 7 + case["seed"]) % 3 for s in meta[k].shape]
        t = torch.randint(-100, 100, shape, generator=g).to(getattr(torch, case["dtype"]))
        res[k] = t
    return res


def run_small(case):
    pair = tuple(case["pair"])
    src, dst = map(model_configs.resolve, pair)
    keys = chosen(case, sorted(src.keys()))
    data = tensors_of(case, keys, src)
    with scratch() as d:
        def model(tensors, name, space="weight"):
            if case["store"] == "file":
                stf.save(d / f"{name}.safetensors", tensors)
                tensors = d / f"{name}.safetensors"
            return sd_mecha.model(tensors, None if case["recipe"] == "infer" else src, space)

        space = "delta" if case["recipe"] == "delta" else "weight"
        with sut("building and merging a valid recipe"):
            node = model(data, "a", space)
            want_data = data
            if case["recipe"] == "sum":
                other = tensors_of(case, keys, src, 1)
                node = sd_mecha.weighted_sum(node, model(other, "b"), alpha=2.0)
                want_data = {k: (2 * other[k].to(torch.float64) - data[k].to(torch.float64)) for k in keys}
            if case["recipe"] == "method":
                node = merge_methods.resolve(METHOD[pair])(node)
            else:
                node = sd_mecha.convert(node, dst if case["target"] == "config" else dst.identifier)
            check(node.model_config is dst, lambda: f"the result has the config {node.model_config}")
            check(node.merge_space.identifier == space, lambda: f"the result is in {node.merge_space}")
            dtype = torch.float64 if case["recipe"] == "sum" else None
            out = sd_mecha.merge(node, merge_dtype=dtype, merge_device=None, output_dtype=None, output_device=None, threads=case["threads"], strict_weight_space=False, omit_ema=False)
    want = expected(pair, want_data)
    check(set(out) == set(want), lambda: f"keys of the conversion: missing {sorted(set(want) - set(out))[:5]}, unexpected {sorted(set(out) - set(want))[:5]}")
    for k in want:
        if not stf.same_tensor(out[k], want[k]):
            names = [s for s, t in want_data.items() if t.numel() == out[k].numel() and torch.equal(t.flatten(), out[k].flatten())]
            check(False, f"{k}: expected the tensor(s) of {[p[0] for p in targets(pair)[k].values()]} with shape {tuple(want[k].shape)}, got {tuple(out[k].shape)} {out[k].dtype} (that of {names[:3]})")
    fused = any(len(targets(pair)[k]) > 1 for k in want)
    return bool(want) and f"{pair[0]} {case['how']}{' fused' if fused else ''}"


# -------------------------------------------------------------------- real shapes
@st.composite
def shape_cases(draw):
    pair = draw(st.sampled_from(L.PAIRS))
    return {"pair": list(pair), "part": draw(st.integers(0, 7)), "seed": draw(st.integers(0, 99))}


def run_shapes(case):
    """an eighth of the model, with the real shapes (every tensor holds one repeated value)"""
    pair = tuple(case["pair"])
    src, dst = map(model_configs.resolve, pair)
    names = sorted(targets(pair))
    rng = random.Random(case["seed"])
    rng.shuffle(names)
    names = names[case["part"]::8]
    data = {}
    for t in names:
        for part in targets(pair)[t].values():
            meta = src.keys()[part[0]]
            data[part[0]] = torch.tensor(float(len(data) % 1000), dtype=torch.float32).expand(meta.shape)
    with sut("converting a model"):
        node = sd_mecha.convert(sd_mecha.model(data, src), dst)
        out = sd_mecha.merge(node, merge_dtype=None, merge_device=None, output_dtype=None, output_device=None, threads=0, check_finite=False)
    check(set(out) == set(names), lambda: f"keys differ: {sorted(set(out) ^ set(names))[:5]}")
    for t in names:
        check(tuple(out[t].shape) == tuple(dst.keys()[t].shape), lambda: f"{t} has shape {tuple(out[t].shape)}, the config declares {tuple(dst.keys()[t].shape)}")
        parts = targets(pair)[t]
        first = lambda x, i: x[(i, *[0] * (x.ndim - 1))] if x.ndim else x
        last = lambda x, i: x[(i, *[-1] * (x.ndim - 1))] if x.ndim else x
        for i in parts:
            v = first(data[parts[i][0]], 0)
            n = out[t].shape[0] // len(parts) if out[t].ndim else 0
            check(first(out[t], i * n) == v and last(out[t], (i + 1) * n - 1) == v, lambda: f"{t}: part {i} is not {parts[i][0]}")
    return pair[0]


SUBS = [
    Sub("models", small_cases(), run_small, quick=320, rule="the output is not empty (class: layout, how many keys the model has, fused projections)"),
    Sub("shapes", shape_cases(), run_shapes, quick=80, rule="all (class: layout)"),
]
