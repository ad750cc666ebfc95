"""Generated tensors for the numerical methods, and their evaluation through a real merge."""
import numpy as np
import torch
import sd_mecha
from hypothesis import strategies as st
from . import recipes as R

SHAPES = [[], [1], [5], [8], [3, 4], [4, 3], [1, 5], [5, 1], [2, 3, 2], [3, 2, 1, 1], [2, 3, 3, 3], [2, 17], [6, 6]]
KINDS = ["randn"] * 8 + ["int"] * 3 + ["zero", "const", "sparse", "same", "neg", "scale", "near", "tiny", "big", "onehot", "ones"]
EPS = {"float64": 2.0 ** -52, "float32": 2.0 ** -23}


@st.composite
def key_cases(draw, n, shapes=SHAPES, kinds=KINDS):
    return {"shape": draw(st.sampled_from(shapes)), "kinds": [draw(st.sampled_from(kinds)) for _ in range(n)], "seed": draw(st.integers(0, 99999))}


def arrays(kc, store="float32"):
    """the tensors of one key, one per model, as float64 arrays that are exact in the type they are stored in"""
    res = []
    shape = tuple(kc["shape"])
    for i, kind in enumerate(kc["kinds"]):
        rng = np.random.default_rng([kc["seed"], i])
        x = np.asarray(rng.standard_normal(shape))
        if kind == "int":
            x = np.asarray(rng.integers(-3, 4, shape)).astype(np.float64)
        elif kind == "zero":
            x = np.zeros(shape)
        elif kind == "ones":
            x = np.ones(shape)
        elif kind == "const":
            x = np.full(shape, float(rng.integers(-4, 5)) / 2)
        elif kind == "sparse":
            x = x * (rng.random(shape) < 0.4)
        elif kind == "onehot":
            x = np.zeros(shape)
            x.reshape(-1)[int(rng.integers(0, x.size))] = 1.5
        elif kind == "tiny":
            x = x * 1e-3
        elif kind == "big":
            x = x * 1e3
        elif kind in ("same", "neg", "scale", "near") and res:
            x = {"same": res[0], "neg": -res[0], "scale": res[0] * 2.5, "near": res[0] + 1e-3 * x}[kind]
        x = np.asarray(x, dtype=np.float64) + 0.0
        res.append(torch.from_numpy(np.array(x)).to(getattr(torch, store)).double().numpy())
    return res


@st.composite
def weights(draw, values=(0.0, 0.25, 0.5, 0.9, 1.0, 1.5, -0.5, 0.1)):
    kind = draw(st.sampled_from(["number", "number", "number", "dict", "dict", "scalar", "elementwise", "elementwise", "default"]))
    return {"kind": kind, "values": [draw(st.one_of(st.sampled_from(list(values)), st.floats(min(values), max(values)).map(lambda x: round(x, 3)))) for _ in range(4)], "seed": draw(st.integers(0, 999))}


def weight_of(w, n, shape, default):
    """value of the weight for the nth key, as an array"""
    if w["kind"] == "default":
        return np.asarray(default)
    if w["kind"] in ("number", "scalar"):
        return np.asarray(w["values"][0])
    if w["kind"] == "dict":
        return np.asarray(w["values"][n % 4])
    rng = np.random.default_rng([w["seed"], n])
    return rng.choice(np.array(w["values"]), tuple(shape))


def weight_arg(w, keys):
    """the argument of the recipe: {} when the default is used"""
    if w["kind"] == "default":
        return None
    if w["kind"] == "number":
        return w["values"][0]
    if w["kind"] == "scalar":
        return torch.tensor(w["values"][0], dtype=torch.float64)
    if w["kind"] == "dict":
        return {k: w["values"][n % 4] for n, (k, _) in enumerate(keys)}
    return sd_mecha.model({k: torch.from_numpy(np.array(weight_of(w, n, shape, 0.0))) for n, (k, shape) in enumerate(keys)}, R.free_config(), "param")


def names(case):
    return list(zip(R.FREE_KEYS, (kc["shape"] for kc in case["keys"])))


def inputs(case, spaces, store="float32"):
    """-> nodes, {key: [arrays]}"""
    values = {k: arrays(kc, store) for (k, _), kc in zip(names(case), case["keys"])}
    nodes = [sd_mecha.model({k: torch.from_numpy(np.array(v[i])).to(getattr(torch, store)) for k, v in values.items()}, R.free_config(), s) for i, s in enumerate(spaces)]
    return nodes, values


def evaluate(node, dtype, threads=0):
    out = sd_mecha.merge(node, merge_dtype=getattr(torch, dtype), output_dtype=None, strict_weight_space=False, threads=threads, check_finite=False)
    return out


def amax(*xs):
    return max([float(np.max(np.abs(x))) if np.size(x) else 0.0 for x in xs] + [0.0])


def describe(x):
    x = np.asarray(x)
    return f"{x.flatten()[:8].tolist()} (shape {x.shape})"
