import numpy as np
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods
from ..core import Sub, sut, check, must_raise
from .. import numeric as N, recipes as R

ASSUMPTIONS = [
    "the base methods themselves are checked by P16 to P19; here they are applied to differences that are computed by the harness and given as models in delta space",
    "the tensors are compared up to 1e-6, because numbers reach the methods in single precision, and where a method is discontinuous (trimming, ranks) its inputs are exact",
]
FUNCTIONS = ["add_difference", "add_difference", "add_perpendicular", "add_difference_ties", "add_difference_ties_extended", "add_difference_ties_extended", "copy_region", "copy_region", "tensor_sum", "rotate", "dropout", "ties_with_dare", "ties_with_dare", "n_model_stock"]
# documented defaults
DEFAULTS = {
    "add_difference": {"alpha": 1.0, "clamp_to_ab": False},
    "add_perpendicular": {"alpha": 1.0},
    "add_difference_ties": {"alpha": 1.0, "k": 1.0},
    "add_difference_ties_extended": {"alpha": 1.0, "k": 0.2, "vote_sgn": False, "apply_stock": False, "cos_eps": 1e-6, "apply_median": False, "eps": 1e-6, "maxiter": 100, "ftol": 1e-20},
    "copy_region": {"width": 1.0, "offset": 0.0, "top_k": False},
    "rotate": {"alignment": 1.0, "alpha": 0.0},
    "dropout": {"probability": 0.9, "alpha": 0.5, "overlap": 1.0, "overlap_emphasis": 0.0, "seed": None},
    "ties_with_dare": {"probability": 0.9, "rescale": True, "alpha": 1.0, "seed": None, "k": 1.0, "vote_sgn": False, "apply_stock": False, "cos_eps": 1e-6, "apply_median": False, "eps": 1e-6, "maxiter": 100, "ftol": 1e-20},
    "n_model_stock": {"cos_eps": 1e-6},
}
DEFAULTS["tensor_sum"] = DEFAULTS["copy_region"]
OPTIONS = {
    "k": [0.2, 0.5, 0.75, 1.0, 0.05], "vote_sgn": [True, False], "apply_stock": [True, False], "apply_median": [True, False], "cos_eps": [1e-6, 0.5, 10.0, 200.0], "eps": [1e-6, 0.3, 4.0, 50.0], "maxiter": [100, 1, 3, 0], "ftol": [1e-20, 0.1, 0.01],
    "width": [0.0, 0.25, 0.5, 1.0, 0.1], "offset": [0.0, 0.3, 0.5, 0.75], "top_k": [True, False], "alignment": [1.0, 0.5, 0.0, 2.0], "probability": [0.9, 0.0, 0.5, 0.25], "overlap": [1.0, 0.0, 0.5], "overlap_emphasis": [0.0, 0.5, 1.0],
    "rescale": [True, False], "clamp_to_ab": [True, True, False],
}
SHAPES = [[5], [8], [3, 4], [4, 3], [2, 3, 2], [3, 2, 1, 1], [6, 6], []]
MATRICES = [[3, 4], [4, 3], [3, 3], [2, 3, 2, 2], [5, 1], [4, 4, 1, 1]]


@st.composite
def cases(draw):
    f = draw(st.sampled_from(FUNCTIONS))
    if f in ("add_difference", "copy_region", "tensor_sum", "rotate"):
        n = draw(st.sampled_from([2, 3, 3]))
    elif f == "add_perpendicular":
        n = 3
    else:
        n = 1 + draw(st.integers(2, 4))
    # most of the models of a key differ by exact numbers
    kinds = ["int", "int", "int", "sparse int", "randn", "same"] if f not in ("rotate", "add_perpendicular") else ["randn", "randn", "int"]
    keys = draw(st.lists(N.key_cases(n, shapes=MATRICES if f == "rotate" else SHAPES, kinds=[k for k in kinds if k != "sparse int"]), min_size=1, max_size=3))
    options = {}
    # most of the options only matter in some modes
    mode = draw(st.sampled_from([None, "apply_stock", "apply_median", "apply_median"])) if "apply_median" in DEFAULTS[f] else None
    for k in DEFAULTS[f]:
        if k == mode:
            options[k] = True
            continue
        if draw(st.integers(0, 3 if mode else 1)) == 0:
            continue
        if k == "alpha":
            options[k] = {"kind": "number", "values": [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0]))] * 4, "seed": 0} if f == "rotate" else draw(N.weights())
        elif k == "seed":
            options[k] = draw(st.integers(0, 9999))
        else:
            options[k] = draw(st.sampled_from(OPTIONS[k]))
    if "seed" in DEFAULTS[f]:
        options["seed"] = draw(st.integers(0, 9999))
    pair = f in ("copy_region", "tensor_sum", "rotate") and n == 2
    return {"f": f, "keys": keys, "n": n, "options": options, "spaces": [draw(st.sampled_from(["weight", "weight", "delta"])) for _ in range(n)], "same_space": draw(st.sampled_from(["weight", "delta"])) if pair else None,
            "missing": [draw(st.integers(0, 9)) for _ in range(n)], "threads": draw(st.sampled_from([0, 0, 2])), "nested": draw(st.integers(0, 3)) == 0, "cache": draw(st.booleans())}


def spaces_of(case):
    f, n = case["f"], case["n"]
    if case["same_space"]:
        return [case["same_space"]] * n
    if f in ("add_difference_ties", "add_difference_ties_extended", "ties_with_dare", "n_model_stock"):
        return ["weight"] + case["spaces"][1:]
    if f == "add_difference" and n == 2:
        return ["weight", "delta"]
    return ["weight"] * n


def run(case):
    f, n, names = case["f"], case["n"], N.names(case)
    spaces = spaces_of(case)
    values = [{} for _ in range(n)]
    for j, ((k, _), kc) in enumerate(zip(names, case["keys"])):
        for i, x in enumerate(N.arrays(kc, "float64")):
            # a missing key stays missing: never from everything
            if case["missing"][i] != j or j == 0:
                values[i][k] = torch.from_numpy(np.array(x))
    cfg = R.free_config()
    nodes = [sd_mecha.model(v, cfg, s) for v, s in zip(values, spaces)]
    if case["nested"]:
        nodes = [sd_mecha.weighted_sum(x, x, alpha=0.5) for x in nodes]
    given = {k: (N.weight_arg(v, names) if k == "alpha" and isinstance(v, dict) else v) for k, v in case["options"].items()}
    given = {k: v for k, v in given.items() if v is not None}
    if isinstance(given.get("alpha"), dict):
        given["alpha"] = sd_mecha.literal(given["alpha"], cfg)
    opts = DEFAULTS[f] | given

    def merged(node):
        return sd_mecha.merge(node, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, threads=case["threads"], check_finite=False)

    def alpha_of(j, shape):
        w = case["options"].get("alpha")
        return torch.from_numpy(np.array(N.weight_of(w, j, shape, DEFAULTS[f]["alpha"]) if w else np.asarray(DEFAULTS[f]["alpha"])))

    def delta(sds):
        return [sd_mecha.model(x, cfg, "delta") for x in sds]

    def base(method, sds, **kw):
        node = merge_methods.resolve(method)(*delta(sds), **kw)
        return merged(node)
    minus = lambda x, y: {k: x[k] - y[k] for k in x if k in y}
    call = getattr(sd_mecha, f)
    if f == "add_difference" and n == 2 and opts["clamp_to_ab"]:
        def go():
            return merged(call(*nodes, **given))
        must_raise(f"{case}: clamping to models of different merge spaces", go, TypeError)
        return "add_difference with an impossible clamp"
    extra = {}
    if f == "rotate" and case["cache"]:
        extra["cache"] = {}
    with sut(f"{case}: {f}"):
        node = call(*nodes, **given, **extra)
        got = merged(node)
        if extra:
            again = merged(node)
            if opts["alignment"] in (0.0, 1.0):
                # what is cached is rounded to half precision
                check(set(got) == set(again) and all(torch.allclose(got[k], again[k], rtol=0, atol=2e-2 * (1 + N.amax(got[k].numpy()))) for k in got), lambda: f"{case}: another result with the cache")
            used = opts["alignment"] == 1.0 and set(case["keys"][0]["kinds"]) == {"randn"} and case["keys"][0]["shape"] == [3, 4]
            check(extra["cache"] or not used, lambda: f"{case}: the cache is not used")
    with sut(f"{case}: base method of {f}"):
        a = values[0]
        deltas = [v if s == "delta" else minus(v, a) for v, s in zip(values[1:], spaces[1:])]
        space = "weight"
        if f == "add_difference":
            step = values[1] if n == 2 else minus(values[1], values[2])
            start = a
        elif f == "add_perpendicular":
            step = base("perpendicular_component", [minus(a, values[2]), minus(values[1], values[2])])
            start = a
        elif f == "add_difference_ties":
            step, start = base("ties_sum", deltas, k=opts["k"]), a
        elif f == "add_difference_ties_extended":
            step, start = base("ties_sum_extended", deltas, **{k: v for k, v in opts.items() if k != "alpha"}), a
        elif f in ("copy_region", "tensor_sum", "rotate"):
            if n == 3:
                pair = [minus(a, values[2]), minus(values[1], values[2])]
                start = values[2]
            else:
                pair, start, space = values, None, spaces[0]
            method = "rotate" if f == "rotate" else "top_k_tensor_sum" if opts["top_k"] else "tensor_sum"
            kw = {k: v for k, v in opts.items() if k != "top_k"}
            if "alpha" in kw:
                kw["alpha"] = float(alpha_of(0, []))
            step = base(method, pair, **kw)
        elif f == "dropout":
            step, start = base("dropout", deltas, **{k: v for k, v in opts.items() if k != "alpha"}), a
        elif f == "ties_with_dare":
            step, start = base("ties_sum_with_dropout", deltas, no_rescale=not opts["rescale"], **{k: v for k, v in opts.items() if k not in ("alpha", "rescale")}), a
        elif f == "n_model_stock":
            step, start = base("model_stock", deltas, **opts), a
    check(node.merge_space.identifier == space, lambda: f"{case}: the result is in {node.merge_space} space")
    want = {}
    for j, (k, shape) in enumerate(names):
        if k not in step or (start is not None and k not in start):
            continue
        if start is None:
            want[k] = step[k]
            continue
        w = alpha_of(j, shape) if "alpha" in DEFAULTS[f] and f != "rotate" else torch.tensor(1.0, dtype=torch.float64)
        want[k] = start[k] + w * step[k]
        if f == "add_difference" and opts["clamp_to_ab"]:
            lo, hi = torch.minimum(a[k], values[1][k]), torch.maximum(a[k], values[1][k])
            want[k] = torch.minimum(torch.maximum(want[k], lo), hi)
    check(set(got) == set(want), lambda: f"{case}: keys {sorted(got)}, expected {sorted(want)}")
    busy = False
    for k, w in want.items():
        tol = 1e-6 * (1 + N.amax(w.numpy(), *[v[k].numpy() for v in values if k in v]))
        check(got[k].shape == w.shape, lambda: f"{case}: {k} has shape {tuple(got[k].shape)}, expected {tuple(w.shape)}")
        same = torch.isclose(got[k], w, rtol=0, atol=tol, equal_nan=True)
        check(bool(same.all()), lambda: f"{case}: {k}: {N.describe(got[k].numpy())}, expected {N.describe(w.numpy())}")
        busy |= bool((w != values[0].get(k, w)).any())
    return busy and f"{f} of {n}{', deltas' if 'delta' in spaces else ''}"


# --------------------------------------------------------------- operators
@st.composite
def operator_cases(draw):
    op = draw(st.sampled_from(["+", "-", "|", "radd", "rsub", "ror"]))
    return {"op": op, "swap": draw(st.booleans()), "keys": draw(st.lists(N.key_cases(3, shapes=SHAPES, kinds=["int", "randn"]), min_size=1, max_size=3)), "missing": [draw(st.integers(0, 5)) for _ in range(3)], "threads": draw(st.sampled_from([0, 2]))}


def run_operator(case):
    names = N.names(case)
    values = [{} for _ in range(2)]
    for j, ((k, _), kc) in enumerate(zip(names, case["keys"])):
        for i, x in enumerate(N.arrays(kc, "float64")[:2]):
            if case["missing"][i] != j or j == 0:
                values[i][k] = torch.from_numpy(np.array(x))
    op = case["op"]
    plus = op in ("+", "radd")
    spaces = ["weight", "delta"] if plus else ["weight", "weight"]
    a, b = (sd_mecha.model(v, R.free_config(), s) for v, s in zip(values, spaces))
    with sut(f"{case}"):
        if op == "+":
            node = b + a if case["swap"] else a + b
        elif op == "radd":
            node = a.__radd__(b) if case["swap"] else b.__radd__(a)
        elif op == "-":
            node = a - b
        elif op == "rsub":
            node = b.__rsub__(a)
        elif op == "|":
            node = a | b
        else:
            node = b.__ror__(a)
        out = sd_mecha.merge(node, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, threads=case["threads"])
    both = [k for k in values[0] if k in values[1]]
    if plus:
        want = {k: values[0][k] + values[1][k] for k in both}
    elif op in ("-", "rsub"):
        want = {k: values[0][k] - values[1][k] for k in both}
    else:
        want = {**values[1], **values[0]}
    check(node.merge_space.identifier == ("delta" if op in ("-", "rsub") else "weight"), lambda: f"{case}: the result is in {node.merge_space} space")
    check(set(out) == set(want), lambda: f"{case}: keys {sorted(out)}, expected {sorted(want)}")
    for k, w in want.items():
        check(torch.equal(out[k], w), lambda: f"{case}: {k}: {N.describe(out[k].numpy())}, expected {N.describe(w.numpy())}")
    return op


SUBS = [
    Sub("functions", cases(), run, 3000, rule="the result differs from the first model, or the call has to be rejected"),
    Sub("operators", operator_cases(), run_operator, 300, rule="every case"),
]
