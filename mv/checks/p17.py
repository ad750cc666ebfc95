import itertools
import math
import numpy as np
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods
from ..core import Sub, sut, check
from .. import numeric as N, recipes as R
from .p16 import objective, best_objective

ASSUMPTIONS = [
    "model stock and its variants need at least two deltas; where the interpolation ratio of model stock is a division by nearly zero, the result only has to be finite",
    "an elected sign that depends on the rounding of a sum is not checked",
    "the entries kept by the trimming are those whose magnitude reaches the int((1-k)n)-th smallest one, as in the reference implementation of TIES",
    "vote_sgn keeps the meaning the tests of the repository pin down: False elects the sign of the sum of signs, True the sign of the sum of the deltas",
]


# --------------------------------------------------------------- references
def trim(x, k):
    kth = max(int((1 - k) * x.size), 1)
    return np.where(np.abs(x) >= np.sort(np.abs(x).reshape(-1))[kth - 1], x, 0.0)


def fsum(xs):
    xs = np.stack(xs)
    return np.array([math.fsum(col) for col in xs.reshape(len(xs), -1).T]).reshape(xs.shape[1:])


def exact(xs):
    x = np.stack(xs)
    return bool((x * 16 == np.rint(x * 16)).all() and np.abs(x).max(initial=0) < 2 ** 16)


def ref_ties_parts(deltas, k, vote_sgn, eps):
    """-> deltas that agree with the elected sign, number of them, mask of the elements whose sign is beyond rounding"""
    deltas = [trim(d, k) for d in deltas]
    votes = deltas if vote_sgn else [np.sign(d) for d in deltas]
    total = fsum(votes)
    sure = np.ones(total.shape, bool)
    if vote_sgn and not exact(deltas):
        sure = np.abs(total) > 8 * eps * np.sum(np.abs(deltas), axis=0)
        sure |= np.sum(np.abs(deltas), axis=0) == 0
    sign = np.sign(total)
    agree = [np.where((np.sign(d) == sign) & (d != 0), d, 0.0) for d in deltas]
    count = np.sum([d != 0 for d in agree], axis=0)
    return agree, count, sure


def ref_ties(deltas, k, vote_sgn, eps):
    agree, count, sure = ref_ties_parts(deltas, k, vote_sgn, eps)
    return np.sum(agree, axis=0) / np.maximum(count, 1), sure


def ref_stock_t(deltas, cos_eps):
    """-> ratio per row, distance of its denominator to zero"""
    n = len(deltas)
    cos = []
    for x, y in zip(deltas, deltas[1:]):
        if x.ndim == 0:
            x, y = x.reshape(1), y.reshape(1)
        nx, ny = np.linalg.norm(x, axis=-1), np.linalg.norm(y, axis=-1)
        cos.append(np.sum(x * y, axis=-1) / np.maximum(nx, cos_eps) / np.maximum(ny, cos_eps))
    cos = np.mean(cos, axis=0)
    den = 1 + (n - 1) * cos
    with np.errstate(all="ignore"):
        t = n * cos / den
    return (t[..., None] if deltas[0].ndim else t), (np.abs(den)[..., None] if deltas[0].ndim else np.abs(den))


# --------------------------------------------------------------- ties and model stock
OPTIONS = {"ties_sum": 1.0, "ties_sum_extended": 0.2}
KINDS = ["randn"] * 6 + ["int"] * 5 + ["zero", "sparse", "sparse", "same", "neg", "neg", "tiny", "onehot"]


@st.composite
def ties_cases(draw):
    method = draw(st.sampled_from(["ties_sum", "ties_sum", "ties_sum_extended", "ties_sum_extended", "ties_sum_extended", "model_stock", "ties_sum_with_dropout"]))
    mode = draw(st.sampled_from(["plain", "plain", "stock", "median"])) if method in ("ties_sum_extended", "ties_sum_with_dropout") else "plain"
    n = draw(st.integers(2 if method == "model_stock" or mode == "stock" else 1, 5))
    return {"method": method, "mode": mode, "n": n, "keys": draw(st.lists(N.key_cases(n, kinds=KINDS), min_size=1, max_size=5)),
            "k": draw(st.one_of(st.sampled_from([None, 1.0, 0.2, 0.5, 0.0, 0.75, 0.3]), st.floats(0, 1).map(lambda x: round(x, 2)))), "vote_sgn": draw(st.sampled_from([None, False, True, True])),
            "probability": draw(st.sampled_from([0.0, 0.0, 1.0])), "no_rescale": draw(st.sampled_from([None, True, False])), "cos_eps": draw(st.sampled_from([None, None, 1e-6, 0.5, 10.0])),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "threads": draw(st.sampled_from([0, 0, 0, 2]))}


def run_ties(case):
    method, mode, eps, n = case["method"], case["mode"], N.EPS[case["dtype"]], case["n"]
    kw = {}
    if method != "model_stock":
        kw = {k: case[k] for k in ("k", "vote_sgn") if case[k] is not None}
    if mode != "plain":
        kw[f"apply_{mode}"] = True
    if case["cos_eps"] is not None and (method == "model_stock" or mode == "stock"):
        kw["cos_eps"] = case["cos_eps"]
    if method == "ties_sum_with_dropout":
        kw["probability"] = case["probability"]
        if case["no_rescale"] is not None:
            kw["no_rescale"] = case["no_rescale"]
    with sut(f"merging with {method}"):
        nodes, values = N.inputs(case, ["delta"] * n)
        out = N.evaluate(merge_methods.resolve(method)(*nodes, **kw), case["dtype"], case["threads"])
    check(set(out) == set(values), lambda: f"keys {sorted(out)}, expected {sorted(values)}")
    k = kw.get("k", 0.2 if method != "ties_sum" else 1.0)
    vote_sgn = kw.get("vote_sgn", False)
    cos_eps = kw.get("cos_eps", 1e-6)
    interesting = False
    for key, shape in N.names(case):
        xs = values[key]
        got = out[key].double().numpy()
        what = lambda: f"{method}({', '.join(N.describe(x) for x in xs)}; {kw}, {case['dtype']})"
        check(got.shape == tuple(shape) and bool(np.isfinite(got).all()), lambda: f"{what()}: got {N.describe(got)}")
        scale = N.amax(*xs)
        if method == "ties_sum_with_dropout" and case["probability"] == 1.0:
            check(not got.any(), lambda: f"{what()}: expected zeros, got {N.describe(got)}")
            continue
        if method == "model_stock":
            t, den = ref_stock_t(xs, cos_eps)
            want, sure, extra = np.mean(xs, axis=0) * t, np.broadcast_to(den > 1e-2, shape), 100 * n * n * eps / np.maximum(den, 1e-2) ** 2
        else:
            agree, count, sure = ref_ties_parts(xs, k, vote_sgn, eps)
            interesting |= n > 1 and any((a != x).any() for a, x in zip(agree, xs)) and bool((count > 1).any())
            if mode == "median":
                if sure.all():
                    f, best = objective(got, agree), best_objective(agree)
                    slack = 1000 * eps * scale * max(1, got.size) ** 0.5 * n + 2e-6 * n
                    check(f <= best * 1.02 + slack, lambda: f"{what()}: sum of distances {f:.6g} to the kept deltas, but {best:.6g} is possible: {N.describe(got)}")
                continue
            want, extra = np.sum(agree, axis=0) / np.maximum(count, 1), 0
            if mode == "stock":
                if not sure.all():
                    continue
                t, den = ref_stock_t(agree, cos_eps)
                want, sure, extra = want * t, np.broadcast_to(den > 1e-2, shape), 100 * n * n * eps / np.maximum(den, 1e-2) ** 2
        want = np.where(sure, want, 0)
        tol = 100 * eps * max(scale, N.amax(want)) * n + np.broadcast_to(np.asarray(extra) * scale, shape)
        err = np.where(sure, np.abs(got - want), 0)
        check(bool((err <= tol).all()), lambda: f"{what()}: expected {N.describe(want)}, got {N.describe(got)} (error {err.max():.3g}, tolerance {np.max(tol):.3g})")
        interesting |= method == "model_stock" and bool(want.any())
    return interesting and f"{method} {mode}"


# --------------------------------------------------------------- the order of the models does not matter
@st.composite
def order_cases(draw):
    n = draw(st.integers(2, 5))
    return {"method": draw(st.sampled_from(["ties_sum", "ties_sum_extended", "median", "n_average", "geometric_median", "model_stock"])), "n": n, "keys": draw(st.lists(N.key_cases(n, kinds=["int", "int", "randn", "sparse", "zero"]), min_size=1, max_size=4)),
            "perm": draw(st.permutations(list(range(n)))), "k": draw(st.sampled_from([0.2, 0.5, 0.8, 1.0])), "vote_sgn": draw(st.booleans())}


def run_order(case):
    method, n, perm = case["method"], case["n"], case["perm"]
    if method == "model_stock":
        # the angles are those of consecutive models: reversing them changes nothing
        perm = list(range(n))[::-1]
    kw = {"k": case["k"], "vote_sgn": case["vote_sgn"]} if method.startswith("ties") or method == "median" else {}
    name = "ties_sum_extended" if method == "median" else method
    if method == "median":
        kw["apply_median"] = True
    with sut(method):
        nodes, values = N.inputs(case, ["delta"] * n)
        m = merge_methods.resolve(name)
        x = N.evaluate(m(*nodes, **kw), "float64")
        y = N.evaluate(m(*[nodes[i] for i in perm], **kw), "float64")
    for k, xs in values.items():
        p, q = x[k].numpy(), y[k].numpy()
        sure = np.ones(p.shape, bool)
        tol = 1e-9 * N.amax(*xs)
        if kw:
            agree, _, sure = ref_ties_parts(xs, case["k"], case["vote_sgn"], 2.0 ** -52)
        if method in ("median", "geometric_median"):
            if not sure.all():
                continue
            tol = 1e-3 * N.amax(*xs) + 1e-5
            pts = agree if kw else xs
            # several minimisers when the points are on a line
            check(abs(objective(p, pts) - objective(q, pts)) <= 1e-3 * objective(p, pts) + 1e-5, lambda: f"{method} of {[N.describe(v) for v in xs]}: {N.describe(p)}, permuted {perm}: {N.describe(q)}")
            continue
        if method == "model_stock":
            _, den = ref_stock_t(xs, 1e-6)
            sure = np.broadcast_to(den > 1e-2, p.shape)
            tol = 1e-7 * N.amax(*xs)
        check(bool((np.abs(p - q)[sure] <= tol).all()), lambda: f"{method} {kw} of {[N.describe(v) for v in xs]}: {N.describe(p)}, permuted {perm}: {N.describe(q)}")
    return perm != sorted(perm) and method


# --------------------------------------------------------------- every element of a dropout is that of some subset
@st.composite
def subset_cases(draw):
    method = draw(st.sampled_from(["dropout", "dropout", "dropout", "ties_sum_with_dropout"]))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5]))
    return {"method": method, "n": n, "keys": draw(st.lists(N.key_cases(n, kinds=["randn", "randn", "int", "sparse", "neg"]), min_size=1, max_size=4)),
            "probability": draw(st.one_of(st.sampled_from([None, 0.0, 0.5, 0.9, 1.0, 0.25, 0.9995]), st.floats(0, 1).map(lambda x: round(x, 2)))), "rescale": draw(st.sampled_from([None, 1.0, 0.0, 0.5, 2.0])),
            "overlap": draw(st.sampled_from([None, 1.0, 0.0, 0.5, 0.25, 2.0, 1.5, -0.5, 3.0, 2.3])), "emphasis": draw(st.sampled_from([None, 0.0, 0.5, 1.0])), "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 31))),
            "no_rescale": draw(st.sampled_from([None, False, True])), "vote_sgn": draw(st.booleans()), "torch_seed": draw(st.integers(0, 999)), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def run_subset(case):
    import torch
    method, n, eps = case["method"], case["n"], N.EPS[case["dtype"]]
    p = 0.9 if case["probability"] is None else case["probability"]
    kw = {k: case[k] for k in ("probability", "seed") if case[k] is not None}
    if method == "dropout":
        kw |= {k: case[v] for k, v in (("rescale", "rescale"), ("overlap", "overlap"), ("overlap_emphasis", "emphasis")) if case[v] is not None}
        rescale = 1.0 if p == 1.0 else (1 - p) ** (1.0 if case["rescale"] is None else case["rescale"])
        average = lambda xs: np.mean(xs, axis=0)
    else:
        # with k=1 nothing is trimmed and the vote is elementwise
        kw |= {"k": 1.0, "vote_sgn": case["vote_sgn"]}
        if case["no_rescale"] is not None:
            kw["no_rescale"] = case["no_rescale"]
        rescale = 1.0 if case["no_rescale"] or math.isclose(p, 1) else 1 - p
    with sut(f"merging with {method}"):
        nodes, values = N.inputs(case, ["delta"] * n)
        node = merge_methods.resolve(method)(*nodes, **kw)
        torch.manual_seed(case["torch_seed"])
        np.random.seed(case["torch_seed"])
        out = N.evaluate(node, case["dtype"], case["threads"])
        again = N.evaluate(node, case["dtype"], case["threads"]) if case["seed"] is not None else out
    overlap = 1.0 if case["overlap"] is None else case["overlap"]
    some = False
    for key, shape in N.names(case):
        xs = values[key]
        got = out[key].double().numpy()
        what = lambda: f"{method}({', '.join(N.describe(x) for x in xs)}; {kw}, {case['dtype']})"
        check(got.shape == tuple(shape) and bool(np.isfinite(got).all()), lambda: f"{what()}: got {N.describe(got)}")
        check(torch.equal(out[key], again[key]), lambda: f"{what()}: two results for the same seed: {N.describe(got)} and {N.describe(again[key].double().numpy())}")
        subsets = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
        if p == 1.0:
            subsets = [()]
        elif p == 0.0 and (method != "dropout" or overlap % 2 == 1):
            subsets = [tuple(range(n))]
        elif method == "dropout" and overlap % 2 == 0:
            # disjoint
            subsets = [s for s in subsets if len(s) <= 1 and (p > 0 or len(s) == 1)]
        elif method == "dropout" and p == 0.0:
            subsets = [s for s in subsets if s]
        err = np.full(got.shape, np.inf)
        for s in subsets:
            if method == "dropout":
                want = np.mean([xs[i] for i in s], axis=0) if s else np.zeros(shape)
            else:
                want, sure = ref_ties([x if i in s else np.zeros(shape) for i, x in enumerate(xs)], 1.0, case["vote_sgn"], eps)
                err = np.where(sure, err, 0)
            err = np.minimum(err, np.abs(got - want / rescale))
        tol = 100 * eps * N.amax(*xs) / min(rescale, 1) * n
        check(bool((err <= tol).all()), lambda: f"{what()}: {N.describe(got)} is not made of the {'average' if method == 'dropout' else 'consensus'} of the entries that are kept, divided by {rescale:.4g}")
        some |= got.any()
    return bool(some) and 0 < p < 1 and f"{method} of {n}, overlap {overlap if method == 'dropout' else 'independent'}"


# --------------------------------------------------------------- distribution of the masks
CODES = {n: [10.0 ** i for i in range(n)] for n in range(1, 6)}
SIZE = 100000


def expected_pmf(n, p, overlap, emphasis):
    """probability of each subset (as a bit mask)"""
    sizes = np.array([bin(i).count("1") for i in range(2 ** n)])
    if overlap % 2 == 1:
        return p ** (n - sizes) * (1 - p) ** sizes
    o = overlap % 2
    o = 2 - o if o > 1 else o  # 0: disjoint, 1: identical
    if o == 0:
        w = (sizes == 1) / n
    else:
        w = np.exp(math.tan(math.pi * (o - 0.5)) * (sizes - n / 2)) * (sizes > 0)
        w = w / w.sum()
        if emphasis:
            b = np.array([max(p, 1e-9) ** m * (1 - max(p, 1e-9)) ** (n - m) if m else 0 for m in sizes])
            b = b / b.sum()
            q = 1 - abs(2 * o - 1)
            w = (1 - emphasis) * w + emphasis * ((1 - q) * w + q * b)
    res = w * (1 - p)
    res[0] = p
    return res


@st.composite
def mask_cases(draw):
    return {"method": draw(st.sampled_from(["dropout", "dropout", "ties_sum_with_dropout", "dropout wrapper"])), "n": draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 5])), "probability": draw(st.sampled_from([0.1, 0.3, 0.5, 0.8])), "overlap": draw(st.sampled_from([1.0, 1.0, 0.0, 0.5, 0.5, 0.3, 0.7, 2.0, 1.5, -0.6, 3.0])),
            "emphasis": draw(st.sampled_from([0.0, 0.5, 1.0, 1.0])), "seed": draw(st.integers(0, 2 ** 31))}


def run_mask(case):
    import torch
    n, p, method = case["n"], case["probability"], case["method"]
    codes = CODES[n]
    with sut(f"merging with {method}"):
        models = [sd_mecha.model({R.FREE_KEYS[0]: torch.full((SIZE,), c, dtype=torch.float64)}, R.free_config(), "weight" if "wrapper" in method else "delta") for c in codes]
        if method == "ties_sum_with_dropout":
            node = merge_methods.resolve("ties_sum_with_dropout")(*models, probability=p, k=1.0, no_rescale=True, seed=case["seed"])
        elif method == "dropout":
            node = merge_methods.resolve("dropout")(*models, probability=p, rescale=0.0, overlap=case["overlap"], overlap_emphasis=case["emphasis"], seed=case["seed"])
        else:
            base = sd_mecha.model({R.FREE_KEYS[0]: torch.zeros((SIZE,), dtype=torch.float64)}, R.free_config())
            node = sd_mecha.dropout(base, *models, probability=p, alpha=1 - p, overlap=case["overlap"], overlap_emphasis=case["emphasis"], seed=case["seed"])
        got = N.evaluate(node, "float64")[R.FREE_KEYS[0]].numpy()
    pmf = expected_pmf(n, p, 1.0 if method == "ties_sum_with_dropout" else case["overlap"], case["emphasis"])
    seen = 0
    by_size = np.zeros((n + 1, 2))  # number of entries and their probability
    for i in range(2 ** n):
        chosen = [c for b, c in enumerate(codes) if i >> b & 1]
        value = sum(chosen) / max(len(chosen), 1)
        freq = int((np.abs(got - value) < 1e-5 * (1 + value)).sum())
        seen += freq
        by_size[len(chosen)] += freq, pmf[i]
        sigma = math.sqrt(SIZE * pmf[i] * (1 - pmf[i]))
        check(abs(freq - SIZE * pmf[i]) <= 7 * sigma + 5, lambda: f"{method} {case}: models {[b for b in range(n) if i >> b & 1]} are kept together in {freq} entries of {SIZE}, expected {SIZE * pmf[i]:.1f}")
    for r, (freq, q) in enumerate(by_size):
        check(abs(freq - SIZE * q) <= 6 * math.sqrt(SIZE * q * max(1 - q, 0)) + 5, lambda: f"{method} {case}: {freq:.0f} entries of {SIZE} keep {r} models, expected {SIZE * q:.1f}")
    check(seen == SIZE, lambda: f"{method} {case}: {SIZE - seen} entries are not averages of the deltas")
    return f"{method} of {n}, overlap {case['overlap']}"


# --------------------------------------------------------------- copy_distribution
@st.composite
def copy_cases(draw):
    return {"keys": draw(st.lists(N.key_cases(1, shapes=[[40, 50], [3000], [5, 400, 2]], kinds=["randn", "const", "big", "zero", "tiny"]), min_size=1, max_size=2)), "shift": draw(st.sampled_from([0.0, 5.0, -100.0])), "torch_seed": draw(st.integers(0, 9999))}


def run_copy(case):
    import torch
    with sut("copy_distribution"):
        nodes, values = N.inputs(case, ["weight"])
        shift = sd_mecha.model({k: torch.full(v[0].shape, case["shift"], dtype=torch.float64) for k, v in values.items()}, R.free_config(), "delta")
        torch.manual_seed(case["torch_seed"])
        out = N.evaluate(merge_methods.resolve("copy_distribution")(sd_mecha.add_difference(nodes[0], shift)), "float64")
    for k, (x,) in values.items():
        got = out[k].numpy()
        m, s, n = x.mean() + case["shift"], x.std(), x.size
        what = lambda: f"copy_distribution of a tensor of mean {m:.5g} and deviation {s:.5g}: mean {got.mean():.5g}, deviation {got.std():.5g}"
        check(got.shape == x.shape and abs(got.mean() - m) <= 6 * s / n ** 0.5 + 1e-9 * abs(m), what)
        check(abs(got.std() - s) <= 6 * s / (2 * n) ** 0.5 + 1e-9 * abs(m), what)
    return True


SUBS = [
    Sub("ties", ties_cases(), run_ties, 3200, rule="several deltas, some entries of which are trimmed or outvoted while others are averaged"),
    Sub("order", order_cases(), run_order, 500, rule="the permutation is not the identity"),
    Sub("subsets", subset_cases(), run_subset, 1600, rule="the probability is strictly between 0 and 1 and the result is not zero"),
    Sub("masks", mask_cases(), run_mask, 200, rule="any case"),
    Sub("copy_distribution", copy_cases(), run_copy, 60, rule="any case"),
]
