import functools
import numpy as np
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods
from ..core import Sub, sut, check
from .. import numeric as N

ASSUMPTIONS = [
    "inputs are stored in float32 and merged in float64 or float32; the references are float64 formulas in numpy",
    "slerp between opposite tensors and multiply-quotient or geometric sums with a negative weight of a zero tensor have no limit: only the finiteness of the former is required, the latter are not generated",
]


def lerp(a, b, w):
    return (1 - w) * a + w * b


def ref_slerp(a, b, w, eps):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na == 0 or nb == 0:
        return lerp(a, b, w), 0
    ah, bh = a / na, b / nb
    # stable angle
    omega = 2 * np.arctan2(np.linalg.norm(ah - bh), np.linalg.norm(ah + bh))
    if omega < 1e-9:
        return lerp(a, b, w), 2 * omega
    s = np.sin(omega)
    if np.pi - omega < 1e-3:
        return None, 0
    # the error of the angle is eps / sin(omega), that of the quotient is bounded by it times cot(omega)
    extra = 40 * eps / s ** 2 if omega > 2 else 0
    # below the square root of eps, the computed angle is not significant and the limit (linear) is as good
    extra += 2 * omega if omega < 4 * np.sqrt(eps) else 0
    res = (ah * np.sin((1 - w) * omega) + bh * np.sin(w * omega)) / s * lerp(na, nb, w)
    return res, extra


def ref_perpendicular(a, b, _, eps):
    n = np.linalg.norm(a)
    return (np.zeros_like(a) if n == 0 else b - a * np.sum(a / n * (b / n))), 0


def cpow(x, w):
    x, w = np.broadcast_arrays(x, w)
    res = np.where(w == 0, 1.0 + 0j, np.where(x == 0, 0j, np.exp(w * np.log(np.where(x == 0, 1, x).astype(np.complex128)))))
    return res


def ref_geometric(a, b, w, eps):
    return (cpow(a, 1 - w) * cpow(b, w)).real, 0


def cos_dim0(a, b):
    num = np.sum(a * b, axis=0) if a.ndim else a * b
    den = (np.sqrt(np.sum(a * a, axis=0)) * np.sqrt(np.sum(b * b, axis=0))) if a.ndim else np.abs(a) * np.abs(b)
    return np.where(den == 0, 0.0, num / np.where(den == 0, 1, den))


def ref_cosine_a(a, b, w, eps):
    k = 1 - np.clip(cos_dim0(a, b) - w, 0, 1)
    return lerp(a, b, k), 0


def ref_cosine_b(a, b, w, eps):
    den = np.linalg.norm(a) * np.linalg.norm(b)
    whole = 0.0 if den == 0 else np.sum(a * b) / den
    k = 1 - np.clip((cos_dim0(a, b) + whole) / 2 - w, 0, 1)
    return lerp(a, b, k), 0


def ratio(x, y):
    return np.where(y == 0, 0.0, x / np.where(y == 0, 1, y))


def ref_train(a, b, c, w, eps):
    return 1.8 * w * ratio(np.abs(b - a), np.abs(b - a) + np.abs(b - c)), 0


def ref_opposite(a, b, c, w, eps):
    d = np.abs(a - b) + np.abs(a + b - 2 * c)
    return 2 * w * ratio(np.abs(a - b), d), 10 * eps * np.abs(w) * ratio(np.abs(a) + np.abs(b) + 2 * np.abs(c), d)


def ref_strict(a, b, c, w, eps):
    t = np.maximum(np.abs(a - c), np.abs(b - c))
    return 2 * w * np.maximum(ratio((c - a) * (b - c), t ** 2), 0), 0


def ref_quotient(a, b, c, w, eps):
    ok = (a != 0) & (b != 0) & (c != 0)
    a1, b1, c1 = (np.where(ok, x, 1.0) for x in (a, b, c))
    la, lb = np.log(np.abs(a1)) - np.log(np.abs(c1)), np.log(np.abs(b1)) - np.log(np.abs(c1))
    t = np.maximum(np.abs(la), np.abs(lb))
    k = w * np.maximum(-ratio(la * lb, t ** 2), 0)
    # the exponent is ill conditioned where both logarithms vanish
    noise = np.where(t < 1e-2, 1.0, np.where(t == 0, 0.0, 8 * eps / np.where(t == 0, 1, t)))
    res = (a1 * cpow(b1 / c1, k)).real
    spread = np.abs(res) * 0 + noise * np.maximum(np.abs(a1), np.abs(res)) * (np.abs(lb) + np.where(b1 / c1 < 0, np.pi, 0)) * np.abs(w)
    spread = np.where((la == 0) | (lb == 0), np.where(t < 1e-2, spread, 0), spread)
    return np.where(ok, res, a), spread


METHODS = {
    # name: (tensors, spaces, default weight, reference(a, b, ..., w, eps) -> (value, extra tolerance))
    "weighted_sum": (2, ["weight"] * 2, 0.5, lambda a, b, w, eps: (lerp(a, b, w), 0)),
    "slerp": (2, ["weight"] * 2, 0.5, ref_slerp),
    "add_difference": (2, ["weight", "delta"], 1.0, lambda a, b, w, eps: (a + w * b, 0)),
    "subtract": (2, ["weight"] * 2, None, lambda a, b, w, eps: (a - b, 0)),
    "perpendicular_component": (2, ["delta"] * 2, None, ref_perpendicular),
    "geometric_sum": (2, ["weight"] * 2, 0.5, ref_geometric),
    "add_cosine_a": (2, ["weight"] * 2, 1.0, ref_cosine_a),
    "add_cosine_b": (2, ["weight"] * 2, 1.0, ref_cosine_b),
    "train_difference_mask": (3, ["weight"] * 3, 1.0, ref_train),
    "add_opposite_mask": (3, ["weight"] * 3, 1.0, ref_opposite),
    "add_strict_opposite_mask": (3, ["weight"] * 3, 1.0, ref_strict),
    "multiply_quotient": (3, ["weight"] * 3, 1.0, ref_quotient),
}
UNIT = ("geometric_sum", "multiply_quotient")


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(METHODS)))
    n = METHODS[name][0]
    values = (0.0, 0.25, 0.5, 0.75, 1.0, 0.995, 0.004) if name in UNIT else (0.0, 0.25, 0.5, 0.9, 1.0, 1.5, -0.5, 0.1, 0.995, 1.003, 0.004)
    return {"method": name, "keys": draw(st.lists(N.key_cases(n), min_size=1, max_size=6)), "weight": draw(N.weights(values)), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "by": draw(st.sampled_from(["name", "position"])), "threads": draw(st.sampled_from([0, 0, 0, 2]))}


def run(case):
    n, spaces, default, ref = METHODS[case["method"]]
    eps = N.EPS[case["dtype"]]
    with sut(f"merging with {case['method']}"):
        nodes, values = N.inputs(case, spaces)
        method = merge_methods.resolve(case["method"])
        w = None if default is None else N.weight_arg(case["weight"], N.names(case))
        if w is None:
            node = method(*nodes)
        elif case["by"] == "position" and case["method"] != "slerp":
            node = method(*nodes, w)
        else:
            node = method(*nodes, alpha=w)
        out = N.evaluate(node, case["dtype"], case["threads"])
    check(set(out) == set(values), lambda: f"keys {sorted(out)}, expected {sorted(values)}")
    interesting = False
    for i, ((k, shape), kc) in enumerate(zip(N.names(case), case["keys"])):
        xs = values[k]
        alpha = None if default is None else N.weight_of(case["weight"], i, shape, default)
        if alpha is not None:
            alpha = alpha.astype(np.float32).astype(np.float64) if case["dtype"] == "float32" or case["weight"]["kind"] in ("number", "dict", "default") else alpha
        got = out[k]
        check(str(got.dtype) == f"torch.{case['dtype']}", lambda: f"{case['method']}: {k} has dtype {got.dtype}")
        got = got.double().numpy()
        want, extra = ref(*xs, alpha, eps)
        what = lambda: f"{case['method']}({', '.join(N.describe(x) for x in xs)}; weight {None if alpha is None else N.describe(alpha)}, {case['dtype']})"
        check(got.shape == tuple(shape), lambda: f"{what()}: shape {got.shape}")
        check(bool(np.isfinite(got).all()), lambda: f"{what()}: the result is not finite: {N.describe(got)}")
        if want is None:
            continue
        want = np.broadcast_to(want, shape)
        scale = N.amax(*xs, want) * (1 + (N.amax(alpha) if alpha is not None else 0))
        tol = 200 * eps * scale + np.asarray(extra) * (scale if np.ndim(extra) == 0 else 1)
        if case["method"].endswith("_mask"):
            tol = 200 * eps * (1 + N.amax(alpha)) + np.asarray(extra)
        err = np.abs(got - want)
        check(bool((err <= tol).all()), lambda: f"{what()}: expected {N.describe(want)}, got {N.describe(got)} (error {err.max():.3g}, tolerance {np.max(tol):.3g})")
        interesting |= want.size > 1 and bool(np.ptp(want) > 0)
    return interesting and f"{case['method']} {case['weight']['kind'] if default is not None else ''}"


# --------------------------------------------------------------- averages of any number of models
@st.composite
def average_cases(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "method": draw(st.sampled_from(["n_average", "geometric_median", "geometric_median"])), "keys": draw(st.lists(N.key_cases(n), min_size=1, max_size=5)), "maxiter": draw(st.sampled_from([None, None, 100, 300, 0, 1, 5])),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "space": draw(st.sampled_from(["weight", "delta"]))}


def objective(x, points):
    return sum(np.linalg.norm(x - p) for p in points)


def best_objective(points):
    """Weiszfeld with the rule of Vardi and Zhang at the data points, run to convergence"""
    x = np.mean(points, axis=0)
    best = min([objective(x, points)] + [objective(p, points) for p in points])
    for _ in range(400):
        d = np.array([np.linalg.norm(x - p) for p in points])
        d = np.maximum(d, 1e-12)
        x = sum(p / q for p, q in zip(points, d)) / np.sum(1 / d)
        best = min(best, objective(x, points))
    return best


def run_average(case):
    eps = N.EPS[case["dtype"]]
    kw = {"maxiter": case["maxiter"]} if case["method"] == "geometric_median" and case["maxiter"] is not None else {}
    with sut(f"merging with {case['method']}"):
        nodes, values = N.inputs(case, [case["space"]] * case["n"])
        out = N.evaluate(merge_methods.resolve(case["method"])(*nodes, **kw), case["dtype"])
    check(set(out) == set(values), lambda: f"keys {sorted(out)}, expected {sorted(values)}")
    for (k, shape), kc in zip(N.names(case), case["keys"]):
        xs = values[k]
        got = out[k].double().numpy()
        what = lambda: f"{case['method']}({', '.join(N.describe(x) for x in xs)}; {kw}, {case['dtype']})"
        scale = N.amax(*xs)
        check(got.shape == tuple(shape) and bool(np.isfinite(got).all()), lambda: f"{what()}: got {N.describe(got)}")
        mean = np.mean(xs, axis=0)
        if case["method"] == "n_average" or kw.get("maxiter") == 0 or case["n"] == 1:
            check(bool((np.abs(got - mean) <= 100 * eps * scale).all()), lambda: f"{what()}: expected the mean {N.describe(mean)}, got {N.describe(got)}")
            continue
        f, f_mean = objective(got, xs), objective(mean, xs)
        slack = 1000 * eps * scale * max(1, got.size) ** 0.5 * case["n"] + 2e-6 * case["n"]
        check(f <= f_mean + slack, lambda: f"{what()}: the result is farther from the models than their mean ({f:.6g} > {f_mean:.6g})")
        if kw.get("maxiter", 100) >= 100:
            best = best_objective(xs)
            check(f <= best * 1.02 + slack, lambda: f"{what()}: sum of distances {f:.6g}, but {best:.6g} is possible: {N.describe(got)}")
        # a convex combination of the models
        lo, hi = np.min(xs, axis=0), np.max(xs, axis=0)
        check(bool((got >= lo - 100 * eps * scale).all() and (got <= hi + 100 * eps * scale).all()), lambda: f"{what()}: not between the models: {N.describe(got)}")
    return case["n"] > 2 and f"{case['method']} of {case['n']}"


# --------------------------------------------------------------- laws that need no reference
@st.composite
def law_cases(draw):
    return {"law": draw(st.sampled_from(["slerp norm", "slerp ends", "perpendicular", "mask add", "quotient same", "geometric ends", "cosine equal"])), "keys": draw(st.lists(N.key_cases(3, kinds=["randn", "randn", "int", "big", "tiny"]), min_size=1, max_size=4)), "w": draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]))}


def run_law(case):
    M = merge_methods.resolve
    law, w = case["law"], case["w"]
    delta = law == "perpendicular"
    with sut(law):
        (a, b, c), values = N.inputs(case, ["delta" if delta else "weight"] * 3)
        merge = lambda node: {k: v.double().numpy() for k, v in N.evaluate(node, "float64").items()}
        if law == "slerp norm":
            res = merge(M("slerp")(a, b, alpha=w))
        elif law == "slerp ends":
            res, res1 = merge(M("slerp")(a, b, alpha=0.0)), merge(M("slerp")(a, b, alpha=1.0))
        elif law == "perpendicular":
            res = merge(M("perpendicular_component")(a, b))
        elif law == "mask add":
            res = merge(M("add_difference")(a, M("subtract")(b, a), alpha=M("train_difference_mask")(a, b, c, alpha=w)))
        elif law == "quotient same":
            res = merge(M("multiply_quotient")(a, b, b, alpha=w))
        elif law == "geometric ends":
            res, res1 = merge(M("geometric_sum")(a, b, alpha=0.0)), merge(M("geometric_sum")(a, b, alpha=1.0))
        else:
            res = merge(M("add_cosine_a")(a, a, alpha=w))
    for k, (x, y, z) in values.items():
        r = res[k]
        tol = 1e-9 * N.amax(x, y, z, r) + 1e-300
        close = lambda p, q: bool((np.abs(p - q) <= tol).all())
        what = lambda: f"{law}: {N.describe(x)}, {N.describe(y)}, {N.describe(z)}, weight {w}: {N.describe(r)}"
        nx, ny = np.linalg.norm(x), np.linalg.norm(y)
        if law == "slerp norm":
            if nx and ny and abs(np.sum(x * y) / nx / ny) < 0.999:
                check(abs(np.linalg.norm(r) - lerp(nx, ny, w)) <= 1e-9 * (nx + ny), lambda: f"{what()}: norm {np.linalg.norm(r)}, expected {lerp(nx, ny, w)}")
        elif law in ("slerp ends", "geometric ends"):
            check(close(r, x) and close(res1[k], y), lambda: f"{what()} and {N.describe(res1[k])} are not the two inputs")
        elif law == "perpendicular":
            check(abs(np.sum(r * x)) <= 1e-9 * (nx * ny + nx * nx), what)
        elif law == "mask add":
            t = np.where(np.abs(y - x) + np.abs(y - z) == 0, 0, 1.8 * w * np.abs(y - x) / np.where(np.abs(y - x) + np.abs(y - z) == 0, 1, np.abs(y - x) + np.abs(y - z)))
            check(close(r, x + t * (y - x)), lambda: f"{what()}, expected {N.describe(x + t * (y - x))}")
        elif law in ("quotient same", "cosine equal"):
            check(close(r, x), what)
    return law


SUBS = [
    Sub("formulas", cases(), run, 4000, rule="the expected result of some key has several distinct values"),
    Sub("averages", average_cases(), run_average, 800, rule="at least three models"),
    Sub("laws", law_cases(), run_law, 600, rule="any case"),
]
