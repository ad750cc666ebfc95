import itertools
import math
import numpy as np
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods
from ..core import Sub, sut, check, must_raise
from .. import numeric as N
from .p17 import exact

ASSUMPTIONS = [
    "limits of regions that fall exactly between two rows may be rounded either way",
    "the choice of maximum-delta selection is not checked where both magnitudes are equal up to rounding, nor for tensors without variance; the white variant is compared to its formula for tensors whose covariance is well conditioned",
    "crossover interpolates scalars and nearly equal tensors with the tilt instead of a filter: only the bounds of the result are checked there, for tilts between 0 and 1",
]


def run_with(case, spaces, kw, dtype, varargs=()):
    nodes, values = N.inputs(case, spaces)
    return N.evaluate(merge_methods.resolve(case["method"])(*nodes, **kw), dtype, case.get("threads", 0)), values


# --------------------------------------------------------------- clamp
@st.composite
def clamp_cases(draw):
    n = draw(st.integers(1, 5))
    return {"method": "clamp", "n": n, "keys": draw(st.lists(N.key_cases(n + 1, kinds=["randn", "randn", "int", "int", "zero", "const", "same", "neg", "big", "near"]), min_size=1, max_size=5)),
            "stiffness": draw(st.sampled_from([None, 0.0, 0.0, 1.0, 0.5, 0.25, 0.9])), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "space": draw(st.sampled_from(["weight", "delta"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def run_clamp(case):
    kw = {} if case["stiffness"] is None else {"stiffness": case["stiffness"]}
    s, eps = kw.get("stiffness", 0.0), N.EPS[case["dtype"]]
    with sut("clamp"):
        out, values = run_with(case, [case["space"]] * (case["n"] + 1), kw, case["dtype"])
    changed = 0
    for k, (x, *bounds) in values.items():
        got = out[k].double().numpy()
        hi, lo = np.max(bounds, axis=0), np.min(bounds, axis=0)
        what = lambda: f"clamp({N.describe(x)}; {', '.join(map(N.describe, bounds))}; stiffness {s}, {case['dtype']}): {N.describe(got)}"
        check(got.shape == x.shape, what)
        tol = 10 * eps * N.amax(*bounds) if s else 0
        check(bool(((got >= lo - tol) & (got <= hi + tol)).all()), lambda: f"{what()} is not between the bounds")
        if not s:
            check(bool((got == np.clip(x, lo, hi)).all()), lambda: f"{what()}, expected {N.describe(np.clip(x, lo, hi))}")
        else:
            # the bounds move towards the closest ones around the average
            ok = np.zeros(x.shape, bool)
            avg = np.mean(bounds, axis=0)
            # averages of one, two or four small dyadic numbers are exact
            total = np.sum(bounds, axis=0)
            d = np.where(exact(bounds) & ((total % len(bounds) == 0) | (len(bounds) in (1, 2, 4))), 0, 8 * eps * N.amax(*bounds))
            for u, v in itertools.product((-d, 0, d), repeat=2):
                up = np.min([np.where(b >= avg + u, b, hi) for b in bounds], axis=0)
                down = np.max([np.where(b <= avg + v, b, lo) for b in bounds], axis=0)
                want = np.minimum(np.maximum(x, (1 - s) * lo + s * down), (1 - s) * hi + s * up)
                ok |= np.abs(got - want) <= 10 * eps * N.amax(x, *bounds)
            check(bool(ok.all()), what)
        changed += bool((got != x).any() and (got == x).any())
    return changed and f"stiffness {s}"


# --------------------------------------------------------------- regions
def region_ends(width, offset, n):
    """-> all the acceptable (first index, number of indices) of a circular region of n"""
    if width < 0:
        offset, width = offset + width, -width
    width = min(width, 1)
    if offset < 0:
        offset = 1 + offset - int(offset)
    offset = math.fmod(offset, 1)

    def rounded(x):
        f = math.floor(x)
        return {f, f + 1} if abs(x - f - 0.5) < 1e-9 else {round(x)}
    if width + offset <= 1:
        return [(s, e, False) for s in rounded(offset * n) for e in rounded((width + offset) * n)], width + offset
    return [(s, e, True) for s in rounded((width + offset - 1) * n) for e in rounded(offset * n)], width + offset


WIDTHS = [None, 0.0, 0.5, 1.0, 0.25, 0.75, 1.5, -0.5, -0.25, 0.1, 0.9, 0.333]
OFFSETS = [None, 0.0, 0.5, 0.25, 0.75, 0.9, 1.0, -0.25, -0.5, 1.25, -1.25, 0.1, 3.5]


@st.composite
def region_cases(draw):
    return {"method": draw(st.sampled_from(["tensor_sum", "top_k_tensor_sum"])), "keys": draw(st.lists(N.key_cases(2, shapes=N.SHAPES + [[20], [7, 2]], kinds=["randn"] * 6 + ["int", "int", "sparse", "neg", "zero", "const"]), min_size=1, max_size=5)),
            "width": draw(st.one_of(st.sampled_from(WIDTHS), st.floats(-1, 1.2).map(lambda x: round(x, 3)))), "offset": draw(st.one_of(st.sampled_from(OFFSETS), st.floats(-2, 2).map(lambda x: round(x, 3)))),
            "dtype": draw(st.sampled_from(["float64", "float32"])), "space": draw(st.sampled_from(["weight", "delta"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def run_region(case):
    kw = {k: case[k] for k in ("width", "offset") if case[k] is not None}
    top_k = case["method"] == "top_k_tensor_sum"
    width, offset = kw.get("width", 1.0 if top_k else 0.5), kw.get("offset", 0.0)
    with sut(case["method"]):
        out, values = run_with(case, [case["space"]] * 2, kw, case["dtype"])
        sources, _ = N.inputs(case, [case["space"]] * 2)
    mixed = 0
    for k, (a, b) in values.items():
        got = out[k].double().numpy()
        what = lambda: f"{case['method']}({N.describe(a)}, {N.describe(b)}, width {width}, offset {offset}): {N.describe(got)}"
        check(got.shape == a.shape, what)
        wants = []
        if not top_k and a.ndim == 0:
            wants.append(b if width > 0.5 else a)
        else:
            n = a.size if top_k else a.shape[0]
            ends, total = region_ends(width, offset, n)
            if abs(total - 1) < 1e-9:
                ends = ends + [(s, e, not inv) for s, e, inv in ends] + [(round(offset % 1 * n), n, False)]
            for start, end, inverted in ends:
                if not top_k:
                    rows = np.zeros(n, bool)
                    rows[start:end] = True
                    if inverted:
                        rows = ~rows
                    want = np.where(rows.reshape([-1] + [1] * (a.ndim - 1)), b, a)
                else:
                    # the entries of a whose magnitude is in a range of ranks are permuted into the order of b
                    flat, dist = a.reshape(-1), np.sort(a.reshape(-1))
                    ranks = np.sort(np.abs(flat))
                    first = -1 if start <= 0 else ranks[start - 1]
                    last = -1 if end <= 0 else ranks[end - 1]
                    mask = (first <= np.abs(dist)) & (np.abs(dist) <= last)
                    if inverted:
                        mask = ~mask
                    position = np.argsort(np.argsort(b.reshape(-1), kind="stable"), kind="stable")
                    want = np.where(mask[position], dist[position], flat).reshape(a.shape)
                wants.append(want)
        check(any(bool((got == w).all()) for w in wants), lambda: f"{what()}, expected {N.describe(wants[0])}")
        if top_k and width == 1.0 and offset == 0.0:
            check(bool((np.sort(got.reshape(-1)) == np.sort(a.reshape(-1))).all()), lambda: f"{what()} is not a permutation of the first tensor")
            order = np.argsort(b.reshape(-1), kind="stable")
            check(bool((np.diff(got.reshape(-1)[order]) >= 0).all()), lambda: f"{what()} does not follow the order of the second tensor")
        mixed += bool((got != a).any() and (got != b).any())
    return mixed and f"{case['method']}{' wrapping' if width + offset % 1 > 1 else ''}"


# --------------------------------------------------------------- maximum deltas
@st.composite
def select_cases(draw):
    return {"method": draw(st.sampled_from(["select_max_delta", "select_max_white_delta"])), "keys": draw(st.lists(N.key_cases(2, kinds=["randn"] * 8 + ["int", "int", "sparse", "neg", "scale", "zero", "const", "big"]), min_size=1, max_size=5)),
            "alpha": draw(N.weights((0.0, 0.25, 0.5, 0.75, 1.0))), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def run_select(case):
    eps = N.EPS[case["dtype"]]
    white = "white" in case["method"]
    with sut(case["method"]):
        nodes, values = N.inputs(case, ["delta"] * 2)
        w = N.weight_arg(case["alpha"], N.names(case))
        out = N.evaluate(merge_methods.resolve(case["method"])(*nodes, **({} if w is None else {"alpha": w})), case["dtype"], case["threads"])
    both = 0
    for i, (k, shape) in enumerate(N.names(case)):
        a, b = values[k]
        got = out[k].double().numpy()
        alpha = np.asarray(N.weight_of(case["alpha"], i, shape, 0.5), np.float64)
        alpha = alpha.astype(np.float32).astype(np.float64) if case["dtype"] == "float32" or case["alpha"]["kind"] in ("number", "dict") else alpha
        what = lambda: f"{case['method']}({N.describe(a)}, {N.describe(b)}, weight {N.describe(alpha)}): {N.describe(got)}"
        check(got.shape == a.shape, what)
        check(bool(((got == a) | (got == b)).all()), lambda: f"{what()} is not made of values of the models")
        if a.size == 1:
            continue
        if min(a.std(), b.std()) <= 1e-6 * N.amax(a, b):
            continue
        if white:
            an, bn = (a - a.mean()) / a.std(), (b - b.mean()) / b.std()
            r = np.mean(an * bn)
            if 1 - abs(r) < 1e-2:
                continue
            # inverse square root of the correlation matrix [[1, r], [r, 1]]
            p, q = (1 / np.sqrt(1 + r) + 1 / np.sqrt(1 - r)) / 2, (1 / np.sqrt(1 + r) - 1 / np.sqrt(1 - r)) / 2
            x, y = np.abs(p * an + q * bn), np.abs(q * an + p * bn)
            slack = 1000 * eps / (1 - abs(r)) ** 2
        else:
            x, y = np.abs((a - a.mean()) / a.std(ddof=1)), np.abs((b - b.mean()) / b.std(ddof=1))
            slack = 1e2 * eps * max(1, abs(a.mean()) / a.std(), abs(b.mean()) / b.std())
        x, y = (1 - alpha) * x, alpha * y
        sure = np.abs(x - y) > slack * (1 + N.amax(x, y))
        want = np.where(x >= y, a, b)
        check(bool((got == want)[sure].all()), lambda: f"{what()}, expected {N.describe(want)}")
        both += bool((got != a).any() and (got != b).any())
    return both and case["method"]


# --------------------------------------------------------------- crossover
@st.composite
def crossover_cases(draw):
    return {"method": "crossover", "keys": draw(st.lists(N.key_cases(2, shapes=N.SHAPES + [[9, 8], [4, 3, 5], [2], [7]], kinds=["randn"] * 6 + ["int", "sparse", "neg", "zero", "near", "onehot", "big"]), min_size=1, max_size=5)),
            "alpha": draw(st.one_of(st.sampled_from([None, 0.0, 1.0, 0.5, 0.25, 0.75]), st.floats(0, 1).map(lambda x: round(x, 3)))), "tilt": draw(st.one_of(st.sampled_from([None, 0.0, 1.0, 0.5, 0.25, 0.75, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 5.5, -0.5, -1.0]), st.floats(0, 4).map(lambda x: round(x, 3)))),
            "space": draw(st.sampled_from(["weight", "delta"])), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def radius(shape):
    """normalised frequency of every entry of the half spectrum"""
    gs = []
    for i, s in enumerate(shape):
        if i == len(shape) - 1:
            m = s // 2 + 1
            gs.append(np.linspace(0, 1, m) if m > 1 else np.zeros(1))
        else:
            gs.append(np.abs(np.fft.fftfreq(s, 1 / s)) / max(s // 2, 1))
    return np.sqrt(sum(g ** 2 for g in np.meshgrid(*gs, indexing="ij")) / len(gs))


def ref_filter(shape, alpha, tilt):
    """-> filter, mask of the entries that are away from its discontinuities"""
    r = radius(shape)
    tilt = tilt % 4
    if tilt > 2:
        f, sure = ref_filter(shape, 1 - alpha, tilt - 2 if tilt < 4 - 1e-10 else 2.0)
        # half a turn: the two sides are exchanged
        return 1 - f, sure
    if tilt < 1e-10:
        return (r > 1 - alpha).astype(float), np.abs(r - (1 - alpha)) > 1e-5
    if abs(tilt - 2) < 1e-10:
        return (r < 1 - alpha).astype(float), np.abs(r - (1 - alpha)) > 1e-5
    cot = 1 / math.tan(math.pi * tilt / 2)
    f = alpha + cot * (r - (1 - alpha) if tilt <= 1 else r - alpha)
    return np.clip(f, 0, 1), np.full(r.shape, abs(cot) < 1e4)


def run_crossover(case):
    kw = {k: case[k] for k in ("alpha", "tilt") if case[k] is not None}
    alpha, tilt, eps = kw.get("alpha", 0.5), kw.get("tilt", 0.0), N.EPS[case["dtype"]]
    with sut("crossover"):
        out, values = run_with(case, [case["space"]] * 2, kw, case["dtype"])
    mixed = 0
    for k, (a, b) in values.items():
        got = out[k].double().numpy()
        scale = N.amax(a, b)
        what = lambda: f"crossover({N.describe(a)}, {N.describe(b)}, alpha {alpha}, tilt {tilt}): {N.describe(got)}"
        check(got.shape == a.shape and bool(np.isfinite(got).all()), what)
        want = a if alpha == 0 else b if alpha == 1 else (1 - alpha) * a + alpha * b if tilt == 1 else None
        if want is not None:
            check(bool((np.abs(got - want) <= 10 * eps * scale).all()), lambda: f"{what()}, expected {N.describe(want)}")
            continue
        if a.ndim == 0 or np.allclose(a.astype(np.float16).astype(float), b.astype(np.float16).astype(float), rtol=1.1e-3, atol=1e-6):
            slack = 10 * eps * scale + (0 if a.ndim == 0 else 4 * np.abs(a - b).max())
            if 0 <= tilt <= 1:
                check(bool(((got >= np.minimum(a, b) - slack) & (got <= np.maximum(a, b) + slack)).all()), what)
            continue
        fa, fb, fx = np.fft.rfftn(a), np.fft.rfftn(b), np.fft.rfftn(got)
        tol = (1e-5 + 100 * eps) * a.size * scale
        # every frequency lies between those of the models
        d = fb - fa
        strong = np.abs(d) > 1e-3 * a.size ** 0.5 * scale
        ratio = (fx - fa) / np.where(strong, d, 1)
        check(bool((((np.abs(ratio.imag) <= tol / np.abs(np.where(strong, d, 1))) & (ratio.real >= -tol / np.abs(np.where(strong, d, 1))) & (ratio.real <= 1 + tol / np.abs(np.where(strong, d, 1)))) | ~strong).all()), lambda: f"{what()}: frequencies {np.where(strong, ratio, 0).reshape(-1)[:6]} are not mixed with a factor in [0, 1]")
        f, sure = ref_filter(a.shape, alpha, tilt)
        want = fa + f * d
        check(bool(((np.abs(fx - want) <= tol * (1 + np.abs(1 / math.tan(math.pi * tilt / 2) if 1e-9 < tilt % 2 < 2 - 1e-9 else 0))) | ~sure).all()), lambda: f"{what()}: spectrum {fx.reshape(-1)[:4]}, expected {want.reshape(-1)[:4]} with the filter {f.reshape(-1)[:6]}")
        mixed += bool(np.ptp(f) > 0)
    return mixed and f"tilt in [{math.floor(tilt % 4)}, {math.floor(tilt % 4) + 1})"


@st.composite
def crossover_bad(draw):
    return {"method": "crossover", "keys": [draw(N.key_cases(2, shapes=[[4, 3], [8]], kinds=["randn"]))], "alpha": draw(st.sampled_from([-0.1, 1.1, 2.0, -1.0])), "tilt": draw(st.sampled_from([0.0, 0.5, 2.0, 3.5]))}


def run_crossover_bad(case):
    nodes, _ = N.inputs(case, ["weight"] * 2)
    must_raise(f"crossover with alpha {case['alpha']}", lambda: N.evaluate(sd_mecha.crossover(*nodes, alpha=case["alpha"], tilt=case["tilt"]), "float64"))
    return True


SUBS = [
    Sub("clamp", clamp_cases(), run_clamp, 800, rule="some elements are clamped and others are not"),
    Sub("regions", region_cases(), run_region, 1300, rule="the result differs from both models"),
    Sub("select", select_cases(), run_select, 800, rule="the result takes values of both models"),
    Sub("crossover", crossover_cases(), run_crossover, 1000, rule="the filter is not constant"),
    Sub("crossover bounds", crossover_bad(), run_crossover_bad, 24, rule="any case"),
]
