import math
import numpy as np
import scipy.linalg
import torch
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods
import sd_mecha
from ..core import Sub, sut, check
from .. import numeric as N, recipes as R

ASSUMPTIONS = [
    "fractional powers of a rotation by half a turn are ambiguous: rotations with an eigenvalue close to -1 are not compared",
    "where the optimal alignment is not unique (rank-deficient neurons), the laws are checked (Gram matrix, centroids, optimal inner product) instead of values",
    "weights of rotate are numbers, per tensor",
    "rank truncation uses a randomised decomposition: the median error of several draws may be at most 1.4 times the best possible one",
]
SHAPES = [[8, 3], [6, 5], [5, 5], [4, 5], [3, 9], [4, 24], [2, 30], [9, 2], [12, 4], [1, 6], [6, 1], [3, 4, 2], [10, 2, 2], [6, 4, 1, 1], [4, 5, 3, 3], [2, 3, 3, 3], [3, 40, 1, 1], [2, 1, 5, 5], [30, 6]]
FLAT = [[], [1], [7]]


def shape_2d(shape):
    """rows are neurons; spatial kernels are neurons of a convolution"""
    if len(shape) == 4 and shape[2] * shape[3] != 1:
        return shape[0] * shape[1], shape[2] * shape[3]
    return shape[0], math.prod(shape[1:])


def rotation(rng, n, angle, proper):
    """random orthogonal matrix whose angles are below the given one"""
    x = rng.standard_normal((n, n))
    x = (x - x.T) / 2
    norm = np.linalg.norm(x, 2)
    q = scipy.linalg.expm(x / norm * angle) if n > 1 and norm else np.eye(n)
    if not proper:
        h = rng.standard_normal(n)
        h /= np.linalg.norm(h)
        q = q @ (np.eye(n) - 2 * np.outer(h, h))
    return q


@st.composite
def rotate_cases(draw, relations=("independent", "independent", "rotated", "rotated", "reflected", "rank", "partial", "equal", "near", "zero", "permuted", "scaled"), shapes=SHAPES + FLAT):
    return {"keys": [{"shape": draw(st.sampled_from(shapes)), "relation": draw(st.sampled_from(relations)), "angle": draw(st.sampled_from([0.3, 1.0, 2.0])), "shift": draw(st.booleans()), "seed": draw(st.integers(0, 99999))} for _ in range(draw(st.integers(1, 4)))],
            "alignment": draw(st.one_of(st.sampled_from([None, 0.0, 1.0, 1.0, 2.0, -1.0, 3.0]), st.sampled_from([0.5, 0.25, 0.75, 1.5, -0.5, 0.1, 2.3]))), "alpha": draw(st.sampled_from([None, 0.0, 0.0, 0.0, 1.0, 0.5, 0.25])),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "space": draw(st.sampled_from(["weight", "delta"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def pair(kc, dtype):
    shape, rel = tuple(kc["shape"]), kc["relation"]
    rng = np.random.default_rng(kc["seed"])
    a, b = np.asarray(rng.standard_normal(shape)), np.asarray(rng.standard_normal(shape))
    if kc["shift"]:
        a, b = a + rng.standard_normal(shape[1:] if len(shape) != 4 else ()) if len(shape) > 1 else a + 1, b - 0.5
    if rel == "zero":
        b = np.zeros(shape)
    elif rel == "equal":
        b = a.copy()
    elif rel == "near":
        b = a + 1e-2 * b
    elif rel == "scaled":
        b = a * 2.5
    elif len(shape) > 1:
        n, d = shape_2d(shape)
        x, y = a.reshape(n, d), b.reshape(n, d)
        if rel in ("rotated", "reflected"):
            y = x @ rotation(rng, d, kc["angle"], rel == "rotated") + (rng.standard_normal(d) if kc["shift"] else 0)
        elif rel == "rank":
            r = max(min(n, d) // 2, 1)
            y = rng.standard_normal((n, r)) @ rng.standard_normal((r, d))
        elif rel == "partial":
            y = np.where((np.arange(n) < max(n // 2, 1))[:, None], y, x)
        elif rel == "permuted":
            y = x[:, rng.permutation(d)]
        b = y.reshape(shape)
    store = getattr(torch, dtype)
    return [torch.from_numpy(np.array(x)).to(store) for x in (a, b)]


def reference_rotation(x, y, proper):
    """-> optimal map of the centred neurons x onto y, whether it is unique"""
    u, s, vt = np.linalg.svd(x.T @ y)
    sign = np.sign(np.linalg.det(u) * np.linalg.det(vt))
    unique = s[-1] > 1e-3 * s[0] if s[0] else False
    if proper and sign < 0:
        unique = unique and (len(s) == 1 or s[-2] - s[-1] > 1e-2 * s[0])
        u[:, -1] *= -1
    return u @ vt, bool(unique), s


def verify(kc, a, b, got, p, alpha, dtype, what, tol=None, cached=False):
    """laws of the rotation of a onto b; -> whether they were worth it"""
    eps = N.EPS[dtype]
    a, b, got = a.double().numpy(), b.double().numpy(), got.double().numpy()
    scale = N.amax(a, b)
    tol = tol or 2e4 * eps
    integer = math.isclose(p, round(p))
    check(got.shape == a.shape and bool(np.isfinite(got).all()), what)
    if math.isclose(p, 0) and alpha == 0:
        check(bool((got == a).all()), lambda: f"{what()}: expected the first model unchanged")
        return False
    if math.isclose(p, 1) and alpha == 1:
        check(bool((got == b).all()), lambda: f"{what()}: expected the second model unchanged")
        return False
    if a.ndim <= 1 or kc["relation"] == "equal":
        want = (1 - alpha) * a + alpha * b
        check(bool((np.abs(got - want) <= 100 * eps * scale).all()), lambda: f"{what()}: expected {N.describe(want)}")
        return False
    n, d = shape_2d(a.shape)
    x, y, g = (v.reshape(n, d) for v in (a, b, got))
    mx, my = x.mean(0), y.mean(0)
    cx, cy = x - mx, y - my
    size = scale * (1 + abs(p)) * (n * d) ** 0.5
    # centroids
    err = np.abs(g.mean(0) - ((1 - p) * mx + p * my)).max()
    if alpha == 0 or n > 0:
        check(err <= tol * size, lambda: f"{what()}: centroid {g.mean(0)[:5]}, expected {((1 - p) * mx + p * my)[:5]}")
    cg = g - ((1 - p) * mx + p * my)
    r, unique, s = reference_rotation(cx, cy, not integer)
    # exact values, where the alignment is well defined
    if unique:
        if integer:
            q = np.linalg.matrix_power(r if p >= 0 else r.T, abs(round(p)))
        else:
            lam, vec = np.linalg.eig(r)
            if np.abs(lam + 1).min() < (0.2 if cached else 1e-2):
                q = None
            else:
                # a normal matrix: the Schur form is diagonal, its basis orthogonal
                t, z = scipy.linalg.schur(r.astype(complex), output="complex")
                q = (z @ np.diag(np.exp(p * np.log(np.diag(t)))) @ z.conj().T).real
        if q is not None:
            want = ((1 - alpha) * cx + alpha * cy @ r.T) @ q
            gap = s[-1] / s[0] if integer or len(s) == 1 else min(s[-1], s[-2] - s[-1] if np.linalg.det(np.linalg.svd(cx.T @ cy)[0]) * np.linalg.det(np.linalg.svd(cx.T @ cy)[2]) < 0 else s[-1]) / s[0]
            err = np.abs(cg - want).max()
            check(err <= tol * size * (1 if cached else 1 / max(gap, 1e-3)) * 10, lambda: f"{what()}: expected the centred neurons {N.describe(want)}, got {N.describe(cg)} (error {err:.3g})")
            return True
    if cached:
        return False
    if alpha == 0:
        # the map is orthogonal
        # an arbitrary completion of the alignment may have half turns, unless the neurons are generic
        if integer or kc["relation"] in ("independent", "near", "partial") and dtype == "float64":
            err = np.abs(cg @ cg.T - cx @ cx.T).max()
            check(err <= 100 * tol * size ** 2, lambda: f"{what()}: the neurons are not mapped orthogonally: Gram matrix {np.round(cg @ cg.T, 4).tolist()[:2]}, expected {np.round(cx @ cx.T, 4).tolist()[:2]} (error {err:.3g})")
        if math.isclose(p, 1):
            best = s.sum()
            check(abs(np.sum(cg * cy) - best) <= 100 * tol * size ** 2, lambda: f"{what()}: inner product with the aligned model {np.sum(cg * cy):.6g}, {best:.6g} is possible")
            return True
        return integer
    return False


def run_rotate(case):
    kw = {k: case[k] for k in ("alignment", "alpha") if case[k] is not None}
    p, alpha = kw.get("alignment", 1.0), kw.get("alpha", 0.0)
    pairs = {k: pair(kc, "float32") for k, kc in zip(R.FREE_KEYS, case["keys"])}
    with sut("rotate"):
        nodes = [sd_mecha.model({k: v[i].clone() for k, v in pairs.items()}, R.free_config(), case["space"]) for i in range(2)]
        out = N.evaluate(merge_methods.resolve("rotate")(*nodes, **kw), case["dtype"], case["threads"])
    useful = False
    for kc, (k, (a, b)) in zip(case["keys"], pairs.items()):
        what = lambda: f"rotate {kc} alignment {p} alpha {alpha} {case['dtype']}: {N.describe(out[k].double().numpy())}"
        useful |= verify(kc, a, b, out[k], p, alpha, case["dtype"], what)
    return useful and f"alignment {'integer' if float(p).is_integer() else 'fractional'}{', alpha' if alpha else ''}"


# --------------------------------------------------------------- special relations
@st.composite
def recover_cases(draw):
    case = draw(rotate_cases(("rotated", "reflected", "permuted"), shapes=SHAPES))
    return case | {"alignment": 1.0, "alpha": draw(st.sampled_from([0.0, 0.5]))}


def run_recover(case):
    """rotating a model onto a rotated and shifted copy of itself gives this copy, and rotating an aligned model again gives it back"""
    pairs = {k: pair(kc, "float64") for k, kc in zip(R.FREE_KEYS, case["keys"])}
    with sut("rotate"):
        a, b = [sd_mecha.model({k: v[i].clone() for k, v in pairs.items()}, R.free_config(), case["space"]) for i in range(2)]
        m = merge_methods.resolve("rotate")
        out = N.evaluate(m(a, b, alpha=case["alpha"]), case["dtype"], case["threads"])
        twice = N.evaluate(m(m(a, b, alpha=0.0), b), case["dtype"], case["threads"])
    tol = 1e5 * N.EPS[case["dtype"]]
    for kc, (k, (x, y)) in zip(case["keys"], pairs.items()):
        if torch.allclose(x.half(), y.half(), rtol=1e-2, atol=1e-2):
            continue
        s = np.linalg.svd(x.reshape(shape_2d(x.shape)).numpy() - x.reshape(shape_2d(x.shape)).numpy().mean(0), compute_uv=False)
        s = s[s > 1e-9 * s.max(initial=0)]
        if not len(s) or s[0] / s[-1] > 30:
            continue
        for name, z in (("rotated once", out[k]), ("rotated again", twice[k])):
            err = float((z.double() - y).abs().max())
            check(err <= tol * 1e3 * float(x.abs().max() + y.abs().max()), lambda: f"{kc} alpha {case['alpha']}: {name} onto its {kc['relation']} copy {N.describe(y.numpy())}, got {N.describe(z.double().numpy())}")
    return case["keys"][0]["relation"]


# --------------------------------------------------------------- caches
@st.composite
def cache_cases(draw):
    case = draw(rotate_cases(("independent", "independent", "rotated", "reflected", "partial"), shapes=[[8, 3], [6, 5], [9, 2], [12, 4], [10, 2, 2], [30, 6], [4, 5, 3, 3], [5, 5], [4, 24]]))
    return case | {"steps": draw(st.lists(st.sampled_from([[1.0, 0.0], [1.0, 0.5], [0.5, 0.0], [0.5, 0.25], [0.25, 0.0], [2.0, 0.0], [-1.0, 0.0], [1.5, 0.0], [0.0, 0.0], [1.0, 1.0], [0.0, 0.5]]), min_size=2, max_size=4)), "wrapper": draw(st.booleans()), "dtype": "float64"}


def run_cache(case):
    pairs = {k: pair(kc, "float32") for k, kc in zip(R.FREE_KEYS, case["keys"])}
    cache = {}
    with sut("rotate with a cache"):
        nodes = [sd_mecha.model({k: v[i].clone() for k, v in pairs.items()}, R.free_config(), case["space"]) for i in range(2)]
    useful = False
    for p, alpha in case["steps"]:
        with sut("rotate with a cache"):
            if case["wrapper"]:
                node = sd_mecha.rotate(*nodes, alignment=p, alpha=alpha, cache=cache)
            else:
                node = merge_methods.resolve("rotate")(*nodes, alignment=p, alpha=alpha).set_cache(cache)
            out = N.evaluate(node, case["dtype"], case["threads"])
        for kc, (k, (a, b)) in zip(case["keys"], pairs.items()):
            what = lambda: f"rotate {kc} with a cache, steps {case['steps']} at alignment {p} alpha {alpha}: {N.describe(out[k].double().numpy())}"
            useful |= verify(kc, a, b, out[k], p, alpha, case["dtype"], what, tol=6e-3, cached=True)
    if any((p, alpha) not in ((0.0, 0.0), (1.0, 1.0)) for p, alpha in map(tuple, case["steps"])):
        check(set(cache) == set(pairs), lambda: f"the cache holds {sorted(cache)}, expected the keys {sorted(pairs)}")
    return useful and "wrapper" if case["wrapper"] else useful and "method"


# --------------------------------------------------------------- rank truncation
@st.composite
def rank_cases(draw):
    return {"keys": [{"shape": draw(st.sampled_from([[], [6], [5, 5], [3, 9], [12, 30], [40, 8], [2, 3, 3, 3], [7, 1], [1, 7], [6, 2, 2], [20, 20], [8, 4, 1, 1]])), "kind": draw(st.sampled_from(["randn", "randn", "low rank", "decay", "zero", "orthogonal", "one"])), "seed": draw(st.integers(0, 99999))} for _ in range(draw(st.integers(1, 4)))],
            "ratio": draw(st.one_of(st.sampled_from([None, 0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 2.0, -1.0]), st.floats(0, 1).map(lambda x: round(x, 2)))), "torch_seed": draw(st.integers(0, 9999)), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "threads": draw(st.sampled_from([0, 0, 2]))}


def matrix(kc):
    shape = tuple(kc["shape"])
    rng = np.random.default_rng(kc["seed"])
    x = np.asarray(rng.standard_normal(shape))
    if x.ndim < 2:
        return x.astype(np.float32).astype(np.float64)
    n, d = shape[0], math.prod(shape[1:])
    m = min(n, d)
    u, s, vt = np.linalg.svd(x.reshape(n, d), full_matrices=False)
    s = {"randn": s, "low rank": np.where(np.arange(m) < max(m // 3, 1), s, 0), "decay": 2.0 ** -np.arange(m) * 8, "zero": s * 0, "orthogonal": np.ones(m), "one": np.where(np.arange(m) < 1, 5.0, 1e-3)}[kc["kind"]]
    return (u * s @ vt).reshape(shape).astype(np.float32).astype(np.float64)


def run_rank(case):
    kw = {} if case["ratio"] is None else {"rank_ratio": case["ratio"]}
    ratio, eps = kw.get("rank_ratio", 0.5), N.EPS[case["dtype"]]
    values = {k: matrix(kc) for k, kc in zip(R.FREE_KEYS, case["keys"])}
    with sut("truncate_rank"):
        node = merge_methods.resolve("truncate_rank")(sd_mecha.model({k: torch.from_numpy(np.array(v)).float() for k, v in values.items()}, R.free_config(), "delta"), **kw)
        torch.manual_seed(case["torch_seed"])
        out = N.evaluate(node, case["dtype"], case["threads"])
    useful, others = False, []
    for kc, (k, x) in zip(case["keys"], values.items()):
        got = out[k].double().numpy()
        what = lambda: f"truncate_rank {kc} with ratio {ratio}, {case['dtype']}"
        check(got.shape == x.shape and bool(np.isfinite(got).all()), lambda: f"{what()}: {N.describe(got)}")
        if x.ndim < 2:
            check(bool((got == x).all()), lambda: f"{what()}: expected the input itself, got {N.describe(got)}")
            continue
        a, g = x.reshape(x.shape[0], -1), got.reshape(x.shape[0], -1)
        m = min(a.shape)
        target = min(max(round(m * ratio), 1), m)
        s = np.linalg.svd(a, compute_uv=False)
        t = np.linalg.svd(g, compute_uv=False)
        tol = 1000 * eps * (s[0] + 1e-300)
        check((t > tol).sum() <= target, lambda: f"{what()}: singular values {t}, expected at most {target} of them")
        best = np.sqrt((s[target:] ** 2).sum())
        err = np.linalg.norm(a - g)
        if err > 1.4 * best + tol * m:
            # an unlucky draw of the random basis? the median of several draws is close to the best
            if not others:
                with sut("truncate_rank again"):
                    others = [N.evaluate(node, case["dtype"], 0) for _ in range(14)]
            errs = sorted([err] + [float(np.linalg.norm(a - o[k].double().numpy().reshape(a.shape))) for o in others])
            check(errs[len(errs) // 2] <= 1.4 * best + tol * m, lambda: f"{what()}: errors {errs} of several draws with rank {target}, {best:.6g} is possible")
        check(np.linalg.norm(g) <= np.linalg.norm(a) + tol * m, lambda: f"{what()}: the norm grew from {np.linalg.norm(a):.6g} to {np.linalg.norm(g):.6g}")
        check(abs(np.sum((a - g) * g)) <= tol * (1 + s[0]) * m * 10, lambda: f"{what()}: the truncation is not a projection ({np.sum((a - g) * g):.3g})")
        useful |= 0 < best
    return useful and "truncated"


SUBS = [
    Sub("rotate", rotate_cases(), run_rotate, 1600, rule="some key has a well defined alignment or is checked for orthogonality"),
    Sub("recover", recover_cases(), run_recover, 400, rule="any case"),
    Sub("cache", cache_cases(), run_cache, 400, rule="some key has a well defined alignment"),
    Sub("rank", rank_cases(), run_rank, 1000, rule="the truncation loses something"),
]
