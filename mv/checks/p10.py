import inspect
import math
import struct
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from torch import Tensor
from ..core import Sub, sut, must_raise, check
from .. import recipes as R

ASSUMPTIONS = ["positional-only parameters and parameters named like the injected ones (key, cache) are not generated"]
KEYS = R.FREE_KEYS[:3]
TYPES = {"tensor": Tensor, "float": float, "int": int, "str": str, "bool": bool, "sd_tensor": StateDict[Tensor], "sd_float": StateDict[float], "sd_str": StateDict[str], "sd_int": StateDict[int]}
RECORD = []


@merge_method(identifier="mv_p10_root", register=False)
def root_of(base: Parameter(Tensor, "weight"), *others: Parameter(Tensor, "weight")) -> Return(Tensor, "weight"):
    return base


@merge_method(identifier="mv_p10_same", register=False)
def same(a: Parameter(Tensor)) -> Return(Tensor):
    return a


@merge_method(identifier="mv_p10_float", register=False)
def float_of(a: Parameter(float)) -> Return(float, "param"):
    return a


@merge_method(identifier="mv_p10_str", register=False)
def str_of(a: Parameter(str)) -> Return(str, "param"):
    return a


@merge_method(identifier="mv_p10_int", register=False)
def int_of(a: Parameter(int)) -> Return(int, "param"):
    return a


@merge_method(identifier="mv_p10_bool", register=False)
def bool_of(a: Parameter(bool)) -> Return(bool, "param"):
    return a


PASS = {"float": float_of, "str": str_of, "int": int_of, "bool": bool_of}
FLOATS = st.one_of(st.floats(), st.sampled_from([0.1, 1e-300, 3.4e38, 1e39, 16777217.0, -0.0, 1.0, math.inf, -math.inf, math.nan]))
INTS = st.one_of(st.integers(-3, 300), st.integers(-2**70, 2**70), st.sampled_from([2**24 + 1, 2**53 + 1, -2**63]))


def plain(typ):
    return {
        "float": st.one_of(FLOATS.map(lambda x: {"f": x.hex()}), FLOATS.map(lambda x: {"f": x.hex()}), st.integers(-2**53, 2**53).map(lambda x: {"i": str(x)})),
        "int": st.one_of(INTS.map(lambda x: {"i": str(x)}), st.integers(-99, 99).map(lambda x: {"f": float(x).hex()})),
        "str": st.one_of(st.text(max_size=5), st.sampled_from(["0", "1.5", "true", ""])).map(lambda x: {"s": x}),
        "bool": st.booleans().map(lambda x: {"b": x}),
        "tensor": st.sampled_from([0.0, 0.5, -2.0, 3.0]).map(lambda x: {"f": x.hex()}),
    }[typ]


@st.composite
def values(draw, typ, param_space=False):
    """an argument: {"plain"|"none"|"node"|"dict"|"ndict"|"model"...}"""
    base = typ[3:] if typ.startswith("sd_") else typ
    if base == "tensor":
        if param_space:
            return {"plain": draw(plain("tensor")), "wrap": draw(st.booleans())}
        return {"model": draw(st.integers(0, 2)), "depth": draw(st.integers(0, 2))}
    form = draw(st.sampled_from(["plain", "plain", "plain", "dict", "node", "none"]))
    if typ.startswith("sd_") and form == "none":
        form = "dict"
    if form == "none":
        return {"none": True}
    if form == "dict":
        kind = plain(base)
        first = draw(kind)
        same_kind = lambda v: v if set(v) == set(first) or set(v) | set(first) <= {"f", "i"} else first
        return {"dict": [same_kind(draw(kind)) for _ in KEYS]}
    if form == "node":
        return {"node": draw(plain(base)), "depth": draw(st.integers(1, 2))}
    return {"plain": draw(plain(base)), "wrap": draw(st.booleans())}


@st.composite
def cases(draw):
    pos, seen_default = [], False
    for i in range(draw(st.integers(0, 3))):
        typ = draw(st.sampled_from(list(TYPES)))
        seen_default = seen_default or draw(st.integers(0, 2)) == 0
        pos.append({"name": f"p{i}", "type": typ.removeprefix("sd_") if seen_default else typ, "default": seen_default})
    vararg = draw(st.sampled_from([None, None, "tensor", "float", "str", "sd_tensor"]))
    kw = []
    for i in range(draw(st.integers(0 if pos or vararg else 1, 3))):
        default = draw(st.booleans())
        typ = draw(st.sampled_from(list(TYPES)))
        kw.append({"name": f"k{i}", "type": typ.removeprefix("sd_") if default else typ, "default": default})
    for p in pos + kw:
        if p["default"]:
            p["value"] = {"none": True} if draw(st.integers(0, 3)) == 0 else {"plain": draw(plain(p["type"])), "wrap": False}
    # a call: mostly valid
    given_pos = draw(st.integers(0, len(pos))) if draw(st.booleans()) else len(pos)
    args = [draw(values(p["type"], p["default"])) for p in pos[:given_pos]]
    if vararg and given_pos == len(pos) and draw(st.booleans()):
        args += [draw(values(vararg)) for _ in range(draw(st.integers(1, 3)))]
    kwargs = {}
    for p in pos[given_pos:]:
        if draw(st.integers(0, 3)) or not p["default"] and draw(st.integers(0, 7)):
            kwargs[p["name"]] = draw(values(p["type"], p["default"]))
    for p in kw:
        if draw(st.integers(0, 3)) or not p["default"] and draw(st.integers(0, 7)):
            kwargs[p["name"]] = draw(values(p["type"], p["default"]))
    mistake = draw(st.sampled_from([None] * 8 + ["extra", "unknown", "twice", "unknown_like"]))
    if mistake == "extra" and not vararg and given_pos == len(pos):
        args.append(draw(values("float")))
    elif mistake == "unknown":
        kwargs["zzz"] = draw(values("float"))
    elif mistake == "unknown_like":
        kwargs[draw(st.sampled_from(["xs", "key", "cache", "P0", "kw"]))] = draw(values("float"))
    elif mistake == "twice" and pos and args:
        p = pos[draw(st.integers(0, min(len(pos), len(args)) - 1))]
        kwargs[p["name"]] = draw(values(p["type"], p["default"]))
    order = draw(st.permutations(sorted(kwargs)))
    return {"pos": pos, "vararg": vararg, "kw": kw, "varkw": draw(st.booleans()), "args": args, "kwargs": [[k, kwargs[k]] for k in order], "threads": draw(st.sampled_from([0, 0, 2])),
            "dtype": draw(st.sampled_from(["float64", "float32", "float16"])), "twice": draw(st.booleans())}


def snapshot(got):
    """state dicts can only be read during the merge"""
    def of(v):
        return ("state dict", {k: v[k] for k in R.FREE_KEYS}) if isinstance(v, StateDict) else tuple(map(of, v)) if isinstance(v, tuple) else v
    return {k: of(v) for k, v in got.items()}


def number(v):
    (k, x), = v.items()
    return float.fromhex(x) if k == "f" else int(x) if k == "i" else x


def declare(case):
    env, parts = {"Return": Return, "R": Return(Tensor, "weight"), "RECORD": RECORD, "snapshot": snapshot, "got_base": lambda: torch.zeros(1)}, []
    for p in case["pos"] + case["kw"]:
        env["T_" + p["name"]] = Parameter(TYPES[p["type"]], *([("weight", "param")] if p["type"].endswith("tensor") and not p["default"] else []))
        if p["default"]:
            env["D_" + p["name"]] = None if "none" in p["value"] else number(p["value"]["plain"])

    def part(p):
        return f"{p['name']}: T_{p['name']}" + (f" = D_{p['name']}" if p["default"] else "")

    parts += [part(p) for p in case["pos"]]
    if case["vararg"]:
        env["T_xs"] = Parameter(TYPES[case["vararg"]], ("weight", "param"))
        parts.append("*xs: T_xs")
    elif case["kw"]:
        parts.append("*")
    parts += [part(p) for p in case["kw"]]
    source = f"({', '.join(parts + (['**kw'] if case['varkw'] else []))}) -> R:\n    got = dict(locals())\n    RECORD.append(snapshot(got))\n    return got_base()"
    exec("def mv_p10" + source, env)
    exec(f"def plain({', '.join(p.split(':')[0] + (p[p.index(' = '):] if ' = ' in p else '') for p in parts)}): pass", env)
    return merge_method(env["mv_p10"], register=False), env["plain"]


def tensors(i, dtype):
    return {k: R.model_tensor(100 * i + n, dtype) for n, k in enumerate(R.FREE_KEYS)}


def run(case):
    with sut(f"declaring a valid method: {case}"):
        m, python = declare(case)
    dtype = getattr(torch, case["dtype"])
    data = [tensors(i, case["dtype"]) for i in range(3)]
    models = [sd_mecha.model(d, R.free_config()) for d in data]

    def build(v, typ):
        base = typ.removeprefix("sd_")
        if "none" in v:
            return None
        if "model" in v:
            n = models[v["model"]]
            for _ in range(v["depth"]):
                n = same(n)
            return n
        if "dict" in v:
            return {k: number(v["dict"][i % len(KEYS)]) for i, k in enumerate(R.FREE_KEYS)}
        if "node" in v:
            n = number(v["node"])
            for _ in range(v["depth"]):
                n = PASS[base](n)
            return n
        return sd_mecha.literal(number(v["plain"])) if v["wrap"] else number(v["plain"])

    types = {p["name"]: p["type"] for p in case["pos"] + case["kw"]}
    arg_types = [types[p["name"]] for p in case["pos"]] + [case["vararg"] or "float"] * len(case["args"])
    try:
        bound = inspect.signature(python).bind(*case["args"], **dict(case["kwargs"]))
    except TypeError:
        bound = None
    with sut("building the arguments"):
        args = [build(v, t) for v, t in zip(case["args"], arg_types)]
        kwargs = {k: build(v, types.get(k, "float")) for k, v in case["kwargs"]}
    if bound is None:
        must_raise(f"a call that Python rejects: {case}", lambda: m(*args, **kwargs), TypeError, RuntimeError, ValueError)
        return "rejected"
    with sut(f"a call that Python accepts: {case}"):
        node = m(*args, **kwargs)
    RECORD.clear()
    calls = 2 if case["twice"] else 1
    with sut(f"merging {case}"):
        other = [m(*args, **kwargs)] if case["twice"] else []
        sd_mecha.merge(root_of(models[0], node, *other), merge_dtype=dtype, output_dtype=None, threads=case["threads"])
    check(len(RECORD) == calls * len(R.FREE_KEYS), lambda: f"the function was called {len(RECORD)} times for {len(R.FREE_KEYS)} keys and {calls} calls")
    unseen = {k: calls for k in R.FREE_KEYS}
    want_keys = None
    for i, got in enumerate(RECORD):
        if case["varkw"]:
            check("key" in got["kw"] and "cache" in got["kw"], lambda: f"extra keyword arguments: {got['kw']}")
            key = got["kw"]["key"]
            check(unseen.get(key, 0) > 0, lambda: f"called again for {key}")
            unseen[key] -= 1
        elif case["threads"] == 0:
            key = R.FREE_KEYS[i // calls]
        else:
            key = None  # unknown
        for name in [*types, *(["xs"] if case["vararg"] else [])]:
            if name == "xs":
                vs = bound.arguments.get("xs", ())
                check(isinstance(got["xs"], tuple) and len(got["xs"]) == len(vs), lambda: f"variadic arguments: {got['xs']}")
                for g, v in zip(got["xs"], vs):
                    compare(g, v, case["vararg"], key, data, dtype, "xs", case)
            else:
                p = next(p for p in case["pos"] + case["kw"] if p["name"] == name)
                v = bound.arguments[name] if name in bound.arguments else p["value"]
                compare(got[name], v, types[name], key, data, dtype, name, case)
    n = len(case["args"]) + len(case["kwargs"])
    return n >= 2 and ("variadic" if case["vararg"] else "named")


CAST = {"float": float, "int": int, "str": str, "bool": bool}


def same_value(g, w):
    if isinstance(w, float):
        return type(g) is float and (struct.pack("<d", g) == struct.pack("<d", w) or g != g and w != w)
    return type(g) is type(w) and g == w


def compare(got, v, typ, key, data, dtype, name, case):
    base = typ.removeprefix("sd_")
    if "none" in v:
        check(got is None, lambda: f"{name}: expected None, got {got!r}")
        return
    if typ.startswith("sd_"):
        check(isinstance(got, tuple), lambda: f"{name}: expected a StateDict, got {type(got)}")
        pairs = list(got[1].items())
    else:
        if key is None and ("dict" in v or "model" in v):
            return
        pairs = [(key, got)]
    for k, g in pairs:
        if "model" in v:
            w = data[v["model"]][k]
            check(isinstance(g, Tensor) and g.dtype == dtype and torch.equal(g, w), lambda: f"{name}: expected {w} for {k}, got {g}")
            continue
        x = number(v["dict"][R.FREE_KEYS.index(k) % len(KEYS)] if "dict" in v else v["node"] if "node" in v else v["plain"])
        if base == "tensor":
            w = torch.tensor(x, dtype=torch.float32).to(dtype)  # numbers are given to tensor parameters in single precision
            check(isinstance(g, Tensor) and g.ndim == 0 and g.dtype == dtype and torch.equal(g.nan_to_num(12345), w.nan_to_num(12345)), lambda: f"{name}: expected a tensor of {x}, got {g!r}")
        else:
            w = CAST[base](x)
            check(same_value(g, w), lambda: f"{name}: expected {w!r}, got {g!r} ({type(g).__name__})")


SUBS = [Sub("calls", cases(), run, quick=4000, rule="the call is rejected, or has at least two arguments (class: outcome and kind of signature)")]
