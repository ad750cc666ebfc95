import pathlib
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_spaces
from torch import Tensor
from ..core import Sub, sut, must_raise, check
from .. import recipes as R

ALL = ["weight", "delta", "param"]
TYPES = {"tensor": Tensor, "state": StateDict[Tensor], "float": float, "int": int, "str": str, "bool": bool}
VALUES = {"tensor": 1.5, "state": 1.5, "float": 0.5, "int": 3, "str": "x", "bool": True}
REJECTED = (TypeError, ValueError, RuntimeError)
KEY = R.FREE_KEYS[0]


@sd_mecha.merge_method(identifier="mv_p09_same", register=False)
def same(a: Parameter(Tensor)) -> Return(Tensor):
    return a


# -------------------------------------------------------------------- generated signatures
@st.composite
def space_decl(draw, typ):
    k = draw(st.sampled_from(["none", "none", "one", "set", "sym", "sym"]))
    if k == "none":
        return None
    if k == "one":
        return draw(st.sampled_from(ALL))
    if k == "set":
        return sorted(draw(st.sets(st.sampled_from(ALL), min_size=1, max_size=3)))
    return {"sym": draw(st.integers(0, 1))}


@st.composite
def arg(draw, space_hint):
    form = draw(st.sampled_from(["model", "model", "file", "literal", "merge", "dict", "value", "path"]))
    space = {"value": "param", "path": "weight"}.get(form) or draw(st.sampled_from([space_hint or "weight"] * 3 + ALL))
    return {"form": form, "space": space}


@st.composite
def signature_cases(draw):
    syms = [sorted(draw(st.sets(st.sampled_from(ALL), min_size=2))) for _ in range(2)]
    params = []
    n_pos = draw(st.integers(0, 3))
    has_default = False
    for i in range(n_pos):
        typ = draw(st.sampled_from(["tensor", "tensor", "state", "float", "str"]))
        has_default = has_default or draw(st.integers(0, 4)) == 0
        params.append({"kind": "pos", "type": typ, "default": has_default, "space": draw(st.sampled_from([None, "param"])) if has_default else draw(space_decl(typ))})
    vararg = {"space": draw(space_decl("tensor"))} if draw(st.booleans()) else None
    for i in range(draw(st.integers(0, 2))):
        typ = draw(st.sampled_from(list(TYPES)))
        default = draw(st.booleans())
        params.append({"kind": "kw", "type": typ, "default": default, "space": draw(st.sampled_from([None, "param"])) if default else draw(space_decl(typ))})
    if not params and vararg is None:
        vararg = {"space": None}

    # the spaces the arguments lean towards, so that both valid and invalid calls are common
    lean = draw(st.sampled_from(ALL))
    lean_sym = [draw(st.sampled_from(s)) for s in syms]

    def hint(p):
        s = p["space"]
        if s is None:
            return "param" if p.get("default") or p.get("type") in ("float", "int", "str", "bool") else lean
        if isinstance(s, str):
            return s
        if isinstance(s, list):
            return draw(st.sampled_from(s))
        return lean_sym[s["sym"]]

    args = []
    for p in params:
        given = not p["default"] or draw(st.booleans())
        args.append(draw(arg(hint(p))) if given else None)
    # positional arguments after an omitted one are omitted, and nothing can follow in the variadic parameter
    pos = [i for i, p in enumerate(params) if p["kind"] == "pos"]
    omitted = False
    for i in pos:
        omitted = omitted or args[i] is None
        if omitted:
            args[i] = None
    varargs = []
    if vararg is not None and not omitted:
        varargs = [draw(arg(hint(vararg))) for _ in range(draw(st.integers(1, 3)))]
    used = set()
    for p, a in [*zip(params, args), *((vararg, a) for a in varargs)]:
        if a is not None and isinstance(p["space"], dict):
            used.add(p["space"]["sym"])
    default_used = any(a is not None and effective(p, a_kind) == "default" for p, a, a_kind in [*((p, a, "named") for p, a in zip(params, args)), *((vararg, a, "var") for a in varargs)])
    ret = draw(st.sampled_from([{"one": s} for s in ALL] + [{"sym": s} for s in sorted(used)] * 3 + ([None] * 4 if default_used else [])))
    by_name = draw(st.integers(0, len(pos))) if not varargs else 0
    return {"syms": syms, "params": params, "vararg": vararg, "ret": ret, "args": args, "varargs": varargs, "by_name": by_name}


def effective(p, kind):
    s = p["space"]
    if s is None:
        return "default" if kind == "var" or not (p.get("default") or p["type"] in ("float", "int", "str", "bool")) else ["param"]
    return [s] if isinstance(s, str) else s if isinstance(s, list) else s["sym"]


def reference(case):
    """-> merge space of the result, or None if the call has to be rejected"""
    bound = {}
    for p, a, kind in [*((p, a, "named") for p, a in zip(case["params"], case["args"])), *((case["vararg"], a, "var") for a in case["varargs"])]:
        space = "param" if a is None else a["space"]
        e = effective(p, kind)
        if isinstance(e, list):
            if space not in e:
                return None
        else:
            if space not in (ALL if e == "default" else case["syms"][e]):
                return None
            if bound.setdefault(e, space) != space:
                return None
    r = case["ret"]
    return bound["default"] if r is None else r["one"] if "one" in r else bound[r["sym"]]


def declare(case):
    env = {"Return": Return}
    syms = [merge_spaces.MergeSpaceSymbol(*s) for s in case["syms"]]

    def decl(s):
        return syms[s["sym"]] if isinstance(s, dict) else s

    parts, star = [], False
    for i, p in enumerate(case["params"]):
        if p["kind"] == "kw" and not star:
            if case["vararg"] is None:
                parts.append("*")
            else:
                parts.append("*xs: Tv")
            star = True
        env[f"T{i}"] = Parameter(TYPES[p["type"]], *([] if p["space"] is None else [decl(p["space"])]))
        parts.append(f"p{i}: T{i}" + (f" = {VALUES[p['type']]!r}" if p["default"] else ""))
    if case["vararg"] is not None:
        env["Tv"] = Parameter(Tensor, *([] if case["vararg"]["space"] is None else [decl(case["vararg"]["space"])]))
        if not star:
            parts.append("*xs: Tv")
    r = case["ret"]
    env["R"] = Return(Tensor) if r is None else Return(Tensor, r["one"] if "one" in r else syms[r["sym"]])
    exec(f"def mv_p09({', '.join(parts)}) -> R:\n    return 0", env)
    return merge_method(env["mv_p09"], register=False)


def node(a, typ):
    if a["form"] == "value":
        return VALUES[typ]
    if a["form"] == "path":
        return pathlib.Path("x.safetensors")
    if a["form"] == "file":
        return sd_mecha.model("x.safetensors", None, a["space"])
    if a["form"] == "model":
        return sd_mecha.model({KEY: torch.zeros(2)}, R.free_config(), a["space"])
    if a["form"] == "literal":
        return sd_mecha.literal(VALUES[typ], None, a["space"])
    if a["form"] == "merge":
        return same(sd_mecha.model("y.safetensors", None, a["space"]))
    return sd_mecha.literal({KEY: sd_mecha.model("z.safetensors", None, a["space"]), "b": same(sd_mecha.model("x.safetensors", None, a["space"]))})


def run_signature(case):
    want = reference(case)
    with sut(f"declaring a valid method: {case}"):
        m = declare(case)
    # paths are only accepted where a tensor is expected
    bad_path = any(a is not None and a["form"] == "path" and p["type"] not in ("tensor", "state") for p, a in zip(case["params"], case["args"]))
    if bad_path:
        want = None
    pos = [i for i, p in enumerate(case["params"]) if p["kind"] == "pos" and case["args"][i] is not None]
    first_named = len(pos) - min(case["by_name"], len(pos))
    kw = {f"p{i}": i for i in pos[first_named:]} | {f"p{i}": i for i, p in enumerate(case["params"]) if p["kind"] == "kw" and case["args"][i] is not None}

    def call():
        value = lambda i: node(case["args"][i], case["params"][i]["type"])
        return m(*(value(i) for i in pos[:first_named]), *(node(a, "tensor") for a in case["varargs"]), **{k: value(i) for k, i in kw.items()})

    if want is None:
        must_raise("a call that mixes merge spaces", lambda: call().merge_space, *REJECTED)
    else:
        with sut(f"a call with valid merge spaces: {case}"):
            got = call().merge_space
        check(got == merge_spaces.resolve(want) and got.identifier == want, lambda: f"the result is in {got}, not in {want}: {case}")
    return ("rejected" if want is None else "accepted") + (" symbol" if case["ret"] and "sym" in case["ret"] else " default" if case["ret"] is None else " declared")


# -------------------------------------------------------------------- built-in methods and operators
S = "S"
BUILTINS = {
    **{m: ([S, S], None, S) for m in ("weighted_sum", "slerp", "geometric_sum", "tensor_sum", "top_k_tensor_sum", "crossover", "rotate", "fallback", "perpendicular_component")},
    **{m: ([S, S, S], None, "param") for m in ("train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask")},
    **{m: ([], "delta", "delta") for m in ("ties_sum", "ties_sum_extended", "ties_sum_with_dropout", "dropout", "model_stock")},
    **{m: (["delta", "delta"], None, "delta") for m in ("select_max_delta", "select_max_white_delta")},
    **{m: (["weight", "weight"], None, "weight") for m in ("add_cosine_a", "add_cosine_b")},
    **{m: ([S], None, S) for m in ("copy_distribution", "exchange_ema")},
    "multiply_quotient": ([S, S, S], None, S), "n_average": ([], S, S), "geometric_median": ([], S, S), "clamp": ([S], S, S),
    "add_difference": (["weight", "delta"], None, "weight"), "subtract": (["weight", "weight"], None, "delta"), "truncate_rank": (["delta"], None, "delta"),
    "-": (["weight", "weight"], None, "delta"), "|": ([S, S], None, S), "+": None, "r-": (["weight", "weight"], None, "delta"), "r|": ([S, S], None, S), "r+": None,
    "convert_sd1_blocks_to_ldm": ([S], None, S), "convert_'sd1-ldm_kohya_lora'_to_base": (["weight"], None, "delta"), "convert_flux_to_backbone_only": ([S], None, S),
}


@st.composite
def builtin_cases(draw):
    m = draw(st.sampled_from(sorted(BUILTINS)))
    pos, var, _ = BUILTINS[m] or (["weight", "delta"], None, "weight")
    lean = draw(st.sampled_from(ALL))
    declared = pos + [var] * (draw(st.integers(1, 4)) if var else 0)
    args = [draw(arg(lean if d == S else d)) for d in declared]
    return {"method": m, "args": args, "alpha": draw(st.sampled_from([None, None, *ALL])), "text": draw(st.booleans())}


ALPHA = {"weighted_sum", "slerp", "geometric_sum", "crossover", "rotate", "train_difference_mask", "multiply_quotient", "add_difference", "select_max_delta", "add_cosine_a"}
OPERATORS = {"-": lambda a, b: a - b, "+": lambda a, b: a + b, "|": lambda a, b: a | b}


def run_builtin(case):
    m, args = case["method"], [dict(a) for a in case["args"]]
    for a in args if m.lstrip("r") in OPERATORS else ():
        a["form"] = a["form"].replace("path", "file")  # operators only take values and nodes
    if m[0] == "r" and m[1:] in OPERATORS:
        args[1]["form"] = args[1]["form"].replace("value", "literal")  # the operand whose operator is used
    spaces = [a["space"] for a in args]
    operator = m.lstrip("r") if m.lstrip("r") in OPERATORS else None
    if operator == "+":
        want = "weight" if sorted(spaces) == ["delta", "weight"] else None
    else:
        pos, var, ret = BUILTINS[m]
        declared = pos + [var] * (len(args) - len(pos))
        bound = {s for s, d in zip(spaces, declared) if d == S}
        ok = all(d == S or d == s for s, d in zip(spaces, declared)) and len(bound) <= 1
        want = (next(iter(bound)) if ret == S else ret) if ok else None
    kw = {}
    if case["alpha"] and m in ALPHA:
        kw["alpha"] = sd_mecha.literal(0.5, None, case["alpha"])
        if case["alpha"] != "param":
            want = None

    def build():
        nodes = [node(a, "tensor") for a in args]
        if operator:
            if not any(isinstance(n, sd_mecha.recipe_nodes.RecipeNode) for n in nodes):
                nodes[1] = sd_mecha.literal(1.5)
            return OPERATORS[operator](*nodes)
        return sd_mecha.extensions.merge_methods.resolve(m)(*nodes, **kw)

    def through_text():
        lines = ["version 0.1.0"] + [f'model "m{i}.safetensors" merge_space="{a["space"]}"' for i, a in enumerate(args)]
        if kw:
            lines.append(f'literal 0.5 merge_space="{case["alpha"]}"')
        lines.append(f'merge "{m}" ' + " ".join(f"&{i}" for i in range(len(args))) + (f" alpha=&{len(args)}" if kw else ""))
        return sd_mecha.deserialize(lines)

    fn = through_text if case["text"] and not operator else build
    if want is None:
        must_raise(f"{m} of {spaces}", lambda: fn().merge_space, *REJECTED)
    else:
        with sut(f"{m} of {spaces}"):
            got = fn().merge_space
        check(got.identifier == want, lambda: f"{m} of {spaces} is in {got}, not in {want}")
    return ("rejected " if want is None else "accepted ") + m


# -------------------------------------------------------------------- strict merges
@st.composite
def strict_cases(draw):
    return {"root": draw(st.sampled_from(["model", "same", "sub", "mask", "literal", "dict", "raw", "raw_dict", "add", "fallback"])), "space": draw(st.sampled_from(ALL)), "strict": draw(st.sampled_from([None, True, False])),
            "threads": draw(st.sampled_from([0, 2])), "seed": draw(st.integers(0, 99)), "fallback": draw(st.booleans())}


def run_strict(case):
    data = {k: R.model_tensor(case["seed"] + i) for i, k in enumerate(R.FREE_KEYS)}
    cfg = R.free_config()
    space = {"sub": "delta", "mask": "param", "raw": "param", "raw_dict": case["space"], "add": "weight"}.get(case["root"], case["space"])
    zero = {k: torch.zeros_like(v) for k, v in data.items()}
    with sut("building a valid recipe"):
        m = sd_mecha.model(data, cfg, case["space"])
        w, z = sd_mecha.model(data, cfg), sd_mecha.model(zero, cfg)
        root = {
            "model": lambda: m, "same": lambda: same(m), "sub": lambda: w - z, "mask": lambda: sd_mecha.extensions.merge_methods.resolve("train_difference_mask")(m, m, m),
            "literal": lambda: sd_mecha.literal(data, cfg, case["space"]), "dict": lambda: sd_mecha.literal({k: m for k in data}), "raw": lambda: data, "raw_dict": lambda: {k: m for k in data},
            "add": lambda: w + (w - w), "fallback": lambda: sd_mecha.literal(dict(list(data.items())[:3]), cfg, case["space"]) | m,
        }[case["root"]]()
    kw = {} if case["strict"] is None else {"strict_weight_space": case["strict"]}
    if case["fallback"] and case["root"] != "raw":
        kw["fallback_model"] = sd_mecha.model(zero, cfg, space)
    out = {}

    def call():
        return sd_mecha.merge(root, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"], output=out, **kw)

    if case["strict"] is False or space == "weight":
        with sut(f"merging a recipe in {space} space"):
            call()
        check(set(out) == set(data), lambda: f"keys {sorted(out)}")
        for k in data:
            check(case["root"] == "mask" or torch.equal(out[k], data[k]), lambda: f"{k}: {out[k]} is not {data[k]}")
        return "accepted " + space
    must_raise(f"strict merge in {space} space", call, *REJECTED)
    check(not out, "a rejected merge wrote tensors")
    return "rejected " + space


SUBS = [
    Sub("signatures", signature_cases(), run_signature, quick=8000, rule="all (class: outcome and kind of result)"),
    Sub("builtins", builtin_cases(), run_builtin, quick=6000, rule="all (class: outcome and method)"),
    Sub("strict", strict_cases(), run_strict, quick=800, rule="all (class: outcome and merge space of the recipe)"),
]
