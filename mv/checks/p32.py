import collections
import copy
import pathlib
import types
import numpy
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method, value_to_node
from sd_mecha.extensions import merge_methods, merge_spaces
from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode, ModelRecipeNode
from torch import Tensor
from ..core import Sub, sut, scratch, check, must_raise
from .. import st as stf

ASSUMPTIONS = [
    "dictionaries that mix booleans and numbers, keys that are not strings and subclasses of the plain types (numpy.float64) are unspecified",
    "sd_mecha.literal wraps any value without looking at it: only implicit conversions are judged",
    "a tensor on the left of an operator is not judged: torch decides first",
]
CONFIGS = ["sd1-ldm", "sdxl-sgm"]
ERRORS = (TypeError, ValueError, RuntimeError)
S = merge_spaces.MergeSpaceSymbol("weight", "delta", "param")


@merge_method(identifier="mv32_any")
def mv32_any(a: Parameter(merge_methods.T, S), *rest: Parameter(merge_methods.T, S), k: Parameter(merge_methods.T) = None) -> Return(merge_methods.T, S):
    return a


@merge_method(identifier="mv32_tensor")
def mv32_tensor(a: Parameter(Tensor, S), *rest: Parameter(Tensor, S), k: Parameter(Tensor) = None) -> Return(Tensor, S):
    return a


@merge_method(identifier="mv32_dict")
def mv32_dict(a: Parameter(StateDict[Tensor], S), *rest: Parameter(StateDict[Tensor], S), k: Parameter(StateDict[Tensor]) = None, **kwargs) -> Return(Tensor, S):
    return a[kwargs["key"]]


@merge_method(identifier="mv32_float")
def mv32_float(a: Parameter(float, S), *rest: Parameter(float, S), k: Parameter(float) = None) -> Return(float, S):
    return a


@merge_method(identifier="mv32_str")
def mv32_str(a: Parameter(str, S), *rest: Parameter(str, S), k: Parameter(str) = None) -> Return(str, S):
    return a


METHODS = {"T": mv32_any, "Tensor": mv32_tensor, "StateDict[Tensor]": mv32_dict, "float": mv32_float, "str": mv32_str}
TYPES = {
    "none": None, "Tensor": Tensor, "float": float, "int": int, "str": str, "bool": bool, "T": merge_methods.T, "StateDict": StateDict, "StateDict[Tensor]": StateDict[Tensor], "StateDict[float]": StateDict[float], "StateDict[str]": StateDict[str],
    "StateDict[T]": StateDict[merge_methods.T],
}
PATH_OK = {"none", "Tensor", "T", "StateDict", "StateDict[Tensor]", "StateDict[T]"}

GOOD = ["none", "str", "int", "float", "bool", "tensor", "node", "delta", "param", "cfg0", "cfg1", "computed"]
BAD = ["list", "tuple", "bytes", "set", "complex", "object", "ndarray", "float32", "dtype", "device", "function", "ellipsis", "proxy", "class", "range", "generator", "deque", "userdict", "fraction"]
NODES = {"node": (None, "weight"), "delta": (None, "delta"), "param": (None, "param"), "cfg0": (CONFIGS[0], "weight"), "cfg1": (CONFIGS[1], "weight"), "computed": (None, "weight")}
FAMILY = {"none": "none", "str": "str", "int": "number", "float": "number", "bool": "bool", "tensor": "tensor", **{k: "node" for k in NODES}}


def make(kind, i, path):
    t = torch.full((2,), float(i + 1))
    if kind in ("node", "delta", "cfg0", "cfg1"):
        cfg, space = NODES[kind]
        return sd_mecha.model({"a": t}, cfg, space)
    return {
        "none": lambda: None, "str": lambda: f"text {i}", "int": lambda: i - 2, "float": lambda: i / 7 - 1, "bool": lambda: i % 2 == 0, "tensor": lambda: t, "param": lambda: sd_mecha.literal({"a": t}), "path": lambda: path,
        "computed": lambda: sd_mecha.weighted_sum(sd_mecha.model({"a": t}), sd_mecha.model({"a": t + 1}), alpha=0.5),
        "list": lambda: [float(i)], "tuple": lambda: (float(i), 2), "bytes": lambda: b"bytes", "set": lambda: {i}, "complex": lambda: complex(i, 1), "object": object, "ndarray": lambda: numpy.ones(2), "float32": lambda: numpy.float32(i), "dtype": lambda: torch.float32,
        "device": lambda: torch.device("cpu"), "function": lambda: len, "ellipsis": lambda: ..., "proxy": lambda: types.MappingProxyType({"a": 1.0}), "class": lambda: float, "range": lambda: range(3), "generator": lambda: (x for x in ()),
        "deque": collections.deque, "userdict": lambda: collections.UserDict(a=1.0), "fraction": lambda: numpy.timedelta64(1), "dict": lambda: {"a": 1.0}, "empty": lambda: {},
    }[kind]()


def family(kind):
    return FAMILY.get(kind, "bad")


@st.composite
def values(draw):
    if draw(st.integers(0, 3)) == 0:
        return {"dict": False, "kinds": [draw(st.sampled_from(GOOD + BAD + ["path"] * 6))]}
    n = draw(st.integers(0, 5))
    first = draw(st.sampled_from(GOOD))
    same = [k for k in GOOD if family(k) == family(first) and (family(k) != "node" or NODES[k] == NODES[first])]
    kinds = [draw(st.sampled_from(same)) for _ in range(n)]
    how = draw(st.sampled_from(["same", "same", "other", "bad"]))
    if how != "same" and n:
        others = GOOD if how == "other" else BAD + ["dict", "empty", "path"]
        kinds[draw(st.integers(0, n - 1))] = draw(st.sampled_from(others))
    if {"bool", "number"} <= {family(k) for k in kinds}:
        kinds = ["int" if k == "bool" else k for k in kinds]
    return {"dict": True, "kinds": kinds, "type": draw(st.sampled_from(["dict", "dict", "OrderedDict"]))}


@st.composite
def cases(draw):
    v = draw(values())
    where = draw(st.sampled_from(["value_to_node"] * 3 + ["argument"] * 4 + ["literal", "operator", "merge", "convert", "wrapper"]))
    case = {"value": v, "where": where}
    if where == "value_to_node":
        case["type"] = draw(st.sampled_from(sorted(TYPES)))
    elif where == "argument":
        case["type"] = draw(st.sampled_from(sorted(METHODS)))
        case["slot"] = draw(st.sampled_from(["positional", "vararg", "vararg 2", "keyword", "first as keyword"]))
    elif where == "operator":
        case["op"] = draw(st.sampled_from(["n|v", "v|n", "n+v", "v+n", "n-v", "v-n"]))
        case["other"] = draw(st.sampled_from(["node", "param"]))
    elif where == "wrapper":
        case["method"] = draw(st.sampled_from(["add_difference", "add_perpendicular", "ties_with_dare", "n_model_stock", "add_difference_ties"]))
        case["slot"] = draw(st.integers(0, 2))
    elif where == "merge":
        case["as"] = draw(st.sampled_from(["recipe", "fallback_model"]))
    return case


def accepted(v):
    """does the value become a recipe at all? -> kind of the node or None"""
    kinds = v["kinds"]
    if not v["dict"]:
        return "path" if kinds[0] == "path" else None if family(kinds[0]) == "bad" else "node" if family(kinds[0]) == "node" else "literal"
    if any(family(k) == "bad" for k in kinds) or len({family(k) for k in kinds}) > 1 or len({NODES[k] for k in kinds if k in NODES}) > 1:
        return None
    return "literal"


def items(value):
    return [(k, id(v)) for k, v in value.items()]


def judge(node, v, value, before, what):
    kind = accepted(v)
    if kind == "node":
        check(node is value, lambda: f"{what}: the recipe was replaced by {node}")
    elif kind == "path":
        check(type(node) is ModelRecipeNode and node.path == value and node.merge_space.identifier == "weight", lambda: f"{what}: a path became {type(node).__name__} {vars(node)}")
    else:
        check(type(node) is LiteralRecipeNode, lambda: f"{what}: a literal became {type(node).__name__}")
        if v["dict"]:
            check(isinstance(node.value, dict) and items(node.value) == before, lambda: f"{what}: the literal holds {node.value}, given {value}")
        else:
            check(type(node.value) is type(value) and (node.value is value or not isinstance(value, Tensor) and node.value == value), lambda: f"{what}: the literal holds {node.value!r}, given {value!r}")
        nodes = {NODES[k] for k in v["kinds"] if k in NODES} if v["dict"] else set()
        space = next(iter(nodes))[1] if nodes else "param"
        config = next(iter(nodes))[0] if nodes else None
        check(node.merge_space.identifier == space, lambda: f"{what}: the literal is in space {node.merge_space.identifier}, expected {space}")
        check(getattr(node.model_config, "identifier", None) == config, lambda: f"{what}: the literal has config {node.model_config}, expected {config}")
    if v["dict"]:
        check(items(value) == before, lambda: f"{what}: the dictionary that was given has changed: {value}")


def build(v, path):
    if not v["dict"]:
        return make(v["kinds"][0], 3, path)
    d = {f"k{i}": make(k, i, path) for i, k in enumerate(v["kinds"])}
    return collections.OrderedDict(d) if v["type"] == "OrderedDict" else d


def run(case):
    with scratch() as d:
        path = d / "model.safetensors"
        tensors = {"a": torch.tensor([1.5, -2.0]), "b": torch.tensor([[3.0]])}
        stf.save(path, tensors)
        return judge_case(case, d, path, tensors)


def judge_case(case, d, path, tensors):
    v, where = case["value"], case["where"]
    value = build(v, path)
    before = items(value) if v["dict"] else None
    kind = accepted(v)
    what = f"{where} {({k: x for k, x in case.items() if k not in ('value', 'where')})} of {value!r}"
    verdict = f"{where}: {'dictionary' if v['dict'] else kind or 'bad'}" if v["dict"] and len(v["kinds"]) > 1 or kind in (None, "path") else False
    if where == "value_to_node":
        call = (lambda: value_to_node(value)) if case["type"] == "none" else lambda: value_to_node(value, TYPES[case["type"]])
        if kind is None or kind == "path" and case["type"] not in PATH_OK:
            must_raise(what, call, *ERRORS)
        else:
            with sut(what):
                node = call()
            judge(node, v, value, before, what)
    elif where == "argument":
        method, slot = METHODS[case["type"]], case["slot"]
        first = v["kinds"][0] if v["kinds"] else "int"
        config, space = NODES.get(first, (None, "weight" if first == "path" and not v["dict"] else "param"))
        other = sd_mecha.literal({"a": torch.ones(2)}, config, space)  # the arguments have to agree on the space
        args, kwargs, at = {"positional": ((value,), {}, 0), "vararg": ((other, value), {}, 1), "vararg 2": ((other, other, value), {}, 2), "keyword": ((other,), {"k": value}, "k"), "first as keyword": ((), {"a": value}, 0)}[slot]
        if slot == "keyword" and kind is not None and space != "param":
            return False  # a parameter with a default is in the param space
        call = lambda: method(*args, **kwargs)
        if kind is None or kind == "path" and case["type"] not in PATH_OK:
            must_raise(what, call, *ERRORS)
        else:
            with sut(what):
                node = call()
            check(type(node) is MergeRecipeNode, lambda: f"{what}: the call gave {node}")
            judge(node.kwargs[at] if at == "k" else node.args[at], v, value, before, what)
            if kind == "path" and slot == "positional" and case["type"] in ("Tensor", "StateDict[Tensor]"):
                with sut(what + ": merge"):
                    res = sd_mecha.merge(node, strict_weight_space=False, output_dtype=torch.float64)
                check(res.keys() == tensors.keys() and all(torch.equal(res[k], t.double()) for k, t in tensors.items()), lambda: f"{what}: merged {res}, the file holds {tensors}")
    elif where == "literal":
        # mixed values are only refused when they are used
        mixed = kind is None and v["dict"] and all(k in NODES for k in v["kinds"])
        if kind in (None, "path", "node") and not mixed:
            return False
        if mixed:
            must_raise(what, lambda: sd_mecha.literal(value), *ERRORS)
        else:
            with sut(what):
                node = sd_mecha.literal(value)
            judge(node, v, value, before, what)
    elif where == "operator":
        op = case["op"]
        other = make(case["other"], 0, path)
        call = {"n|v": lambda: other | value, "v|n": lambda: value | other, "n+v": lambda: other + value, "v+n": lambda: value + other, "n-v": lambda: other - value, "v-n": lambda: value - other}[op]
        if op[0] == "v" and not v["dict"] and v["kinds"][0] in ("tensor", "ndarray", "float32", "fraction", "set", "proxy", "userdict", "class", "list", "tuple", "deque"):
            return False  # the operator of the other class is asked first
        if kind is None:
            must_raise(what, call, *ERRORS)
        else:
            space = NODES[v["kinds"][0]][1] if v["kinds"] and v["kinds"][0] in NODES else "weight" if kind == "path" else "param"
            config = NODES[v["kinds"][0]][0] if v["kinds"] and v["kinds"][0] in NODES else None
            if op[1] == "|" and config is None and space == NODES[case["other"]][1] or op[1] == "-" and kind == "path" and case["other"] == "node" or op[1] == "+" and v["kinds"] and v["kinds"][0] == "delta" and case["other"] == "node":
                with sut(what):
                    node = call()
                check(type(node) is MergeRecipeNode and other in node.args, lambda: f"{what}: gave {node}")
                got = [a for a in node.args[:2] if a is not other]
                at = 1 if op[0] == "n" or op[1] == "+" else 0
                check(len(got) == 1 and node.args[at] is got[0], lambda: f"{what}: the operands are in the wrong order: {node.args}")
                judge(got[0], v, value, before, what)
            else:
                return False
    elif where == "wrapper":
        args = [make("node", i, path) for i in range(3)]
        args[case["slot"]] = value
        call = lambda: getattr(sd_mecha, case["method"])(*args)
        if kind is None and not (not v["dict"] and v["kinds"][0] == "none"):
            must_raise(what, call, *ERRORS)
        elif kind == "path":
            with sut(what):
                node = call()
            used = list(leaves(node))
            check(any(type(n) is ModelRecipeNode and n.path == path for n in used), lambda: f"{what}: the path is not part of the recipe")
        else:
            return False
    elif where == "convert":
        call = lambda: sd_mecha.convert(value, CONFIGS[0])
        if kind is None:
            must_raise(what, call, *ERRORS)
        else:
            return False
    elif where == "merge":
        if case["as"] == "fallback_model" and v["kinds"] == ["ellipsis"] and not v["dict"]:
            return False  # stands for no fallback model
        out = d / "out.safetensors"
        base = make("node", 0, path)
        call = lambda: sd_mecha.merge(value if case["as"] == "recipe" else base, output=out, strict_weight_space=False, output_dtype=torch.float64, **({} if case["as"] == "recipe" else {"fallback_model": value}))
        if kind is None:
            must_raise(what, call, *ERRORS)
            check(not out.exists(), lambda: f"{what}: refused after the output was written")
        elif kind == "path" or v["dict"] and v["kinds"] and family(v["kinds"][0]) in ("tensor", "number", "node"):
            if case["as"] == "fallback_model":
                return False
            with sut(what):
                call()
            got, _ = stf.load(out)
            want = tensors if kind == "path" else expect(v)
            if want is None:
                return False
            check(got.keys() == want.keys() and all(torch.equal(got[k], t.double()) for k, t in want.items()), lambda: f"{what}: merged {got}, expected {want}")
        else:
            return False
    return verdict


def expect(v):
    if family(v["kinds"][0]) == "node":
        return None  # keys of the nodes: P22, P29
    return {f"k{i}": x if isinstance(x, Tensor) else torch.tensor(float(x)) for i, x in enumerate(make(k, i, None) for i, k in enumerate(v["kinds"]))}


def leaves(node):
    yield node
    if isinstance(node, MergeRecipeNode):
        for a in (*node.args, *node.kwargs.values()):
            yield from leaves(a)
    elif isinstance(node, LiteralRecipeNode) and isinstance(node.value, dict):
        for a in node.value.values():
            yield from leaves(a)


SUBS = [Sub("values", cases(), run, quick=12000, rule="the value is a dictionary of several entries, a path, or not a recipe value (class)")]
