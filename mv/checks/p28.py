import itertools
import os
import pathlib
import typing
import numpy
import torch
import sd_mecha
from collections.abc import Mapping
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, merge_spaces, model_configs
from torch import Tensor
from ..core import Sub, sut, check, must_raise

ASSUMPTIONS = [
    "the values of state dicts (the argument of StateDict) and optional result types are not validated, and neither are methods without parameters that declare a config for their result",
    "a declaration is only judged when it is made: that a result space can be inferred from the arguments is checked for each call (P09)",
]
COUNT = itertools.count()
ALL = ["weight", "delta", "param"]
V = typing.TypeVar("V", float, str)
GOOD = {
    "Tensor": Tensor, "float": float, "int": int, "str": str, "bool": bool, "None": type(None), "T": merge_methods.T, "V": V, "StateDict": StateDict, "StateDict[Tensor]": StateDict[Tensor], "StateDict[float]": StateDict[float], "StateDict[T]": StateDict[merge_methods.T],
    "float | None": float | None, "Optional[Tensor]": typing.Optional[Tensor], "str | None": str | None, "Optional[StateDict[Tensor]]": typing.Optional[StateDict[Tensor]],
}
GOOD_RETURN = ["Tensor", "Tensor", "float", "int", "str", "bool", "T", "V"]
BAD = {
    "list": list, "dict": dict, "tuple": tuple, "bytes": bytes, "complex": complex, "object": object, "ndarray": numpy.ndarray, "Path": pathlib.Path, "set": set, "Mapping": Mapping, "list[int]": list[int], "dict[str, Tensor]": dict[str, Tensor],
    "Mapping[str, Tensor]": typing.Mapping[str, Tensor], "int | str": int | str, "Union[Tensor, StateDict]": typing.Union[Tensor, StateDict[Tensor]], "Tuple": typing.Tuple[int, int], "RecipeNode": sd_mecha.recipe_nodes.RecipeNode, "Iterable": typing.Iterable[float], "Any": typing.Any,
    "type": type, "'Tensor'": "Tensor", "3": 3, "dtype": torch.dtype,
}
BAD_RETURN = [*BAD, "StateDict", "StateDict[Tensor]", "StateDict[float]"]


@st.composite
def space_decl(draw):
    k = draw(st.sampled_from(["none", "none", "one", "one", "set", "object", "sym", "sym"]))
    if k in ("one", "object"):
        return {k: draw(st.sampled_from(ALL))}
    if k == "set":
        return {"set": sorted(draw(st.sets(st.sampled_from(ALL), min_size=1, max_size=3))), "as": draw(st.sampled_from(["list", "tuple", "set", "objects"]))}
    if k == "sym":
        return {"sym": draw(st.integers(0, 1))}
    return {}


# the annotations that make a declaration invalid
FAULTS = ["type", "type", "missing", "plain", "no parentheses", "swapped", "unknown space", "unknown config", "structural config", "instance", "string"]


@st.composite
def annotation(draw, ret=False, default=False, fault=None):
    a = {"type": draw(st.sampled_from(GOOD_RETURN if ret else sorted(GOOD))), "config": draw(st.sampled_from([None, None, 0, 1])), "config_as": draw(st.sampled_from(["id", "object"]))}
    if default and draw(st.integers(0, 3)):
        a["space"] = draw(st.sampled_from([{}, {"one": "param"}, {"object": "param"}, {"set": ["param"], "as": "list"}]))
    elif ret:
        a["space"] = draw(st.sampled_from([{}, {"one": "weight"}, {"one": "param"}, {"object": "delta"}, {"sym": 0}, {"sym": 1}]))
    else:
        a["space"] = draw(space_decl())
    if fault is not None:
        a["fault"] = fault
        if fault == "type":
            a["type"] = draw(st.sampled_from(BAD_RETURN if ret else sorted(BAD)))
        if fault == "plain":
            a["plain"] = draw(st.sampled_from(["Tensor", "float", "list", "str", "StateDict", "object"]))
        if fault in ("unknown space", "unknown config"):
            a["unknown"] = draw(st.sampled_from(["", "weights", "Weight", "sd1", "sd1-lmd", "param ", "structural-x", "x y"]))
    elif not ret:
        a["optional"] = draw(st.integers(0, 5)) == 0
    return a


@st.composite
def cases(draw):
    conversion = draw(st.integers(0, 3)) == 0
    n_pos = draw(st.sampled_from([1, 1, 1, 0, 2] if conversion else [0, 1, 1, 2, 3]))
    n_kw = draw(st.sampled_from([0, 0, 0, 1] if conversion else [0, 0, 1, 2]))
    vararg = draw(st.integers(0, 3)) == 0 if n_pos else draw(st.booleans())
    total = n_pos + n_kw + vararg
    # most of the declarations are valid except for at most one fault
    faulty = draw(st.integers(0, total + 1)) if draw(st.integers(0, 2)) == 0 else None
    fault = draw(st.sampled_from(FAULTS))
    first_default = draw(st.integers(0, n_pos)) if not conversion and draw(st.integers(0, 1)) else n_pos
    params = []
    for i in range(n_pos):
        default = i >= first_default
        params.append({"kind": "pos", "default": default, "ann": draw(annotation(False, default, fault if faulty == i else None))})
    if vararg:
        params.append({"kind": "var", "default": False, "ann": draw(annotation(False, False, fault if faulty == len(params) else None))})
    for _ in range(n_kw):
        default = draw(st.booleans()) or conversion
        params.append({"kind": "kw", "default": default, "ann": draw(annotation(False, default, fault if faulty == len(params) else None))})
    ret = draw(annotation(True, False, fault if faulty == total else None))
    if conversion and draw(st.integers(0, 5)):
        for p in params:
            if p["kind"] in ("pos", "var"):
                p["ann"]["config"] = 0
        ret["config"] = 1
    if "sym" in ret["space"] and draw(st.integers(0, 3)):
        # use the symbol somewhere
        free = [p for p in params if not p["default"]]
        if free:
            draw(st.sampled_from(free))["ann"]["space"] = dict(ret["space"])
    return {"params": params, "ret": ret, "varkw": draw(st.booleans()), "conversion": conversion, "register": draw(st.integers(0, 3)) > 0, "name": draw(st.sampled_from(["function", "identifier", "identifier", "odd"])),
            "style": draw(st.sampled_from(["decorator", "call", "arguments"])), "strings": draw(st.booleans()), "before": draw(st.booleans()), "syms": [sorted(draw(st.sets(st.sampled_from(ALL), min_size=1))) for _ in range(2)]}


def reference(case):
    """-> why the declaration is invalid, or None"""
    for a in [*(p["ann"] for p in case["params"]), case["ret"]]:
        if a.get("fault"):
            return a["fault"]
    for p in case["params"]:
        if p["default"]:
            s = p["ann"]["space"]
            if not (s == {} or s.get("one") == "param" or s.get("object") == "param" or s.get("set") == ["param"]):
                return "default value outside of param space"
    if case["ret"]["config"] is None and all(p["ann"]["config"] is not None for p in case["params"]):
        return "config of the result"
    if "sym" in case["ret"]["space"] and not any(p["ann"]["space"].get("sym") == case["ret"]["space"]["sym"] for p in case["params"]):
        return "unused symbol"
    if case["conversion"]:
        if not case["register"]:
            return "conversion that is not registered"
        pos = [p for p in case["params"] if p["kind"] == "pos"] or [p for p in case["params"] if p["kind"] == "var"]
        if len(pos) != 1:
            return "conversion of several arguments"
        if pos[0]["ann"]["config"] is None:
            return "conversion from no config"
        if case["ret"]["config"] is None:
            return "conversion to no config"
    return None


def make_space(s, syms, ret=False):
    if "one" in s:
        return s["one"]
    if "object" in s:
        return merge_spaces.resolve(s["object"])
    if "set" in s:
        return {"list": list, "tuple": tuple, "set": set, "objects": lambda x: [merge_spaces.resolve(i) for i in x]}[s["as"]](s["set"])
    if "sym" in s:
        return syms[s["sym"]]
    return None


def make_annotation(a, ret, syms, configs):
    make = Return if ret else Parameter
    fault = a.get("fault")
    if fault == "plain":
        return {"Tensor": Tensor, "float": float, "list": list, "str": str, "StateDict": StateDict, "object": object}[a["plain"]]
    if fault == "no parentheses":
        return make
    if fault == "string":
        return "Tensor"
    space, config = make_space(a["space"], syms, ret), configs[a["config"]] if a["config"] is not None else None
    if config is not None and a["config_as"] == "id":
        config = config.identifier
    if fault == "unknown space":
        space = a["unknown"]
    if fault == "unknown config":
        config = a["unknown"]
    if fault == "structural config":
        config = model_configs.StructuralModelConfig({}) if a["config_as"] == "object" else "structural"
    if fault == "swapped":
        make = Parameter if ret else Return
        if not isinstance(space, str | None):
            space = None
        return make(Tensor, space, config)
    res = make({**GOOD, **BAD}[a["type"]], space, config)
    if fault == "instance":
        return 1.5
    return typing.Optional[res] if a.get("optional") else res


def declare(case, name, identifier, syms, configs):
    ns = {"Tensor": Tensor}
    sig = []
    star = False
    for i, p in enumerate(case["params"]):
        if p["kind"] == "kw" and not star:
            if not any(q["kind"] == "var" for q in case["params"]):
                sig.append("*")
            star = True
        text = ("*" if p["kind"] == "var" else "") + f"p{i}"
        if p["ann"].get("fault") != "missing":
            ns[f"A{i}"] = make_annotation(p["ann"], False, syms, configs)
            text += f": 'A{i}'" if case["strings"] else f": A{i}"
        sig.append(text + (" = None" if p["default"] else ""))
    if case["varkw"]:
        sig.append("**kwargs")
    arrow = ""
    if case["ret"].get("fault") != "missing":
        ns["R"] = make_annotation(case["ret"], True, syms, configs)
        arrow = " -> 'R'" if case["strings"] else " -> R"
    exec(f"def {name}({', '.join(sig)}){arrow}:\n    return 7", ns)
    fn = ns[name]
    options = {}
    if identifier != name:
        options["identifier"] = identifier
    if not case["register"] or case["style"] == "arguments":
        options["register"] = case["register"]
    if case["conversion"] or case["style"] == "arguments":
        options["is_conversion"] = case["conversion"]
    if case["style"] == "call":
        return fn, merge_method(fn, **options)
    if case["style"] == "decorator" and not options:
        return fn, merge_method(fn)
    return fn, merge_method(**options)(fn)


def run(case):
    tag = f"mvd{os.getpid()}x{next(COUNT)}"
    identifier = {"function": tag, "identifier": f"{tag}-id", "odd": f"{tag} \"odd\"=é\n"}[case["name"]]
    configs = [model_configs.ModelConfigImpl(identifier=f"mvd-{tag}_{c}", components={"all": {f"{tag}.k{c}": {"shape": [1], "dtype": "float32"}}}) for c in range(2)]
    for c in configs:
        model_configs.register_aux(c)
    try:
        return judge(case, tag, identifier, configs)
    finally:
        # conversions keep referring to the configs by themselves
        for c in configs:
            getattr(model_configs, "_model_configs_registry_aux", {}).pop(c.identifier, None)


def judge(case, tag, identifier, configs):
    syms = [merge_spaces.MergeSpaceSymbol(*s) for s in case["syms"]]
    previous = None
    if case["before"]:
        def earlier(x: Parameter(Tensor)) -> Return(Tensor):
            return x
        with sut("declaring a merge method"):
            previous = merge_method(earlier, identifier=identifier)
    methods, converters = merge_methods.get_all(), merge_methods.get_all_converters()
    if not case["params"] and case["ret"]["config"] is not None and not case["ret"].get("fault") and not case["conversion"]:
        return None
    why = reference(case)
    src = sd_mecha.literal({f"{tag}.k0": torch.ones(1)}, configs[0], "weight")
    if why is not None:
        must_raise(f"declaring an invalid merge method ({why})", lambda: declare(case, tag, identifier, syms, configs), *((TypeError, ValueError, RuntimeError, AssertionError) if case["params"] else (Exception,)))
        if previous is None:
            must_raise("resolving a merge method whose declaration was rejected", lambda: merge_methods.resolve(identifier), ValueError)
        else:
            check(merge_methods.resolve(identifier) is previous, "a rejected declaration replaced an earlier one")
        check(merge_methods.get_all() == methods, "a rejected declaration is listed")
        check(merge_methods.get_all_converters() == converters, "a rejected declaration is listed as a conversion")
        return why
    with sut("declaring a valid merge method"):
        fn, method = declare(case, tag, identifier, syms, configs)
        check(method.get_identifier() == identifier, f"declared {identifier!r}, got {method.get_identifier()!r}")
        check(method.__wrapped__ is fn, "the method wraps another function")
        listed = merge_methods.get_all()
        if case["register"]:
            check(merge_methods.resolve(identifier) is method, "a registered method cannot be found under its identifier")
            check(any(m is method for m in listed) and len(listed) == len(methods) + (previous is None), "a registered method is not listed")
        else:
            check(listed == methods, "a method that is not registered is listed")
            if previous is not None:
                check(merge_methods.resolve(identifier) is previous, "a method that is not registered replaced another one")
        found = merge_methods.get_all_converters()
        if case["conversion"]:
            check(any(m is method for m in found) and len(found) == len(converters) + 1, "a conversion is not listed")
        else:
            check(found == converters, "a method that is not a conversion is listed as one")
    if not case["register"] and previous is None:
        must_raise("resolving a method that is not registered", lambda: merge_methods.resolve(identifier), ValueError)
    if case["conversion"]:
        x = next((p for p in case["params"] if p["kind"] == "pos"), None) or next(p for p in case["params"] if p["kind"] == "var")
        used = configs[x["ann"]["config"]]
        target = configs[case["ret"]["config"]]
        needs_more = any(p["kind"] == "kw" and not p["default"] for p in case["params"])
        kw_configs = {p["ann"]["config"] for p in case["params"] if p["kind"] == "kw"} - {None}
        if used is configs[0] and target is configs[1] and not needs_more and not kw_configs and accepts_weight(x, case):
            with sut("converting with a declared conversion"):
                node = sd_mecha.convert(src, target)
                check(node.merge_method is method and node.args[0] is src, f"the conversion was not used: {node}")
            return "conversion used"
        return "conversion"
    if any(p["ann"]["config"] == 0 for p in case["params"]) and case["ret"]["config"] == 1:
        must_raise("converting with a method that is not declared as a conversion", lambda: sd_mecha.convert(src, configs[1]), ValueError)
    return f"valid{' (not registered)' if not case['register'] else ''}"


def accepts_weight(p, case):
    """whether a weight is all that it takes to call the conversion with the parameter p"""
    s = p["ann"]["space"]
    if "sym" in case["ret"]["space"] and case["ret"]["space"] != s:
        return False
    if s == {}:
        t = p["ann"]["type"]
        # python values are in param space
        if p["kind"] == "pos" and (t in ("float", "int", "str", "bool", "None") or "|" in t):
            return False
        rest = [q for q in case["params"] if q is not p and q["kind"] == "pos"]
        if rest or case["ret"]["space"] == {} and any(q["kind"] == "kw" for q in case["params"]):
            return False
        return t not in ("V", "T", "StateDict[T]")
    if case["ret"]["space"] == {}:
        return False
    return "weight" in (s.get("set") or (case["syms"][s["sym"]] if "sym" in s else [s.get("one") or s.get("object")]))


SUBS = [Sub("declarations", cases(), run, 6000, rule="all but declarations without parameters (class: why it is invalid, or how it is used)")]
