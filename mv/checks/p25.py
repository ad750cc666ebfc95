import itertools
import os
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from torch import Tensor
from ..core import Sub, sut, check, must_raise, scratch
from .. import st as stf

ASSUMPTIONS = [
    "a merge method whose parameters declare configs different from the one of its result reads them as state dicts: a tensor parameter only ever receives keys of the resulting config",
    "models without a config hold all the keys of one of the configs, so that their config can be inferred, or keys of no config (structural)",
]
COUNT = itertools.count()
NAMES = "abc"
# some names are shared, so that mixed models could go unnoticed
KEYS = {c: ["mvc.shared.0", "mvc.shared.1"][:2 if c != "c" else 1] + [f"mvc.{c}.{i}" for i in range(6)] for c in NAMES}
KEYS["s"] = [f"mvs.{i}" for i in range(3)]
CONFIGS = {c: model_configs.ModelConfigImpl(identifier=f"mvc-{c}", components={"all": {k: {"shape": [2], "dtype": "float32"} for k in KEYS[c]}}) for c in NAMES}
for cfg in CONFIGS.values():
    model_configs.register_aux(cfg)


def value(seed, key):
    g = torch.Generator().manual_seed(seed * 1000 + sum(map(ord, key)))
    return torch.randint(-9, 10, [2], generator=g).double()


# --------------------------------------------------------------- methods
@st.composite
def signatures(draw):
    ret = draw(st.sampled_from([None, None, None, "a", "b"]))

    def param(kw=False):
        kind = draw(st.sampled_from(["tensor", "sd", "sd", "float"] if kw else ["tensor", "tensor", "sd", "sd", "float"]))
        cfg = draw(st.sampled_from([None, None, None, "a", "b", "c"]))
        if kind == "tensor" and cfg is not None and cfg != ret:
            kind = "sd"
        if kind == "float" and cfg != ret:
            cfg = None
        return {"kind": kind, "config": cfg}
    args = [param() for _ in range(draw(st.integers(0, 3)))]
    var = draw(st.one_of(st.none(), st.just({"kind": "tensor", "config": draw(st.sampled_from([None, ret]))}), st.just({"kind": "sd", "config": draw(st.sampled_from([None, "a", "c"]))})))
    if not args and var is None:
        args = [param()]
    kwonly = [param(True) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    if ret is None and all(p["config"] for p in (*args, *kwonly, *([var] if var else []))):
        # the result needs a config
        ret = draw(st.sampled_from("ab"))
    return {"ret": ret, "args": args, "var": var, "kw": kwonly}


def declare(sig):
    ns = {"body": body}
    typ = {"tensor": Tensor, "sd": StateDict[Tensor], "float": float}

    def annotate(name, p):
        space = "param" if p["kind"] == "float" else ["weight", "param"]
        ns["T_" + name] = Parameter(typ[p["kind"]], space, p["config"] and CONFIGS[p["config"]])
        return f"{name}: T_{name}"
    parts = [annotate(f"p{i}", p) for i, p in enumerate(sig["args"])]
    if sig["var"]:
        parts.append("*" + annotate("va", sig["var"]))
    elif sig["kw"]:
        parts.append("*")
    parts += [annotate(f"k{i}", p) for i, p in enumerate(sig["kw"])]
    ns["R"] = Return(Tensor, "weight", sig["ret"] and CONFIGS[sig["ret"]])
    given_args = "".join(f"p{i}, " for i in range(len(sig["args"]))) + ("*va, " if sig["var"] else "")
    exec(f"def f({', '.join(parts)}, **kwargs) -> R:\n    return body([{given_args}{''.join(f'k{i}, ' for i in range(len(sig['kw'])))}], kwargs['key'])", ns)
    return merge_method(ns["f"], identifier=f"mvc_{os.getpid()}_{next(COUNT)}", register=False)


def read(x, key):
    """a state dict is read at the merged key when its config has it, and at its first key otherwise"""
    if x.model_config is None or key in x.model_config.keys():
        return x[key]
    return x[list(x.model_config.keys())[0]]


def body(xs, key):
    res = torch.zeros(2, dtype=torch.float64)
    for i, x in enumerate(xs):
        res = res + (i + 1) * (read(x, key) if isinstance(x, StateDict) else x)
    return res


BUILTIN = {"weighted_sum": lambda x: x[0] * .75 + x[1] * .25, "fallback": lambda x: x[0], "n_average": lambda x: (x[0] + x[1]) / 2}


# --------------------------------------------------------------- recipes
@st.composite
def trees(draw, depth, want):
    """want: the config that is asked for, most of the time"""
    if draw(st.integers(0, 7)) == 0:
        want = draw(st.sampled_from("abcs"))
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        kind = draw(st.sampled_from(["model", "model", "model", "inferred", "file", "file inferred", "scalar", "dict", "dict inferred"]))
        if kind == "scalar":
            return {"op": "scalar", "value": draw(st.integers(-3, 3))}
        return {"op": kind, "config": want, "seed": draw(st.integers(0, 99))}
    op = draw(st.sampled_from(["method", "method", "method", "builtin", "recipes"]))
    if op == "builtin":
        return {"op": op, "name": draw(st.sampled_from(sorted(BUILTIN))), "args": [draw(trees(depth - 1, want)) for _ in range(2)]}
    if op == "recipes":
        return {"op": op, "config": want, "values": [draw(trees(depth - 1, want)) for _ in range(draw(st.integers(1, 2)))]}
    sig = draw(signatures())
    if want in NAMES and sig["ret"] is not None:
        sig["ret"] = want
        for p in (*sig["args"], *sig["kw"], *([sig["var"]] if sig["var"] else [])):
            if p["kind"] in ("tensor", "float") and p["config"] is not None:
                p["config"] = want

    def arg(p):
        return draw(trees(depth - 1, p["config"] or sig["ret"] or want))
    return {"op": op, "sig": sig, "args": [arg(p) for p in sig["args"]] + [arg(sig["var"]) for _ in range(draw(st.integers(0, 2)) if sig["var"] else 0)], "kw": [arg(p) for p in sig["kw"]]}


@st.composite
def cases(draw):
    return {"tree": draw(trees(draw(st.integers(1, 3)), draw(st.sampled_from("aaabs")))), "threads": draw(st.sampled_from([0, 0, 2])), "to": draw(st.booleans())}


class Reject(Exception):
    pass


class Unclear(Exception):
    """the property says nothing about this recipe"""


def combine(params, ret, configs):
    """the config of the result of a method"""
    common = ret
    for p, c in zip(params, configs):
        if c is None:
            continue
        if p is not None:
            if p != c:
                raise Reject(f"an argument has config {c} instead of {p}")
        elif common is None:
            common = c
        elif common != c:
            raise Reject(f"an argument has config {c} instead of {common}")
    return common


def config_of(t):
    op = t["op"]
    if op == "scalar":
        return None
    if op in ("model", "file", "inferred", "file inferred", "dict", "dict inferred"):
        return t["config"]
    if op == "builtin":
        return combine([None, None], None, [config_of(a) for a in t["args"]])
    if op == "recipes":
        configs = [config_of(v) for v in t["values"]]
        if len({known(v) for v in t["values"]}) > 1:
            # all the values need the same config when the dictionary is created
            raise Unclear
        if len(set(configs)) > 1 and None not in configs:
            raise Reject(f"a dictionary of recipes of configs {configs}")
        if configs[0] != t["config"]:
            # keys of another config, or recipes without a config
            raise Unclear
        if None in configs:
            raise Unclear
        return configs[0]
    params = params_of(t)
    configs = [config_of(a) for a in (*t["args"], *t["kw"])]
    return combine([p["config"] for p in params], t["sig"]["ret"], configs)


def known(t):
    """the config of a recipe before it is merged"""
    op = t["op"]
    if op in ("model", "file", "dict") and t["config"] != "s":
        return t["config"]
    if op == "recipes":
        return known(t["values"][0])
    if op == "method":
        return combine([p["config"] for p in params_of(t)], t["sig"]["ret"], [known(a) for a in (*t["args"], *t["kw"])])
    if op == "builtin":
        return combine([None, None], None, [known(a) for a in t["args"]])
    return None


def params_of(t):
    sig = t["sig"]
    return sig["args"] + [sig["var"]] * (len(t["args"]) - len(sig["args"])) + sig["kw"]


def build(t, d, n):
    op = t["op"]
    if op == "scalar":
        return float(t["value"])
    if op in ("model", "inferred", "file", "file inferred", "dict", "dict inferred"):
        c = t["config"]
        given = [CONFIGS[c]] if c != "s" and not op.endswith("inferred") else []
        if op.startswith("dict"):
            return sd_mecha.literal({k: float(value(t["seed"], k)[0]) for k in KEYS[c]}, *given)
        sd = {k: value(t["seed"], k) for k in KEYS[c]}
        if op.startswith("file"):
            path = d / f"{next(n)}.safetensors"
            stf.save(path, sd)
            return sd_mecha.model(path, *given)
        return sd_mecha.model(sd, *given)
    if op == "builtin":
        xs = [build(a, d, n) for a in t["args"]]
        if t["name"] == "weighted_sum":
            return sd_mecha.weighted_sum(*xs, alpha=0.25)
        return merge_methods.resolve(t["name"])(*xs)
    if op == "recipes":
        vs = [build(v, d, n) for v in t["values"]]
        vs = [v if isinstance(v, sd_mecha.recipe_nodes.RecipeNode) else sd_mecha.literal(v) for v in vs]
        return {k: vs[i % len(vs)] for i, k in enumerate(KEYS[t["config"]])}
    return declare(t["sig"])(*[build(a, d, n) for a in t["args"]], **{f"k{i}": build(a, d, n) for i, a in enumerate(t["kw"])})


def evaluate(t, key):
    op = t["op"]
    if op == "scalar":
        return torch.full([2], float(t["value"]), dtype=torch.float64)
    if op in ("model", "inferred", "file", "file inferred"):
        return value(t["seed"], key)
    if op.startswith("dict"):
        return value(t["seed"], key)[:1].expand(2)
    if op == "builtin":
        return BUILTIN[t["name"]]([evaluate(a, key) for a in t["args"]])
    if op == "recipes":
        return evaluate(t["values"][KEYS[t["config"]].index(key) % len(t["values"])], key)
    res = torch.zeros(2, dtype=torch.float64)
    for i, (p, a) in enumerate(zip(params_of(t), (*t["args"], *t["kw"]))):
        c = config_of(a)
        k = key if c is None or key in KEYS[c] else KEYS[c][0]
        res = res + (i + 1) * evaluate(a, k)
    return res


def space(t):
    """literals are in param space; unclear when the builtin methods receive a mixture"""
    op = t["op"]
    if op == "scalar" or op.startswith("dict"):
        return "param"
    if op in ("model", "inferred", "file", "file inferred"):
        return "weight"
    if op == "builtin":
        a, b = map(space, t["args"])
        if a != b:
            raise Unclear
        return a
    if op == "recipes":
        s = {space(v) for v in t["values"]}
        if len(s) > 1:
            raise Unclear
        return s.pop()
    for p, a in zip(params_of(t), (*t["args"], *t["kw"])):
        if space(a) == "weight" and p["kind"] == "float":
            raise Unclear
        if p["kind"] == "float" and (a["op"] not in ("scalar", "dict", "dict inferred")):
            raise Unclear
    return "weight"


def nones(t):
    """results without a config, other than plain numbers, and numbers given as whole models"""
    if t["op"] in ("builtin", "method"):
        return config_of(t) is None or any(nones(a) for a in (*t["args"], *t.get("kw", [])))
    if t["op"] == "recipes":
        return any(nones(a) for a in t["values"])
    return False


def run(case):
    t = case["tree"]
    try:
        if space(t) != "weight":
            return False
        if nones(t):
            return False
        c = config_of(t)
        reason = None
    except Unclear:
        return False
    except Reject as e:
        reason = str(e)
    with scratch() as d:
        def go():
            node = build(t, d, itertools.count())
            if case["to"] and not isinstance(node, dict):
                node = node.to(dtype=torch.float64)
            return sd_mecha.merge(node, threads=case["threads"], merge_dtype=torch.float64, output_dtype=torch.float64, total_buffer_size=2 ** 12)
        if reason is not None:
            must_raise(f"{case}: {reason}", go)
            return "rejected"
        with sut(f"{case}: a recipe of config {c}"):
            out = go()
    check(set(out) == set(KEYS[c]), lambda: f"{case}: keys {sorted(out)}, expected those of config {c}")
    for k in KEYS[c]:
        want = evaluate(t, k)
        check(torch.equal(out[k].expand(2), want), lambda: f"{case}: key {k}: {out[k].tolist()}, expected {want.tolist()}")
    ops = t["op"] in ("method", "builtin", "recipes")
    return ops and f"accepted {'structural' if c == 's' else 'config'}"


# --------------------------------------------------------------- the declared rule, alone
@st.composite
def combos(draw):
    sig = draw(signatures())
    opts = st.sampled_from([None, "a", "a", "b", "c", "s"])
    return {"sig": sig, "args": [draw(opts) for _ in range(len(sig["args"]) + (draw(st.integers(0, 3)) if sig["var"] else 0))], "kw": [draw(opts) for _ in sig["kw"]]}


def run_combos(case):
    sig = case["sig"]
    try:
        want = combine([p["config"] for p in params_of({"sig": sig, "args": case["args"]})], sig["ret"], [*case["args"], *case["kw"]])
    except Reject:
        want = Reject

    def node(c):
        if c is None:
            return 1.0
        return sd_mecha.model({k: torch.ones(2) for k in KEYS[c]}, CONFIGS[c] if c != "s" else model_configs.StructuralModelConfig({}))
    m = declare(sig)
    floats = [p["kind"] == "float" for p in params_of({"sig": sig, "args": case["args"]})]
    xs = [sd_mecha.literal({k: 1.0 for k in KEYS[c]}, CONFIGS[c]) if f and c and c in NAMES else node(c) for f, c in zip(floats, [*case["args"], *case["kw"]])]
    if any(f and c == "s" for f, c in zip(floats, [*case["args"], *case["kw"]])):
        return False
    n = len(case["args"])

    def go():
        return m(*xs[:n], **{f"k{i}": x for i, x in enumerate(xs[n:])}).model_config
    if want is Reject:
        must_raise(f"{case}: incompatible configs", go, ValueError)
        return "rejected"
    with sut(f"{case}: config of the result"):
        got = go()
    got = got and got.identifier
    check(got == (want and ("structural" if want == "s" else f"mvc-{want}")), lambda: f"{case}: the result has config {got}, expected {want}")
    return "accepted" if len({c for c in (*case["args"], *case["kw"]) if c}) > 0 else False


# --------------------------------------------------------------- ambiguous models
TWIN_KEYS = [f"mvtw.{i}" for i in range(4)]
TWINS = [model_configs.ModelConfigImpl(identifier=f"mvtw-{i}", components={"all": {k: {"shape": [2], "dtype": "float32"} for k in TWIN_KEYS + [f"mvtw.own{i}"][:i]}}) for i in range(3)]
for cfg in TWINS:
    model_configs.register_aux(cfg)
SEEN = []


def twin_method(i, kind, extra):
    def f(a: Parameter(StateDict[Tensor] if kind == "sd" else Tensor, ["weight", "param"], TWINS[i]), b: Parameter(Tensor, ["weight", "param"], TWINS[i] if extra else None) = 1.0, **kwargs) -> Return(Tensor, "weight", TWINS[i]):
        if kind == "sd":
            SEEN.append(a.model_config.identifier)
            return a[kwargs["key"]] + b
        return a + b

    def g(*a: Parameter(StateDict[Tensor] if kind == "sd" else Tensor, ["weight", "param"], TWINS[i]), b: Parameter(float, "param") = 1.0, **kwargs) -> Return(Tensor, "weight", TWINS[i]):
        if kind == "sd":
            SEEN.extend(x.model_config.identifier for x in a)
            return sum(x[kwargs["key"]] for x in a) + b
        return sum(a) + b
    f.__annotations__["b"] = Parameter(Tensor, "param", TWINS[i] if extra else None)
    return [merge_method(x, identifier=f"mvtw_{os.getpid()}_{next(COUNT)}", register=False) for x in (f, g)]


@st.composite
def twins(draw):
    return {"twin": draw(st.integers(0, 2)), "kind": draw(st.sampled_from(["sd", "tensor"])), "var": draw(st.booleans()), "models": draw(st.integers(1, 3)), "store": draw(st.sampled_from(["mem", "file", "dict", "node"])), "extra": draw(st.booleans()),
            "under": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def run_twins(case):
    i = case["twin"]
    method = twin_method(i, case["kind"], case["extra"])[case["var"]]
    with scratch() as d:
        models, want = [], {k: torch.ones(2, dtype=torch.float64) for k in TWIN_KEYS}
        for j in range(case["models"] if case["var"] else 1):
            sd = {k: value(case["seed"] + j, k) for k in TWIN_KEYS}
            if case["store"] == "dict":
                sd = {k: v[:1].expand(2) for k, v in sd.items()}
                models.append({k: float(v[0]) for k, v in sd.items()})
            elif case["store"] == "file":
                stf.save(d / f"{j}.safetensors", sd)
                models.append(sd_mecha.model(d / f"{j}.safetensors"))
            else:
                models.append(sd_mecha.model(sd))
            want = {k: want[k] + v for k, v in sd.items()}
        SEEN.clear()
        with sut(f"{case}: a model that matches several configs, given to a parameter with a config"):
            node = method(*models)
            # (without casts: what is between a model and the parameter hides the declared config)
            if case["under"]:
                node = sd_mecha.weighted_sum(node, node, alpha=0.5)
            out = sd_mecha.merge(node, threads=0, merge_device=None, merge_dtype=None, output_dtype=torch.float64)
    check(set(SEEN) <= {TWINS[i].identifier}, lambda: f"{case}: the method received models of config {set(SEEN)}")
    check(set(out) == set(TWIN_KEYS), lambda: f"{case}: keys {sorted(out)}")
    for k, v in want.items():
        check(bool((out[k] == v).all()), lambda: f"{case}: {k}: {out[k]}, expected {v}")
    return f"twin {i}"


SUBS = [
    Sub("ambiguous", twins(), run_twins, 250, rule="every case"),
    Sub("recipes", cases(), run, 3500, rule="the recipe has at least one merge method and its configs are determined"),
    Sub("signatures", combos(), run_combos, 900, rule="some argument has a config"),
]
