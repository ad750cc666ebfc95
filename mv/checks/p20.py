import logging
import math
import os
import pathlib
import threading
import numpy as np
import sd_mecha
import torch
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods
from torch import Tensor
from ..core import Sub, sut, check, must_raise, scratch, Violation
from .. import recipes as R, st as stf

ASSUMPTIONS = [
    "the only devices of the sandbox are cpu and meta (tensors without data): the latter stands for another device",
    "a recipe whose inputs lack mandatory keys is merged without them unless check_mandatory_keys is set",
]
DTYPES = ["float64", "float32", "float16", "bfloat16"]
STORED = DTYPES + ["int32", "int8"]
SEEN = []
SEEN_LOCK = threading.Lock()


def seen(**kwargs):
    with SEEN_LOCK:
        SEEN.append(kwargs)


@merge_method(identifier="mv_spy")
def mv_spy(a: Parameter(Tensor), b: Parameter(StateDict[Tensor]), c: Parameter(Tensor) = 0.5, d: Parameter(float) = 0.25, e: Parameter(int) = 3, f: Parameter(str) = "x", g: Parameter(bool) = True, **kwargs) -> Return(Tensor):
    key = kwargs["key"]
    bv = b[key]
    seen(key=key, thread=threading.get_ident(), a=(a.dtype, a.device.type), b=(bv.dtype, bv.device.type), c=(c.dtype, c.device.type), d=d, e=e, f=f, g=g)
    return a + bv + c * d


@merge_method(identifier="mv_thread")
def mv_thread(a: Parameter(Tensor, "weight"), **kwargs) -> Return(Tensor, "weight"):
    seen(key=kwargs["key"], thread=threading.get_ident(), a=(a.dtype, a.device.type))
    return a.clone()


def dt(name):
    return None if name is None else getattr(torch, name)


def value(seed, dtype, shape):
    """small dyadic numbers: exact in all the types"""
    g = np.random.default_rng(seed)
    x = g.integers(-6, 7, shape)
    return torch.from_numpy(np.asarray(x / 2 if dtype.startswith(("float", "bfloat")) else x)).to(dt(dtype))


# --------------------------------------------------------------- dtypes and devices
@st.composite
def dtype_cases(draw):
    n = draw(st.integers(1, 4))
    keys = [{"a": draw(st.sampled_from(STORED)), "b": draw(st.sampled_from(STORED)), "c": draw(st.sampled_from(STORED)), "seed": draw(st.integers(0, 9999)), "shape": draw(st.sampled_from([[], [3], [2, 2]]))} for _ in range(n)]
    return {"keys": keys, "c": draw(st.sampled_from(["default", "number", "int", "dict of numbers", "model", "nested", "tensor"])), "d": draw(st.sampled_from([None, 0.5, 2.0, 0.1])), "store": draw(st.sampled_from(["mem", "mem", "file"])),
            "options": {o: draw(st.sampled_from(["omit", "omit", None] + vs)) for o, vs in (("merge_dtype", DTYPES), ("output_dtype", DTYPES), ("merge_device", ["cpu", "meta"]), ("output_device", ["cpu", "meta"]))},
            "threads": draw(st.sampled_from([0, 0, 2, None])), "defaults": draw(st.booleans())}


def run_dtype(case):
    o = dict(case["options"])
    if o["merge_device"] == "meta" and o["output_device"] in ("cpu", "omit"):
        o["output_device"] = "meta"  # tensors without data cannot be given data
    names = R.FREE_KEYS[:len(case["keys"])]
    data = {m: {k: value([kc["seed"], i], kc[m], kc["shape"]) for k, kc in zip(names, case["keys"])} for i, m in enumerate("abc")}
    kw = {k: dt(v) if k.endswith("dtype") else v for k, v in o.items() if v != "omit"}
    eff = {"merge_dtype": torch.float64, "output_dtype": torch.float16, "merge_device": "cpu", "output_device": "cpu"} | kw
    with scratch() as d:
        nodes = {}
        for m in data:
            if case["store"] == "file":
                stf.save(d / f"{m}.safetensors", data[m])
                nodes[m] = sd_mecha.model(d / f"{m}.safetensors", R.free_config(), "param" if m == "c" else "weight")
            else:
                nodes[m] = sd_mecha.model({k: v.clone() for k, v in data[m].items()}, R.free_config(), "param" if m == "c" else "weight")
        c = {"default": None, "number": 1.5, "int": 2, "dict of numbers": dict.fromkeys(names, 0.25), "model": nodes["c"], "nested": {k: nodes["c"] for k in names}, "tensor": torch.tensor(1.5, dtype=torch.float32)}[case["c"]]
        c_kind = case["c"]
        args = {"a": nodes["a"], "b": nodes["b"]}
        if c is not None:
            args["c"] = sd_mecha.literal(c, R.free_config()) if isinstance(c, dict) else c
        if case["d"] is not None:
            args["d"] = case["d"]
        SEEN.clear()
        with sut(f"merge with {kw}"):
            node = mv_spy(**args)
            call = dict(threads=case["threads"], check_finite=False, total_buffer_size=2 ** 16, strict_weight_space=False)
            if case["defaults"]:
                out = sd_mecha.Defaults(**kw).merge(node, **call)
            else:
                out = sd_mecha.merge(node, **kw, **call)
    check(set(out) == set(names), lambda: f"keys {sorted(out)}, expected {names}")
    by_key = {s["key"]: s for s in SEEN}
    for k, kc in zip(names, case["keys"]):
        s = by_key[k]
        what = lambda: f"{case}: key {k}"
        expected = {}
        for m in "ab":
            expected[m] = (eff["merge_dtype"] or dt(kc[m]), eff["merge_device"] or "cpu")
        stored_c = {"model": dt(kc["c"]), "nested": dt(kc["c"])}.get(c_kind, torch.float32)
        if c_kind == "default":
            # the default of the declaration is a number, too
            expected["c"] = s["c"] if not (eff["merge_dtype"] and eff["merge_device"]) else s["c"]
        else:
            expected["c"] = (eff["merge_dtype"] or stored_c, eff["merge_device"] or "cpu")
        for m, e in expected.items():
            check(s[m] == e, lambda: f"{what()}: input {m} arrives as {s[m]}, expected {e}")
        check(s["d"] == (0.25 if case["d"] is None else case["d"]) and type(s["d"]) is float and s["e"] == 3 and type(s["e"]) is int and s["f"] == "x" and s["g"] is True, lambda: f"{what()}: hyperparameters arrive as {s}")
        got = out[k]
        natural = torch.result_type(torch.empty(kc["shape"], dtype=expected["a"][0], device="meta"), torch.empty(kc["shape"], dtype=expected["b"][0], device="meta"))
        if eff["output_dtype"] is not None:
            check(got.dtype == eff["output_dtype"], lambda: f"{what()}: output {got.dtype}, expected {eff['output_dtype']}")
        elif c_kind != "default" and natural.is_floating_point and c_kind in ("model", "nested"):
            full = torch.empty(kc["shape"], dtype=expected["a"][0], device="meta") + torch.empty(kc["shape"], dtype=expected["b"][0], device="meta") + torch.empty(kc["shape"], dtype=expected["c"][0], device="meta") * 0.5
            check(got.dtype == full.dtype, lambda: f"{what()}: output {got.dtype}, expected {full.dtype}")
        device = eff["output_device"] or eff["merge_device"] or "cpu"
        check(got.device.type == device, lambda: f"{what()}: output on {got.device}, expected {device}")
        check(list(got.shape) == kc["shape"], lambda: f"{what()}: output shape {list(got.shape)}")
        if device == "cpu" and eff["merge_device"] != "meta":
            cv = {"default": 0.5, "number": 1.5, "int": 2, "dict of numbers": 0.25, "tensor": 1.5}.get(c_kind)
            cv = data["c"][k].double() if cv is None else cv
            want = data["a"][k].double() + data["b"][k].double() + cv * (0.25 if case["d"] is None else case["d"])
            err = (got.double() - want).abs().max().item()
            low = {torch.bfloat16: 2 ** -7, torch.float16: 2 ** -10}
            eps = max(low.get(eff["output_dtype"], 1e-6), low.get(eff["merge_dtype"], 1e-6) if eff["merge_dtype"] else max([low.get(dt(kc[m]), 1e-6) for m in "abc"]))
            check(err <= 4 * eps * (1 + want.abs().max().item()), lambda: f"{what()}: {got.tolist()}, expected {want.tolist()}")
    return any(v != "omit" for v in o.values()) and f"merge {o['merge_dtype']}/{o['merge_device']}"


# --------------------------------------------------------------- all the options, given to the call or to a Defaults object
OPTIONS = {
    "merge_dtype": [None, "float64", "float32", "bfloat16"],
    "output_dtype": [None, "float64", "float32", "float16"],
    "threads": [None, 0, 0, 1, 3, -1, 1.5],
    "strict_weight_space": [True, False],
    "check_finite": [True, False],
    "omit_extra_keys": [True, False],
    "omit_ema": [True, False],
    "check_mandatory_keys": [True, False],
    "tqdm": ["first", "second"],
    "model_dirs": [[], ["one"], ["two"], ["one", "two"], ["two", "one"], ["empty", "two", "one"]],
    "total_buffer_size": [2 ** 12, 2 ** 16],
}
DEFAULTS = {"merge_dtype": "float64", "output_dtype": "float16", "threads": None, "strict_weight_space": True, "check_finite": True, "omit_extra_keys": True, "omit_ema": None, "check_mandatory_keys": False, "tqdm": None, "model_dirs": [], "total_buffer_size": 2 ** 28}


@st.composite
def option_cases(draw, paths=False):
    def options(p):
        if paths:
            return {"model_dirs": draw(st.sampled_from(OPTIONS["model_dirs"]))}
        return {o: draw(st.sampled_from(vs)) for o, vs in OPTIONS.items() if draw(st.integers(0, 9)) < p}
    if paths:
        return {"use_defaults": draw(st.booleans()), "defaults": options(4), "call": draw(st.booleans()) and options(4) or {}, "form": draw(st.sampled_from(["paths", "strings", "single", "iterator", "tuple", "relative", "below", "below"])),
                "missing": False, "ema_missing": False, "extra": False, "space": "weight", "special": None, "input": draw(st.sampled_from(["mem", "relative"])), "where": draw(st.sampled_from([["one"], ["two"], ["one", "two"], ["one", "two", "cwd"], ["cwd"]])),
                "output": draw(st.sampled_from(["relative", "relative str"])), "dtype": "float32", "seed": draw(st.integers(0, 9999))}
    return {"use_defaults": draw(st.sampled_from([True, True, False])), "defaults": options(4), "call": options(4), "form": draw(st.sampled_from(["paths", "strings", "single", "iterator", "tuple", "relative", "below"])),
            "missing": draw(st.booleans()) and draw(st.booleans()), "ema_missing": draw(st.booleans()), "extra": draw(st.booleans()), "space": draw(st.sampled_from(["weight", "weight", "weight", "delta"])), "special": draw(st.sampled_from([None, None, "nan", "inf", "overflow"])),
            "input": draw(st.sampled_from(["mem", "relative", "relative", "absolute"])), "where": draw(st.sampled_from([["one"], ["two"], ["one", "two"], ["one", "two", "cwd"], ["cwd"], ["two"]])), "output": draw(st.sampled_from([None, "omit", "dict", "relative", "absolute", "relative str"])),
            "dtype": draw(st.sampled_from(["float32", "float64", "float16"])), "seed": draw(st.integers(0, 9999))}


class Bars:
    def __init__(self):
        self.made = []

    def factory(self, name):
        bars = self

        class Bar:
            def __init__(self, *args, total=None, **kwargs):
                self.name, self.total, self.updates, self.entered, self.left, self.keys = name, total, 0, False, False, []
                bars.made.append(self)

            def __enter__(self):
                self.entered = True
                return self

            def __exit__(self, *args):
                self.left = True

            def set_postfix(self, d=None, **kw):
                self.keys.append((d or kw).get("key"))

            def update(self, n=1):
                with SEEN_LOCK:
                    self.updates += n
        return Bar


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())

    def __enter__(self):
        self.level_before = logging.getLogger().level
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *args):
        logging.getLogger().removeHandler(self)


def run_option(case):
    R.ema_config()
    use_defaults = case["use_defaults"]
    given = (dict(case["defaults"]) if use_defaults else {}) | case["call"]
    eff = DEFAULTS | given
    if eff["omit_ema"] is None:
        eff["omit_ema"] = eff["omit_extra_keys"]
    keys = [k for k in R.EMA_KEYS if not (case["missing"] and k == "mve.model.1.w") and not (case["ema_missing"] and k == "mve.ema.1w")]
    extra = ["mv.unknown"] if case["extra"] else []
    # only inputs in the space of the result are forwarded
    forwarded = extra if not eff["omit_extra_keys"] and case["space"] == "weight" else []

    def content(salt):
        res = {k: value([case["seed"], salt, i], case["dtype"], (2, 2)) for i, k in enumerate(keys + extra)}
        special = {"nan": math.nan, "inf": -math.inf, "overflow": 2.0 ** 15}.get(case["special"])
        if special is not None:
            res["mve.model.2.w"][0, 1] = special
        return res
    bars = Bars()
    cwd = os.getcwd()
    with scratch() as d:
        (d / "cwd").mkdir()
        for sub in ("one", "two", "empty"):
            (d / sub).mkdir()
            (d / "cwd" / sub).symlink_to(d / sub)
        contents = {}
        for salt, sub in enumerate(("one", "two", "cwd")):
            if sub in case["where"]:
                contents[sub] = content(salt)
                stf.save(d / sub / "m.safetensors", contents[sub])
        if case["input"] == "mem":
            model = content(7)
            source = {k: v.clone() for k, v in model.items()}
        elif case["input"] == "relative":
            # the model directories in order, then the current directory
            found = [s for s in eff["model_dirs"] + ["cwd"] if s in contents]
            model = contents[found[0]] if found else None
            source = "m.safetensors"
        else:
            model = contents[case["where"][0]]
            source = d / case["where"][0] / "m.safetensors"

        def convert(o, v):
            if o.endswith("dtype"):
                return dt(v)
            if o == "tqdm":
                return bars.factory(v)
            if o == "model_dirs":
                paths = [d / s for s in v]
                if case["form"] == "below":
                    return [pathlib.Path(s) for s in v]
                if case["form"] == "relative":
                    return [pathlib.Path("..") / s for s in v]  # the current directory is d / "cwd"
                if case["form"] == "iterator":
                    return iter(paths)
                if case["form"] == "tuple":
                    return tuple(paths)
                if use_defaults and case["form"] == "strings":
                    return [str(p) for p in paths]
                if use_defaults and case["form"] == "single" and len(paths) == 1:
                    return str(paths[0])
                return paths
            return v
        call = {o: convert(o, v) for o, v in case["call"].items()}
        out_kw, out_path, target = {}, None, None
        if case["output"] is None:
            out_kw = {"output": None}
        elif case["output"] == "dict":
            target = {"before": 1}
            out_kw = {"output": target}
        elif case["output"] == "absolute":
            out_path = d / "empty" / "out.safetensors"
            out_kw = {"output": out_path}
        elif case["output"] != "omit":
            out_path = (d / eff["model_dirs"][0] if eff["model_dirs"] else d / "cwd") / "out.safetensors"
            out_kw = {"output": "out.safetensors" if case["output"].endswith("str") else pathlib.Path("out.safetensors")}
        SEEN.clear()
        os.chdir(d / "cwd")
        try:
            def do():
                node = mv_thread(sd_mecha.model(source, R.ema_config(), "weight"))
                if case["space"] == "delta":
                    node = sd_mecha.subtract(node, sd_mecha.model({k: torch.zeros(2, 2, dtype=dt(case["dtype"])) for k in (model or {})}, R.ema_config()))
                if use_defaults:
                    defaults = sd_mecha.Defaults(**{o: convert(o, v) for o, v in case["defaults"].items()})
                    return defaults.merge(node, **call, **out_kw)
                return sd_mecha.merge(node, **call, **out_kw)
            bad = []
            if isinstance(eff["threads"], float) or (eff["threads"] or 0) < 0:
                bad.append("an invalid number of threads")
            if eff["strict_weight_space"] and case["space"] != "weight":
                bad.append("a result in delta space")
            if model is None:
                bad.append("a model that does not exist")
            if eff["check_mandatory_keys"] and case["missing"] and model is not None:
                bad.append("missing mandatory keys")
            what = f"options {given} ({'Defaults' if use_defaults else 'merge'})"
            if bad:
                must_raise(f"{what} with {', '.join(bad)}", do)
                return f"rejected: {bad[0]}"
            with sut(what), Records() as log:
                res = do()
        finally:
            os.chdir(cwd)
        if out_path is not None:
            check(res is None, lambda: f"{what}: returned {type(res)} for a file output")
            found = sorted(str(p.relative_to(d)) for p in d.rglob("out.safetensors"))
            check(found == [str(out_path.relative_to(d))], lambda: f"{what}: wrote {found}, expected {out_path.relative_to(d)}")
            res, _ = stf.load(out_path)
        elif target is not None:
            check(res is target and res.pop("before", None) == 1, lambda: f"{what}: the output dictionary is not the given one")
        else:
            check(isinstance(res, dict), lambda: f"{what}: returned {type(res)}")
    merged = [k for k in keys if not (eff["omit_ema"] and k.startswith("mve.ema."))]
    expected = merged + forwarded
    # a file has room for all the keys of the config
    missing = [k for k in R.EMA_KEYS if k not in keys]
    check(set(res) - (set(missing) if out_path else set()) == set(expected), lambda: f"{what}: keys {sorted(res)}, expected {sorted(expected)}")
    for k in expected:
        want = model[k].double()
        got = res[k]
        dtype = dt(eff["output_dtype"]) or (dt(eff["merge_dtype"]) or dt(case["dtype"]))
        if k in merged:
            check(got.dtype == dtype, lambda: f"{what}: {k} is {got.dtype}, expected {dtype}")
        want = want.to(dtype).double() if dtype == torch.float16 else want
        check(torch.equal(torch.nan_to_num(got.double(), nan=123.0, posinf=1e300, neginf=-1e300), torch.nan_to_num(want, nan=123.0, posinf=1e300, neginf=-1e300)), lambda: f"{what}: {k} is {got.tolist()}, expected {want.tolist()}")
    # reports
    finite = [m for m in log.messages if "mve.model.2.w" in m and "finite" in m]
    bad_value = not bool(res["mve.model.2.w"].isfinite().all()) if "mve.model.2.w" in res else False
    check(bool(finite) == bool(eff["check_finite"] and bad_value), lambda: f"{what}: non finite values {'exist' if bad_value else 'do not exist'}, warnings: {log.messages}")
    check(not any("finite" in m for m in log.messages if "mve.model.2.w" not in m), lambda: f"{what}: warnings {log.messages}")
    if extra and eff["omit_extra_keys"]:
        check(any("mv.unknown" in m for m in log.messages), lambda: f"{what}: the extra key is removed without a warning: {log.messages}")
    # threads
    threads = {s["thread"] for s in SEEN}
    me = threading.get_ident()
    if eff["threads"] == 0:
        check(threads <= {me}, lambda: f"{what}: merged in {len(threads)} threads other than the caller's")
    elif eff["threads"]:
        check(me not in threads and len(threads) <= eff["threads"], lambda: f"{what}: merged in {len(threads)} threads (the caller's {'is' if me in threads else 'is not'} one of them)")
    for s in SEEN:
        check(s["a"][0] == (dt(eff["merge_dtype"]) or dt(case["dtype"])), lambda: f"{what}: merged in {s['a'][0]}")
    # progress
    made = [b for b in bars.made if b.name == eff["tqdm"]]
    check(len(bars.made) == len(made) == (1 if eff["tqdm"] else 0), lambda: f"{what}: progress bars {[b.name for b in bars.made]}, expected one of {eff['tqdm']}")
    for b in made:
        n = len(R.EMA_KEYS) - (3 if eff["omit_ema"] else 0) + len(forwarded)
        check(b.entered and b.left and b.total == b.updates == n and set(b.keys) >= set(expected), lambda: f"{what}: progress of {b.total} keys, {b.updates} updates, expected {n}; keys {b.keys}")
    return bool(given) and f"{'Defaults' if use_defaults else 'merge'}, input {case['input']}, output {case['output']}"


# --------------------------------------------------------------- Defaults.convert
@st.composite
def convert_cases(draw):
    dirs = st.sampled_from([None, [], ["one"], ["two"], ["one", "two"], ["empty"], ["empty", "one"]])
    return {"defaults": draw(dirs), "call": draw(dirs), "where": draw(st.sampled_from(["one", "two", "cwd"])), "form": draw(st.sampled_from(["paths", "strings", "single"])), "use_defaults": draw(st.sampled_from([True, True, True, False]))}


def run_convert(case):
    from sd_mecha.extensions import model_configs
    src = model_configs.resolve("sd1-kohya")
    keys = sorted(src.keys())[:300]
    use_defaults = case["use_defaults"]
    cwd = os.getcwd()
    with scratch() as d:
        for sub in ("one", "two", "empty", "cwd"):
            (d / sub).mkdir()
        stf.save(d / case["where"] / "m.safetensors", {k: torch.zeros(1) for k in keys})

        def dirs(v):
            paths = [d / s for s in v]
            if not use_defaults:
                return paths
            return [str(p) for p in paths] if case["form"] == "strings" else str(paths[0]) if case["form"] == "single" and len(paths) == 1 else paths
        eff = case["call"] if case["call"] is not None else (case["defaults"] if use_defaults else None)
        ok = case["where"] in (eff or []) + ["cwd"]
        call = {} if case["call"] is None else {"model_dirs": dirs(case["call"])}

        def do():
            node = sd_mecha.model("m.safetensors")
            if use_defaults:
                return sd_mecha.Defaults(**({} if case["defaults"] is None else {"model_dirs": dirs(case["defaults"])})).convert(node, "sd1-ldm", **call)
            return sd_mecha.convert(node, "sd1-ldm", **call)
        os.chdir(d / "cwd")
        try:
            if not ok:
                must_raise(f"convert {case}", do)
                return "not found"
            with sut(f"convert {case}"):
                node = do()
        finally:
            os.chdir(cwd)
        check(node.model_config.identifier == "sd1-ldm", lambda: f"convert {case}: config {node.model_config.identifier}")
    return "found"


# --------------------------------------------------------------- explicit casts
CASTS = ["float64", "int64", "float32", "int32", "float16", "bfloat16", "int16", "float8_e4m3fn", "float8_e5m2", "int8", "bool", "uint64", "uint32", "uint16", "uint8"]
INVALID = ["float", "torch.float32", "Float32", "complex64", "", "int4", "float32 ", "None"]


@st.composite
def cast_cases(draw):
    step = st.fixed_dictionaries({
        "how": st.sampled_from(["cast", "cast", "to", "to dtype object", "positional"]), "dtype": st.sampled_from([None] + CASTS), "device": st.sampled_from([None, None, None, "cpu", "meta"]),
        "from": st.sampled_from(["literal", "literal", "get", "get", "dict"]), "object": st.booleans()})
    return {"keys": draw(st.lists(st.fixed_dictionaries({"dtype": st.sampled_from(CASTS), "other": st.sampled_from(CASTS), "shape": st.sampled_from([[], [3], [2, 2], [0]]), "seed": st.integers(0, 9999)}), min_size=1, max_size=3)),
            "steps": draw(st.lists(step, min_size=1, max_size=3)), "store": draw(st.sampled_from(["mem", "file"])), "bad": draw(st.sampled_from([None] * 5 + INVALID)), "ask": draw(st.sampled_from(["dtype", "device"])), "threads": draw(st.sampled_from([0, 2]))}


def cast_data(seed, dtype, shape):
    g = np.random.default_rng(seed)
    x = torch.from_numpy(np.asarray(np.concatenate([g.normal(size=1000) * 10, g.integers(-300, 300, 20), [0, 0.5, -0.5, 1, 65504, 1e5]])))[torch.from_numpy(np.asarray(g.integers(0, 1026, shape)))]
    if dtype.startswith("uint"):
        x = x.abs()
    if not dtype.startswith(("float", "bfloat")):
        x = x.clamp(-120, 120)  # the conversion of a float out of the range of an integer type is undefined
    return x.to(dt(dtype))


def defined(dtype):
    return dtype.startswith(("float", "bfloat")) or dtype == "bool"


def run_cast(case):
    names = R.FREE_KEYS[:len(case["keys"])]
    data = {k: cast_data(kc["seed"], kc["dtype"], kc["shape"]) for k, kc in zip(names, case["keys"])}
    others = {k: torch.ones(2, dtype=dt(kc["other"])) for k, kc in zip(names, case["keys"])}
    want = dict(data)
    with scratch() as d:
        def source(name, tensors):
            if case["store"] == "file":
                stf.save(d / f"{name}.safetensors", tensors)
                return sd_mecha.model(d / f"{name}.safetensors", R.free_config())
            return sd_mecha.model({k: v.clone() for k, v in tensors.items()}, R.free_config())
        kw = dict(merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, check_finite=False, threads=case["threads"])
        with sut("building a recipe of casts"):
            node, other = source("a", data), source("b", others)
        if case["bad"] is not None:
            with sut("building a recipe of casts"):
                node = sd_mecha.cast(node, dtype=case["bad"])
            must_raise(f"merging a cast to {case['bad']!r}", lambda: sd_mecha.merge(node, **kw), ValueError)
            return "unknown dtype"
        for s in case["steps"]:
            dtypes = {k: s["dtype"] for k in names}
            dtype, device = s["dtype"], s["device"]
            if device == "meta" and s is not case["steps"][-1]:
                device = None
            with sut(f"a cast to {dtype} {device}"):
                if s["from"] == "get":
                    dtype, dtypes = sd_mecha.get_dtype(other), {k: kc["other"] for k, kc in zip(names, case["keys"])}
                    if device == "cpu":
                        device = sd_mecha.get_device(other)
                elif s["from"] == "dict" and dtype is not None:
                    dtypes = {k: [dtype, "float32"][i % 2] for i, k in enumerate(names)}
                    dtype = sd_mecha.literal(dict(dtypes), R.free_config())
                elif s["how"] == "to dtype object" and dtype is not None:
                    dtype = dt(dtype)
                    if device is not None:
                        device = torch.device(device)
                if s["how"] == "cast":
                    node = sd_mecha.cast(node, device=device if not isinstance(device, torch.device) else str(device), dtype=dtype)
                elif s["how"] == "positional":
                    node = sd_mecha.cast(node, device, dtype)
                else:
                    node = node.to(device=device, dtype=dtype)
            for k in names:
                x = want[k]
                if dtypes[k] is not None:
                    if not defined(dtypes[k]) and x.device.type != "meta" and x.dtype.is_floating_point:
                        # keep within the range of the type
                        lo, hi = (0, 120) if dtypes[k].startswith("uint") else (-120, 120)
                        if not bool(x.double().isfinite().all()) or x.numel() and (x.double().min() < lo or x.double().max() > hi):
                            return None
                    x = x.to(dt(dtypes[k]))
                want[k] = x.to("meta") if str(device) == "meta" else x
        with sut("merging casts"):
            out = sd_mecha.merge(node, **kw)
            asked = sd_mecha.merge((sd_mecha.get_dtype if case["ask"] == "dtype" else sd_mecha.get_device)(node), strict_weight_space=False, **dict(kw))
    check(set(out) == set(names) == set(asked), lambda: f"keys {sorted(out)} and {sorted(asked)}, expected {names}")
    for k in names:
        check(out[k].dtype == want[k].dtype and out[k].device == want[k].device and out[k].shape == want[k].shape, lambda: f"{case}: {k} is {out[k].dtype} on {out[k].device}, expected {want[k].dtype} on {want[k].device}")
        if want[k].device.type == "cpu":
            check(stf.raw(out[k]) == stf.raw(want[k]), lambda: f"{case}: {k} is {out[k].tolist()}, expected {want[k].tolist()}")
        answer = str(want[k].dtype).removeprefix("torch.") if case["ask"] == "dtype" else str(want[k].device)
        check(asked[k] == answer, lambda: f"{case}: get_{case['ask']} gives {asked[k]!r} for {k}, expected {answer!r}")
    return f"{len(case['steps'])} {case['steps'][0]['how']} {case['steps'][0]['from']}"


SUBS = [
    Sub("casts", cast_cases(), run_cast, 900, rule="the casts are defined (class: number, form and origin)"),
    Sub("dtypes and devices", dtype_cases(), run_dtype, 1000, rule="at least one option is given"),
    Sub("options", option_cases(), run_option, 1600, rule="at least one option is given"),
    Sub("paths", option_cases(paths=True), run_option, 300, rule="at least one option is given"),
    Sub("convert", convert_cases(), run_convert, 60, rule="any case"),
]
