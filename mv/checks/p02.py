import collections
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import merge_method, Parameter, Return, StateDict
from torch import Tensor
from ..core import Sub, sut, scratch, check
from .. import recipes as R, st as stf, sched

ASSUMPTIONS = ["interleavings are sampled: pauses are injected at line granularity in the streaming and merging code, the operating system decides the rest"]


class Recorder(collections.abc.MutableMapping):
    """output mapping that counts the writes"""
    def __init__(self):
        self.data, self.writes = {}, collections.Counter()

    def __setitem__(self, k, v):
        self.writes[k] += 1
        self.data[k] = v

    def __getitem__(self, k):
        return self.data[k]

    def __delitem__(self, k):
        del self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


SHAPES = [[], [1], [3], [0], [2, 2], [5, 7], [16, 16], [1, 1, 3, 3], [64, 40], [256, 9], [128, 65]]
OUT_DTYPES = ["float64", "float32", "float16", "bfloat16", "float8_e4m3fn"]


@st.composite
def streams(draw):
    n_keys = draw(st.integers(1, 40))
    shapes = [draw(st.sampled_from(SHAPES)) for _ in range(n_keys)]
    models = [{
        "seed": draw(st.integers(0, 999)), "dtype": draw(st.sampled_from(["float64", "float32", "float16", "bfloat16", "int8"])),
        "store": draw(st.sampled_from(["file", "file", "mem"])), "reverse": draw(st.booleans()),
    } for _ in range(draw(st.integers(1, 3)))]
    return {
        "shapes": shapes, "models": models, "op": draw(st.sampled_from(["copy", "lin", "avg", "wsum", "same", "cross"])),
        "threads": draw(st.sampled_from([0, 1, 2, 3, 4, 8, None])),
        "buffer": draw(st.sampled_from([0, 1, 64, 1000, 5000, 20000, 200000, 2**21])),
        "out": draw(st.sampled_from(["file", "file", "mem", "recorder"])), "out_dtype": draw(st.sampled_from(OUT_DTYPES)),
        "noise": draw(st.sampled_from([0, 0, 0.02, 0.1, 0.4])), "sched": draw(st.integers(0, 10**6)),
    }


@merge_method(identifier="mv_cross")
def mv_cross(a: Parameter(StateDict[Tensor]), b: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    # reads the keys of both models out of order
    key = kwargs["key"]
    keys = sorted(a.keys())
    other = keys[-1 - keys.index(key)]
    a[other]
    x = b[key]
    b[other]
    return a[key] * 2 - x


def key_name(i):
    return f"net.{(i * 7919) % 1000:03}.{i}"


def tensors(case, m):
    items = [(key_name(i), R.model_tensor(m["seed"] * 50 + i, m["dtype"], s)) for i, s in enumerate(case["shapes"])]
    return dict(reversed(items) if m["reverse"] else items)


def expected(case):
    data = [tensors(case, m) for m in case["models"]]
    res = {}
    for i in range(len(case["shapes"])):
        k = key_name(i)
        xs = [d[k].to(torch.float64) for d in data]
        a, b = xs[0], xs[-1]
        op = case["op"]
        if op == "copy":
            r = a
        elif op == "lin":
            r = a * 3 + b * 0.5
        elif op == "avg":
            r = (a + b) / 2
        elif op == "wsum":
            r = a * 0.75 + b * 0.25
        elif op == "same":
            r = a - a * 2.0 if len(xs) == 1 else a * 1 + a * 2.0
            r = a * 1 + a * 2.0
        else:
            r = a * 2 - b
        res[k] = r.to(getattr(torch, case["out_dtype"]))
    return res


def run_streams(case):
    want = expected(case)
    with scratch() as d:
        nodes = []
        for i, m in enumerate(case["models"]):
            t = tensors(case, m)
            if m["store"] == "file":
                stf.save(d / f"m{i}.safetensors", t)
                nodes.append(sd_mecha.model(d / f"m{i}.safetensors"))
            else:
                nodes.append(sd_mecha.model(t))
        a, b = nodes[0], nodes[-1]
        op = case["op"]
        recipe = {
            "copy": lambda: a, "lin": lambda: R.mv_lin(a, b, 0.5, d=3), "avg": lambda: sd_mecha.n_average(a, b),
            "wsum": lambda: sd_mecha.weighted_sum(a, b, alpha=0.25), "same": lambda: R.mv_lin(a, a), "cross": lambda: mv_cross(a, b),
        }[op]()
        out = {"mem": {}, "recorder": Recorder()}.get(case["out"], d / "out.safetensors")
        with sut("merging"), sched.noise(case["sched"], case["noise"]):
            sd_mecha.merge(recipe, merge_dtype=torch.float64, output_dtype=getattr(torch, case["out_dtype"]), threads=case["threads"],
                           total_buffer_size=case["buffer"], output=out)
        if case["out"] == "file":
            try:
                out, _ = stf.load(out)
            except (stf.Malformed, KeyError, TypeError) as e:
                check(False, f"the saved file is not valid: {e}")
        elif case["out"] == "recorder":
            bad = {k: n for k, n in out.writes.items() if n != 1}
            check(not bad, lambda: f"keys written several times: {bad}")
        check(set(out) == set(want), lambda: f"missing keys {sorted(set(want) - set(out))[:5]}, unexpected {sorted(set(out) - set(want))[:5]}")
        for k, w in want.items():
            check(stf.same_tensor(out[k], w), lambda: f"{k} {tuple(w.shape)} {w.dtype}: differs from the sequential in-memory result: {str(out[k])[:300]} instead of {str(w)[:300]}")
    if len(want) > 1:
        return ("threaded" if case["threads"] not in (0, 1) else "sequential") + ("+noise" if case["noise"] else "") + f"+{case['out']}"


@st.composite
def graphs(draw):
    return {"prog": draw(R.programs(modes=("config", "structural"))), "seed": draw(st.integers(0, 10**6)),
            "variants": [{"threads": draw(st.sampled_from([0, 1, 2, 4, 7, None])), "buffer": draw(st.sampled_from([0, 3, 100, 1000, 2**21])),
                          "store": draw(st.sampled_from(["mem", "file", "mix"])), "out": draw(st.sampled_from(["mem", "file"])),
                          "noise": draw(st.sampled_from([0, 0, 0.05]))} for _ in range(2)]}


def run_graphs(case):
    prog = case["prog"]
    results = []
    with scratch() as d:
        variants = [{"threads": 0, "buffer": 2**21, "store": "mem", "out": "mem", "noise": 0}] + case["variants"]
        for n, v in enumerate(variants):
            with sut(f"merging {v}"):
                b = R.Built(prog, d, store=lambda i, m: v["store"] if v["store"] != "mix" else ["mem", "file"][i % 2])
                out = {} if v["out"] == "mem" else d / f"out{n}.safetensors"
                with sched.noise(case["seed"], v["noise"]):
                    sd_mecha.merge(b.root, fallback_model=b.fallback, merge_dtype=torch.float32, output_dtype=torch.float32, threads=v["threads"],
                                   total_buffer_size=v["buffer"], strict_weight_space=False, output=out)
            if v["out"] == "file":
                try:
                    out, _ = stf.load(out)
                except (stf.Malformed, KeyError, TypeError) as e:
                    check(False, f"{v}: the saved file is not valid: {e}")
            results.append(out)
    base = results[0]
    for v, r in zip(variants[1:], results[1:]):
        check(set(r) == set(base), lambda: f"{v}: keys differ from the sequential in-memory merge: {sorted(set(r) ^ set(base))}")
        for k in base:
            check(stf.same_tensor(r[k], base[k]), lambda: f"{v}: {k} differs from the sequential in-memory merge: {r[k].tolist()} instead of {base[k].tolist()}")
    return len(base) > 1 and R.depth(prog) >= 2


SUBS = [
    Sub("streams", streams(), run_streams, quick=700, rule="at least two keys are merged (class: threads, injected pauses, kind of output)"),
    Sub("graphs", graphs(), run_graphs, quick=300, rule="at least two keys are produced by a recipe of depth >= 2"),
]
