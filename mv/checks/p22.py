import gc
import os
import pathlib
import sys
import threading
import tracemalloc
import weakref
from collections.abc import Mapping, MutableMapping
import sd_mecha
import torch
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, StateDict, merge_method
from sd_mecha.extensions import merge_methods, model_configs
from torch import Tensor
from ..core import Sub, sut, check, scratch, Violation
from .. import st as stf

ASSUMPTIONS = [
    "tensors are released by reference counting: the collector of reference cycles is turned off while live tensors are counted",
    "the memory of buffers is measured with tracemalloc relative to a merge of the same recipe on tensors of a single element",
    "the bound on buffers allows every thread to hold a few tensors of each file, as the implementation hands out views of its buffers",
]
CONFIGS = {}


def config(n, shape):
    if (n, tuple(shape)) not in CONFIGS:
        CONFIGS[n, tuple(shape)] = model_configs.ModelConfigImpl(identifier=f"mvm-k{n}_{len(CONFIGS)}", components={"all": {f"k.{i:03}": {"shape": list(shape), "dtype": "float32"} for i in range(n)}})
    return CONFIGS[n, tuple(shape)]


class Tracker:
    """tensors that were created and are still alive, with the key that was being merged in the thread that made them"""
    def __init__(self):
        self.lock = threading.RLock()
        self.live = {}
        self.made = {}
        self.peak = 0
        self.peak_of = None
        self.local = threading.local()

    def track(self, t):
        key = getattr(self.local, "key", None)
        with self.lock:
            token = object()
            self.live[token] = (key, weakref.ref(t))
            weakref.finalize(t, self.live.pop, token, None)
            self.made[key] = self.made.get(key, 0) + 1
            if len(self.live) > self.peak:
                self.peak = len(self.live)
                self.peak_of = sorted({str(k) for k, _ in list(self.live.values())})
        return t


TRACKER = Tracker()


@merge_method(identifier="mv_track")
def mv_track(a: Parameter(Tensor)) -> Return(Tensor):
    TRACKER.track(a)
    return TRACKER.track(a.clone())


@merge_method(identifier="mv_next")
def mv_next(a: Parameter(StateDict[Tensor]), b: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    """loads the tensors of several keys"""
    keys = list(a.keys())
    i = keys.index(kwargs["key"])
    return a[keys[i]] + sum(b[k] for k in keys[i + 1:i + 3])


class Lazy(Mapping):
    """a model whose tensors only exist while they are used"""
    def __init__(self, keys, present, shape, seed):
        self.all, self.present, self.shape, self.seed = keys, present, shape, seed

    def __getitem__(self, k):
        if k not in self.present:
            raise KeyError(k)
        return TRACKER.track(torch.full(self.shape, float(hash((k, self.seed)) % 7)))

    def __iter__(self):
        return iter(k for k in self.all if k in self.present)

    def __len__(self):
        return len(self.present)

    def keys(self):
        return [k for k in self.all if k in self.present]


class Sink(MutableMapping):
    """an output that keeps nothing"""
    def __init__(self):
        self.seen = []

    def __setitem__(self, k, v):
        TRACKER.track(v)
        self.seen.append(k)

    def __getitem__(self, k):
        raise KeyError(k)

    def __delitem__(self, k):
        raise KeyError(k)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


class Bar:
    """progress: tells which key is merged by the current thread"""
    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def set_postfix(self, d):
        TRACKER.local.key = d["key"]

    def update(self, n=1):
        pass


METHODS = {"weighted_sum": 2, "slerp": 2, "n_average": 3, "mv_next": 2, "fallback": 2, "mv_track": 1, "subtract add": 2, "clamp": 3, "dict": 2, "truncate_rank": 1, "geometric_median": 2, "rotate": 2}


@st.composite
def recipes(draw, n_models=(1, 3), methods=tuple(sorted(METHODS)), max_ops=4):
    m = draw(st.integers(*n_models))
    ops = []
    for i in range(draw(st.integers(1, max_ops))):
        name = draw(st.sampled_from(methods))
        ops.append([name, [draw(st.integers(0, m + i - 1)) for _ in range(METHODS[name])]])
    return {"models": m, "ops": ops}


def build(rec, models, keys, track=True):
    m = merge_methods.resolve
    values = list(models)
    for name, args in rec["ops"]:
        xs = [values[i] for i in args]
        if name == "subtract add":
            node = sd_mecha.add_difference(xs[0], sd_mecha.subtract(xs[0], xs[1]), alpha=0.5)
        elif name == "fallback":
            node = xs[0] | xs[1]
        elif name == "dict":
            node = sd_mecha.add_difference(xs[0], sd_mecha.subtract(xs[0], xs[1]), alpha=sd_mecha.literal({k: (i % 3) / 4 for i, k in enumerate(keys)}, xs[0].model_config))
        elif name == "truncate_rank":
            node = sd_mecha.add_difference(xs[0], m("truncate_rank")(sd_mecha.subtract(xs[0], xs[0])))
        elif name == "rotate":
            node = m("rotate")(*xs, alignment=1.0)
        else:
            node = m(name)(*xs)
        values.append(m("mv_track")(node) if track else node)
    # everything contributes to the result
    return values[-1]


@st.composite
def live_cases(draw):
    rec = draw(recipes())
    n = draw(st.sampled_from([40, 60]))
    return {"recipe": rec, "n": n, "missing": [draw(st.sampled_from([0, 0, 0, 2, 3])) for _ in range(rec["models"])], "threads": draw(st.sampled_from([0, 0, 1, 2, 4, None])), "merge_dtype": draw(st.sampled_from([None, "float64", "float32"])), "output_dtype": draw(st.sampled_from([None, "float16"])),
            "output": draw(st.sampled_from(["sink", "sink", "file"])), "check_finite": draw(st.booleans()), "omit_extra_keys": draw(st.booleans()), "fallback_model": draw(st.sampled_from([False, False, True])), "shape": draw(st.sampled_from([[4, 4], [3], [2, 3]]))}


def run_live(case):
    global TRACKER
    cfg = config(case["n"], case["shape"])
    keys = list(cfg.keys())
    TRACKER = Tracker()
    missing = any(case["missing"])
    with scratch() as d:
        models = [sd_mecha.model(Lazy(keys, {k for j, k in enumerate(keys) if not r or j % r or j == 0}, case["shape"], i), cfg) for i, r in enumerate(case["missing"])]
        node = build(case["recipe"], models, keys)
        sink = Sink() if case["output"] == "sink" else d / "out.safetensors"
        fallback = sd_mecha.model(Lazy(keys, set(keys), case["shape"], 99), cfg) if case["fallback_model"] else None
        dt = lambda x: x and getattr(torch, x)
        gc.collect()
        gc.disable()
        try:
            with sut("merge"):
                sd_mecha.merge(node, fallback_model=fallback, threads=case["threads"], merge_dtype=dt(case["merge_dtype"]), output_dtype=dt(case["output_dtype"]), output=sink, total_buffer_size=2 ** 12,
                               strict_weight_space=False, check_finite=case["check_finite"], omit_extra_keys=case["omit_extra_keys"], tqdm=Bar)
            left = len(TRACKER.live)
        finally:
            gc.enable()
            gc.collect()
        workers = case["threads"] or (1 if case["threads"] == 0 else min(8, os.cpu_count()))
        per_key = max(n for k, n in TRACKER.made.items() if k is not None)
        check(left == 0, lambda: f"{case}: {left} tensors are still alive after the merge")
        check(TRACKER.peak <= max(workers, 1) * per_key + 2, lambda: f"{case}: {TRACKER.peak} tensors were alive at once (of the keys {TRACKER.peak_of}), expected at most {workers} x {per_key}: a merged key creates {per_key}")
        if case["output"] == "sink" and (not missing or fallback is not None):
            check(sorted(sink.seen) == keys, lambda: f"{case}: output keys {sorted(sink.seen)[:5]}... ({len(sink.seen)} of {len(keys)})")
    return max(workers, 1) * per_key * 2 < case["n"] * per_key and f"threads {case['threads']}{', missing keys' if missing else ''}"


# --------------------------------------------------------------- buffers of files
OPENED = None


def _audit(event, args):
    if event == "open" and OPENED is not None and isinstance(args[0], (str, bytes, os.PathLike)):
        OPENED.append(os.fsdecode(args[0]))


HOOKED = False


@st.composite
def file_cases(draw):
    rec = draw(recipes(methods=("weighted_sum", "n_average", "fallback", "subtract add", "clamp", "mv_next", "dict")))
    return {"recipe": rec, "n": draw(st.sampled_from([60, 100])), "side": draw(st.sampled_from([64, 96])), "buffer": draw(st.sampled_from([0, 2 ** 14, 2 ** 16, 2 ** 18])), "threads": draw(st.sampled_from([0, 1, 2, 4, None])), "output": draw(st.sampled_from(["file", "file", "sink"])),
            "merge_dtype": draw(st.sampled_from([None, "float32", "float64"])), "names": [draw(st.sampled_from(["absolute", "relative", "link", "str"])) for _ in range(4)], "reuse": draw(st.booleans())}


def run_files(case):
    global OPENED, HOOKED, TRACKER
    if not HOOKED:
        sys.addaudithook(_audit)
        HOOKED = True
    n, m = case["n"], case["recipe"]["models"]
    keys = list(config(n, [1, 1]).keys())
    peaks, opened = {}, {}
    cwd = os.getcwd()
    with scratch() as d:
        for size, side in (("small", 1), ("large", case["side"])):
            (d / size).mkdir()
            for i in range(m):
                stf.save(d / size / f"m{i}.safetensors", {k: torch.full((side, side), float((i + j) % 5)) for j, k in enumerate(keys)})
                os.symlink(d / size / f"m{i}.safetensors", d / size / f"l{i}.safetensors")
        try:
            for size in ("small", "large", "large"):
                os.chdir(d / size)
                cfg = config(n, [1, 1] if size == "small" else [case["side"]] * 2)
                TRACKER = Tracker()

                def node_of(i, name):
                    p = {"absolute": d / size / f"m{i}.safetensors", "relative": pathlib.Path(f"m{i}.safetensors"), "link": d / size / f"l{i}.safetensors", "str": f"m{i}.safetensors"}[name]
                    return sd_mecha.model(p, cfg)
                models = [node_of(i, case["names"][i]) for i in range(m)]
                node = build(case["recipe"], models, keys, track=False)
                if case["reuse"]:
                    # the same files under other names
                    node = merge_methods.resolve("n_average")(node, *[node_of(i, case["names"][i + 1]) for i in range(m)], *[node_of(i, "absolute") for i in range(m)])
                OPENED = []
                gc.collect()
                tracemalloc.start()
                try:
                    with sut("merge"):
                        sd_mecha.merge(node, threads=case["threads"], merge_dtype=case["merge_dtype"] and getattr(torch, case["merge_dtype"]), output_dtype=torch.float32, output=(d / "out.safetensors") if case["output"] == "file" else Sink(),
                                       total_buffer_size=case["buffer"] if size == "large" else 0, strict_weight_space=False, check_finite=False, tqdm=Bar)
                    peaks.setdefault(size, []).append(tracemalloc.get_traced_memory()[1])
                finally:
                    tracemalloc.stop()
                    opened[size] = [os.path.realpath(p) for p in OPENED]
                    OPENED = None
        finally:
            os.chdir(cwd)
            OPENED = None
        tensor = case["side"] ** 2 * 4
        threads = case["threads"] or (1 if case["threads"] == 0 else min(8, os.cpu_count()))
        used = models_used(case)
        files = len(used) + 1
        for i in range(m):
            count = opened["large"].count(os.path.realpath(d / "large" / f"m{i}.safetensors"))
            check(count <= 1, lambda: f"{case}: model {i} was opened {count} times")
        per_key = loads_per_key(case)
        # one buffer per file, plus the views and copies that every thread may hold while it merges a key
        one = max(case["buffer"] // files, tensor)
        bound = files * one * 2 + (threads + 1) * (per_key + 2) * one
        extra = min(peaks["large"]) - min(peaks["small"])
        check(extra <= bound, lambda: f"{case}: buffers took {extra} bytes on top of a merge of tiny tensors, expected at most {bound} ({files} files of {n} tensors of {tensor} bytes, {threads} threads)")
    return bound < n * tensor and f"buffer {case['buffer']}, threads {case['threads']}"


def models_used(case):
    if case["reuse"]:
        return set(range(case["recipe"]["models"]))
    used, todo = set(), [len(case["recipe"]["ops"]) - 1 + case["recipe"]["models"]]
    while todo:
        i = todo.pop()
        if i < case["recipe"]["models"]:
            used.add(i)
        else:
            todo += case["recipe"]["ops"][i - case["recipe"]["models"]][1]
    return used


def loads_per_key(case):
    m = case["recipe"]["models"]
    counts = [1] * m
    for name, args in case["recipe"]["ops"]:
        counts.append(sum(counts[i] for i in args) * (3 if name in ("mv_next", "subtract add", "dict") else 1))
    return counts[-1] + 2 * m * case["reuse"]


# --------------------------------------------------------------- budget
class Fresh(Mapping):
    """tensors made when they are asked for: only the buffers of the output remain"""
    def __init__(self, keys, shape):
        self.all, self.shape = list(keys), shape

    def __getitem__(self, k):
        if k not in self.all:
            raise KeyError(k)
        return torch.ones(self.shape)

    def __iter__(self):
        return iter(self.all)

    def __len__(self):
        return len(self.all)


@st.composite
def budget_cases(draw):
    kind = draw(st.sampled_from(["inputs", "inputs", "output"]))
    return {"kind": kind, "models": draw(st.integers(3, 6)) if kind == "inputs" else draw(st.integers(1, 2)), "n": draw(st.sampled_from([60, 90])), "side": draw(st.sampled_from([32, 64])),
            "buffer": draw(st.sampled_from([2 ** 18, 2 ** 19, 2 ** 20, 2 ** 20 + 12345])), "threads": draw(st.sampled_from([0, 1])) if kind == "inputs" else draw(st.sampled_from([0, 1, 4, 8])),
            "shape": draw(st.sampled_from(["average", "nested", "dictionary"])), "output": draw(st.sampled_from(["file", "sink"])) if kind == "inputs" else "file"}


def run_budget(case):
    n, k = case["n"], case["models"]
    side, tensor = case["side"], case["side"] ** 2 * 4
    keys = list(config(n, [1, 1]).keys())
    peaks = {}
    with scratch() as d:
        for size in ("small", "large"):
            s = 1 if size == "small" else side
            cfg = config(n, [s, s])
            models = []
            for i in range(k):
                if case["kind"] == "inputs":
                    stf.save(d / f"{size}{i}.safetensors", {key: torch.full((s, s), float(i)) for key in keys})
                    models.append(sd_mecha.model(d / f"{size}{i}.safetensors", cfg))
                else:
                    models.append(sd_mecha.model(Fresh(keys, [s, s]), cfg))
            node = merge_methods.resolve("n_average")(*models)
            if case["shape"] == "dictionary":
                # each key is merged from recipes of its own
                node = sd_mecha.literal({key: sd_mecha.weighted_sum(models[j % k], models[(j + 1) % k], alpha=0.5) if j % 3 else models[j % k] for j, key in enumerate(keys)}, cfg)
            if case["shape"] == "nested":
                node = models[0]
                for x in models[1:]:
                    node = sd_mecha.weighted_sum(node, x, alpha=0.5)
            gc.collect()
            tracemalloc.start()
            try:
                with sut("merge"):
                    sd_mecha.merge(node, threads=case["threads"], merge_dtype=torch.float64, output_dtype=torch.float32, output=(d / f"out-{size}.safetensors") if case["output"] == "file" else Sink2(),
                                   total_buffer_size=case["buffer"] if size == "large" else 0, strict_weight_space=False, check_finite=False, tqdm=Bar)
                peaks[size] = tracemalloc.get_traced_memory()[1]
            finally:
                tracemalloc.stop()
    extra = peaks["large"] - peaks["small"]
    workers = max(case["threads"], 1)
    one = max(case["buffer"] // (k + (case["output"] == "file")), tensor)
    if case["kind"] == "inputs":
        # tensors that are in use hold the buffer they were read into
        bound = case["buffer"] + (workers * k + 1) * one + (k + 4) * tensor
    else:
        # only the output is a file
        bound = 3 * max(case["buffer"], workers * tensor) + 4 * workers * tensor
    check(extra <= bound + 2 ** 15, lambda: f"{case}: buffers took {extra} bytes, expected at most {bound}: the total was set to {case['buffer']}")
    return case["buffer"] < k * n * tensor and f"{case['kind']}, {case['shape']}"


class Sink2(Sink):
    def __setitem__(self, k, v):
        self.seen.append(k)


SUBS = [
    Sub("live tensors", live_cases(), run_live, 350, rule="the model has at least twice as many tensors as may be alive at once"),
    Sub("buffers", file_cases(), run_files, 60, rule="the bound is smaller than a single model file"),
    Sub("buffer budget", budget_cases(), run_budget, 60, rule="the models are larger than the total buffer size"),
]
