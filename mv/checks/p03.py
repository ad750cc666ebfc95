import threading
import torch
from hypothesis import strategies as st
from ..core import Sub, sut, must_raise, scratch, check
from .. import files as F, st as stf, sched

ASSUMPTIONS = ["little-endian host; local file system"]


@st.composite
def layouts(draw, **kw):
    es = draw(F.entries(**kw))
    order = draw(st.permutations(range(len(es))))
    meta = draw(st.sampled_from([None, None, {}, {"format": "pt"}, {"mecha_recipe": "version 0.1.0\nmodel \"x\"", "ü": "\""}]))
    return {"entries": es, "header_order": list(order), "meta": meta, "meta_last": draw(st.booleans()), "pad": draw(st.sampled_from([0, 0, 1, 8, 57])),
            "buffer": draw(st.sampled_from(F.BUFFERS))}


def write(case, path):
    es = case["entries"]
    path.write_bytes(stf.encode([(e["key"], e["dtype"], e["shape"], F.data_of(e)) for e in es], case["meta"],
                                [es[i]["key"] for i in case["header_order"]], case["pad"], case["meta_last"]))


@st.composite
def histories(draw):
    case = draw(layouts())
    n = len(case["entries"])
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(["get", "get", "get", "get", "iter", "len", "missing", "in", "items", "meta", "values"]))
        ops.append([op, draw(st.integers(0, n - 1)) if n else 0] if op in ("get", "in") else [op])
    case["ops"] = ops
    return case


def run_history(case):
    es = case["entries"]
    want = {e["key"]: F.tensor_of(e) for e in es}
    kept = []

    def same(k, t, what):
        check(isinstance(t, torch.Tensor) and stf.same_tensor(t, want[k]), lambda: f"{what} {k!r}: stored {want[k].dtype} {tuple(want[k].shape)} {stf.raw(want[k])[:40].hex()}, read {getattr(t, 'dtype', t)} {tuple(getattr(t, 'shape', ()))} {stf.raw(t)[:40].hex() if isinstance(t, torch.Tensor) else t}")
        kept.append((k, t))

    with scratch() as d:
        path = d / "m.safetensors"
        write(case, path)
        with sut("opening a valid file"):
            r = F.open_reader(path, case["buffer"])
        try:
            for op in case["ops"]:
                if op[0] == "get" and es:
                    k = es[op[1]]["key"]
                    with sut(f"reading {k!r}"):
                        t = r[k]
                    same(k, t, "reading")
                elif op[0] == "in" and es:
                    with sut("membership"):
                        check(es[op[1]]["key"] in r, f"{es[op[1]]['key']!r} is in the file, but not in the reader")
                elif op[0] == "missing":
                    for k in ("not there", "__metadata__"):
                        must_raise(f"reading {k!r}", lambda: r[k], KeyError)
                        check(k not in r, f"{k!r} should not be in the reader")
                elif op[0] == "len":
                    with sut("len"):
                        check(len(r) == len(es), f"len is {len(r)}, the file has {len(es)} tensors")
                elif op[0] == "iter":
                    with sut("iteration"):
                        ks, ks2 = list(r), list(r.keys())
                    check(sorted(ks) == sorted(want) and sorted(ks2) == sorted(want), lambda: f"iteration gives {ks} and {ks2} for {sorted(want)}")
                elif op[0] == "meta":
                    with sut("metadata"):
                        ms = list(r.metadata())
                    check(sorted(k for k, _ in ms) == sorted(want), lambda: f"metadata lists {[k for k, _ in ms]} for {sorted(want)}")
                    for k, m in ms:
                        check(tuple(m.shape) == tuple(want[k].shape) and m.dtype == want[k].dtype, lambda: f"metadata of {k!r}: {m}, stored {want[k].dtype} {tuple(want[k].shape)}")
                elif op[0] == "items":
                    with sut("items"):
                        its = list(r.items())
                    check(sorted(k for k, _ in its) == sorted(want), lambda: f"items lists {[k for k, _ in its]}")
                    for k, t in its:
                        same(k, t, "items")
                elif op[0] == "values":
                    with sut("values"):
                        vs = list(zip(r.keys(), r.values()))
                    check(len(vs) == len(want), f"{len(vs)} values for {len(want)} keys")
                    for k, t in vs:
                        same(k, t, "values")
        finally:
            r.close()
        for k, t in kept:
            check(stf.same_tensor(t, want[k]), lambda: f"{k!r} was read correctly, then changed: {stf.raw(t)[:40].hex()} instead of {stf.raw(want[k])[:40].hex()}")
        del r
    gets = sum(o[0] in ("get", "items", "values") for o in case["ops"])
    return len(es) >= 2 and gets >= 2 and ("big buffer" if case["buffer"] > 1000 else "small buffer")


@st.composite
def concurrent(draw):
    case = draw(layouts(min_size=2, max_size=10))
    n = len(case["entries"])
    case["threads"] = [draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=12)) for _ in range(draw(st.integers(2, 4)))]
    case["noise"] = draw(st.sampled_from([0, 0.05, 0.3]))
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def run_concurrent(case):
    es = case["entries"]
    want = {e["key"]: F.tensor_of(e) for e in es}
    problems = []
    with scratch() as d:
        path = d / "m.safetensors"
        write(case, path)
        with sut("opening a valid file"):
            r = F.open_reader(path, case["buffer"])

        def work(seq):
            try:
                for i in seq:
                    k = es[i]["key"]
                    t = r[k]
                    if not stf.same_tensor(t, want[k]):
                        problems.append(f"concurrent read of {k!r}: {stf.raw(t)[:40].hex()} instead of {stf.raw(want[k])[:40].hex()}")
            except Exception as e:
                problems.append(f"concurrent read: {type(e).__name__}: {e}")
        with sched.noise(case["seed"], case["noise"], files=("streaming.py",)):
            ts = [threading.Thread(target=work, args=(s,)) for s in case["threads"]]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        r.close()
    check(not problems, lambda: problems[0])
    return "noise" if case["noise"] else "free"


SUBS = [
    Sub("history", histories(), run_history, quick=5000, rule="at least two tensors and two reads (class: buffer size)"),
    Sub("concurrent", concurrent(), run_concurrent, quick=1200, rule="two or more threads read two or more tensors (class: injected pauses)"),
]
