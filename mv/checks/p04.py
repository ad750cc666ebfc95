import threading
import torch
from hypothesis import strategies as st
from ..core import Sub, sut, scratch, check
from .. import files as F, st as stf, sched

ASSUMPTIONS = ["little-endian host; local file system; every key is written once"]
LAYOUTS = ["plain", "plain", "transposed", "sliced", "strided", "expanded", "offset"]


@st.composite
def cases(draw, big=False):
    shapes = F.SHAPES if not big else [[300, 401], [2, 70001], [5], [1024, 130], [0], []]
    es = draw(F.entries(min_size=1, max_size=14 if not big else 5, shapes=shapes))
    for e in es:
        e["layout"] = draw(st.sampled_from(LAYOUTS))
        e["thread"] = draw(st.integers(0, 3))
        e["announce"] = draw(st.sampled_from(["same", "same", "same", "dtype", "shape", "nothing", "unknown"]))
    return {
        "entries": es, "threads": draw(st.integers(0, 4)), "buffer": draw(st.sampled_from(F.BUFFERS)),
        "recipe": draw(st.sampled_from([None, "", "version 0.1.0\nmodel \"x\"", "é\"\\\n" * 5, "r" * 3000])),
        "extra": draw(st.lists(st.sampled_from(["gone.1", "gone.2", "gone.with.a.long.name.0123456789"]), unique=True, max_size=2)),
        "noise": draw(st.sampled_from([0, 0, 0.05, 0.3])), "seed": draw(st.integers(0, 10**6)),
    }


def lay_out(t, layout):
    """a tensor equal to t with another memory layout"""
    if layout == "transposed" and t.dim() >= 2:
        return t.transpose(0, -1).clone(memory_format=torch.contiguous_format).transpose(0, -1)
    if layout == "sliced":
        base = torch.zeros((2, *t.shape), dtype=t.dtype)
        base[1] = t
        return base[1]
    if layout == "strided" and t.dim() >= 1:
        base = torch.zeros((*t.shape, 2), dtype=t.dtype)
        base[..., 0] = t
        return base[..., 0]
    if layout == "expanded" and t.dim() >= 1 and t.shape[0] > 0:
        return t[:1].expand(t.shape)
    if layout == "offset":
        flat = torch.zeros(t.numel() + 5, dtype=t.dtype)
        flat[3:3 + t.numel()] = t.reshape(-1)
        return flat[3:3 + t.numel()].reshape(t.shape)
    return t


def announced(case):
    header = {}
    for e in case["entries"]:
        shape, dtype = e["shape"], stf.DT[e["dtype"]]
        if e["announce"] == "nothing":
            continue
        if e["announce"] == "dtype":
            dtype = torch.int8 if stf.SIZE[e["dtype"]] > 1 else torch.float64
        if e["announce"] == "shape":
            shape = [*shape, 3] if e["seed"] % 2 else [1]
        header[e["key"]] = F.metadata(None, None) if e["announce"] == "unknown" else F.metadata(shape, dtype)
    for k in case["extra"]:
        header[k] = F.metadata([4, 4], torch.float32)
    return header


def run(case):
    want = {}
    for e in case["entries"]:
        t = F.tensor_of(e)
        with torch.no_grad():
            want[e["key"]] = lay_out(t, e["layout"]) if e["dtype"] not in ("U16", "U32", "U64", "F8_E4M3", "F8_E5M2") or e["layout"] in ("plain", "expanded", "transposed") else t
    expected = {k: (stf.NAME[t.dtype], tuple(t.shape), stf.raw(t)) for k, t in want.items()}
    problems = []
    with scratch() as d:
        path = d / "out.safetensors"
        with sut("opening the output"):
            w = F.open_writer(path, announced(case), case["recipe"], case["buffer"])
        try:
            n = case["threads"]
            if n == 0:
                with sut("writing"):
                    for k, t in want.items():
                        w[k] = t
            else:
                def work(i):
                    try:
                        for e in case["entries"]:
                            if e["thread"] % n == i:
                                w[e["key"]] = want[e["key"]]
                    except Exception as ex:
                        problems.append(f"writing: {type(ex).__name__}: {ex}")
                with sched.noise(case["seed"], case["noise"], files=("streaming.py",)):
                    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
        finally:
            with sut("closing the output"):
                w.close()
        check(not problems, lambda: problems[0])
        b = path.read_bytes()
        try:
            got, meta = stf.decode(b)
        except (stf.Malformed, KeyError, TypeError, AttributeError) as ex:
            check(False, f"the file is not valid: {ex!r}")
        check(set(got) == set(expected), lambda: f"keys: missing {sorted(set(expected) - set(got))}, unexpected {sorted(set(got) - set(expected))}")
        for k, (dt, shape, data) in expected.items():
            gdt, gshape, gdata = got[k]
            check((gdt, gshape) == (dt, shape), lambda: f"{k!r}: wrote {dt} {shape}, the file says {gdt} {gshape}")
            check(gdata == data, lambda: f"{k!r} ({dt} {shape}): wrote {data[:40].hex()}..., the file has {gdata[:40].hex()}...")
        check(meta.get("mecha_recipe") == case["recipe"], lambda: f"recipe in the metadata: {meta.get('mecha_recipe')!r} instead of {case['recipe']!r}")
        from safetensors import safe_open
        with sut("reading the file with the safetensors library"):
            with safe_open(path, framework="pt") as f:
                ks = set(f.keys())
                lib = {k: f.get_tensor(k) for k in ks}
        check(ks == set(expected), "the safetensors library sees other keys")
        for k in ks:
            check(stf.same_tensor(lib[k], want[k].contiguous()), lambda: f"{k!r} differs when read by the safetensors library")
    cls = "realloc?" if any(e["announce"] in ("nothing", "unknown", "dtype", "shape") for e in case["entries"]) else "announced"
    return len(want) >= 2 and cls + ("+threads" if case["threads"] > 1 else "")


@st.composite
def moves(draw):
    """the header is larger than announced, and the data section a few bytes around a multiple of 1 MiB"""
    total = draw(st.sampled_from([1, 1, 2, 3])) * 2**20 + draw(st.integers(-2, 2))
    sizes = []
    for _ in range(draw(st.integers(0, 2))):
        n = draw(st.sampled_from([1, 3, 1000, 2**18]))
        sizes.append(n)
        total -= n
    sizes.insert(draw(st.integers(0, len(sizes))), total)
    return {"entries": [{"key": f"a.rather.long.name.{i}", "dtype": draw(st.sampled_from(["I8", "U8"])), "shape": [n], "seed": draw(st.integers(0, 99)), "layout": "plain", "thread": draw(st.integers(0, 1)),
                         "announce": draw(st.sampled_from(["nothing", "nothing", "same"]))} for i, n in enumerate(sizes)],
            "threads": draw(st.sampled_from([0, 0, 2])), "buffer": draw(st.sampled_from([0, 1000, 2**20, 2**20 + 1, 2**21])), "recipe": None, "extra": [], "noise": 0, "seed": 0}


SUBS = [
    Sub("moves", moves(), run, quick=160, rule="at least two tensors are written"),
    Sub("writes", cases(), run, quick=4000, rule="at least two tensors are written (class: header announced exactly or not, several threads)"),
    Sub("large", cases(big=True), run, quick=300, rule="at least two tensors, most above 100 kB, are written"),
]
