import copy
import json
import struct
import torch
import sd_mecha
from hypothesis import strategies as st
from ..core import Sub, Violation, sut, scratch, check
from .. import files as F, st as stf, recipes as R, faults

ASSUMPTIONS = [
    "a damaged header that still describes existing bytes consistently is undetectable (offsets of two tensors of the same size exchanged, a key renamed, a dtype of the same size)",
    "faults are injected at the level of raw reads and writes of the files under the scratch directory",
]


# ------------------------------------------------------------------ damaged files
@st.composite
def damaged(draw):
    es = draw(F.entries(min_size=1, max_size=8))
    return {
        "entries": es, "pad": draw(st.sampled_from([0, 0, 5])), "buffer": draw(st.sampled_from(F.BUFFERS)),
        "kind": draw(st.sampled_from(["cut", "cut", "cut_data", "length", "shape", "dtype", "offset", "swap", "negative", "garbage"])),
        "target": draw(st.integers(0, len(es) - 1)), "where": draw(st.floats(0, 1)), "amount": draw(st.sampled_from([1, 2, 3, 8, 1000, 2**40])),
        "order": draw(st.permutations(range(len(es)))),
    }


def damage(case, b):
    """-> (file bytes, keys that cannot be read any more or None when the file cannot be opened at all)"""
    n = struct.unpack("<Q", b[:8])[0]
    data_start = 8 + n
    header = json.loads(b[8:data_start])
    kind = case["kind"]
    target = case["entries"][case["target"]]["key"]
    if kind == "cut":
        cut = int(case["where"] * (len(b) - 1))
        return b[:cut], None if cut < data_start else {k for k, v in header.items() if v["data_offsets"][1] > cut - data_start and v["data_offsets"][1] > v["data_offsets"][0]}
    if kind == "cut_data":
        size = len(b) - data_start
        cut = max(0, size - 1 - int(case["where"] * min(size, 40)))
        return b[:data_start + cut], {k for k, v in header.items() if v["data_offsets"][1] > cut and v["data_offsets"][1] > v["data_offsets"][0]}
    if kind == "length":  # a header longer than the file
        return struct.pack("<Q", len(b) - 8 + case["amount"]) + b[8:], None
    if kind == "garbage":
        pos = 8 + int(case["where"] * (n - case["pad"] - 1))
        return b[:pos] + b"\x01" + b[pos + 1:], None  # control characters are forbidden anywhere in JSON
    info = header[target]
    size = info["data_offsets"][1] - info["data_offsets"][0]
    bad = {target}
    if kind == "shape":
        info["shape"] = [*info["shape"], case["amount"] + 1] if size else [*[s or 1 for s in info["shape"]], 2]
    elif kind == "dtype":
        info["dtype"] = next(d for d in ("F64", "I8") if stf.SIZE[d] != stf.SIZE[info["dtype"]])
        bad = {target} if size else set()
    elif kind == "offset":
        total = len(b) - data_start
        info["data_offsets"] = [total - size + case["amount"], total + case["amount"]]
        bad = {target} if size else set()
    elif kind == "swap":
        info["data_offsets"] = info["data_offsets"][::-1]
        bad = {target} if size else set()
    elif kind == "negative":
        amount = min(8, n) if case["amount"] >= 8 else 8 * case["amount"]
        info["data_offsets"] = [-amount, size - amount]
        bad = {target} if size else set()
    h = json.dumps(header, separators=(",", ":")).encode()
    return struct.pack("<Q", len(h)) + h + b[data_start:], bad


def run_damaged(case):
    es = case["entries"]
    original = stf.encode([(e["key"], e["dtype"], e["shape"], F.data_of(e)) for e in es], pad=case["pad"])
    b, bad = damage(case, original)
    want = {e["key"]: F.tensor_of(e) for e in es}
    with scratch() as d:
        path = d / "m.safetensors"
        path.write_bytes(b)
        opened = True
        try:
            r = F.open_reader(path, case["buffer"])
        except Exception as e:
            check(bad is None, lambda: f"the file cannot be opened although its header is intact: {type(e).__name__}: {e}")
            opened = False
        if bad is not None and opened:
            with sut("listing the keys"):
                check(sorted(r) == sorted(want), "the header is intact but the keys differ")
            for _ in range(2):
                for i in case["order"]:
                    k = es[i]["key"]
                    if case["kind"] in ("dtype", "offset", "swap", "negative") and k not in bad and i == case["target"]:
                        continue  # another description of an empty tensor
                    try:
                        t = r[k]
                    except Exception as e:
                        check(k in bad, lambda: f"{k!r} is intact but reading it raised {type(e).__name__}: {e}")
                        continue
                    check(k not in bad, lambda: f"{case['kind']}: {k!r} is damaged but reading it returned {t.dtype} {tuple(t.shape)} {stf.raw(t)[:64].hex()} (stored {stf.raw(want[k])[:64].hex()})")
                    check(stf.same_tensor(t, want[k]), lambda: f"{k!r} is intact but reading it returned {stf.raw(t)[:64].hex()} instead of {stf.raw(want[k])[:64].hex()}")
            r.close()
        elif opened:
            got = {}
            try:
                for k in list(r):
                    got[k] = r[k]
            except Exception:
                opened = False
            check(not opened, lambda: f"{case['kind']}: the header is damaged, but the file was read without any error: {list(got)}")
        if opened:
            del r
        if bad is None or bad:
            out = {}
            try:
                with torch.no_grad():
                    sd_mecha.merge(sd_mecha.model(path), merge_dtype=None, output_dtype=None, merge_device=None, output_device=None,
                                   check_finite=False, threads=0, total_buffer_size=case["buffer"], output=out)
            except Exception:
                pass
            else:
                check(False, lambda: f"{case['kind']}: merging a damaged file succeeded with {sorted(out)}")
    if bad is None or bad:
        return case["kind"]


# ------------------------------------------------------------------ partial and failing operations
@st.composite
def io_cases(draw, fail):
    c = {"prog": draw(R.programs(max_ops=4, stores=("file",), modes=("config", "structural"))),
         "threads": draw(st.sampled_from([0, 1, 2, 4])), "buffer": draw(st.sampled_from([0, 50, 300, 2000, 2**20])), "seed": draw(st.integers(0, 10**6)),
         "short": draw(st.sampled_from([[1], [1, 2, 3], [5, 7, 40], [1, 100, 4096], [17]])), "announce": draw(st.booleans())}
    if fail:
        c["fail"] = draw(st.sampled_from(["space", "space", "write", "read"]))
        c["after"] = draw(st.integers(0, 25 if c["fail"] != "space" else 2500))
        c["errno"] = draw(st.sampled_from([5, 28, 122]))
        if draw(st.booleans()):
            c["short"] = None
    return c


def run_io(case):
    prog = case["prog"]
    want = R.Reference(prog).result()
    fail = case.get("fail")
    with scratch() as d:
        with sut("building the recipe"):
            b = R.Built(prog, d)
        out = d / "out.safetensors"
        error = None
        with faults.faulty_files(d, case["seed"], case["short"], fail, case.get("after", 0), case.get("after", 0), case.get("errno", 5)) as plan:
            try:
                # without a dtype, the announced header can be too small: the data section is moved
                dt = {"merge_dtype": torch.float64, "output_dtype": torch.float64}
                sd_mecha.merge(b.root, fallback_model=b.fallback, threads=case["threads"], total_buffer_size=case["buffer"], strict_weight_space=False, output=out, **dt)
            except Exception as e:
                error = e
        if plan["failed"]:
            check(error is not None, f"{plan['failed']} {fail} operations failed with errno {case['errno']}, but merge returned normally")
            return f"failed {fail}"
        check(error is None, lambda: f"merge raised {type(error).__name__}: {error} (partial operations only: {plan['shorts']})")
        try:
            got, _ = stf.load(out)
        except (stf.Malformed, KeyError, TypeError) as e:
            raise Violation(f"with {plan['shorts']} partial operations, the saved file is not valid: {e}")
        R.compare(got, want, f"with {plan['shorts']} partial operations")
        if plan["shorts"] and not fail:
            return "partial"


@st.composite
def realloc_cases(draw):
    es = draw(F.entries(min_size=1, max_size=8, dtypes=["F32", "I8", "F64", "F16"]))
    for e in es:
        e["announce"] = draw(st.booleans())
    return {"entries": es, "buffer": draw(st.sampled_from([0, 16, 300, 100000])), "seed": draw(st.integers(0, 10**6)),
            "short": draw(st.sampled_from([None, [1, 2, 3], [5, 7, 40], [1, 1000]])), "fail": draw(st.sampled_from([None, None, "space", "write", "read"])), "after": draw(st.integers(0, 40)),
            "space": draw(st.integers(0, 4000))}


def run_realloc(case):
    """the writer alone, with a header larger than announced"""
    want = {e["key"]: F.tensor_of(e) for e in case["entries"]}
    header = {e["key"]: F.metadata(e["shape"], stf.DT[e["dtype"]]) for e in case["entries"] if e["announce"]}
    with scratch() as d:
        out = d / "out.safetensors"
        error = None
        with faults.faulty_files(d, case["seed"], case["short"], case["fail"], case["after"], case["space"]) as plan:
            try:
                w = F.open_writer(out, header, "recipe", case["buffer"])
                for k, t in want.items():
                    w[k] = t
                w.close()
            except Exception as e:
                error = e
        if plan["failed"]:
            check(error is not None, f"{plan['failed']} {case['fail']} operations failed, but writing and closing the file reported success")
            return "failed"
        check(error is None, lambda: f"the writer raised {type(error).__name__}: {error} (partial operations only: {plan['shorts']})")
        try:
            got, _ = stf.load(out)
        except (stf.Malformed, KeyError, TypeError) as e:
            raise Violation(f"with {plan['shorts']} partial operations, the saved file is not valid: {e}")
        check(set(got) == set(want), "keys differ")
        for k in want:
            check(stf.same_tensor(got[k], want[k]), lambda: f"with {plan['shorts']} partial operations, {k!r} was saved as {stf.raw(got[k])[:64].hex()} instead of {stf.raw(want[k])[:64].hex()}")
        return plan["shorts"] > 0 and "partial"


SUBS = [
    Sub("damaged", damaged(), run_damaged, quick=3000, rule="the damage affects at least one non-empty tensor or the header (class: kind of damage)"),
    Sub("partial", io_cases(False), run_io, quick=1000, rule="at least one read or write was completed in part"),
    Sub("failing", io_cases(True), run_io, quick=1200, rule="at least one operation failed (class: kind of failure)"),
    Sub("writer", realloc_cases(), run_realloc, quick=2000, rule="at least one operation failed or was completed in part"),
]
