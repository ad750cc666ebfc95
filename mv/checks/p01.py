import torch
import sd_mecha
from hypothesis import strategies as st
from ..core import Sub, sut, scratch, check
from .. import recipes as R, st as stf


@st.composite
def cases(draw):
    return {"prog": draw(R.programs()), "threads": draw(st.sampled_from([0, 1, 2, 3, None])),
            "buffer": draw(st.sampled_from([0, 1, 70, 300, 2**20])), "out": draw(st.sampled_from(["mem", "mem", "file"]))}


def run(case):
    prog = case["prog"]
    want = R.Reference(prog).result()
    with scratch() as d:
        with sut("building and merging a valid recipe"):
            b = R.Built(prog, d)
            out = {} if case["out"] == "mem" else d / "out.safetensors"
            sd_mecha.merge(b.root, fallback_model=b.fallback, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"],
                           total_buffer_size=case["buffer"], strict_weight_space=False, output=out)
            if case["out"] == "file":
                out, _ = stf.load(out)
        R.compare(out, want)
        for k, t in out.items():
            check(t.dtype == torch.float64, f"{k} has dtype {t.dtype}")
    if R.depth(prog) >= 3:
        missing = any(len(m["keys"]) < len(prog["models"][0]["keys"]) for m in prog["models"])
        return f"{prog['mode']}{'+missing' if missing else ''}{'+fallback' if prog['fallback'] is not None else ''}"


SUBS = [Sub("graphs", cases(), run, quick=4000, rule="the recipe graph has depth >= 3 (class: config kind, missing keys, fallback)")]
