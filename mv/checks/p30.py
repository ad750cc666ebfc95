import contextlib
import functools
import io
import pathlib
import runpy
import sys
import torch
import sd_mecha
from hypothesis import strategies as st
from ..core import Sub, sut, scratch, check
from ..env import REPO
from .. import st as stf, files as files_

ASSUMPTIONS = ["a script that the repository no longer has is not judged", "checkpoints whose tensors overlap in memory or are not contiguous may be refused"]
DTYPES = ["float32", "float16", "bfloat16", "float64", "int64", "int32", "uint8", "bool"]
NAMES = st.one_of(
    st.sampled_from(["model.diffusion_model.input_blocks.0.0.weight", "first_stage_model.decoder.conv_in.bias", "cond_stage_model.transformer.w", "model_ema.decay", "state_dict.w", "a", "__metadata", "lora_up.weight", "w.0", "w.1", "w.10", "W.0"]),
    st.text(st.characters(codec="utf-8", exclude_characters="\n\r\x85\u2028\u2029\x0b\x0c\x1c\x1d\x1e", exclude_categories=["Cs", "Cc"]), min_size=1, max_size=12),
).filter(lambda n: n not in ("state_dict", "__metadata__"))


@st.composite
def tensors(draw):
    names = draw(st.lists(NAMES, min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=6, unique=True))
    return [{"key": n, "dtype": draw(st.sampled_from(DTYPES)), "shape": draw(st.sampled_from([[], [1], [3], [2, 3], [0], [0, 4], [2, 1, 3], [4, 4, 3, 3]])), "seed": draw(st.integers(0, 9999)),
             "view": draw(st.sampled_from(["plain"] * 8 + ["slice", "transposed", "shared"]))} for n in names]


@st.composite
def converted(draw):
    return {"tensors": draw(tensors()), "nested": draw(st.booleans()), "siblings": draw(st.lists(st.sampled_from(["epoch", "global_step", "optimizer", "ema", "name", "tensor"]), unique=True, max_size=3)),
            "legacy": draw(st.integers(0, 4)) == 0, "suffix": draw(st.sampled_from([".safetensors"] * 8 + [".ckpt", "", ".safetensor", ".pt"])), "input": draw(st.sampled_from(["m.ckpt", "m.pt", "model v1.ckpt"])),
            "short": draw(st.booleans()), "existing": draw(st.integers(0, 3)) == 0, "parameter": draw(st.integers(0, 5)) == 0, "merge": draw(st.integers(0, 3)) == 0}


def make(entries):
    res, last = {}, None
    for e in entries:
        g = torch.Generator().manual_seed(e["seed"])
        t = torch.randint(0, 200, e["shape"], generator=g)
        t = t % 2 == 0 if e["dtype"] == "bool" else t.to(getattr(torch, e["dtype"]))
        if e["view"] == "slice":
            t = torch.cat([t.flatten(), t.flatten(), t.flatten()])[t.numel():2 * t.numel()].view(t.shape)
        elif e["view"] == "transposed" and t.dim() == 2:
            t = t.t().contiguous().t()
        elif e["view"] == "shared" and last is not None:
            t = last
        last = t
        res[e["key"]] = t
    return res


@functools.cache
def path_of(name):
    path = pathlib.Path(REPO) / "scripts" / name
    return path if path.exists() else None


def run_script(path, args):
    """-> exit code, error, standard output"""
    out, argv = io.StringIO(), sys.argv
    sys.argv = [str(path), *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(str(path), run_name="__main__")
        return 0, None, out.getvalue()
    except SystemExit as e:
        return e.code, None, out.getvalue()
    except Exception as e:
        return 1, e, out.getvalue()
    finally:
        sys.argv = argv


def run_convert(case):
    path = path_of("convert_ckpt_to_safetensors.py")
    if path is None:
        return None
    data = make(case["tensors"])
    if case["parameter"]:
        data = {k: torch.nn.Parameter(t, requires_grad=False) for k, t in data.items()}
    want = {k: t.detach().clone() for k, t in data.items()}
    strict = all(e["view"] == "plain" or e["view"] == "transposed" and len(e["shape"]) != 2 for e in case["tensors"])
    checkpoint = data
    if case["nested"]:
        others = {"epoch": 3, "global_step": 12, "optimizer": {"state": {}, "lr": 0.1}, "ema": {"w": torch.ones(2)}, "name": "model", "tensor": torch.ones(3)}
        checkpoint = {"state_dict": data} | {k: others[k] for k in case["siblings"]}
    with scratch() as d:
        source, target = d / case["input"], d / ("converted" + case["suffix"])
        torch.save(checkpoint, source, _use_new_zipfile_serialization=not case["legacy"])
        before = source.read_bytes()
        if case["existing"]:
            target.write_bytes(b"previous content")
        args = ["-i" if case["short"] else "--input", str(source), "-o" if case["short"] else "--output", str(target)]
        code, error, _ = run_script(path, args)
        check(source.read_bytes() == before, "converting a checkpoint modified it")
        if case["suffix"] != ".safetensors":
            check(code not in (0, None), f"the output {target.name} is not a safetensors file, but the script succeeded")
            check(not target.exists() if not case["existing"] else target.read_bytes() == b"previous content", "a refused conversion wrote its output")
            return "refused"
        if not strict and code not in (0, None):
            return None
        if code not in (0, None):
            check(False, lambda: f"the conversion of a valid checkpoint failed: {code} {error!r}")
        check(sorted(p.name for p in d.iterdir()) == sorted([source.name, target.name]), lambda: f"the script leaves {[p.name for p in d.iterdir()]}")
        got, _ = stf.load(target)
        check(set(got) == set(want), lambda: f"names: {sorted(got)} instead of {sorted(want)}")
        for k, t in want.items():
            check(got[k].dtype == t.dtype and got[k].shape == t.shape and stf.raw(got[k]) == stf.raw(t), lambda: f"{k}: {got[k]} instead of {t}")
        if case["merge"] and want and not any(k.startswith(("model", "first_stage_model", "cond_stage_model", "lora")) for k in want):  # which could be recognised as a known architecture
            with sut("merging the converted checkpoint"):
                kw = dict(merge_device=None, merge_dtype=None, output_dtype=None, threads=0)
                out = sd_mecha.merge(sd_mecha.model(target), **kw)
            check(set(out) == set(want), lambda: f"merging the converted model: names {sorted(out)} instead of {sorted(want)}")
            for k, t in want.items():
                check(out[k].dtype == t.dtype and out[k].shape == t.shape and stf.raw(out[k]) == stf.raw(t), lambda: f"merging the converted model: {k}: {out[k]} instead of {t}")
    return len(want) > 1 and ("nested" if case["nested"] else "flat")


# ------------------------------------------------------------------ listing keys
@st.composite
def listed(draw):
    return {"tensors": draw(tensors()), "order": draw(st.integers(0, 9999)), "metadata": draw(st.sampled_from([None, None, {}, {"format": "pt"}, {"mecha_recipe": "version 0.1.0\nmodel \"a\"", "w": "x"}]))}


def run_list(case):
    path = path_of("dump_keys.py")
    if path is None:
        return None
    data = {k: t.clone().contiguous() for k, t in make(case["tensors"]).items()}
    with scratch() as d:
        source = d / "m.safetensors"
        stf.save(source, data, case["metadata"])
        before = source.read_bytes()
        code, error, got = run_script(path, [str(source)])
        check(code in (0, None), lambda: f"listing the keys of a model failed: {code} {error!r}")
        check(source.read_bytes() == before, "listing the keys of a model modified it")
        check([p.name for p in d.iterdir()] == [source.name], "listing the keys of a model created files")
    check(got == "" or got.endswith("\n"), "the last line is incomplete")
    check(sorted(got.split("\n")[:-1]) == sorted(data), lambda: f"listed {got!r}, the file holds {sorted(data)}")
    return len(data) > 1


SUBS = [
    Sub("convert", converted(), run_convert, quick=800, rule="at least two tensors are converted, or an output with another suffix is refused (class: layout of the checkpoint)"),
    Sub("list", listed(), run_list, quick=400, rule="the file holds at least two tensors"),
]
