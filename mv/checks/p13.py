import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, Return, merge_method
from sd_mecha.extensions import model_configs
from torch import Tensor
from ..core import Sub, sut, scratch, check
from .. import st as stf

ASSUMPTIONS = ["the expected block of a key is written from the rule in the property (components of the key name), independently of the conversion methods"]
ARCHS = {"sd1": ("sd1-supermerger_blocks", "sd1-ldm"), "sdxl": ("sdxl-supermerger_blocks", "sdxl-sgm")}
NAMES = {
    "sd1": ["BASE", *(f"IN{i:02}" for i in range(12)), "M00", *(f"OUT{i:02}" for i in range(12))],
    "sdxl": ["BASE", *(f"IN{i:02}" for i in range(9)), "M00", *(f"OUT{i:02}" for i in range(9)), "VAE"],
}


@merge_method(identifier="mv_p13_scale", register=False)
def scale(a: Parameter(Tensor, "weight"), w: Parameter(float), t: Parameter(Tensor, "param") = 0.0) -> Return(Tensor, "weight"):
    assert type(w) is float, type(w)
    return a * w + t


def block_of(arch, key):
    parts = key.split(".")
    if parts[:2] == ["model", "diffusion_model"]:
        if parts[2] == "input_blocks":
            return f"IN{int(parts[3]):02}"
        if parts[2] == "middle_block":
            return "M00"
        if parts[2] == "output_blocks":
            return f"OUT{int(parts[3]):02}"
        if parts[2] == "out":
            return {"sd1": "OUT11", "sdxl": "OUT08"}[arch]
        if parts[2] in ("time_embed", "label_emb"):
            return "BASE"
        raise AssertionError(f"unknown part of the diffusion model: {key}")
    if arch == "sdxl" and parts[0] == "first_stage_model":
        return "VAE"
    return "BASE"


@st.composite
def cases(draw):
    arch = draw(st.sampled_from(["sd1", "sd1", "sdxl"]))
    names = NAMES[arch]
    have = draw(st.one_of(st.just(names), st.just(names), st.lists(st.sampled_from(names), min_size=1, unique=True)))
    order = draw(st.permutations(have)) if draw(st.booleans()) else list(have)
    return {"arch": arch, "blocks": [[n, draw(st.integers(-8, 24)) / 8] for n in order], "form": draw(st.sampled_from(["literal", "literal", "dict", "tensors", "file", "recipes"])), "ints": draw(st.sampled_from([False, False, True])),
            "use": draw(st.sampled_from(["direct", "weighted_sum", "weighted_sum", "add_difference", "float", "slerp", "two"])), "target": draw(st.sampled_from(["id", "config", "recipe"])),
            "models": draw(st.sampled_from(["full", "full", "part"])), "seed": draw(st.integers(0, 999)), "threads": draw(st.sampled_from([0, 2]))}


def run(case):
    arch = case["arch"]
    blocks_id, target_id = ARCHS[arch]
    target = model_configs.resolve(target_id)
    values = {n: (round(v) if case["ints"] else v) for n, v in case["blocks"]}
    form, use = case["form"], case["use"]
    shared = set(values) <= set(NAMES["sd1"]) & set(NAMES["sdxl"])
    if form == "dict" and shared and len(values) >= 19:
        form = "literal"       # all the keys of both layouts: the config has to be given
    keys = sorted(target.keys())
    g = torch.Generator().manual_seed(case["seed"])
    chosen = [k for n, k in enumerate(keys) if case["models"] == "full" or (n * 7 + case["seed"]) % 3]
    a = {k: torch.randint(-8, 9, [2], generator=g).to(torch.float32) for k in chosen}
    b = {k: torch.randint(-8, 9, [2], generator=g).to(torch.float32) for k in chosen}
    with scratch() as d:
        with sut("building and merging a valid recipe"):
            if form == "literal":
                blocks = sd_mecha.literal(dict(values), blocks_id)
            elif form == "dict":
                blocks = dict(values)
            elif form == "recipes":
                blocks = sd_mecha.literal({k: sd_mecha.literal(v, blocks_id) for k, v in values.items()}, blocks_id)
            else:
                data = {k: torch.tensor(float(v)) for k, v in values.items()}
                if form == "file":
                    stf.save(d / "blocks.safetensors", data)
                    data = d / "blocks.safetensors"
                blocks = sd_mecha.model(data, blocks_id, "param")
            ma, mb = sd_mecha.model(a, target), sd_mecha.model(b, target)
            w = sd_mecha.convert(blocks, {"id": target_id, "config": target, "recipe": ma}[case["target"]])
            if form in ("tensors", "file") and use == "float":
                use = "weighted_sum"
            if use == "direct":
                node = w
            elif use == "weighted_sum":
                node = sd_mecha.weighted_sum(ma, mb, alpha=w)
            elif use == "slerp":
                node = scale(ma, 2.0, w)
            elif use == "add_difference":
                node = sd_mecha.add_difference(ma, sd_mecha.subtract(mb, ma), alpha=w)
            elif use == "float":
                node = scale(ma, w)
            else:
                other = sd_mecha.convert(sd_mecha.literal({n: 3.0 for n in NAMES[arch] if n != "M00"}, blocks_id), target_id)
                node = sd_mecha.weighted_sum(sd_mecha.weighted_sum(ma, mb, alpha=w), ma, alpha=other)
            out = sd_mecha.merge(node, merge_dtype=torch.float64, output_dtype=None, strict_weight_space=False, omit_ema=False, threads=case["threads"])
    want = {}
    for k in (keys if use == "direct" else chosen):
        v = values.get(block_of(arch, k))
        if v is None or use == "two" and block_of(arch, k) == "M00":
            continue
        if use == "direct":
            want[k] = torch.tensor(float(v), dtype=torch.float64)
            continue
        x, y = a[k].double(), b[k].double()
        want[k] = {"weighted_sum": (1 - v) * x + v * y, "add_difference": x + v * (y - x), "float": x * v, "slerp": 2 * x + v}.get(use)
        if use == "two":
            want[k] = -2 * ((1 - v) * x + v * y) + 3 * x
    check(set(out) == set(want), lambda: f"keys: missing {sorted(set(want) - set(out))[:4]}, unexpected {sorted(set(out) - set(want))[:4]} (blocks given: {sorted(values)})")
    for k, e in want.items():
        o = out[k]
        if not isinstance(o, torch.Tensor):
            o = torch.tensor(float(o), dtype=torch.float64)
        check(o.shape == e.shape and torch.equal(o.double(), e), lambda: f"{k} (block {block_of(arch, k)}, weight {values[block_of(arch, k)]}): expected {e.tolist()}, got {o.tolist()}")
    return len(set(values.values())) > 1 and f"{arch} {form} {use}"


SUBS = [Sub("blocks", cases(), run, 170, 2500, rule="at least two blocks with different weights")]
