import functools
import random
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha.extensions import model_configs
from ..core import Sub, sut, scratch, check
from .. import layouts as L, st as stf
from .p11 import expected

ASSUMPTIONS = ["plain LoRA entries only (lora_up, lora_down, alpha); the up weight of a convolution is 1x1, as in published networks",
               "the expected name of an entry is written from the naming rule (prefix, then the key of the layer without .weight, dots replaced by underscores)"]
BASES = ["sd1-ldm", "sd1-kohya", "sdxl-sgm", "sdxl-kohya", "sdxl-diffusers_unet_only", "sd3-comfyui", "flux-flux", "flux-flux_diffuser_only"]
FLAVOURS = {"kohya": "lora", "lycoris": "lycoris"}
CHAINS = {"sd1-kohya": "sd1-ldm", "sdxl-kohya": "sdxl-sgm", "sdxl-diffusers_unet_only": "sdxl-sgm", "flux-flux": "flux-flux_diffuser_only", "flux-flux_diffuser_only": "flux-flux"}


@functools.cache
def layers(base):
    """keys of the layers a LoRA can target, by kind"""
    res = {"linear": [], "conv1": [], "conv": [], "other": []}
    for k, m in model_configs.resolve(base).keys().items():
        if k.endswith("bias") or len(m.shape) not in (2, 4):
            res["other"].append(k)
        elif len(m.shape) == 2:
            res["linear"].append(k)
        else:
            res["conv1" if tuple(m.shape[2:]) == (1, 1) else "conv"].append(k)
    return {k: sorted(v) for k, v in res.items()}


def entry_name(key, flavour):
    if key.endswith(".weight"):
        key = key[:-len(".weight")]
    return f"{FLAVOURS[flavour]}_{key.replace('.', '_')}"


def size(s, seed):
    return 1 if s == 1 else 1 + (s * 5 + seed) % 4


@st.composite
def cases(draw):
    base = draw(st.sampled_from(BASES))
    groups = layers(base)
    entries = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from([k for k in ("linear", "linear", "conv1", "conv") if groups[k]]))
        entries.append({"kind": kind, "n": draw(st.integers(0, len(groups[kind]) - 1)), "rank": draw(st.integers(1, 5)),
                        "alpha": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 0.0, -1.0, 3.0, 16.0, 64.0])), "kernel": draw(st.sampled_from([None, None, [1, 3], [3, 1], [2, 2], [5, 5]])) if kind == "conv" else None, "have": draw(st.sampled_from(["all"] * 6 + ["up", "down", "alpha", "up+down", "up+alpha", "down+alpha"]))})
    return {"base": base, "flavour": draw(st.sampled_from(["kohya", "lycoris"])), "entries": entries, "seed": draw(st.integers(0, 9999)), "exact": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["float32", "float16", "float64", "bfloat16"])), "merge": draw(st.sampled_from(["float64", "float32"])), "store": draw(st.sampled_from(["mem", "file"])),
            "use": draw(st.sampled_from(["delta", "delta", "add", "add", "chain", "sum", "two"])), "strength": draw(st.sampled_from([1.0, 0.5, -1.0, 2.0, 0.0, 0.25])), "trap": draw(st.booleans()), "order": draw(st.randoms(use_true_random=False)).random(),
            "threads": draw(st.sampled_from([0, 2])), "target": draw(st.sampled_from(["id", "config", "recipe"]))}


def kernels(case):
    """layers of other architectures: the shape of the kernel is that of the LoRA"""
    if case["use"] == "chain":
        return {}
    groups = layers(case["base"])
    res = {}
    for e in case["entries"]:
        res.setdefault(groups[e["kind"]][e["n"]], e["kernel"])
    return {k: v for k, v in res.items() if v}


def lora_of(case, salt=0):
    """-> tensors of the LoRA, {base key: expected delta in float64}"""
    g = torch.Generator().manual_seed(case["seed"] * 7 + salt)
    groups, meta = layers(case["base"]), model_configs.resolve(case["base"]).keys()
    dtype = getattr(torch, case["dtype"])
    tensors, deltas = {}, {}

    def draw(*shape):
        x = torch.randint(-3, 4, shape, generator=g).to(torch.float64) if case["exact"] else torch.randn(shape, generator=g, dtype=torch.float64)
        return x.to(dtype)

    for e in case["entries"]:
        key = groups[e["kind"]][e["n"]]
        name = entry_name(key, case["flavour"])
        if f"{name}.seen" in tensors:
            continue
        tensors[f"{name}.seen"] = None
        o, i, *hw = meta[key].shape
        hw = kernels(case).get(key, hw)
        o, i = size(o, case["seed"]), size(i, case["seed"])
        r = e["rank"]
        up, down = draw(o, r, *[1] * len(hw)), draw(r, i, *hw)
        alpha = torch.tensor(e["alpha"] * (r if case["exact"] and r in (3, 5) else 1)).to(dtype)
        parts = {"up": ("lora_up.weight", up), "down": ("lora_down.weight", down), "alpha": ("alpha", alpha)}
        have = list(parts) if e["have"] == "all" else e["have"].split("+")
        for p in have:
            tensors[f"{name}.{parts[p][0]}"] = parts[p][1]
        if e["have"] == "all":
            d = torch.einsum("or,ri->oi", up.double().reshape(o, r), down.double().reshape(r, -1)) * (alpha.double() / r)
            deltas[key] = d.reshape(o, i, *hw)
        bias = key[:-len("weight")] + "bias"
        if case["trap"] and key.endswith(".weight") and bias in meta:
            # an entry named after a bias is not one of the format: it must have no effect
            for p in parts:
                tensors[f"{entry_name(bias, case['flavour'])}.{parts[p][0]}"] = parts[p][1]
    tensors = {k: v for k, v in tensors.items() if v is not None}
    names = list(tensors)
    random.Random(case["order"] + salt).shuffle(names)
    return {k: tensors[k] for k in names}, deltas


def run(case):
    base = model_configs.resolve(case["base"])
    lora_config = f"{case['base']}_{case['flavour']}_lora"
    tensors, deltas = lora_of(case)
    use = case["use"]
    if use == "chain" and case["base"] not in CHAINS:
        use = "delta"
    g = torch.Generator().manual_seed(case["seed"] + 1)
    groups, meta = layers(case["base"]), base.keys()
    rng = random.Random(case["seed"])
    loaded = {}
    # the model: the layers with an entry (or a part of it), the biases beside them and other keys
    names = {groups[e["kind"]][e["n"]] for e in case["entries"]}
    names |= {k[:-len("weight")] + "bias" for k in names if k.endswith(".weight") and k[:-len("weight")] + "bias" in meta}
    names |= set(rng.sample(sorted(meta), 4))
    for k in sorted(names):
        shape = [size(s, case["seed"]) if j < 2 else s for j, s in enumerate(meta[k].shape)]
        shape = [*shape[:2], *kernels(case).get(k, shape[2:])]
        x = torch.randint(-50, 51, shape, generator=g) if case["exact"] else torch.randn(shape, generator=g)
        loaded[k] = x.to(getattr(torch, case["dtype"]))
    with scratch() as d:
        def model(data, name, config, space="weight"):
            if case["store"] == "file":
                stf.save(d / f"{name}.safetensors", data)
                data = d / f"{name}.safetensors"
            return sd_mecha.model(data, config, space)

        with sut("building and merging a valid recipe"):
            m = model(loaded, "model", base)
            target = base if use != "chain" else model_configs.resolve(CHAINS[case["base"]])
            arg = {"id": target.identifier, "config": target, "recipe": m if use != "chain" else target}[case["target"]]
            node = sd_mecha.convert(model(tensors, "lora", lora_config), arg)
            check(node.merge_space.identifier == "delta", lambda: f"the converted LoRA is in {node.merge_space.identifier} space")
            check(node.model_config is target, lambda: f"the converted LoRA has the config {node.model_config}")
            want, fallback = deltas, None
            if use == "sum":
                other, more = lora_of(case | {"exact": case["exact"]}, 1)
                node = sd_mecha.weighted_sum(node, sd_mecha.convert(model(other, "lora2", lora_config), arg), alpha=0.25)
                want = {k: 0.75 * deltas[k] + 0.25 * more[k] for k in deltas}
            elif use == "chain":
                want = expected((case["base"], CHAINS[case["base"]]), deltas)
            elif use == "two":
                other, more = lora_of(case, 1)
                node = sd_mecha.add_difference(m, node, alpha=case["strength"])
                node = sd_mecha.add_difference(node, sd_mecha.convert(model(other, "lora2", lora_config), arg), alpha=0.5)
            elif use == "add":
                node = sd_mecha.add_difference(m, node, alpha=case["strength"])
            if use in ("add", "two"):
                fallback = m
                want = {k: v.double() for k, v in loaded.items()}
                for k, delta in deltas.items():
                    want[k] = want[k] + case["strength"] * delta + (0.5 * more[k] if use == "two" else 0)
            kw = {"fallback_model": fallback} if fallback is not None else {}
            out = sd_mecha.merge(node, merge_dtype=getattr(torch, case["merge"]), output_dtype=None, strict_weight_space=False, omit_ema=False, threads=case["threads"], **kw)
    check(set(out) == set(want), lambda: f"keys: missing {sorted(set(want) - set(out))[:4]}, unexpected {sorted(set(out) - set(want))[:4]}; the LoRA has entries for {sorted(deltas)[:8]}")
    exact = case["exact"] and all(e["rank"] != 5 or e["have"] != "all" for e in case["entries"])
    eps = 1e-12 if case["merge"] == "float64" else 1e-5
    for k, w in want.items():
        o = out[k]
        if use in ("add", "two") and k not in deltas:
            check(stf.same_tensor(o.to(w.dtype), w), lambda: f"{k} has no LoRA entry but changes from {w.flatten()[:4].tolist()} to {o.flatten()[:4].tolist()}")
            continue
        check(o.shape == w.shape, lambda: f"{k}: shape {tuple(o.shape)}, expected {tuple(w.shape)}")
        err = (o.double() - w).abs().max().item() if o.numel() else 0.0
        scale = max(1.0, w.abs().max().item() if w.numel() else 1.0) * 8
        check(err <= eps * scale, lambda: f"{k} ({tuple(w.shape)}): expected {w.flatten()[:5].tolist()}, got {o.flatten()[:5].tolist()} (error {err:.3g})")
    return bool(deltas) and f"{use} {'/'.join(sorted({e['kind'] for e in case['entries']}))}"


# ------------------------------------------------------- a whole LoRA, with an entry for every layer
@st.composite
def whole_cases(draw):
    base = draw(st.sampled_from(BASES))
    return {"base": base, "flavour": draw(st.sampled_from(["kohya", "lycoris"])), "config": draw(st.sampled_from(["explicit", "infer"])), "seed": draw(st.integers(0, 99)), "store": draw(st.sampled_from(["mem", "file"]))}


def run_whole(case):
    """every layer has a LoRA entry with values of its own: each target key gets its own delta, and no other key gets one"""
    base = model_configs.resolve(case["base"])
    tensors, want = {}, {}
    names = [k for kind in ("linear", "conv1", "conv") for k in layers(case["base"])[kind] if not k.startswith("model_ema.")]
    if case["config"] == "infer" or case["base"] == "sd1-ldm":
        names += [k for k in layers(case["base"])["linear"] if k.startswith("model_ema.")]
    for n, key in enumerate(sorted(names)):
        name, hw = entry_name(key, case["flavour"]), list(base.keys()[key].shape[2:])
        tensors[f"{name}.alpha"] = torch.tensor(2.0)
        tensors[f"{name}.lora_down.weight"] = torch.full([1, 1, *hw], float(n + 1))
        tensors[f"{name}.lora_up.weight"] = torch.full([1, 1, *[1] * len(hw)], float(case["seed"] + 1))
        want[key] = torch.full([1, 1, *hw], 2.0 * (n + 1) * (case["seed"] + 1), dtype=torch.float64)
    with scratch() as d:
        data = tensors
        if case["store"] == "file":
            data = d / "lora.safetensors"
            stf.save(data, tensors)
        with sut("converting a whole LoRA"):
            node = sd_mecha.model(data, f"{case['base']}_{case['flavour']}_lora" if case["config"] == "explicit" else None)
            node = sd_mecha.convert(node, base)
            out = sd_mecha.merge(node, merge_dtype=torch.float64, output_dtype=None, strict_weight_space=False, omit_ema=False, threads=0)
    check(set(out) == set(want), lambda: f"keys: missing {sorted(set(want) - set(out))[:4]}, unexpected {sorted(set(out) - set(want))[:4]}")
    for k, w in want.items():
        check(stf.same_tensor(out[k], w), lambda: f"{k}: expected {w.flatten()[:2].tolist()} {tuple(w.shape)}, got {out[k].flatten()[:2].tolist()} {tuple(out[k].shape)}")
    return f"whole {case['config']}"


SUBS = [
    Sub("entries", cases(), run, 220, 3000, rule="at least one complete entry (up, down and alpha)"),
    Sub("whole", whole_cases(), run_whole, 16, 80, rule="a LoRA with one entry for every layer of the base config"),
]
