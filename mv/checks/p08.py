import torch
import sd_mecha
from hypothesis import strategies as st
from ..core import Sub, sut, scratch, check
from .. import recipes as R, graphs as G, builtins as B, st as stf

R.pool_config()
DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "none": None}


@st.composite
def options(draw):
    return {"merge": draw(st.sampled_from(["f64", "f64", "f32"])), "output": draw(st.sampled_from(["f64", "f32", "f16", "bf16", "none"])), "threads": draw(st.sampled_from([0, 1, 3, None])),
            "buffer": draw(st.sampled_from([0, 100, 2**20])), "extra": draw(st.booleans())}


def kwargs(o, **over):
    o = dict(o, **over)
    return dict(merge_dtype=DT[o["merge"]], output_dtype=DT[o["output"]], threads=o["threads"], total_buffer_size=o["buffer"], omit_extra_keys=not o["extra"], strict_weight_space=False)


class Structure(G.Structure):
    @staticmethod
    def config(node):  # the recipe is saved with the configs that are inferred
        return None


def save(node, d, name, **kw):
    path = d / name
    torch.manual_seed(0)
    with sut("saving a valid recipe"):
        res = sd_mecha.merge(node, output=path, **kw)
    check(res is None, "merging to a file returned something")
    try:
        return stf.load(path)
    except stf.Malformed as e:
        check(False, f"the saved file is malformed: {e}")


def equal(a, b, what):
    check(set(a) == set(b), lambda: f"{what}: keys differ: {sorted(set(a) ^ set(b))}")
    for k in a:
        check(stf.same_tensor(a[k], b[k]), lambda: f"{what}: {k} differs: {a[k]} and {b[k]}")


def reproduce(node, d, opts, expect_recipe, **kw):
    """saves, then merges the recipe of the saved file -> tensors"""
    if expect_recipe:
        with sut("serializing"):
            text = sd_mecha.serialize(node)
    tensors, meta = save(node, d, "out.safetensors", **kwargs(opts), **kw)
    if not expect_recipe:
        check("mecha_recipe" not in meta, lambda: f"a recipe that cannot be serialized was saved as {meta}")
        return tensors
    check(set(meta) == {"mecha_recipe"}, lambda: f"metadata of the file: {meta}")
    with sut("deserializing the recipe of the saved file"):
        again = sd_mecha.deserialize(meta["mecha_recipe"])
    structure = Structure()
    x, y = structure.of(node), structure.of(again)
    check(x == y, lambda: f"the file holds the recipe {meta['mecha_recipe']!r} instead of {text!r}")
    tensors2, meta2 = save(again, d, "again.safetensors", **kwargs(opts, threads=0), **kw)
    equal(tensors, tensors2, "the recipe of the saved file")
    with sut("deserializing the recipe of the second file"):
        third = structure.of(sd_mecha.deserialize(meta2["mecha_recipe"]))
    check(third == x, lambda: f"the recipe changed again: {meta} {meta2}")
    return tensors


# -------------------------------------------------------------------- generated graphs
@st.composite
def program_cases(draw):
    return {"prog": draw(R.programs(stores=draw(st.sampled_from([("file",), ("file",), ("file", "mem")])), max_ops=5)), "opts": draw(options()), "relative": draw(st.booleans())}


def run_program(case):
    prog = case["prog"]
    with scratch() as d:
        with sut("building a valid recipe"):
            b = R.Built(prog, d, relative=case["relative"])
        used = [prog["instr"][i] for i in Reach(prog)]
        mem = any(i[0] == "model" and i[1] in b.mem for i in used)
        tensors = reproduce(b.root, d, case["opts"], not mem, fallback_model=b.fallback, model_dirs=[d] if case["relative"] else [])
        # the tensors that are saved are those of a merge to memory
        with sut("merging to memory"):
            mem_out = sd_mecha.merge(R.Built(prog, d, relative=case["relative"]).root, fallback_model=b.fallback, model_dirs=[d] if case["relative"] else [], **kwargs(case["opts"], threads=0))
        equal(tensors, mem_out, "merge to memory")
    return R.depth(prog) >= 2 and ("unserializable" if mem else "fallback" if prog["fallback"] is not None else "serializable")


def Reach(prog):
    """instructions that the root depends on (the fallback is not a part of the saved recipe)"""
    seen, todo = set(), [prog["root"]]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += R.Reference.children(prog["instr"][i])
    return seen


# -------------------------------------------------------------------- built-in methods, random ones included
@st.composite
def builtin_cases(draw):
    c = draw(B.calls(shapes=[[2, 3]]))
    c["params"] = {k: (p if "tensor" not in p["kind"] else {"kind": "number", "value": p["value"]}) for k, p in c["params"].items()}
    return {"call": c, "seed": draw(st.integers(0, 999)), "shape": draw(st.sampled_from([[4], [3, 4], [2, 3, 3, 3]])), "opts": draw(options())}


def run_builtin(case):
    c = case["call"]
    keys = R.FREE_KEYS[:2]
    opts = dict(case["opts"], threads=min(case["opts"]["threads"] or 0, 1))  # some methods draw from the global random generator
    with scratch() as d:
        with sut("building a valid recipe"):
            g = torch.Generator().manual_seed(case["seed"])
            hyper, _ = B.hyper(c, keys)
            args = []
            for i, space in enumerate(B.spaces(c)):
                stf.save(d / f"m{i}.safetensors", {k: torch.randn(case["shape"], generator=g) for k in keys})
                args.append(sd_mecha.model(d / f"m{i}.safetensors", R.free_config().identifier, space))
            node = B.resolve(c["method"])(*args, **hyper)
        tensors = reproduce(node, d, opts, True)
    return bool(tensors) and c["method"]


# -------------------------------------------------------------------- text of the literals
@st.composite
def text_cases(draw):
    return {"name": draw(st.sampled_from(["m.safetensors", "m 1.safetensors", "é=\"q\"\\n.safetensors", "#x.safetensors", "日本.safetensors", "&0 null.safetensors"])),
            "s": draw(G.STRINGS), "t": draw(G.STRINGS), "f": draw(G.FLOATS).hex(), "i": str(draw(G.INTS)), "seed": draw(st.integers(0, 99)), "opts": draw(options())}


def run_text(case):
    with scratch() as d:
        path = d / case["name"]
        tensors = {k: R.model_tensor(case["seed"] + i) for i, k in enumerate(R.POOL_KEYS)}
        stf.save(path, tensors)
        with sut("building a valid recipe"):
            m = sd_mecha.model(path, R.pool_config().identifier)
            node = G.mv_g_strings(m, case["s"], int(case["i"]), case["t"], f=float.fromhex(case["f"]), n=case["s"])
        out = reproduce(node, d, dict(case["opts"], output="f64", extra=False), True)
        R.compare(out, tensors, "saved merge")
    return True


# -------------------------------------------------------------------- recipes that cannot be serialized
@st.composite
def tensor_cases(draw):
    return {"where": draw(st.sampled_from(["alpha", "alpha_dict", "model", "nested", "dict"])), "seed": draw(st.integers(0, 99)), "opts": draw(options()), "alpha": draw(st.sampled_from([0.25, 0.5, 2.0]))}


def run_tensor(case):
    with scratch() as d:
        ts = [{k: R.model_tensor(case["seed"] * 50 + 20 * j + i) for i, k in enumerate(R.POOL_KEYS)} for j in range(2)]
        for j in range(2):
            stf.save(d / f"{j}.safetensors", ts[j])
        al = case["alpha"]
        tensor = torch.tensor(al, dtype=torch.float64)
        with sut("building a valid recipe"):
            a, b = (sd_mecha.model(d / f"{j}.safetensors") for j in range(2))
            if case["where"] == "model":
                b = sd_mecha.model(ts[1])
            if case["where"] == "dict":
                b = sd_mecha.literal({k: sd_mecha.model(ts[1], R.pool_config()) for k in R.POOL_KEYS}, R.pool_config())
            if case["where"] == "nested":
                b = sd_mecha.weighted_sum(a, sd_mecha.model(ts[1]), alpha=1.0)
            alpha = {"alpha": tensor, "alpha_dict": {k: tensor for k in R.POOL_KEYS}}.get(case["where"], al)
            node = sd_mecha.weighted_sum(a, b, alpha=alpha)
        out = reproduce(node, d, dict(case["opts"], merge="f64", output="f64", extra=False), False)
        R.compare(out, {k: ts[0][k] * (1 - al) + ts[1][k] * al for k in R.POOL_KEYS}, "saved merge")
    return case["where"]


SUBS = [
    Sub("graphs", program_cases(), run_program, quick=320, rule="the recipe has depth >= 2 (class: kind of recipe)"),
    Sub("builtins", builtin_cases(), run_builtin, quick=1200, rule="the output is not empty (class: built-in method)"),
    Sub("text", text_cases(), run_text, quick=800, rule="all"),
    Sub("unserializable", tensor_cases(), run_tensor, quick=300, rule="all (class: where the tensor is)"),
]
