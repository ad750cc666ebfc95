import contextlib
import locale
import pathlib
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import serialize, deserialize, deserialize_path
from ..core import Sub, sut, must_raise, scratch, check
from .. import recipes as R, graphs as G, builtins as B, st as stf

ASSUMPTIONS = [
    "keys of dictionaries that the format cannot express (they hold an equal sign or start with a quote) are refused by the serializer",
    "arguments that the caller shares between instructions are compared by structure, not by identity",
]
R.pool_config()


@contextlib.contextmanager
def ascii_locale(on):
    """the encoding of text files that name none is ASCII, as in a process whose locale is not set up"""
    old = locale.setlocale(locale.LC_CTYPE)
    if on:
        locale.setlocale(locale.LC_CTYPE, "C")
    try:
        yield
    finally:
        locale.setlocale(locale.LC_CTYPE, old)


def round_trip(node, via, what="the recipe"):
    """serializes, deserializes and compares; -> (text, new node)"""
    with sut(f"serializing {what}"):
        text = serialize(node)
    check(isinstance(text, str), f"serialize returned {type(text)}")
    with sut(f"deserializing {text!r}"):
        if via == "string":
            back = deserialize(text)
        elif via == "newline":
            back = deserialize(text + "\n")
        elif via == "lines":
            back = deserialize(text.split("\n"))
        elif via == "newlines":
            back = deserialize([line + "\n" for line in text.split("\n")])
        elif via.startswith(("path", "output")):
            with scratch() as d:
                p = d / "recipe.mecha"
                if via.startswith("path"):
                    p.write_bytes(text.encode())
                else:
                    with ascii_locale("written in ascii" in via):
                        text2 = serialize(node, output=str(p) if via == "output str" else p)
                    check(text2 == text, "serialize gives another text when it saves it to a file")
                    check(p.read_bytes().decode() == text, "the file that serialize saves does not hold the text")
                with ascii_locale("read in ascii" in via):
                    back = deserialize_path(p)
        else:
            back = deserialize("\n".join(x for line in text.split("\n") for x in (line, "", "# comment &1 \"", "   ")))
    s = G.Structure()
    a, b = s.of(node), s.of(back)
    check(a == b, lambda: f"the recipe changed: {G.show(s, a)} became {G.show(s, b)} through\n{text}")
    with sut("serializing the result again"):
        again = serialize(back)
    check(again == text, lambda: f"serializing again gives another text:\n{text}\n---\n{again}")
    return text, back


VIA = ["string", "string", "newline", "lines", "newlines", "path", "output", "output str", "comments", "path, read in ascii", "output, written in ascii", "output, written in ascii, read in ascii"]


@st.composite
def graph_cases(draw):
    return {"graph": draw(G.graphs()), "via": draw(st.sampled_from(VIA))}


def run_graph(case):
    with sut("building a valid recipe"):
        nodes = G.build(case["graph"])
    text, _ = round_trip(nodes[-1], case["via"])
    return text.count("\n") >= 2 and case["via"]


# --------------------------------------------------------------- recipes of hundreds of instructions
@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([20, 50, 100, 101, 128, 150, 256, 300, 400, 1000]))
    return {"n": n + draw(st.integers(-2, 2)), "seed": draw(st.integers(0, 2**16)), "shape": draw(st.sampled_from(["random", "wide", "far", "chain", "dict"])), "via": draw(st.sampled_from(VIA))}


def run_long(case):
    import random
    rng = random.Random(case["seed"])
    n, shape = case["n"], case["shape"]
    nodes = []
    with sut("building a valid recipe"):
        if shape == "chain":
            depth = min(n, 150)  # deep recipes are a matter of P29
            nodes = [sd_mecha.model(f"m{i}.safetensors") for i in range(n - depth + 1)]
            models = list(nodes)
            for i in range(depth):
                nodes.append(G.mv_g_var(nodes[-1], rng.choice(models), k=float(i)))
            root = nodes[-1]
        else:
            # the library walks every path of a recipe: their number is kept small
            paths = {}
            while len(nodes) < n:
                i = len(nodes)
                small = [x for x in nodes if paths[id(x)] < 20]
                if len(nodes) < 2 or rng.random() < 0.3:
                    x = rng.choice([lambda: sd_mecha.model(f"m{i}.safetensors", None, "weight"), lambda: sd_mecha.literal({f"k{i}": float(i)}, "sd1-ldm", "weight")])()
                    paths[id(x)] = 1
                else:
                    args = [rng.choice(small[:5] if shape == "far" else small) for _ in range(rng.randint(1, 3))]
                    x = rng.choice([lambda: G.mv_g_var(*args, k=float(i)), lambda: G.mv_g_strings(args[0], f"s{i}", i), lambda: G.mv_g_spaced(args[-1])])()
                    paths[id(x)] = 1 + sum(paths[id(a)] for a in args)
                nodes.append(x)
            if shape == "dict":
                # the references are in dictionaries
                by = {}
                for x in nodes:
                    by.setdefault((x.merge_space.identifier, getattr(x.model_config, "identifier", None)), []).append(x)
                dicts = [{f"k{j}": x for j, x in enumerate(xs)} for xs in by.values()]
                root = G.mv_g_var(*[sd_mecha.literal(d) for d in dicts])
            else:
                root = G.mv_g_var(*nodes)
    text, _ = round_trip(root, case["via"])
    lines = text.count("\n")
    # a dictionary takes an instruction of its own
    check(lines <= len(nodes) + sum(isinstance(x, sd_mecha.recipe_nodes.LiteralRecipeNode) for x in nodes) + 15, lambda: f"{lines} instructions for {len(nodes)} nodes: shared nodes are written several times")
    return lines >= 60 and f"{shape}, {'at least 200' if lines >= 200 else 'less than 200'} instructions"


@st.composite
def literal_cases(draw):
    kind = draw(st.sampled_from(["scalar", "scalar", "dict"]))
    return {"value": draw(G.scalars() if kind == "scalar" else G.dicts()), "via": draw(st.sampled_from(VIA)), "where": draw(st.sampled_from(["positional", "default", "keyword", "root", "space"])),
            "space": draw(st.sampled_from(["weight", "delta", "param"])), "config": draw(st.sampled_from([None, "sd1-ldm"])),
            "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(["=", "a=b", "a=", "=a", '"', '"a', '"a"', "a ="])))}


def run_literal(case):
    v = {k: G.scalar(x) for k, x in case["value"]["dict"]} if "dict" in case["value"] else G.scalar(case["value"])
    bad = case["bad"] is not None and isinstance(v, dict) and v
    if bad:
        v = {**v, case["bad"]: next(iter(v.values()))}
    with sut("building a valid recipe"):
        node = {
            "positional": lambda: G.mv_g_strings(1.0, v), "default": lambda: G.mv_g_strings(1.0, "", 0, v), "keyword": lambda: G.mv_g_strings(1.0, "a", n=v), "root": lambda: sd_mecha.literal(v),
            "space": lambda: sd_mecha.literal(v, case["config"], case["space"]),
        }[case["where"]]()
    if bad:
        must_raise(f"serializing a dictionary with the key {case['bad']!r}", lambda: serialize(node), TypeError)
        return "refused"
    round_trip(node, case["via"], f"literal {v!r}")
    return f"{next(iter(case['value']))} {case['where']}"


@st.composite
def builtin_cases(draw):
    calls = draw(st.lists(B.calls(), min_size=1, max_size=3))
    for c in calls:
        c["params"] = {k: (p if "tensor" not in p["kind"] else {"kind": "number", "value": p["value"]}) for k, p in c["params"].items()}
    return {"calls": calls, "via": draw(st.sampled_from(VIA))}


def run_builtins(case):
    with sut("building a valid recipe"):
        values = {"weight": [sd_mecha.model("w.safetensors")], "delta": [sd_mecha.model("d.safetensors", None, "delta")]}
        node = None
        for c in case["calls"]:
            hyper, _ = B.hyper(c, ["a", "b.c"])
            args = [values[s][-1 - i % len(values[s])] for i, s in enumerate(B.spaces(c))]
            node = B.resolve(c["method"])(*args, **hyper)
            if node.merge_space.identifier in values:
                values[node.merge_space.identifier].append(node)
    round_trip(node, case["via"])
    return case["calls"][-1]["method"]


@st.composite
def program_cases(draw):
    return {"prog": draw(R.programs(stores=("file",), max_ops=6)), "via": draw(st.sampled_from(VIA)), "relative": draw(st.booleans())}


def run_program(case):
    prog = case["prog"]
    want = R.Reference(dict(prog, fallback=None)).result()
    with scratch() as d:
        with sut("building a valid recipe"):
            b = R.Built(prog, d, relative=case["relative"])
        _, back = round_trip(b.root, case["via"])
        with sut("merging a deserialized recipe"):
            out = sd_mecha.merge(back, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, strict_weight_space=False, model_dirs=[d] if case["relative"] else [])
        if prog["fallback"] is None:
            R.compare(out, want, "merge of the deserialized recipe")
    return prog["fallback"] is None and R.depth(prog) >= 2


SUBS = [
    Sub("graphs", graph_cases(), run_graph, quick=6000, rule="the text has at least two instructions (class: how the text is passed)"),
    Sub("long", long_cases(), run_long, quick=160, rule="the text has at least 60 instructions (class: shape)"),
    Sub("literals", literal_cases(), run_literal, quick=6000, rule="all (class: kind of value and position)"),
    Sub("builtins", builtin_cases(), run_builtins, quick=1500, rule="all (class: outermost built-in method)"),
    Sub("merged", program_cases(), run_program, quick=300, rule="the recipe has depth >= 2 and its result is compared"),
]
