"""Generated recipe graphs with arbitrary literals (they are built and compared, not merged), and their structure."""
import pathlib
import struct
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import merge_method, Parameter, Return, StateDict, recipe_nodes
from torch import Tensor

ANY = ("weight", "delta", "param")


@merge_method(identifier="mv_g_strings")
def mv_g_strings(a: Parameter(Tensor, ANY), s: Parameter(str, ANY), i: Parameter(int) = 3, t: Parameter(str) = "de \"fault\"=\\", *, f: Parameter(float) = 0.5, b: Parameter(bool) = False, n: Parameter(str) = None) -> Return(Tensor, "weight"):
    return a


@merge_method(identifier="mv_g_var")
def mv_g_var(*xs: Parameter(Tensor, ANY), k: Parameter(float) = 1e-20) -> Return(Tensor, "delta"):
    return xs[0]


@merge_method(identifier="mv_g_state")
def mv_g_state(d: Parameter(StateDict[Tensor], ANY), e: Parameter(StateDict[str], ANY), *, g: Parameter(StateDict[Tensor], ANY)) -> Return(Tensor, "param"):
    return 0


@merge_method(identifier="mv g spaced=\"name\"")
def mv_g_spaced(a: Parameter(Tensor, ANY)) -> Return(Tensor, "weight"):
    return a


METHODS = {"strings": mv_g_strings, "var": mv_g_var, "state": mv_g_state, "spaced": mv_g_spaced}

ALPHABET = st.one_of(
    st.sampled_from(list("ab01 \"\\'=&#\n\r\t.,:;[]{}()|-+*/nrt")),
    st.characters(exclude_categories=["Cs"]),
)
STRINGS = st.one_of(
    st.text(ALPHABET, max_size=12),
    st.sampled_from(["", " ", "null", "true", "1.5", "1", "&0", "&1", "#c", "a=b", "=", "\\", "\\\\", "\\n", "\"", "\"\"", "\n", "version 0.1.0", "merge \"x\"", "dict a=1", "inf", "nan", "\u2028", "\x85", "\x0b", "a\\\"b", "end\\"]),
)
FLOATS = st.one_of(st.floats(width=64), st.sampled_from([0.0, -0.0, 1.0, 1e22, 1e-7, 1e16, 123456789.0, 0.1, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e308]))
INTS = st.one_of(st.integers(-5, 5), st.integers(-2**70, 2**70), st.integers(10**15, 10**30))
KEYS = st.one_of(
    st.sampled_from(["a", "model.x.weight", "k-1", "ü", "&1", "#x", "0", "null", "1.5", "a:b", "a/b", "model_config", "'", "self", "日本", "a b", "", " ", "a\"b", "a\\", "\\n", "a\nb", "\r", "a\\ b", "'\"", "\t"]),
    st.text(st.characters(exclude_categories=["Cs"], exclude_characters="="), max_size=6).filter(lambda k: not k.startswith('"')),
)
PATHS = st.one_of(st.sampled_from(["m.safetensors", "dir/m 1.safetensors", "C:\\a\\b.safetensors", "we\"ird=.safetensors", "../x.safetensors", "/abs/é.safetensors", "a\nb.safetensors", "&0", "null", "1.5"]),
                  st.text(ALPHABET.filter(lambda c: c != "\0"), min_size=1, max_size=10))


@st.composite
def scalars(draw):
    k = draw(st.sampled_from(["s", "s", "f", "f", "i", "b", "n"]))
    if k == "s":
        return {"s": draw(STRINGS)}
    if k == "f":
        return {"f": draw(FLOATS).hex()}
    if k == "i":
        return {"i": str(draw(INTS))}
    if k == "b":
        return {"b": draw(st.booleans())}
    return {"n": None}


def scalar(v):
    (k, x), = v.items()
    return {"s": lambda: x, "f": lambda: float.fromhex(x), "i": lambda: int(x), "b": lambda: x, "n": lambda: None}[k]()


@st.composite
def dicts(draw, refs=()):
    kind = draw(st.sampled_from(["f", "fi", "s", "b", "i"] + (["ref", "ref"] if refs else [])))
    ks = draw(st.lists(KEYS, max_size=4, unique=True))
    def value():
        if kind == "ref":
            return {"ref": draw(st.sampled_from(list(refs)))}
        if kind == "s":
            return {"s": draw(STRINGS)}
        if kind == "b":
            return {"b": draw(st.booleans())}
        if kind == "i" or kind == "fi" and draw(st.booleans()):
            return {"i": str(draw(INTS))}
        return {"f": draw(FLOATS).hex()}
    return {"dict": [[k, value()] for k in ks]}


SPACE = {"strings": "weight", "var": "delta", "state": "param", "spaced": "weight"}


@st.composite
def graphs(draw, max_instr=9):
    config = draw(st.sampled_from([None, None, "sd1-ldm", "sdxl-sgm", "mvt-pool"]))
    instr, spaces, configs = [], [], []

    def same(i):  # nodes that may be in the same dictionary
        # a literal without config or merge space is written as its plain value: in a dictionary, it is that value
        return [j for j in range(len(instr)) if spaces[j] == spaces[i] and configs[j] == configs[i] and not (instr[j][0] == "literal" and configs[j] is None and spaces[j] == "param")]

    def value(any_dict=True):
        w = draw(st.integers(0, 9))
        if w < 5 and instr:
            return {"ref": draw(st.integers(0, len(instr) - 1))}
        if w < 7 and any_dict:
            return draw(dicts(same(draw(st.integers(0, len(instr) - 1))) if instr else ()))
        return draw(scalars())

    for _ in range(draw(st.integers(1, max_instr))):
        op = draw(st.sampled_from(["model", "model", "literal", "strings", "strings", "var", "state", "spaced", "operator"]))
        if op == "model":
            space = draw(st.sampled_from(ANY))
            cfg = draw(st.sampled_from([None, config]))
            instr.append(["model", draw(PATHS), cfg, space])
            spaces.append(space)
            configs.append(cfg)
        elif op == "literal":
            space = draw(st.sampled_from([None, "weight", "delta", "param"]))
            cfg = draw(st.sampled_from([None, config]))
            v = draw(scalars()) if draw(st.booleans()) else draw(dicts())
            instr.append(["literal", v, cfg, space])
            spaces.append(space or "param")
            configs.append(cfg)
        elif op == "operator":
            pairs = [(a, b) for a in range(len(instr)) for b in range(len(instr)) if spaces[a] == "weight"]
            if not pairs:
                continue
            a, b = draw(st.sampled_from(pairs))
            o = {"weight": ["-", "|"], "delta": ["+"], "param": []}[spaces[b]]
            if not o:
                continue
            o = draw(st.sampled_from(o))
            instr.append(["operator", o, a, b])
            spaces.append("delta" if o == "-" else "weight")
            configs.append(configs[a] or configs[b])
        else:
            args, kwargs = [], {}
            if op == "strings":
                args = [value(), value()]
                if draw(st.booleans()):
                    args.append(value())
                    if draw(st.booleans()):
                        kwargs["t"] = draw(scalars())
                for k in ("f", "b", "n"):
                    if draw(st.booleans()):
                        kwargs[k] = draw(scalars())
                # parameters with a default are in param space
                args[2:] = [v if spaces_of(v, spaces) == "param" else {"s": "x"} for v in args[2:]]
            elif op == "var":
                args = [value() for _ in range(draw(st.integers(1, 4)))]
                if draw(st.booleans()):
                    kwargs["k"] = draw(scalars())
            elif op == "state":
                args = [value(), value()]
                kwargs["g"] = value()
            else:
                args = [value()]
            instr.append(["merge", op, args, kwargs])
            spaces.append(SPACE[op])
            used = [configs_of(v, configs) for v in [*args, *kwargs.values()]]
            configs.append(next((c for c in used if c), None))
    if not instr:
        instr.append(["literal", {"i": "1"}, None, None])
    return {"instr": instr}


def spaces_of(v, spaces):
    if "ref" in v:
        return spaces[v["ref"]]
    if "dict" in v and v["dict"] and "ref" in v["dict"][0][1]:
        return spaces[v["dict"][0][1]["ref"]]
    return "param"


def configs_of(v, configs):
    if "ref" in v:
        return configs[v["ref"]]
    if "dict" in v and v["dict"] and "ref" in v["dict"][0][1]:
        return configs[v["dict"][0][1]["ref"]]
    return None


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "|": lambda a, b: a | b}


def build(case):
    """-> list of recipe nodes, one per instruction"""
    nodes = []

    def val(v):
        if "ref" in v:
            return nodes[v["ref"]]
        if "dict" in v:
            return {k: val(x) for k, x in v["dict"]}
        return scalar(v)

    for ins in case["instr"]:
        if ins[0] == "model":
            nodes.append(sd_mecha.model(ins[1], ins[2], ins[3]))
        elif ins[0] == "literal":
            nodes.append(sd_mecha.literal(val(ins[1]), ins[2], ins[3]))
        elif ins[0] == "operator":
            nodes.append(OPS[ins[1]](nodes[ins[2]], nodes[ins[3]]))
        else:
            nodes.append(METHODS[ins[1]](*map(val, ins[2]), **{k: val(v) for k, v in ins[3].items()}))
    return nodes


# ------------------------------------------------------------------ structure of recipes
class Structure(recipe_nodes.RecipeVisitor):
    """canonical description of a graph: equal recipes have the same number in the same table"""
    def __init__(self):
        self.table = {}
        self.memo = {}
        self.keep = []

    def of(self, node):
        if id(node) not in self.memo:
            self.keep.append(node)
            self.memo[id(node)] = self.table.setdefault(node.accept(self), len(self.table))
        return self.memo[id(node)]

    @staticmethod
    def config(node):
        try:
            identifier = getattr(node.model_config, "identifier", None)
        except ValueError:
            return "inputs of several configs"  # refused when it is merged: P25
        return identifier if identifier != "structural" else None

    def value(self, v):
        if isinstance(v, recipe_nodes.RecipeNode):
            return "node", self.of(v)
        if isinstance(v, dict):
            return "dict", tuple((k, self.value(x)) for k, x in v.items())
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
            return type(v).__name__, v
        if isinstance(v, float):
            return "float", "nan" if v != v else struct.pack("<d", v)
        if isinstance(v, torch.Tensor):
            return "tensor", id(v)
        return type(v).__name__, repr(v)

    def visit_literal(self, node):
        return "literal", self.value(node.value), self.config(node), node.merge_space.identifier

    def visit_model(self, node):
        return "model", str(node.path), isinstance(node.path, pathlib.Path), self.config(node), node.merge_space.identifier

    def visit_merge(self, node):
        return "merge", node.merge_method.identifier, tuple(self.of(a) for a in node.args), tuple(sorted((k, self.of(v)) for k, v in node.kwargs.items())), node.merge_space.identifier, self.config(node)


def show(structure, n, depth=4):
    rows = {v: k for k, v in structure.table.items()}

    def ref(x, d):
        row = rows[x]
        if d == 0:
            return "..."
        if row[0] == "merge":
            return f"{row[1]}({', '.join(ref(a, d - 1) for a in row[2])}, {', '.join(f'{k}={ref(v, d - 1)}' for k, v in row[3])}) in {row[4]} of {row[5]}"
        return str(row)
    return ref(n, depth)
