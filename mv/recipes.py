"""Generated recipes over test merge methods, and their reference evaluation.

A program is a list of instructions (a DAG); the reference evaluates it key by key on plain tensors, without any of
the code under test. All the arithmetic is on small integers and dyadic fractions in float64, hence exact.
"""
import functools
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import merge_method, Parameter, Return, StateDict, StateDictKeyError
from sd_mecha.extensions import model_configs
from torch import Tensor
from . import st as stf

# ---------------------------------------------------------------- configs
_SHAPE = [2, 2]
POOL_KEYS = [f"mvt.trunk.{i}.weight" for i in range(6)] + [f"mvt.head.{i}.bias" for i in range(3)]
POOL_ALIASES = {"mvt.trunk.1.weight": ["mvt.old.1", "mvt.older.1"], "mvt.head.0.bias": ["mvt.old_head"], "mvt.trunk.4.weight": ["mvt.legacy.4"]}


@functools.cache
def pool_config():
    def key(k):
        return {"shape": list(_SHAPE), "dtype": "float32", "aliases": POOL_ALIASES.get(k, []), "optional": k.endswith("2.bias")}
    cfg = model_configs.ModelConfigImpl(identifier="mvt-pool", components={
        "trunk": {k: key(k) for k in POOL_KEYS if "trunk" in k},
        "head": {k: key(k) for k in POOL_KEYS if "head" in k},
    })
    model_configs.register_aux(cfg)
    return cfg


FREE_KEYS = [f"mvf.{i}" for i in range(8)]


@functools.cache
def free_config():
    """a config for tensors of any shape; given explicitly, it spares the cost of inferring a config"""
    cfg = model_configs.ModelConfigImpl(identifier="mvf-free", components={"all": {k: {"shape": [1], "dtype": "float32"} for k in FREE_KEYS}})
    model_configs.register_aux(cfg)
    return cfg


EMA_KEYS = [f"mve.model.{i}.w" for i in range(4)] + [f"mve.vae.{i}.w" for i in range(2)] + [f"mve.ema.{i}w" for i in range(3)]


@functools.cache
def ema_config():
    """a small config with several components, one of which is 'ema'"""
    def part(name):
        return {k: {"shape": [2, 2], "dtype": "float32", "aliases": ["mve.old.0"] if k == "mve.model.0.w" else [], "optional": name != "model"} for k in EMA_KEYS if f".{name}." in k}
    cfg = model_configs.ModelConfigImpl(identifier="mve-ema", components={n: part(n) for n in ("model", "vae", "ema")})
    model_configs.register_aux(cfg)
    return cfg


STRUCT_KEYS = [f"s{i}.w" for i in range(6)]


def neighbour(key, keys):
    return keys[(keys.index(key) + 1) % len(keys)]


# ---------------------------------------------------------------- test merge methods
@merge_method(identifier="mv_lin")
def mv_lin(a: Parameter(Tensor), b: Parameter(Tensor), c: Parameter(float) = 2.0, *, d: Parameter(int) = 1) -> Return(Tensor):
    return a * d + b * c


@merge_method(identifier="mv_neighbour")
def mv_neighbour(a: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):
    key = kwargs["key"]
    keys = sorted(a.keys())
    if key not in keys:  # an extra key
        return a[key]
    return a[key] - 2 * a[keys[(keys.index(key) + 1) % len(keys)]]


@merge_method(identifier="mv_total")
def mv_total(a: Parameter(StateDict[Tensor]), b: Parameter(Tensor), **kwargs) -> Return(Tensor):
    res = b.clone()
    for k in sorted(a.keys()):
        try:
            res = res + a[k]
        except StateDictKeyError:
            res = res + 100
    return res


@merge_method(identifier="mv_choose")
def mv_choose(*models: Parameter(Tensor), mode: Parameter(str) = "first", flip: Parameter(bool) = False) -> Return(Tensor):
    res = models[{"first": 0, "last": -1}[mode]]
    return -res if flip else res


@merge_method(identifier="mv_corner")
def mv_corner(a: Parameter(Tensor)) -> Return(float, "param"):
    return float(int(abs(a.flatten()[0].item())) % 4) / 4


@merge_method(identifier="mv_keylen")
def mv_keylen(a: Parameter(Tensor), scale: Parameter(Tensor) = 1.0, **kwargs) -> Return(Tensor):
    return a * scale + len(kwargs["key"])


# ---------------------------------------------------------------- tensors
DTYPES = ["float64", "float32", "float16", "bfloat16", "int32", "int8"]


def model_tensor(seed, dtype="float64", shape=_SHAPE):
    g = torch.Generator().manual_seed(seed)
    return torch.randint(-6, 7, tuple(shape), generator=g).to(getattr(torch, dtype))


# ---------------------------------------------------------------- programs
ALPHAS = [0.0, 0.25, 0.5, 0.75, 1.0, 2.0, -0.5]


@st.composite
def programs(draw, max_ops=7, min_models=1, max_models=3, stores=("mem", "file"), fallback=True, deltas=True, modes=("config", "structural"), extra=True, missing=True, dup=True):
    mode = draw(st.sampled_from(modes))
    all_keys = POOL_KEYS if mode == "config" else STRUCT_KEYS
    explicit = draw(st.booleans()) if mode == "config" else False
    models = []
    for _ in range(draw(st.integers(min_models, max_models))):
        if missing and draw(st.booleans()):
            keys = [all_keys[0]] + [k for k in all_keys[1:] if draw(st.booleans())]
        else:
            keys = list(all_keys)
        m = {
            "keys": keys, "seed": draw(st.integers(0, 999)), "dtype": draw(st.sampled_from(DTYPES)),
            "store": draw(st.sampled_from(stores)), "space": "delta" if deltas and models and draw(st.integers(0, 4)) == 0 else "weight",
        }
        if mode == "config":
            m["alias"] = {k: draw(st.sampled_from(POOL_ALIASES[k])) for k in keys if k in POOL_ALIASES and draw(st.integers(0, 3)) == 0}
            # further tensors under other names of the same keys: the key, then its aliases in order, are looked up first
            m["decoys"] = [k for k in keys if k in POOL_ALIASES and draw(st.integers(0, 5)) == 0]
            m["extra"] = draw(st.integers(0, 1)) if extra else 0
        models.append(m)
    instr, spaces = [], []

    def emit(ins, space):
        instr.append(ins)
        spaces.append(space)
        return len(instr) - 1

    for i, m in enumerate(models):
        emit(["model", i], m["space"])

    def pick(space=None):
        options = [i for i, s in enumerate(spaces) if (s == space if space else s in ("weight", "delta"))]
        if not options:
            return None
        # favour recent nodes, so that graphs are deep
        w = draw(st.integers(0, 2))
        return options[-1] if w == 0 else draw(st.sampled_from(options))

    def alpha():
        kind = draw(st.sampled_from(["scalar", "scalar", "dict", "node"]))
        if kind == "scalar":
            return {"scalar": draw(st.sampled_from(ALPHAS))}
        if kind == "dict":
            ks = [all_keys[0]] + [k for k in all_keys[1:] if draw(st.integers(0, 3))]
            return {"dict": {k: draw(st.sampled_from(ALPHAS)) for k in ks}}
        return {"node": emit(["corner", pick()], "param")}

    for _ in range(draw(st.integers(0, max_ops))):
        op = draw(st.sampled_from(["sub", "add", "or", "wsum", "navg", "lin", "nbr", "total", "choose", "rdict", "keylen", "lin", "wsum"] + (["dup"] if dup else [])))
        if op == "sub":
            x, y = pick("weight"), pick("weight")
            if x is not None:
                emit(["sub", x, y], "delta")
        elif op == "add":
            x, y = pick("weight"), pick("delta")
            if x is not None and y is not None:
                emit(["add", y, x] if draw(st.booleans()) else ["add", x, y], "weight")
        elif op == "or":
            x = pick()
            emit(["or", x, pick(spaces[x])], spaces[x])
        elif op == "wsum":
            x = pick()
            y = pick(spaces[x])
            emit(["wsum", x, y, alpha()], spaces[x])
        elif op == "navg":
            x = pick()
            n = draw(st.sampled_from([1, 2, 4]))
            emit(["navg", [x] + [pick(spaces[x]) for _ in range(n - 1)]], spaces[x])
        elif op == "lin":
            x = pick()
            emit(["lin", x, pick(spaces[x]), draw(st.sampled_from([None, 0.5, -1.0, 3.0])), draw(st.sampled_from([None, 2, -1]))], spaces[x])
        elif op == "nbr":
            x = pick()
            emit(["nbr", x], spaces[x])
        elif op == "total":
            x = pick()
            emit(["total", x, pick(spaces[x])], spaces[x])
        elif op == "choose":
            x = pick()
            emit(["choose", [x, pick(spaces[x])], draw(st.sampled_from([None, "first", "last"])), draw(st.sampled_from([None, True, False]))], spaces[x])
        elif op == "rdict":
            x = pick()
            ks = [k for k in all_keys if draw(st.booleans())] or [all_keys[0]]
            emit(["rdict", {k: pick(spaces[x]) if i else x for i, k in enumerate(ks)}], spaces[x])
        elif op == "keylen":
            x = pick()
            emit(["keylen", x, draw(st.sampled_from([None, 0.5, 2.0]))], spaces[x])
        elif op == "dup":
            i = draw(st.integers(0, len(models) - 1))
            emit(["model", i], models[i]["space"])
    root = pick()
    for i in range(len(instr) - 1, -1, -1):
        if spaces[i] in ("weight", "delta"):
            root = i
            break
    fb = None
    if fallback and draw(st.integers(0, 2)) == 0:
        fb = draw(st.sampled_from([i for i, s in enumerate(spaces) if s == spaces[root]]))
    return {"mode": mode, "explicit": explicit, "models": models, "instr": instr, "root": root, "fallback": fb, "space": spaces[root]}


def stored_tensors(prog, i):
    """what model i stores: {stored name: tensor}"""
    m = prog["models"][i]
    res = {}
    for n, k in enumerate(m["keys"]):
        name = m.get("alias", {}).get(k, k)
        names = [k, *POOL_ALIASES.get(k, [])]
        decoys = names[names.index(name) + 1:] if k in m.get("decoys", []) else []
        for j, decoy in enumerate(decoys):
            res[decoy] = model_tensor(m["seed"] * 100 + 60 + 3 * n + j, m["dtype"])
        res[name] = model_tensor(m["seed"] * 100 + n, m["dtype"])
    for e in range(m.get("extra", 0)):
        res[f"unknown.extra.{e}"] = model_tensor(m["seed"] * 100 + 50 + e, m["dtype"])
    return res


class Built:
    """Builds the recipe nodes of a program on the code under test."""

    def __init__(self, prog, directory=None, store=None, relative=False):
        self.prog = prog
        cfg = pool_config()
        self.mem = {}
        self.paths = {}
        self.nodes = []
        self.config = cfg if prog["explicit"] else None
        for i, m in enumerate(prog["models"]):
            tensors = stored_tensors(prog, i)
            kind = store(i, m) if store else m["store"]
            if kind == "file":
                path = directory / f"m{i}.safetensors"
                if not path.exists():
                    stf.save(path, tensors)
                self.paths[i] = path
            else:
                self.mem[i] = tensors
        self.relative = relative
        for ins in prog["instr"]:
            self.nodes.append(self.build(ins))
        self.root = self.nodes[prog["root"]]
        self.fallback = self.nodes[prog["fallback"]] if prog["fallback"] is not None else None

    def alpha(self, a):
        if "scalar" in a:
            return a["scalar"]
        if "dict" in a:
            return dict(a["dict"])
        return self.nodes[a["node"]]

    def build(self, ins):
        n = self.nodes
        op = ins[0]
        if op == "model":
            i = ins[1]
            src = (self.paths[i].name if self.relative else self.paths[i]) if i in self.paths else self.mem[i]
            return sd_mecha.model(src, self.config, self.prog["models"][i]["space"])
        if op == "sub":
            return n[ins[1]] - n[ins[2]]
        if op == "add":
            return n[ins[1]] + n[ins[2]]
        if op == "or":
            return n[ins[1]] | n[ins[2]]
        if op == "wsum":
            return sd_mecha.weighted_sum(n[ins[1]], n[ins[2]], alpha=self.alpha(ins[3]))
        if op == "navg":
            return sd_mecha.n_average(*(n[i] for i in ins[1]))
        if op == "lin":
            kw = {}
            if ins[3] is not None:
                kw["c"] = ins[3]
            if ins[4] is not None:
                kw["d"] = ins[4]
            return mv_lin(n[ins[1]], n[ins[2]], **kw)
        if op == "nbr":
            return mv_neighbour(n[ins[1]])
        if op == "total":
            return mv_total(n[ins[1]], n[ins[2]])
        if op == "choose":
            kw = {}
            if ins[2] is not None:
                kw["mode"] = ins[2]
            if ins[3] is not None:
                kw["flip"] = ins[3]
            return mv_choose(*(n[i] for i in ins[1]), **kw)
        if op == "corner":
            return mv_corner(n[ins[1]])
        if op == "rdict":
            return sd_mecha.literal({k: n[i] for k, i in ins[1].items()})
        if op == "keylen":
            return mv_keylen(n[ins[1]], *([ins[2]] if ins[2] is not None else []))
        raise AssertionError(op)


MISSING = object()


class Reference:
    def __init__(self, prog):
        self.prog = prog
        self.data = []
        for i, m in enumerate(prog["models"]):
            self.data.append({k: model_tensor(m["seed"] * 100 + n, m["dtype"]).to(torch.float64) for n, k in enumerate(m["keys"])})
        self.cache = {}
        if prog["mode"] == "config":
            self.keys = sorted(POOL_KEYS)
        else:
            keys = set(STRUCT_KEYS)
            for ks in self.leaf_keys():
                keys &= set(ks)
            self.keys = sorted(keys)

    def reachable(self):
        seen, todo = set(), [self.prog["root"]] + ([self.prog["fallback"]] if self.prog["fallback"] is not None else [])
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo += self.children(self.prog["instr"][i])
        return seen

    @staticmethod
    def children(ins):
        op = ins[0]
        if op == "model":
            return []
        if op in ("sub", "add", "or", "lin", "total"):
            return [ins[1], ins[2]]
        if op == "wsum":
            return [ins[1], ins[2]] + ([ins[3]["node"]] if "node" in ins[3] else [])
        if op in ("navg", "choose"):
            return list(ins[1])
        if op == "rdict":
            return list(ins[1].values())
        return [ins[1]]

    def leaf_keys(self):
        for i in self.reachable():
            ins = self.prog["instr"][i]
            if ins[0] == "model":
                yield self.prog["models"][ins[1]]["keys"]
            if ins[0] == "wsum" and "dict" in ins[3]:
                yield ins[3]["dict"]

    def ev(self, i, key):
        if (i, key) not in self.cache:
            self.cache[i, key] = self._ev(self.prog["instr"][i], key)
        return self.cache[i, key]

    def _ev(self, ins, key):
        op = ins[0]
        if op == "model":
            return self.data[ins[1]].get(key, MISSING)
        if op == "or":
            x = self.ev(ins[1], key)
            return self.ev(ins[2], key) if x is MISSING else x
        if op == "rdict":
            return self.ev(ins[1][key], key) if key in ins[1] else MISSING
        if op == "wsum":
            a = ins[3]
            alpha = a["scalar"] if "scalar" in a else a["dict"].get(key, MISSING) if "dict" in a else self.ev(a["node"], key)
            if alpha is MISSING:
                return MISSING
            if alpha == 0:
                return self.ev(ins[1], key)
            if alpha == 1:
                return self.ev(ins[2], key)
            x, y = self.ev(ins[1], key), self.ev(ins[2], key)
            return MISSING if x is MISSING or y is MISSING else x * (1 - alpha) + y * alpha
        if op == "nbr":
            x, y = self.ev(ins[1], key), self.ev(ins[1], neighbour(key, self.keys))
            return MISSING if x is MISSING or y is MISSING else x - 2 * y
        if op == "total":
            b = self.ev(ins[2], key)
            if b is MISSING:
                return MISSING
            for k in self.keys:
                x = self.ev(ins[1], k)
                b = b + (100 if x is MISSING else x)
            return b
        args = [self.ev(i, key) for i in self.children(ins)]
        if any(a is MISSING for a in args):
            return MISSING
        if op == "sub":
            return args[0] - args[1]
        if op == "add":
            return args[0] + args[1]
        if op == "navg":
            return sum(args) / len(args)
        if op == "lin":
            return args[0] * (1 if ins[4] is None else ins[4]) + args[1] * (2.0 if ins[3] is None else ins[3])
        if op == "choose":
            x = args[-1 if ins[2] == "last" else 0]
            return -x if ins[3] else x
        if op == "corner":
            return float(int(abs(args[0].flatten()[0].item())) % 4) / 4
        if op == "keylen":
            return args[0] * (1 if ins[2] is None else ins[2]) + len(key)
        raise AssertionError(op)

    def result(self):
        res = {}
        for k in self.keys:
            x = self.ev(self.prog["root"], k)
            if x is MISSING and self.prog["fallback"] is not None:
                x = self.ev(self.prog["fallback"], k)
            if x is not MISSING:
                res[k] = x
        return res


def depth(prog):
    d = []
    for ins in prog["instr"]:
        d.append(1 + max((d[c] for c in Reference.children(ins)), default=0))
    return d[prog["root"]]


def compare(got, want, what="merge"):
    """exact comparison of a dict of tensors against the reference ({key: float64 tensor})"""
    from .core import check
    check(set(got) == set(want), lambda: f"{what}: keys differ: missing {sorted(set(want) - set(got))}, unexpected {sorted(set(got) - set(want))}")
    for k in sorted(want):
        g, w = got[k], want[k]
        check(isinstance(g, torch.Tensor) and tuple(g.shape) == tuple(w.shape), lambda: f"{what}: {k}: expected shape {tuple(w.shape)}, got {getattr(g, 'shape', g)}")
        check(torch.equal(g.to(torch.float64), w), lambda: f"{what}: {k}: expected {w.tolist()}, got {g.tolist()}")
