import functools
import importlib.util
import os
import pathlib
import random
import sys
import sd_mecha
import yaml
from hypothesis import strategies as st
from sd_mecha.extensions import model_configs
from sd_mecha.extensions.builtin import model_configs as builtin_dir
from .. import files as files_, st as stf
from ..env import REPO
from ..core import Sub, sut, must_raise, scratch, check

ASSUMPTIONS = ["key, component and alias names are non-empty strings without surrogates; shapes are lists of non-negative integers or unknown"]
DTYPES = ["float32", "float16", "bfloat16", "float64", "int64", "int32", "uint8", "bool", "float8_e4m3fn", "complex64"]
NAMES = st.one_of(
    st.from_regex(r"[a-z]{1,4}(\.[0-9a-z_]{1,4}){0,3}", fullmatch=True),
    st.sampled_from(["yes", "no", "null", "~", "true", "1", "1.0", "1e3", "0x1f", "-", "- a", "a: b", "a #b", "#", "'", '"', "a'b\"c", "{a}", "[a]", "shape", "dtype", "aliases", "optional", "<<", "=", "2020-01-01", "é", "日本", " a", "a ", "a\nb", "\t", "|", ">", "%x", "@y", "`", "!z", "&a", "*a", "?", ",", "\\", "a" * 200, "\u2028", "\U0001F600", "identifier", "12:30:45", "1_000", ".inf", ".nan"]),
    st.text(st.characters(exclude_categories=("Cs", "Cc")), min_size=1, max_size=6),
)
IDS = st.from_regex(r"[a-z0-9._+]{1,8}-[a-z0-9._+]{1,8}", fullmatch=True)


def fingerprint(config):
    def key(m):
        shape = m.shape if m.shape is None else [int(x) for x in m.shape]
        return [shape, str(m.dtype), list(m.aliases), bool(m.optional)]
    comps = config.components()
    return {
        "identifier": config.identifier, "architecture": config.get_architecture_identifier(), "implementation": config.get_implementation_identifier(),
        "components": [[c, [[k, *key(m)] for k, m in v.keys().items()]] for c, v in comps.items()],
        "keys": [[k, *key(m)] for k, m in config.keys().items()],
        "metadata": [[k, None if m.shape is None else list(m.shape), str(m.dtype)] for k, m in config.metadata().items()],
        "aliases": [[k, list(v)] for k, v in config.aliases().items()],
    }


def difference(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list):
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        return f"{k}[{i}]: {str(x)[:300]} != {str(y)[:300]}"
                return f"{k}: {len(a[k])} != {len(b[k])} entries"
            return f"{k}: {a[k]!r} != {b[k]!r}"
    return None


def round_trip(config, what):
    before = fingerprint(config)
    with sut(f"writing and reading {what}"):
        representers = dict(yaml.SafeDumper.yaml_representers)
        text = model_configs.to_yaml(config)
        check(isinstance(text, str), f"to_yaml returned {type(text)}")
        check(dict(yaml.SafeDumper.yaml_representers) == representers, "to_yaml leaves its representers in yaml.SafeDumper")
        loaded = model_configs.from_yaml(text)
        after = fingerprint(loaded)
    d = difference(before, after)
    check(d is None, lambda: f"{what}: {d}")
    if len(before["keys"]) < 100:
        with sut("writing it again"):
            again = model_configs.to_yaml(loaded)
        check(again == text, f"{what}: writing the config again gives another text")
    check(fingerprint(config) == before, f"{what}: writing the config changes it")
    return text


@st.composite
def keys(draw):
    k = {"shape": draw(st.one_of(st.none(), st.lists(st.integers(0, 5000), max_size=5))), "dtype": draw(st.one_of(st.none(), st.sampled_from(DTYPES)))}
    if draw(st.booleans()):
        k["aliases"] = draw(st.lists(NAMES, max_size=3))
    if draw(st.booleans()):
        k["optional"] = draw(st.booleans())
    return k


@st.composite
def configs(draw):
    comps = []
    seen = set()
    for c in draw(st.lists(NAMES, max_size=4, unique=True)):
        names = [n for n in draw(st.lists(NAMES, max_size=5, unique=True)) if n not in seen]
        seen |= set(names)
        comps.append([c, [[n, draw(keys())] for n in names]])
    return {"id": draw(IDS), "components": comps, "aliases_as": draw(st.sampled_from(["list", "tuple"])), "build": draw(st.sampled_from(["dicts", "metadata", "components", "file"]))}


def run_random(case):
    components = {}
    for c, ks in case["components"]:
        components[c] = {n: dict(k) for n, k in ks}
        for k in components[c].values():
            if "aliases" in k and case["aliases_as"] == "tuple":
                k["aliases"] = tuple(k["aliases"])
    want = {
        "identifier": case["id"], "architecture": case["id"].split("-")[0], "implementation": case["id"].split("-")[1],
        "components": [[c, [[n, k["shape"], f"torch.{k['dtype']}" if k["dtype"] else "None", list(k.get("aliases", [])), k.get("optional", False)] for n, k in ks]] for c, ks in case["components"]],
    }
    want["keys"] = [k for c in want["components"] for k in c[1]]
    want["metadata"] = [k[:3] for k in want["keys"]]
    want["aliases"] = [[k[0], k[3]] for k in want["keys"]]
    with scratch() as d, sut("building a valid config"):
        build = case["build"]
        if build in ("metadata", "components"):
            components = {c: {n: model_configs.KeyMetadata(**k) for n, k in ks.items()} for c, ks in components.items()}
        if build == "components":
            components = {c: model_configs.ModelComponent(ks) for c, ks in components.items()}
        config = model_configs.ModelConfigImpl(case["id"], components)
        if build == "file":
            path = d / f"{case['id']}.yaml"
            path.write_text(model_configs.to_yaml(config), encoding="utf-8")
            config = model_configs.YamlModelConfig(path)
        diff = difference(want, fingerprint(config))
        check(diff is None, lambda: f"the config differs from its declaration: {diff}")
        round_trip(config, f"a config built from {build}")
    return len(want["keys"]) > 0 and f"{build}{' aliases' if any(k[3] for k in want['keys']) else ''}"


# ------------------------------------------------------------- configs of the package
@functools.cache
def all_ids():
    return sorted(c.identifier for c in model_configs.get_all())


@functools.cache
def files():
    return sorted(str(p.relative_to(pathlib.Path(builtin_dir.__file__).parent)) for p in pathlib.Path(builtin_dir.__file__).parent.rglob("*.yaml"))


@st.composite
def builtin_cases(draw):
    n = draw(st.integers(0, len(all_ids()) - 1))
    return {"config": all_ids()[n], "file": files()[n % len(files())]}


def run_builtin(case):
    config = model_configs.resolve(case["config"])
    check(config.identifier == case["config"], f"resolve({case['config']!r}) is {config.identifier}")
    round_trip(config, case["config"])
    # the file of a config, read by plain yaml, describes the config registered under its name
    path = pathlib.Path(builtin_dir.__file__).parent / case["file"]
    raw = yaml.load(path.read_text(), Loader=yaml.CSafeLoader if hasattr(yaml, "CSafeLoader") else yaml.SafeLoader)
    check(raw["identifier"] == path.stem, lambda: f"{path.name} holds the config {raw['identifier']}")
    with sut(f"resolving the config of {path.name}"):
        config = model_configs.resolve(path.stem)
        got = fingerprint(config)
    want = [[c, [[k, m.get("shape"), f"torch.{m['dtype']}" if m.get("dtype") else "None", list(m.get("aliases", [])), m.get("optional", False)] for k, m in ks.items()]] for c, ks in raw["components"].items()]
    check(got["identifier"] == raw["identifier"], "the registered config has another identifier")
    diff = difference({"components": want, "keys": [k for c in want for k in c[1]]}, got)
    check(diff is None, lambda: f"{path.name} and the registered config: {diff}")
    return f"{case['config']} {case['file']}"


# ------------------------------------------------------------- registry
@st.composite
def registry_cases(draw):
    bad = draw(st.one_of(
        st.sampled_from(["", "a", "-", "a-", "-b", "a-b-c", "A-b", "a-B", "a b-c", "a-b ", " a-b", "a/b-c", "a-b\n", "é-a", "a-b\x00", "a--b", "a-b:c", "sd1-ldm\n", "a_b", "a-b,c", "a-b#"]),
        st.text(max_size=6)))
    ops = draw(st.lists(st.tuples(st.sampled_from(["base", "aux"]), st.integers(0, 2)), min_size=1, max_size=5))
    return {"bad": bad, "ids": draw(st.lists(IDS, min_size=3, max_size=3, unique=True)), "ops": [list(o) for o in ops], "taken": draw(st.sampled_from(all_ids())), "how": draw(st.sampled_from(["base", "aux"]))}


def run_registry(case):
    import re
    if not re.fullmatch("[a-z0-9._+]+-[a-z0-9._+]+", case["bad"]):
        must_raise(f"a config with the identifier {case['bad']!r}", lambda: model_configs.ModelConfigImpl(case["bad"], {}), ValueError)
        must_raise(f"a file with the identifier {case['bad']!r}", lambda: model_configs.from_yaml(yaml.safe_dump({"identifier": case["bad"], "components": {}})), ValueError)
    ids = [f"mvreg.{i}" for i in case["ids"]]
    register = {"base": model_configs.register, "aux": model_configs.register_aux}
    registered = {}
    before = {c.identifier for c in model_configs.get_all()}
    try:
        with sut("looking up a config"):
            taken = model_configs.resolve(case["taken"])
        must_raise("registering a taken identifier", lambda: register[case["how"]](model_configs.ModelConfigImpl(case["taken"], {})), ValueError)
        check(model_configs.resolve(case["taken"]) is taken, "a rejected registration replaced the config")
        for how, n in case["ops"]:
            config = model_configs.ModelConfigImpl(ids[n], {"c": {"k": {"shape": [1], "dtype": "float32"}}})
            if ids[n] in registered:
                must_raise("registering an identifier twice", lambda: register[how](config), ValueError)
            else:
                must_raise("resolving an unknown config", lambda: model_configs.resolve(ids[n]), ValueError)
                with sut("registering a config"):
                    register[how](config)
                registered[ids[n]] = (how, config)
            with sut("listing configs"):
                for i, (h, c) in registered.items():
                    check(model_configs.resolve(i) is c, f"resolve({i!r}) is another config")
                    check((c in model_configs.get_all_base()) == (h == "base") and (c in model_configs.get_all_aux()) == (h == "aux"), f"{i} registered as {h} is in the wrong list")
                check({c.identifier for c in model_configs.get_all()} == before | set(registered), "get_all does not list the registered configs")
    finally:
        for i in registered:
            model_configs._model_configs_registry_base.pop(i, None)
            model_configs._model_configs_registry_aux.pop(i, None)
    return len(case["ops"]) > len(registered) and "duplicates" or "distinct"


# ------------------------------------------------------------- the config a model file is described by
@st.composite
def script_cases(draw):
    entries = draw(files_.entries(min_size=0, max_size=8, names=files_.NAMES + ["yes", "null", "1.0", "a: b", "- x", "shape", "dtype", "identifier", "~", "<<"]))
    return {"id": draw(IDS), "entries": entries, "metadata": draw(st.sampled_from([None, {}, {"format": "pt"}, {"mecha_recipe": "version 0.1.0\nliteral 1"}])), "order": draw(st.integers(0, 99)), "main": draw(st.booleans())}


@functools.cache
def script():
    path = pathlib.Path(REPO) / "scripts" / "yaml_from_safetensors.py"
    if not path.exists():
        return None
    spec = importlib.util.spec_from_file_location("mv_yaml_from_safetensors", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def run_script(case):
    module = script()
    if module is None:
        return None
    es = case["entries"]
    order = [e["key"] for e in es]
    random.Random(case["order"]).shuffle(order)
    with scratch() as d:
        path = d / "model.safetensors"
        path.write_bytes(stf.encode([(e["key"], e["dtype"], e["shape"], files_.data_of(e)) for e in es], case["metadata"], header_order=order))
        before = path.read_bytes()
        cwd, argv = os.getcwd(), sys.argv
        os.chdir(d)
        try:
            with sut("describing a model file"):
                if case["main"]:
                    sys.argv = ["yaml_from_safetensors.py", case["id"], str(path)]
                    module.main()
                else:
                    module.create_model_config(case["id"], path)
        finally:
            os.chdir(cwd)
            sys.argv = argv
        check(sorted(p.name for p in d.iterdir()) == sorted(["model.safetensors", case["id"] + ".yaml"]) and path.read_bytes() == before, lambda: f"the script leaves {[p.name for p in d.iterdir()]}")
        with sut("loading the written config"):
            config = model_configs.YamlModelConfig(d / f"{case['id']}.yaml")
            got = fingerprint(config)
        infos = {e["key"]: [list(e["shape"]), str(stf.DT[e["dtype"]])] for e in es}
        check(got["identifier"] == case["id"], "the config has another identifier")
        check({k[0]: k[1:3] for k in got["keys"]} == infos, lambda: f"the file holds {infos}, the config written for it describes {got['keys']}")
        check(len(got["keys"]) == len(infos) and [c for c, ks in got["components"]] == ["diffuser"], "keys of the file are repeated or not in one component")
        check(all(k[3] == [] and not k[4] for k in got["keys"]), "the config invents aliases or optional keys")
        with sut("writing it again"):
            text = model_configs.to_yaml(config)
        check(text == (d / f"{case['id']}.yaml").read_text(encoding="utf-8"), "writing the config again gives another text")
        # a model of that config is recognised as the file it was made from
        if es and case["order"] % 2 == 0:
            with sut("merging the file as a model of that config"):
                node = sd_mecha.model(path, config, "weight")
                out = sd_mecha.merge(node, merge_device=None, merge_dtype=None, output_dtype=None, threads=0)
            check({k: [list(v.shape), str(v.dtype)] for k, v in out.items()} == infos, "merging the file as its own config gives other keys")
    return len(es) > 0 and ("command" if case["main"] else "function")


SUBS = [
    Sub("random", configs(), run_random, 2400, rule="a config with at least one key"),
    Sub("builtin", builtin_cases(), run_builtin, 112, 400, rule="a pair of a registered config and a config file of the package"),
    Sub("script", script_cases(), run_script, 350, rule="a model file with at least one tensor"),
    Sub("registry", registry_cases(), run_registry, 800, rule="a history of registrations"),
]
