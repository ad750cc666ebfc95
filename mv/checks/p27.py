import itertools
import os
import pathlib
import re
import torch
import sd_mecha
from hypothesis import strategies as st
from sd_mecha import Parameter, serialize, deserialize, deserialize_path, recipe_nodes
from sd_mecha.extensions import merge_methods, merge_spaces, model_configs, model_formats
from torch import Tensor
from ..core import Sub, sut, check, must_raise, scratch
from .. import graphs as G, recipes as R, st as stf

ASSUMPTIONS = [
    "the format is the one the serializer writes: a version line, then one instruction per line with quoted strings, references, constants and decimal numbers, optionally named; what other texts mean (backslashes outside of quotes, quotes in the middle of an argument, numbers with underscores or signs, repeated names) is not specified, and any outcome is accepted for them",
    "an instruction is valid when the same call through the API is accepted",
]
R.pool_config()
R.free_config()
COUNT = itertools.count()
VERSION = "version 0.1.0"


# ------------------------------------------------------------------ an independent strict parser
class Invalid(Exception):
    line = None  # the number of the line at fault, as an editor counts


class Unclear(Exception):
    pass


INT = re.compile(r"-?[0-9]+")
FLOAT = re.compile(r"-?([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))([eE][+-]?[0-9]+)?|-?inf|nan")
REF = re.compile(r"&([0-9]+)")
NAME = re.compile(r"[^\s\"\\=]+")


def split(line):
    """-> [(name or None, token)], where a token is ('str', value) or ('bare', text)"""
    res, i, n = [], 0, len(line)
    # quotes that nothing escapes have to come in pairs
    quotes = len(re.findall(r'"', re.sub(r"\\.", "", line)))
    if quotes % 2:
        raise Invalid("unbalanced quotes")
    while i < n:
        if line[i] == " ":
            i += 1
            continue
        m = re.compile(r"(?:([^\s\"\\=]+)=)?\"((?:[^\"\\]|\\.)*)\"(?= |$)").match(line, i)
        if m:
            value = re.sub(r"\\(.)", lambda e: {"n": "\n", "r": "\r"}.get(e[1], e[1]), m[2])
            res.append((m[1], ("str", value)))
            i = m.end()
            continue
        m = re.compile(r"[^ ]+").match(line, i)
        token = m[0]
        if '"' in token or "\\" in token or re.search(r"\s", token):
            raise Unclear
        i = m.end()
        if "=" in token:
            name, value = token.split("=", 1)
            if not name:
                raise Unclear
            res.append((name, ("bare", value)))
        else:
            res.append((None, ("bare", token)))
    return res


def parse_value(token, results):
    kind, text = token
    if kind == "str":
        return text
    if text in ("null", "true", "false"):
        return {"null": None, "true": True, "false": False}[text]
    m = REF.fullmatch(text)
    if m:
        if int(m[1]) >= len(results):
            raise Invalid(f"{text} is out of bounds")
        return results[int(m[1])]
    if INT.fullmatch(text):
        return int(text)
    if FLOAT.fullmatch(text):
        return float(text)
    if text.startswith("&") and re.fullmatch(r"[+_0-9]+", text[1:]) or re.fullmatch(r"\+?[0-9_eE.+-]*|[+-]*(inf|nan|infinity)", text, re.I) and re.search(r"[+_]|[a-z]", text, re.I) and not re.fullmatch(r"[eE.+-]*", text):
        try:
            float(text.lstrip("&"))
        except ValueError:
            raise Invalid(f"malformed number {text}")
        raise Unclear
    if not text.isascii():
        raise Unclear
    raise Invalid(f"malformed value {text!r}")


def interpret(line, results):
    (command, *args) = split(line)
    if command[0] is not None or command[1][0] != "bare":
        raise Invalid("no command")
    command = command[1][1]
    if command not in ("dict", "literal", "model", "merge"):
        raise Invalid(f"unknown command {command}")
    names = [n for n, _ in args if n is not None]
    if len(set(names)) < len(names):
        raise Unclear
    positional = [parse_value(t, results) for n, t in args if n is None]
    named = {n: parse_value(t, results) for n, t in args if n is not None}
    if command == "dict":
        if positional:
            raise Invalid("positional value in a dictionary")
        return named
    if command in ("literal", "model"):
        if len(positional) != 1 or set(named) - {"model_config", "merge_space"}:
            raise Invalid("wrong arguments")
        cfg, space = named.get("model_config"), named.get("merge_space", "weight" if command == "model" else None)
        if not isinstance(cfg, str | None) or not isinstance(space, str | None) or space is None and command == "model":
            raise Invalid("wrong type of identifier")
        if command == "literal":
            return api(lambda: sd_mecha.literal(positional[0], cfg, space))
        if not isinstance(positional[0], str):
            raise Invalid("a model is a path")
        return api(lambda: sd_mecha.model(pathlib.Path(positional[0]), cfg, space))
    if not positional or not isinstance(positional[0], str):
        raise Invalid("no method")
    method = api(lambda: merge_methods.resolve(positional[0]))
    return api(lambda: method(*positional[1:], **named))


def api(fn):
    try:
        return fn()
    except Exception as e:
        raise Invalid(f"{type(e).__name__}: {e}")


def reference(text):
    """-> the recipe, or Invalid or Unclear"""
    lines = text.split("\n")
    if not lines[0].startswith("version"):
        if not lines[0].strip() or lines[0] != lines[0].lstrip():
            raise Unclear
        raise Invalid("no version")
    if lines[0] != VERSION:
        if lines[0].split() == VERSION.split():
            raise Unclear
        raise Invalid("wrong version")
    results, unclear = [], False
    for i, line in enumerate(lines[1:], 2):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        try:
            results.append(interpret(line, results))
        except Unclear:
            # an instruction of unknown meaning: what refers to it is unknown as well
            raise
        except Invalid as e:
            e.line = i
            raise
    if not results:
        raise Invalid("no instruction")
    if not isinstance(results[-1], recipe_nodes.RecipeNode):
        raise Unclear
    return results[-1]


def judge(text, how=deserialize):
    try:
        want = reference(text)
    except Unclear:
        return "unclear"
    except Invalid as e:
        error = must_raise(f"deserializing a malformed recipe ({e}):\n{text}", lambda: how(text))
        named = re.match("line ([0-9]+):", str(error))
        check(named is None or e.line is None or int(named[1]) == e.line, lambda: f"the error names another line than {e.line} ({e}): {error}")
        return "invalid"
    with sut(f"deserializing a valid recipe:\n{text}"):
        got = how(text)
    s = G.Structure()
    a, b = s.of(want), s.of(got)
    check(a == b, lambda: f"{text!r} was read as {G.show(s, b)} instead of {G.show(s, a)}")
    return "valid"


# ------------------------------------------------------------------ generated edits
SPACES = st.sampled_from(["", " ", "  ", "    "])
INSERTED = st.sampled_from(["", "", "   ", "\t", "#", "# &99 \"", "   # model", "#model \"x\"", "\r"])


@st.composite
def neutral(draw):
    return {"graph": draw(G.graphs()), "edits": draw(st.lists(st.tuples(st.integers(0, 99), INSERTED), max_size=6)), "indent": draw(st.lists(SPACES, min_size=1, max_size=4)), "trail": draw(st.lists(SPACES, min_size=1, max_size=4)),
            "wide": draw(SPACES), "crlf": draw(st.booleans()), "via": draw(st.sampled_from(["string", "lines", "path"]))}


def widen(line, extra):
    """repeats the spaces between the arguments, outside of quotes"""
    out, quoted, escaped = [], False, False
    for c in line:
        out.append(c)
        if escaped:
            escaped = False
        elif c == "\\":
            escaped = True
        elif c == '"':
            quoted = not quoted
        elif c == " " and not quoted:
            out.append(extra)
    return "".join(out)


def run_neutral(case):
    with sut("building and serializing a valid recipe"):
        node = G.build(case["graph"])[-1]
        text = serialize(node)
    version, *lines = text.split("\n")
    lines = [case["indent"][i % len(case["indent"])] + widen(l, case["wide"]) + case["trail"][i % len(case["trail"])] for i, l in enumerate(lines)]
    for at, what in case["edits"]:
        lines.insert(at % (len(lines) + 1), what)
    text2 = ("\r\n" if case["crlf"] else "\n").join([version, *lines])
    with sut(f"deserializing a recipe with comments, blank lines and spaces:\n{text2}"):
        if case["via"] == "string":
            back = deserialize(text2)
        elif case["via"] == "lines":
            back = deserialize(text2.split("\n"))
        else:
            with scratch() as d:
                (d / "r.mecha").write_bytes(text2.encode())
                back = deserialize_path(d / "r.mecha")
    s = G.Structure()
    a, b = s.of(node), s.of(back)
    check(a == b, lambda: f"comments, blank lines or spaces changed the recipe: {G.show(s, a)} became {G.show(s, b)} through\n{text2}")
    return len(case["edits"]) > 0 and case["via"]


BAD_VALUES = ["1.2.3", "True", "None", "abc", "0x10", "1e", "--1", "1-", "'a'", "&", "&a", "&-1", "&1.0", "nul", "NULL", "tru", "model", "1,5", "[1]", "{}", "1.0f", "infinit", "e", ".", "-"]
TYPED = ["version", "version missing", "version number", "command", "method", "config", "space", "forward", "self", "far", "negative", "quote", "value", "value", "named value", "drop quote", "extra positional", "unknown name", "missing argument", "empty", "dict positional", "dict value", "config type", "space type"]


@st.composite
def typed(draw):
    return {"graph": draw(G.graphs()), "edit": draw(st.sampled_from(TYPED)), "at": draw(st.integers(0, 99)), "bad": draw(st.sampled_from(BAD_VALUES)), "n": draw(st.integers(0, 50)),
            "name": draw(st.one_of(st.sampled_from(["", "Merge", "merge_", "weighted-sum", "mv_g_string", "SD1-ldm", "sd1", "sd1-ldm ", "structural", "Weight", "weights", "mergex", "lit"]), st.text(st.characters(exclude_categories=["Cs", "Cc", "Zs", "Zl", "Zp"], exclude_characters="\"\\=#"), min_size=1, max_size=8)))}


def edit(case, text):
    """-> a text that is malformed, or None when the edit does not apply"""
    version, *lines = text.split("\n")
    kind, bad, name = case["edit"], case["bad"], case["name"]
    at = case["at"] % len(lines)
    quoted = '"' + name + '"'
    same = lambda line: "\n".join([version, *lines[:at], line, *lines[at + 1:]])
    if kind == "version":
        return "\n".join([["version 0.0.9", "version", "version 0.1", "version 0.1.0.0", "version0.1.0", "versions 0.1.0", "version 1.0.0", "Version 0.1.0", "version \"0.1.0\"", "version 0.1.0 # x"][case["n"] % 10], *lines])
    if kind == "version missing":
        return "\n".join(lines)
    if kind == "version number":
        return "\n".join([f"version {case['n'] % 3}.{case['at'] % 4}.{case['n'] // 7}" if (case["n"] % 3, case["at"] % 4, case["n"] // 7) != (0, 1, 0) else "version 9", *lines])
    if kind == "command":
        if name in ("dict", "literal", "model", "merge") or not name:
            return None
        return same(re.sub(r"^\w+", lambda _: name, lines[at]))
    if kind == "method":
        if any(m.identifier == name for m in merge_methods.get_all()):
            return None
        return "\n".join([version, *lines, f"merge {quoted} 1.0 2.0"])
    if kind == "config":
        if any(c.identifier == name for c in model_configs.get_all()) or name == "infer":
            return None
        return "\n".join([version, *lines, f"model \"a.safetensors\" model_config={quoted} merge_space=\"weight\""]) if case["n"] % 2 else "\n".join([version, *lines, f"literal 1.0 model_config={quoted}"])
    if kind == "space":
        if any(c.identifier == name for c in merge_spaces.get_all()):
            return None
        return "\n".join([version, *lines, f"model \"a.safetensors\" merge_space={quoted}"]) if case["n"] % 2 else "\n".join([version, *lines, f"literal 1.0 merge_space={quoted}"])
    if kind in ("forward", "self", "far", "negative"):
        ref = {"forward": at + 1 + case["n"] % (len(lines) + 1), "self": at, "far": 10 ** (2 + case["n"] % 20), "negative": f"-{1 + case['n'] % (at + 2)}"}[kind]
        return "\n".join([version, *lines[:at], [f"literal &{ref}", f"dict a=&{ref}", f"merge \"mv_g_strings\" &{ref} \"x\"", f"merge \"mv_g_strings\" 1.0 s=&{ref}"][case["n"] % 4], *lines[at:]])
    if kind == "quote":
        return same(lines[at] + ' "')
    if kind == "drop quote":
        where = [m.start() for m in re.finditer(r'(?<!\\)"', lines[at])]
        if not where or "\\" in lines[at]:
            return None
        i = where[case["n"] % len(where)]
        return same(lines[at][:i] + lines[at][i + 1:])
    if kind in ("value", "named value"):
        return "\n".join([version, *lines[:at], [f"literal {bad}", f"merge \"mv_g_strings\" {bad} \"x\"", f"merge \"mv_g_var\" 1.0 {bad} 2.0"][case["n"] % 3] if kind == "value" else [f"dict a={bad}", f"dict a=1 b={bad} c=2", f"merge \"mv_g_strings\" 1.0 \"x\" f={bad}", f"model \"x\" model_config={bad}", f"literal 1 merge_space={bad}"][case["n"] % 5], *lines[at:]])
    if kind == "extra positional":
        return "\n".join([version, *lines, ["literal 1 2", "model \"a\" \"b\"", "merge \"weighted_sum\" 1.0 2.0 0.5 4", "model \"a\" \"sd1-ldm\" \"weight\"", "merge \"mv_g_strings\" 1.0 \"a\" 3 \"b\" 0.5"][case["n"] % 5]])
    if kind == "unknown name":
        return "\n".join([version, *lines, ["literal 1 space=\"weight\"", "model \"a\" config=null", "merge \"weighted_sum\" 1.0 2.0 beta=0.5", "literal value2=1", "merge \"mv_g_var\" 1.0 xs=2.0", "merge \"mv_g_strings\" 1.0 \"a\" key=\"x\""][case["n"] % 6]])
    if kind == "missing argument":
        return "\n".join([version, *lines, ["literal", "model", "merge", "merge \"weighted_sum\" alpha=0.5", "literal model_config=null", "merge \"mv_g_state\" 1.0 \"a\"", "model merge_space=\"weight\"", "merge alpha=1"][case["n"] % 8]])
    if kind == "empty":
        return [version, version + "\n", version + "\n# nothing\n", "", "\n", "   "][case["n"] % 6]
    if kind == "dict positional":
        return "\n".join([version, *lines, "dict a=1", [f"dict &{len(lines)}", "dict \"\"", "dict \"ab\" c=1", "dict 1", "dict null", f"dict &{len(lines)} b=2"][case["n"] % 6], "literal 1"])
    if kind == "dict value":
        return "\n".join([version, *lines, ["dict a=1 b=\"x\"", "dict a=\"x\" b=2.0", f"dict a=&{at} b=1.0"][case["n"] % 3], f"merge \"mv_g_spaced\" &{len(lines)}".replace("mv_g_spaced", "mv_g_strings") + " \"x\""])
    if kind == "config type":
        return "\n".join([version, *lines, [f"literal 1 model_config={v}" for v in ("1", "true", "1.5", f"&{at}")][case["n"] % 4] if case["at"] % 2 else [f"model \"a\" model_config={v}" for v in ("1", "true", "1.5", f"&{at}")][case["n"] % 4]])
    if kind == "space type":
        return "\n".join([version, *lines, [f"literal 1 merge_space={v}" for v in ("1", "true", "1.5", f"&{at}")][case["n"] % 4] if case["at"] % 2 else [f"model \"a\" merge_space={v}" for v in ("1", "true", "1.5", "null", f"&{at}")][case["n"] % 5]])
    raise AssertionError(kind)


def run_typed(case):
    with sut("building and serializing a valid recipe"):
        text = serialize(G.build(case["graph"])[-1])
    text = edit(case, text)
    if text is None:
        return None
    must_raise(f"deserializing a malformed recipe ({case['edit']}):\n{text}", lambda: deserialize(text))
    return case["edit"]


CHARS = st.one_of(st.sampled_from(list("\"\"  ==&&\\\n#-.0123456789eabcdilmnt_+/")), st.sampled_from(["&0", "&1", "null", "true", "1.5", " \"x\"", "\n", "model ", "merge ", "dict ", "literal ", "a=", "inf", "\t", "é", "\r", "version 0.1.0"]))


@st.composite
def noisy(draw):
    return {"graph": draw(G.graphs(max_instr=4)), "edits": draw(st.lists(st.tuples(st.sampled_from(["insert", "insert", "delete", "replace", "swap lines", "drop line", "copy line", "move"]), st.integers(0, 9999), st.integers(1, 4), CHARS), min_size=1, max_size=3))}


def mutate(text, edits):
    for kind, at, n, what in edits:
        if kind in ("insert", "delete", "replace", "move"):
            # the version line has edits of its own
            lo = len(VERSION) + 1
            i = lo + at % max(1, len(text) - lo)
            if kind == "insert":
                text = text[:i] + what + text[i:]
            elif kind == "delete":
                text = text[:i] + text[i + n:]
            elif kind == "replace":
                text = text[:i] + what + text[i + n:]
            else:
                part = text[i:i + n]
                rest = text[:i] + text[i + n:]
                j = lo + (at // 7) % max(1, len(rest) - lo)
                text = rest[:j] + part + rest[j:]
        else:
            head, *lines = text.split("\n")
            if not lines:
                continue
            i = at % len(lines)
            if kind == "drop line":
                del lines[i]
            elif kind == "copy line":
                lines.insert(at // 7 % (len(lines) + 1), lines[i])
            else:
                j = at // 7 % len(lines)
                lines[i], lines[j] = lines[j], lines[i]
            text = "\n".join([head, *lines])
    return text


def run_noisy(case):
    with sut("building and serializing a valid recipe"):
        text = serialize(G.build(case["graph"])[-1])
    new = mutate(text, case["edits"])
    if new == text:
        return None
    verdict = judge(new)
    return verdict if verdict != "unclear" else None


# ------------------------------------------------------------------ texts written from the grammar
@st.composite
def written(draw):
    lines = []
    for i in range(draw(st.integers(1, 6))):
        def value(i=i):
            k = draw(st.integers(0, 9))
            if k < 3 and i:
                return f"&{draw(st.integers(0, i if draw(st.integers(0, 9)) == 0 else i - 1))}"
            if k < 5:
                s = draw(st.text(st.sampled_from(list("ab =&#.\\\"1\n\ré'")), max_size=6))
                s = s.replace("\\", "\\\\").replace('"', '\\"')
                return '"' + s.replace("\n", "\\n").replace("\r", "\\r") + '"'
            return draw(st.sampled_from(["null", "true", "false", "0", "-0", "1", "-7", "12345678901234567890", "00", "007", "1.0", "-1.5", ".5", "5.", "1e5", "1E-5", "-2.5e+10", "inf", "-inf", "nan", "1e400", "-0.0", "abc", "1..2", "1.2.3", "TRUE", "0b1", "e5", "-"] if draw(st.integers(0, 4)) == 0 else ["1", "2.5", "0.5", "-3", "true", "null", "1e-3"]))
        cmd = draw(st.sampled_from(["model", "model", "literal", "dict", "strings", "wsum", "wsum", "var", "sub", "fallback"]))
        names = draw(st.booleans())
        if cmd == "model":
            line = f"model \"{draw(st.sampled_from(['a', 'b c', 'd/e']))}.safetensors\"" + draw(st.sampled_from(["", " model_config=null", " model_config=\"sd1-ldm\"", " merge_space=\"delta\"", " merge_space=\"weight\" model_config=\"sdxl-sgm\""]))
        elif cmd == "literal":
            line = f"literal {value()}" + draw(st.sampled_from(["", "", " merge_space=\"weight\"", " merge_space=\"param\"", " model_config=\"sd1-ldm\" merge_space=\"delta\"", " merge_space=null"]))
        elif cmd == "dict":
            line = "dict " + " ".join(f"{k}={value()}" for k in draw(st.lists(st.sampled_from(["a", "b.c", "d-1", "é", "&0", "null", "self"]), max_size=3, unique=draw(st.integers(0, 9)) > 0)))
        elif cmd == "strings":
            line = f"merge \"mv_g_strings\" {value()} " + (f"s={value()} f={value()}" if names else f"{value()} {value()}")
        elif cmd == "wsum":
            line = f"merge \"weighted_sum\" {value()} " + (f"alpha={value()} b={value()}" if names else f"{value()}")
        elif cmd == "var":
            line = "merge \"mv_g_var\" " + " ".join(value() for _ in range(draw(st.integers(0, 3)))) + (f" k={value()}" if names else "")
        else:
            line = f"merge \"{'subtract' if cmd == 'sub' else 'fallback'}\" {value()} {value()}"
        lines.append(line)
    return {"lines": lines, "via": draw(st.sampled_from(["string", "path"]))}


def run_written(case):
    text = "\n".join([VERSION, *case["lines"]])

    def from_path(text):
        with scratch() as d:
            (d / "r.mecha").write_bytes(text.encode())
            return deserialize_path(d / "r.mecha")
    verdict = judge(text, from_path if case["via"] == "path" else deserialize)
    return verdict if verdict != "unclear" else None


# ------------------------------------------------------------------ files and identifiers
EXTENSIONS = ["", ".ckpt", ".pt", ".bin", ".safetensor", ".safetensors2", ".SAFETENSORS", ".txt", ".mecha", ".safetensors.bak", ".safetensors ", ".pth", ".gguf", ".Mecha", ".mecha.txt", ".yaml", ".mecha2", ".xmecha", ".mechanic"]


@st.composite
def files(draw):
    return {"ext": draw(st.sampled_from(EXTENSIONS)), "stem": draw(st.sampled_from(["m", "model.v1", "safetensors", ".mecha", "a b", ".safetensors"])), "as": draw(st.sampled_from(["model", "model", "recipe", "recipe", "input of a method", "fallback"])),
            "exists": draw(st.integers(0, 3)) > 0, "relative": draw(st.booleans()), "content": draw(st.sampled_from(["model", "recipe"])), "threads": draw(st.sampled_from([0, 1]))}


def run_file(case):
    name = case["stem"] + case["ext"]
    with scratch() as d:
        path = d / name
        if case["exists"]:
            if case["content"] == "model":
                stf.save(path, {"mvf.0": torch.ones(1)})
            else:
                path.write_text(f"{VERSION}\nmodel \"x.safetensors\" model_config=null merge_space=\"weight\"")
        given = pathlib.Path(name) if case["relative"] else path
        suffix = path.suffix
        if case["as"] == "recipe":
            if suffix == ".mecha" and case["exists"]:
                if case["content"] == "recipe":
                    with sut("deserializing a recipe file"):
                        node = deserialize_path(path)
                    check(node.path == pathlib.Path("x.safetensors"), f"read {node.path}")
                else:
                    must_raise("deserializing a model file as a recipe", lambda: deserialize_path(path))
            else:
                must_raise(f"deserializing {name} (exists: {case['exists']})", lambda: deserialize_path(path), ValueError)
            return "recipe"
        with sut("building a recipe"):
            good = sd_mecha.literal({"mvf.0": torch.ones(1)}, "mvf-free", "weight")
            node = sd_mecha.model(given, "mvf-free")
            kwargs = {}
            if case["as"] == "input of a method":
                node = sd_mecha.weighted_sum(good, node, alpha=0.5)
            elif case["as"] == "fallback":
                kwargs["fallback_model"] = node
                node = good
        # the stand-in output must not get a result either
        out = {}
        merge = lambda: sd_mecha.merge(node, output=out, threads=case["threads"], model_dirs=[d], total_buffer_size=1024, **kwargs)
        if suffix == ".safetensors" and case["exists"] and case["content"] == "model":
            with sut("merging a safetensors model"):
                merge()
            check(list(out) == ["mvf.0"], f"merged {list(out)}")
        else:
            must_raise(f"merging {name} as a model (exists: {case['exists']}, content: {case['content']})", merge)
            check(not out, f"a merge of {name} left {list(out)} in the output")
        return case["as"]


REGISTRIES = {
    "method": (lambda: [m.identifier for m in merge_methods.get_all()], merge_methods.resolve),
    "config": (lambda: [c.identifier for c in model_configs.get_all()] + ["infer"], model_configs.resolve),
    "space": (lambda: [s.identifier for s in merge_spaces.get_all()], merge_spaces.resolve),
    "format": (lambda: [f.identifier for f in model_formats.get_all()], model_formats.resolve),
}


@st.composite
def identifiers(draw):
    return {"registry": draw(st.sampled_from(sorted(REGISTRIES))), "near": draw(st.integers(0, 999)), "edit": draw(st.sampled_from(["exact", "exact", "upper", "cut", "double", "space", "dash", "other registry", "text", "text"])), "text": draw(G.STRINGS),
            "via": draw(st.sampled_from(["resolve", "resolve", "model", "literal", "parameter", "convert", "deserialize"]))}


def run_identifier(case):
    known, resolve = REGISTRIES[case["registry"]]
    ids = sorted(known())
    base = ids[case["near"] % len(ids)]
    others = sorted(i for k, (f, _) in REGISTRIES.items() if k != case["registry"] for i in f())
    name = {"exact": base, "upper": base.upper(), "cut": base[:-1], "double": base * 2, "space": base + " ", "dash": base.replace("_", "-").replace("-", "_"), "other registry": others[case["near"] % len(others)], "text": case["text"]}[case["edit"]]
    via = case["via"]
    uses = {
        "resolve": lambda: resolve(name),
        "model": {"config": lambda: sd_mecha.model("a.safetensors", name), "space": lambda: sd_mecha.model("a.safetensors", None, name)},
        "literal": {"config": lambda: sd_mecha.literal(1.0, name), "space": lambda: sd_mecha.literal(1.0, None, name)},
        "parameter": {"config": lambda: Parameter(Tensor, None, name), "space": lambda: Parameter(Tensor, name)},
        "convert": {"config": lambda: sd_mecha.convert(sd_mecha.literal({"mvf.0": torch.ones(1)}, "mvf-free", "weight"), name)},
    }
    if via == "deserialize":
        if case["registry"] == "format":
            via = "resolve"
        else:
            escaped = name.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r")
            line = {"method": f'merge "{escaped}" 1.0', "config": f'literal 1.0 model_config="{escaped}"', "space": f'literal 1.0 merge_space="{escaped}"'}[case["registry"]]
            use = lambda: deserialize(f"{VERSION}\n{line}")
    if via != "deserialize":
        use = uses[via]
        if isinstance(use, dict):
            use = use.get(case["registry"]) or uses["resolve"]
            via = via if uses[via].get(case["registry"]) else "resolve"
    if name in ids:
        if via == "resolve":
            with sut(f"resolving the {case['registry']} {name!r}"):
                found = use()
            check(found.identifier == name, f"{name!r} resolved to {found.identifier!r}")
        elif via in ("model", "literal") :
            with sut(f"using the {case['registry']} {name!r}"):
                node = use()
            got = node.model_config.identifier if case["registry"] == "config" else node.merge_space.identifier
            check(got == name, f"asked for {name!r}, got {got!r}")
        return f"{case['registry']} known"
    must_raise(f"using the unknown {case['registry']} {name!r} ({via})", use, ValueError)
    return f"{case['registry']} unknown"


# ------------------------------------------------------------------ formats and spaces registered by users
class Stored(dict):
    def metadata(self):
        from sd_mecha.streaming import TensorMetadata
        return ((k, TensorMetadata(v.shape, v.dtype)) for k, v in self.items())

    def close(self):
        pass


@st.composite
def registered(draw):
    return {"formats": draw(st.lists(st.sampled_from(["mine", "mine", "both", "never"]), min_size=1, max_size=3)), "again": draw(st.sampled_from(["format", "space", "config", "config aux", "not a class", "builtin space", "builtin format", "builtin config"])), "decorator": draw(st.booleans())}


def run_registered(case):
    tag = f"mv{os.getpid()}x{next(COUNT)}"
    suffix = f".{tag}"
    read = []

    def make(i, kind):
        class Format:
            def matches(self, path):
                return kind != "never" and path.suffix == suffix

            def get_read_dict(self, path, buffer_size):
                read.append(i)
                return Stored({"mvf.0": torch.full((1,), float(i + 1))})

            def get_write_dict(self, *args):
                raise NotImplementedError
        return Format

    with sut("registering model formats"):
        for i, kind in enumerate(case["formats"]):
            cls = make(i, kind)
            if case["decorator"]:
                model_formats.register_model_format(identifier=f"{tag}-{i}")(cls)
            else:
                cls.__name__ = f"{tag}-{i}"
                model_formats.register_model_format(cls)
            check(model_formats.resolve(f"{tag}-{i}").identifier == f"{tag}-{i}", "a registered format cannot be found under its identifier")
    matching = [i for i, k in enumerate(case["formats"]) if k != "never"]
    merge = lambda: sd_mecha.merge(sd_mecha.model(f"/nowhere/m{suffix}", "mvf-free"), threads=0, output_dtype=torch.float32)
    if len(matching) == 1:
        with sut("merging a model of a registered format"):
            out = merge()
        check(read == matching and out["mvf.0"].item() == matching[0] + 1, f"read {read}, merged {out}")
    else:
        must_raise(f"merging a model that {len(matching)} formats accept", merge)
        check(not read, f"read by {read}")
    again = case["again"]
    cfg = lambda: model_configs.ModelConfigImpl(identifier=f"mvf-{tag}", components={"all": {"k": {"shape": [1], "dtype": "float32"}}})
    if again in ("format", "builtin format"):
        must_raise("registering a format twice", lambda: model_formats.register_model_format(make(9, "never"), identifier=f"{tag}-0" if again == "format" else "single_file"), ValueError)
    elif again == "not a class":
        must_raise("registering an instance as a format", lambda: model_formats.register_model_format(make(9, "never")(), identifier=f"{tag}-n"), ValueError)
    elif again == "space":
        with sut("registering a merge space"):
            merge_spaces.register_merge_space(f"{tag}_space")
            check(merge_spaces.resolve(f"{tag}_space") == f"{tag}_space", "another space was found")
            check(sd_mecha.literal(1.0, None, f"{tag}_space").merge_space == f"{tag}_space", "another space was used")
        must_raise("registering a merge space twice", lambda: merge_spaces.register_merge_space(f"{tag}_space"), ValueError)
    elif again == "builtin space":
        must_raise("registering a builtin merge space again", lambda: merge_spaces.register_merge_space(["weight", "delta", "param"][len(case["formats"]) - 1]), ValueError)
    elif again == "builtin config":
        sd1 = lambda: model_configs.ModelConfigImpl(identifier="sd1-ldm", components={"all": {"k": {"shape": [1], "dtype": "float32"}}})
        for register in (model_configs.register, model_configs.register_aux):
            must_raise("registering a builtin config again", lambda: register(sd1()), ValueError)
    else:
        first, second = (model_configs.register, model_configs.register_aux) if again == "config" else (model_configs.register_aux, model_configs.register)
        one = cfg()
        try:
            with sut("registering a config"):
                first(one)
                check(model_configs.resolve(one.identifier) is one, "another config was found")
            for register in (first, second):
                must_raise("registering a config twice", lambda: register(cfg()), ValueError)
            check(model_configs.resolve(one.identifier) is one, "a rejected registration replaced the config")
        finally:
            for registry in ("_model_configs_registry_base", "_model_configs_registry_aux"):
                getattr(model_configs, registry, {}).pop(one.identifier, None)
    return f"{len(matching)} formats, {again}"


SUBS = [
    Sub("neutral", neutral(), run_neutral, 2400, rule="at least one line was inserted (class: how the text is passed)"),
    Sub("typed", typed(), run_typed, 5000, rule="the edit applies (class: kind of edit)"),
    Sub("noisy", noisy(), run_noisy, 5000, rule="the reference parser can tell whether the text is valid (class: its verdict)"),
    Sub("written", written(), run_written, 5000, rule="the reference parser can tell whether the text is valid (class: its verdict)"),
    Sub("files", files(), run_file, 800, rule="all (class: how the file is used)"),
    Sub("identifiers", identifiers(), run_identifier, 2400, rule="all (class: registry and outcome)"),
    Sub("registered", registered(), run_registered, 160, rule="all (class: number of matching formats, kind of repeated registration)"),
]
