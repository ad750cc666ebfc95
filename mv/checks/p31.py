import json
import os
import pathlib
import shutil
import threading
import torch
import sd_mecha
from collections.abc import Mapping
from hypothesis import strategies as st
from sd_mecha.extensions import model_formats
from sd_mecha.streaming import TensorMetadata
from ..core import Sub, sut, scratch, check, must_raise
from .. import recipes as R, st as stf

ASSUMPTIONS = ["a format gives a mapping that also has `metadata` and `close`, like the built-in one", "closing a model twice is harmless", "recipes are merged one at a time"]
EVENTS, LOCK = [], threading.Lock()
FAULT = {}


def event(*e):
    with LOCK:
        EVENTS.append(e)


class FormatFault(Exception):
    pass


class Reader(Mapping):
    """an input of a user-defined format; missing keys raise a plain KeyError"""

    def __init__(self, fmt, path, buffer_size):
        real = os.path.realpath(path)
        self.tensors, _ = stf.load(pathlib.Path(path) / "weights" if os.path.isdir(path) else pathlib.Path(path))
        event("open", fmt, real, buffer_size, id(self))
        if FAULT.get("open") == pathlib.Path(real).name:
            raise FormatFault("open")
        self.real = real
        self.closed = False

    def _use(self, what, key=None):
        event(what, self.real, key, self.closed)
        if key is not None and FAULT.get("read") == (os.path.basename(self.real), key):
            event("fault")
            raise FormatFault("read")

    def __getitem__(self, key):
        self._use("get", key)
        return self.tensors[key].clone()

    def __iter__(self):
        self._use("iter")
        return iter(self.tensors)

    def __len__(self):
        self._use("iter")
        return len(self.tensors)

    def keys(self):
        self._use("iter")
        return self.tensors.keys()

    def metadata(self):
        self._use("iter")
        for k, v in self.tensors.items():
            yield k, TensorMetadata(v.shape, v.dtype)

    def close(self):
        event("close", self.real)
        self.closed = True


class Base:
    suffixes = ()
    directory = False

    def matches(self, path):
        assert isinstance(path, pathlib.Path), path
        return path.suffix in self.suffixes and os.path.isdir(path) == self.directory

    def get_read_dict(self, path, buffer_size):
        return Reader(self.identifier, path, buffer_size)

    def get_write_dict(self, path, model_config, mecha_recipe, buffer_size):
        raise AssertionError("outputs are written as safetensors")


def register():
    if "mvfmt-a" in [f.identifier for f in model_formats.get_all()]:
        return
    for name, suffixes, directory in (("mvfmt-a", (".mva", ".mvboth"), False), ("mvfmt-b", (".mvb", ".mvboth"), False), ("mvfmt-d", (".mvd",), True), ("mvfmt-s", (".safetensors",), True)):
        model_formats.register_model_format(type("Format", (Base,), {"suffixes": suffixes, "directory": directory}), identifier=name)


KINDS = {".mva": "mvfmt-a", ".mvb": "mvfmt-b", ".mvd": "mvfmt-d", ".safetensors": None}


# names that are easily taken for one another
STEMS = {"numbers": [f"model{i}" for i in range(4)], "case": ["model", "Model", "MODEL", "modeL"], "accents": ["\u00e9", "e\u0301", "\u00c9", "E\u0301"], "spaces": ["m", "m ", " m", "m  "], "dots": ["m", "m.", ".m", "m.."], "digits": ["1", "01", "\u0661", "1_0"]}


def stem(case, i):
    return STEMS[case["names"]][i % 4] + (f"+{i}" if i >= 4 else "")


@st.composite
def cases(draw):
    prog = draw(R.programs(max_ops=6, stores=("file", "file", "mem"), fallback=True))
    kinds = [draw(st.sampled_from([".mva", ".mva", ".mvb", ".mvd", ".safetensors"])) for _ in prog["models"]]
    forms = [draw(st.sampled_from(["path", "string", "link", "relative", "dots"])) for _ in prog["instr"]]
    fault = draw(st.sampled_from([None, None, None, None, "none", "both", "directory", "gone", "open", "read"]))
    return {"prog": prog, "kinds": kinds, "forms": forms, "fault": fault, "victim": draw(st.integers(0, 9)), "victim_key": draw(st.integers(0, 9)), "threads": draw(st.sampled_from([0, 1, 2, 3])), "buffer": draw(st.sampled_from([0, 70, 2**20])),
            "names": draw(st.sampled_from(sorted(STEMS))), "out": draw(st.sampled_from(["mem", "given", "file"])), "again": draw(st.booleans())}


class Formatted(R.Built):
    def __init__(self, case, directory):
        self.case, self.dir, self.count = case, directory, 0
        self.made = {}
        super().__init__(case["prog"], directory)

    def source(self, i):
        """the file or directory that holds model i"""
        if i not in self.made:
            suffix = self.case["kinds"][i]
            path = self.dir / "models" / f"{stem(self.case, i)}{suffix}"
            path.parent.mkdir(exist_ok=True)
            if suffix == ".mvd":
                path.mkdir(exist_ok=True)
                shutil.copyfile(self.paths[i], path / "weights")
            elif suffix != ".safetensors" or not path.exists():
                shutil.copyfile(self.paths[i], path)
            self.made[i] = path
        return self.made[i]

    def build(self, ins):
        n, self.count = self.count, self.count + 1
        if ins[0] != "model" or ins[1] not in self.paths:
            return super().build(ins)
        path = self.source(ins[1])
        form = self.case["forms"][n]
        if form == "link":
            link = self.dir / "links" / f"link{n}{path.suffix}"
            link.parent.mkdir(exist_ok=True)
            if not link.is_symlink():
                link.symlink_to(path)
            src = link
        elif form == "relative":
            src = pathlib.Path(path.name)
        elif form == "dots":
            (self.dir / "links").mkdir(exist_ok=True)
            src = self.dir / "links" / ".." / "models" / path.name
        else:
            src = str(path) if form == "string" else path
        return sd_mecha.model(src, self.config, self.prog["models"][ins[1]]["space"])


def run(case):
    register()
    prog = case["prog"]
    reach = R.Reference(prog).reachable()
    used = sorted({prog["instr"][i][1] for i in reach if prog["instr"][i][0] == "model" and prog["models"][prog["instr"][i][1]]["store"] == "file"})
    del EVENTS[:]
    FAULT.clear()
    with scratch() as d:
        with sut("building a valid recipe"):
            b = Formatted(case, d)
        fault, expected_error = case["fault"], None
        root = b.root
        if fault is not None and used:
            i = used[case["victim"] % len(used)]
            path = b.made[i]
            if fault in ("none", "both", "directory"):
                extra = d / {"none": "extra.mvz", "both": "extra.mvboth", "directory": "extra.mva"}[fault]
                if fault == "directory":
                    extra.mkdir()
                else:
                    stf.save(extra, R.stored_tensors(prog, i))
                root = b.root | sd_mecha.model(extra, b.config, prog["space"])
                expected_error = RuntimeError
            elif fault == "gone":
                shutil.rmtree(path) if path.is_dir() else path.unlink()
                expected_error = Exception
            elif fault == "open" and case["kinds"][i] != ".safetensors":
                FAULT["open"] = path.name
                expected_error = FormatFault
            elif fault == "read" and case["kinds"][i] != ".safetensors":
                key = prog["models"][i]["keys"][case["victim_key"] % len(prog["models"][i]["keys"])]
                FAULT["read"] = path.name, prog["models"][i].get("alias", {}).get(key, key)
        given = {"already": torch.zeros(1)}
        out = {"mem": None, "given": given, "file": d / "out.safetensors"}[case["out"]]
        kw = dict(fallback_model=b.fallback, merge_dtype=torch.float64, output_dtype=torch.float64, threads=case["threads"], total_buffer_size=case["buffer"], strict_weight_space=False, model_dirs=[d / "nothing", d / "models"], output=out)
        if expected_error is not None:
            must_raise(f"merging with a faulty input ({fault})", lambda: sd_mecha.merge(root, **kw), expected_error)
            check(case["out"] != "file" or not out.exists(), "an output was created although an input cannot be opened")
            check(list(given) == ["already"], "keys were merged although an input cannot be opened")
            judge_events(b, used, None, case)
            return f"fault {fault}"
        for n in range(2 if case["again"] else 1):
            del EVENTS[:]
            raised = False
            with sut("merging models of several formats"):
                try:
                    res = sd_mecha.merge(root, **kw)
                except FormatFault:
                    raised = True
            check(raised == any(e[0] == "fault" for e in EVENTS), "an input raised an error while being read, but the merge succeeded")
            judge_events(b, used, used, case)
            if raised:
                return "fault read"
            if case["out"] == "file":
                res, _ = stf.load(out)
            elif case["out"] == "given":
                check(res is given, "the dictionary that was given as output is not returned")
                res = {k: v for k, v in given.items() if k != "already"}
            R.compare(res, R.Reference(prog).result(), f"merge {n}")
    kinds = {case["kinds"][i] for i in used}
    return len(kinds - {".safetensors"}) > 0 and ("several formats" if len(kinds) > 1 else "one format")


def judge_events(b, used, must_open, case):
    opens = [e for e in EVENTS if e[0] == "open"]
    names = [pathlib.Path(e[2]).name for e in opens]
    check(len(names) == len(set(names)), lambda: f"models were opened several times during one merge: {sorted(names)}")
    for _, fmt, real, buffer_size, _ in opens:
        suffix = pathlib.Path(real).suffix
        check(KINDS.get(suffix) == fmt, lambda: f"{real} was opened by the format {fmt}")
        check(isinstance(buffer_size, int) and 0 <= buffer_size <= case["buffer"], lambda: f"a format was given the buffer size {buffer_size}")
    if must_open is not None:
        custom = sorted(f"{stem(case, i)}{case['kinds'][i]}" for i in must_open if case["kinds"][i] != ".safetensors")
        check(sorted(names) == custom, lambda: f"opened {sorted(names)}, the recipe reads {custom}")
    failed = FAULT.get("open")
    closed = {os.path.basename(e[1]) for e in EVENTS if e[0] == "close"}
    check(closed == {n for n in names if n != failed}, lambda: f"opened {names}, closed {sorted(closed)}")
    late = [e for e in EVENTS if e[0] in ("get", "iter") and e[3]]
    check(not late, lambda: f"models were used after they were closed: {late[:3]}")


SUBS = [Sub("formats", cases(), run, quick=1200, rule="a model of a user-defined format is merged, or an input is faulty (class)")]
