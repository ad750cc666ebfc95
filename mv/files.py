"""Generated safetensors files and access to the streaming reader/writer of the code under test."""
import math
import random
import torch
from hypothesis import strategies as st
from . import st as stf

DTYPES = list(stf.DT)
SHAPES = [[], [1], [2], [3], [5], [0], [2, 0, 3], [2, 2], [3, 1], [1, 4], [7, 3], [2, 3, 2], [1, 1, 1, 1], [3, 2, 3, 3], [33], [130], [17, 19], [64, 65], [300, 41]]
NAMES = ["a", "b.weight", "x.y.z", "läyer.ü", "with space", "q\"uote", "back\\slash", "tab\tkey", "日本", "a/b", "0", "", "alpha", "a.lora_up.weight", "k=v", "&1", "__metadata", "__metadata__.x", "__w__"]


@st.composite
def entries(draw, min_size=0, max_size=12, dtypes=DTYPES, shapes=SHAPES, names=NAMES):
    n = draw(st.integers(min_size, max_size))
    keys = [names[i] if i < len(names) else f"k{i}" for i in draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))]
    return [{"key": k, "dtype": draw(st.sampled_from(dtypes)), "shape": draw(st.sampled_from(shapes)), "seed": draw(st.integers(0, 9999))} for k in keys]


def data_of(e) -> bytes:
    n = math.prod(e["shape"]) * stf.SIZE[e["dtype"]]
    b = random.Random(e["seed"]).randbytes(n)
    if e["dtype"] == "BOOL":
        b = bytes(x & 1 for x in b)
    return b


def tensor_of(e) -> torch.Tensor:
    return stf.from_raw(data_of(e), stf.DT[e["dtype"]], e["shape"])


def open_reader(path, buffer_size):
    from sd_mecha.extensions import model_formats
    return model_formats.resolve("single_file").get_read_dict(path, buffer_size)


def open_writer(path, header, recipe, buffer_size):
    from sd_mecha.streaming import OutSafetensorsDict
    return OutSafetensorsDict(path, header, recipe, buffer_size)


def metadata(shape, dtype):
    from sd_mecha.streaming import TensorMetadata
    return TensorMetadata(torch.Size(shape) if shape is not None else None, dtype)


BUFFERS = [0, 1, 7, 8, 64, 100, 1000, 5000, 50000, 2**21]
