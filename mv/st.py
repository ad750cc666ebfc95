"""Independent safetensors encoder/decoder (spec: huggingface/safetensors README). Not derived from the code under test."""
import json
import math
import struct
import torch

DT = {
    "F64": torch.float64, "F32": torch.float32, "F16": torch.float16, "BF16": torch.bfloat16,
    "I64": torch.int64, "I32": torch.int32, "I16": torch.int16, "I8": torch.int8,
    "U64": torch.uint64, "U32": torch.uint32, "U16": torch.uint16, "U8": torch.uint8,
    "F8_E4M3": torch.float8_e4m3fn, "F8_E5M2": torch.float8_e5m2, "BOOL": torch.bool,
}
SIZE = {"F64": 8, "I64": 8, "U64": 8, "F32": 4, "I32": 4, "U32": 4, "F16": 2, "BF16": 2, "I16": 2, "U16": 2,
        "I8": 1, "U8": 1, "F8_E4M3": 1, "F8_E5M2": 1, "BOOL": 1}
NAME = {v: k for k, v in DT.items()}


def raw(t: torch.Tensor) -> bytes:
    """bytes of a tensor in row-major order (little endian host)"""
    t = t.detach().to("cpu")
    if t.numel() == 0:
        return b""
    dense = torch.empty(t.numel(), dtype=t.dtype)
    dense.copy_(t.reshape(-1))  # .contiguous() keeps odd strides on dimensions of size 1
    return dense.view(torch.uint8).numpy().tobytes()


def from_raw(b: bytes, dtype: torch.dtype, shape) -> torch.Tensor:
    if math.prod(shape) == 0:
        return torch.empty(tuple(shape), dtype=dtype)
    return torch.frombuffer(bytearray(b), dtype=torch.uint8).clone().view(dtype).reshape(tuple(shape))


def encode(entries, metadata=None, header_order=None, pad=0, metadata_last=False) -> bytes:
    """entries: list of (key, dtype name, shape, bytes) in data order."""
    header, offset, data = {}, 0, b""
    infos = {}
    for k, dt, shape, b in entries:
        assert len(b) == math.prod(shape) * SIZE[dt], (k, dt, shape, len(b))
        infos[k] = {"dtype": dt, "shape": list(shape), "data_offsets": [offset, offset + len(b)]}
        offset += len(b)
        data += b
    if metadata is not None and not metadata_last:
        header["__metadata__"] = metadata
    for k in (header_order or list(infos)):
        header[k] = infos[k]
    if metadata is not None and metadata_last:
        header["__metadata__"] = metadata
    h = json.dumps(header, separators=(",", ":")).encode() + b" " * pad
    return struct.pack("<Q", len(h)) + h + data


def save(path, tensors, metadata=None):
    path.write_bytes(encode([(k, NAME[t.dtype], tuple(t.shape), raw(t)) for k, t in tensors.items()], metadata))


class Malformed(Exception):
    pass


def decode(b: bytes):
    """-> (tensors {key: (dtype name, shape, bytes)}, metadata). Raises Malformed when the file is not valid."""
    if len(b) < 8:
        raise Malformed("file shorter than 8 bytes")
    n = struct.unpack("<Q", b[:8])[0]
    if 8 + n > len(b):
        raise Malformed(f"header of {n} bytes in a file of {len(b)} bytes")
    try:
        header = json.loads(b[8:8 + n].decode("utf-8"), object_pairs_hook=_no_dup)
    except ValueError as e:
        raise Malformed(f"bad header: {e}")
    if b[8:9] != b"{":
        raise Malformed("header does not start with '{'")
    meta = header.pop("__metadata__", {})
    if not all(isinstance(k, str) and isinstance(v, str) for k, v in meta.items()):
        raise Malformed("metadata is not a map of strings")
    data = b[8 + n:]
    out, spans = {}, []
    for k, v in header.items():
        start, end = v["data_offsets"]
        size = math.prod(v["shape"]) * SIZE[v["dtype"]]
        if end - start != size:
            raise Malformed(f"{k}: {end - start} bytes for {v['shape']} {v['dtype']}")
        if not 0 <= start <= end <= len(data):
            raise Malformed(f"{k}: offsets {start}..{end} outside of {len(data)} data bytes")
        out[k] = (v["dtype"], tuple(v["shape"]), data[start:end])
        spans.append((start, end, k))
    spans.sort()
    pos = 0
    for start, end, k in spans:
        if start != pos:
            raise Malformed(f"{k}: hole or overlap at {pos}..{start}")
        pos = end
    if pos != len(data):
        raise Malformed(f"{len(data) - pos} trailing bytes")
    return out, meta


def _no_dup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate keys")
    return d


def load(path):
    """-> ({key: tensor}, metadata), strict"""
    out, meta = decode(path.read_bytes())
    return {k: from_raw(b, DT[dt], shape) for k, (dt, shape, b) in out.items()}, meta


def same_tensor(x, y) -> bool:
    return isinstance(x, torch.Tensor) and x.dtype == y.dtype and tuple(x.shape) == tuple(y.shape) and raw(x) == raw(y)
