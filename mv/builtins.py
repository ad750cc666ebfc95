"""Generated calls of the built-in merge methods."""
import torch
from hypothesis import strategies as st
from sd_mecha.extensions import merge_methods

W = [0.0, 0.25, 0.5, 0.9, 1.0]
ALPHA = ("tensorish", W)
# method: (minimum and maximum number of tensors, merge space, {hyperparameter: values})
TABLE = {
    "weighted_sum": (2, 2, "weight", {"alpha": ALPHA}),
    "n_average": (1, 4, "weight", {}),
    "slerp": (2, 2, "weight", {"alpha": ALPHA}),
    "add_difference": (2, 2, "mixed", {"alpha": ALPHA}),
    "subtract": (2, 2, "weight", {}),
    "perpendicular_component": (2, 2, "delta", {}),
    "geometric_sum": (2, 2, "weight", {"alpha": ALPHA}),
    "add_cosine_a": (2, 2, "weight", {"alpha": ALPHA}),
    "add_cosine_b": (2, 2, "weight", {"alpha": ALPHA}),
    "tensor_sum": (2, 2, "weight", {"width": W + [-0.4, 1.5], "offset": W + [-0.7, 1.3]}),
    "top_k_tensor_sum": (2, 2, "weight", {"width": W, "offset": W}),
    "train_difference_mask": (3, 3, "weight", {"alpha": ALPHA}),
    "add_opposite_mask": (3, 3, "weight", {"alpha": ALPHA}),
    "add_strict_opposite_mask": (3, 3, "weight", {"alpha": ALPHA}),
    "select_max_delta": (2, 2, "delta", {"alpha": ALPHA}),
    "select_max_white_delta": (2, 2, "delta", {"alpha": ALPHA}),
    "multiply_quotient": (3, 3, "weight", {"alpha": ALPHA}),
    "crossover": (2, 2, "weight", {"alpha": W, "tilt": W + [1.5, 2.0, 3.0]}),
    "rotate": (2, 2, "weight", {"alignment": [0.0, 0.5, 1.0, 2.0], "alpha": ALPHA}),
    "clamp": (2, 4, "weight", {"stiffness": [0.0, 0.5, 1.0]}),
    "copy_distribution": (1, 1, "weight", {}),
    "ties_sum": (1, 4, "delta", {"k": W, "vote_sgn": [True, False]}),
    "ties_sum_extended": (2, 4, "delta", {"k": W, "vote_sgn": [True, False], "apply_stock": [True, False], "apply_median": [True, False]}),
    "dropout": (1, 3, "delta", {"probability": W, "rescale": [0.0, 1.0], "overlap": [0.0, 0.5, 1.0, 2.0], "overlap_emphasis": [0.0, 0.5], "seed": [0, 7, 12345]}),
    "ties_sum_with_dropout": (2, 3, "delta", {"probability": W, "no_rescale": [True, False], "k": W, "apply_stock": [True, False], "apply_median": [True, False], "seed": [0, 7, 12345]}),
    "model_stock": (2, 4, "delta", {}),
    "geometric_median": (1, 4, "weight", {"maxiter": [0, 3, 100]}),
    "truncate_rank": (1, 1, "delta", {"rank_ratio": W}),
    "fallback": (2, 2, "weight", {}),
    "cast": (1, 1, "weight", {"dtype": ["float32", "float16", "float64"], "device": ["cpu"]}),
}
SHAPES = [[], [1], [4], [3, 4], [4, 3], [2, 3, 2], [3, 2, 1, 1], [2, 3, 3, 3], [1, 5], [2, 30]]


@st.composite
def calls(draw, methods=None, shapes=SHAPES):
    name = draw(st.sampled_from(methods or sorted(TABLE)))
    lo, hi, space, hyper = TABLE[name]
    params = {}
    for k, values in hyper.items():
        if k == "seed" or draw(st.booleans()):
            if values and values[0] == "tensorish":
                kind = draw(st.sampled_from(["number", "number", "tensor", "dict", "dict_tensor"]))
                params[k] = {"kind": kind, "value": draw(st.sampled_from(values[1]))}
            else:
                params[k] = {"kind": "number", "value": draw(st.sampled_from(values))}
    return {"method": name, "n": draw(st.integers(lo, hi)), "params": params}


def spaces(call):
    space = TABLE[call["method"]][2]
    if space == "mixed":
        return ["weight", "delta"]
    return [space] * call["n"]


def resolve(name):
    return merge_methods.resolve(name)


def hyper(call, keys):
    """-> (arguments for the recipe, list of the literal containers they are made of)"""
    res, owned = {}, []
    for k, p in call["params"].items():
        v = p["value"]
        if p["kind"] == "tensor":
            v = torch.tensor(v, dtype=torch.float64)
            owned.append(v)
        elif p["kind"] == "dict":
            v = {key: v for key in keys}
            owned.append(v)
        elif p["kind"] == "dict_tensor":
            v = {key: torch.tensor(v, dtype=torch.float32) for key in keys}
            owned.append(v)
        res[k] = v
    return res, owned
