"""Process environment of a shard: import paths and determinism. Import before anything else."""
import os
import sys

REPO = os.environ.get("MV_REPO", "/repo")
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

CHILD_ENV = {
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1",
    "TQDM_DISABLE": "1", "PYTHONWARNINGS": "ignore",
    # text files are in the encoding of the locale unless the code says otherwise: P07 switches the locale
    "PYTHONUTF8": "0", "LC_ALL": "C.UTF-8",
}


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)  # last: the project's own packages take precedence
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.INFO)
    import torch
    torch.set_num_threads(1)
