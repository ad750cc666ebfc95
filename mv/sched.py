"""Schedule perturbation: at traced lines of the code under test, a thread may be paused so that others overtake it.

The pauses are drawn from a generator seeded by the case (one stream per thread, in order of thread creation); the
operating system still has the last word on the interleaving, so a schedule is biased rather than imposed."""
import contextlib
import random
import sys
import threading
import time
from . import env

FILES = ("streaming.py", "merging.py")


@contextlib.contextmanager
def noise(seed, probability, pause=0.0008, files=FILES, budget=120):
    """budget: maximum number of pauses per thread"""
    if not probability:
        yield
        return
    wanted = tuple(f"{env.REPO}/sd_mecha/{f}" for f in files)
    local = threading.local()
    lock = threading.Lock()
    count = [0]

    def rng():
        r = getattr(local, "rng", None)
        if r is None:
            with lock:
                count[0] += 1
                r = local.rng = random.Random(seed * 1000 + count[0])
            local.left = budget
        return r

    def trace_line(frame, event, arg):
        if event == "line":
            r = rng()
            if local.left > 0 and r.random() < probability:
                local.left -= 1
                time.sleep(pause * r.random())
        return trace_line

    def trace_call(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.endswith(wanted):
            return trace_line
        return None

    old_interval = sys.getswitchinterval()
    old = sys.gettrace()
    sys.setswitchinterval(5e-6)
    threading.settrace(trace_call)
    sys.settrace(trace_call)
    try:
        yield
    finally:
        sys.settrace(old)
        threading.settrace(None)
        sys.setswitchinterval(old_interval)
