"""Sensitivity helper: mut.py <checks,comma separated> <file relative to sd_mecha> <old> <new>  -- runs the checks on a mutated scratch copy."""
import os, shutil, subprocess, sys, tempfile, pathlib
checks, path, old, new = sys.argv[1:5]
d = pathlib.Path(tempfile.mkdtemp(prefix="mvmut-", dir="/tmp"))
try:
    shutil.copytree("/repo/sd_mecha", d / "sd_mecha", ignore=shutil.ignore_patterns("__pycache__"))
    f = d / "sd_mecha" / path
    s = f.read_text()
    assert s.count(old) >= 1, (path, old)
    f.write_text(s.replace(old, new, 1))
    for c in checks.split(","):
        p = subprocess.run([str(pathlib.Path(__file__).resolve().parent.parent / "check"), c], env=dict(os.environ, MV_REPO=str(d)), capture_output=True, text=True)
        tail = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "OK", "HARNESS", "---"))]
        print(f"rc={p.returncode} {c} [{old[:40]!r}->{new[:40]!r}]", " | ".join(t[:160] for t in tail[:2]))
finally:
    shutil.rmtree(d, ignore_errors=True)
