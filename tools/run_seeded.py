"""Runs the checks against the planted bugs, on scratch copies: python3 tools/run_seeded.py [ID...] [--checks P01,P02] [--jobs N]"""
import argparse, json, os, pathlib, shutil, subprocess, tempfile
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--checks")
a = ap.parse_args()
root = pathlib.Path(__file__).resolve().parent.parent
for d in sorted((root / "seeded").iterdir()):
    if a.ids and d.name not in a.ids:
        continue
    prop = json.loads((d / "meta.json").read_text())["property"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seeded_"))
    try:
        shutil.copytree("/repo", tmp / "repo", symlinks=True)
        subprocess.run(["git", "-C", tmp / "repo", "apply", d / "patch.diff"], check=True)
        for c in (a.checks.split(",") if a.checks else [prop]):
            r = subprocess.run(["./check", c, "quick"], cwd=root, capture_output=True, text=True, env={**os.environ, "MV_REPO": str(tmp / "repo")})
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(d.name, c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", flush=True)
            for l in r.stdout.splitlines()[-6:]:
                print("    ", l[:260])
    finally:
        shutil.rmtree(tmp)
