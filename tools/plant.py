"""Plants a bug: python3 tools/plant.py SPEC.py, where SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)...], DEMO (python source).
Works on a scratch copy of /repo: checks that only original lines change, runs the tests and the demo both ways, then writes seeded/<ID>/."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
ns = {}
exec(pathlib.Path(sys.argv[1]).read_text(), ns)
tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant_"))
try:
    repo = tmp / "repo"
    shutil.copytree("/repo", repo, symlinks=True)
    for f, old, new in ns["EDITS"]:
        p = repo / f
        t = p.read_text()
        assert t.count(old) == 1, (f, t.count(old), old)
        p.write_text(t.replace(old, new))
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        first = t[:t.index(old)].count("\n")
        o, n = old.split("\n"), set(new.split("\n"))
        for i, line in enumerate(o):
            if line not in n and blame[first + i].split()[0].lstrip("^")[:6] != BASE[:6]:
                print("NOT ORIGINAL:", blame[first + i])
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    out = tmp / "demo"
    out.mkdir()
    (out / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text('#!/bin/bash\n# run with cwd /repo\nexport TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(out / "demo.sh", 0o755)
    rcs = [subprocess.run([out / "demo.sh"], cwd=c, capture_output=True, text=True, timeout=290) for c in ("/repo", repo)]
    print("demo on the tree:", rcs[0].returncode, rcs[0].stdout[-500:], rcs[0].stderr[-1500:])
    print("demo with the patch:", rcs[1].returncode, rcs[1].stdout[-300:], rcs[1].stderr[-400:])
    t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=repo, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": str(repo), "OMP_NUM_THREADS": "4"})
    print("tests:", t.stdout[-200:].strip().splitlines()[-1:])
    if rcs[0].returncode == 0 and rcs[1].returncode != 0 and t.returncode == 0:
        dst = pathlib.Path("/verif/seeded") / ns["ID"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        (dst / "patch.diff").write_text(diff)
        (dst / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
        print("kept", dst)
    else:
        print("NOT KEPT")
        sys.exit(1)
finally:
    shutil.rmtree(tmp)
