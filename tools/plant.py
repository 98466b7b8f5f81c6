"""Plant bugs: read a spec file (python, list SPECS of dicts id, property, file, edits=[(old, new)], needs, what, demo) and keep each
that survives: applies, passes the repository's tests, and whose demo passes without and fails with it.  Scratch copy in /tmp/plant."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SC = "/tmp/plant/repo"
PY = "/opt/venv/bin/python"
base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) and "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for s in spec["SPECS"]:
    if only and s["id"] not in only:
        continue
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    os.makedirs("/tmp/plant")
    sh("cp -a /repo /tmp/plant/repo")
    edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    ok = True
    for f, es in edits.items():
        p = os.path.join(SC, f)
        t = open(p).read()
        for old, new in es:
            if t.count(old) != 1:
                print(s["id"], "edit does not match once:", t.count(old), old[:80]); ok = False
            t = t.replace(old, new)
        open(p, "w").write(t)
    if not ok:
        continue
    diff = sh(f"git -C {SC} diff").stdout
    d = "/tmp/plant/d"
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write('"""Exit 0 when the behaviour is right, 1 when it is broken."""\nimport logging\nimport sys\nimport torch\nlogging.disable(logging.CRITICAL)\n' + s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    bad = sh(f"bash {d}/demo.sh", cwd=SC)
    good = sh(f"bash {d}/demo.sh", cwd="/repo")
    if good.returncode != 0 or bad.returncode == 0:
        print(s["id"], "demo: unchanged", good.returncode, "patched", bad.returncode, (good.stderr or good.stdout)[-600:]); continue
    print(s["id"], "demo with patch:", ((bad.stderr or bad.stdout).strip().splitlines() or ["-"])[-1][:150])
    t = sh(f"PYTHONPATH={SC} OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= {PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 tests", cwd=SC)
    failed = [l for l in t.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
    failed = [l for l in failed if "test_big_five" not in l]
    if failed:
        print(s["id"], "TESTS FAIL", failed[:4]); continue
    out = f"/verif/seeded/{s['id']}"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(s["id"], "kept;", t.stdout.strip().splitlines()[-1])
shutil.rmtree("/tmp/plant", ignore_errors=True)
