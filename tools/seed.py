"""tools/seed.py ID [--tests]: spec in seeded/ID/spec.json? no: builds patch.diff from edits in /tmp/seed_ID.py and checks it in a scratch copy.
usage: seed.py ID PROPERTY  (reads /tmp/seed_ID/{edit.py,demo.sh|demo.py,meta.json})
edit.py defines EDITS = [(file, old, new), ...]"""
import json, os, shutil, subprocess, sys, tempfile
sid = sys.argv[1]
src = f"/tmp/seeds/{sid}"
ns = {}
exec(open(f"{src}/edit.py").read(), ns)
copy = tempfile.mkdtemp(prefix="seedcopy_", dir="/tmp")
subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
env = dict(os.environ, PYTHONPATH=copy, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
try:
    dst = f"/verif/seeded/{sid}"
    os.makedirs(dst, exist_ok=True)
    demo = ns["DEMO"]
    open(f"{dst}/demo.py", "w").write(demo)
    open(f"{dst}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(ns["META"], open(f"{dst}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", f"{dst}/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
    for f, old, new in ns["EDITS"]:
        p = f"{copy}/ormatex_py/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
    open(f"{dst}/patch.diff", "w").write(d)
    r1 = subprocess.run(["bash", f"{dst}/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=600", "tests/test_arnoldi.py", "tests/test_dd.py", "tests/test_phi.py",
                        "tests/test_regression_bateman.py", "tests/test_regression_lotka_volterra.py", "-rA"], cwd=copy, env=env, capture_output=True, text=True) if "--notests" not in sys.argv else None
    ok = r0.returncode == 0 and r1.returncode != 0
    missing = []
    if t:
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = stable.get("stable") or stable.get("passing") or stable.get("tests") or []
        passed = {l.split()[1].split("::")[-1] for l in t.stdout.splitlines() if l.startswith("PASSED")}
        missing = [n for n in names if str(n).replace(".", "::").split("::")[-1] not in passed]
    print(sid, "OK" if ok and not missing else "BAD", "demo", r0.returncode, r1.returncode, "missing tests:", missing)
    if not ok:
        print(r0.stdout[-800:], r0.stderr[-800:], "----", r1.stdout[-800:], r1.stderr[-800:])
    else:
        print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
finally:
    shutil.rmtree(copy)
