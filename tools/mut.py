"""tools/mut.py PID file old new [file old new ...]: run a check against an edited private copy of /repo"""
import os, sys, subprocess, time
if "VF_ISO" not in os.environ:
    sys.exit(subprocess.run(["/verif/tools/iso.sh", sys.executable] + sys.argv, env=dict(os.environ, VF_ISO="1")).returncode)
pid, rest = sys.argv[1], sys.argv[2:]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip()
try:
    for i in range(0, len(rest), 3):
        p = "/repo/ormatex_py/" + rest[i]
        s = open(p).read()
        assert s.count(rest[i + 1]) >= 1, rest[i + 1]
        open(p, "w").write(s.replace(rest[i + 1], rest[i + 2], 1))
    t = time.time()
    r = subprocess.run(["bash", "/verif/run.sh", pid, "quick"], capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "INCONC", pid, "[", "KNOWN"))]
    print(f"rc={r.returncode} {time.time()-t:.0f}s", *[o[:230] for o in out[:5]], *[o[:230] for o in out[-1:]], sep="\n  ")
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
