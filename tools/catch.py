#!/usr/bin/env python3
"""catch.py [ID...]: applies each seeded change to a copy of /repo, runs the
check of its property (with ALL=1 every quick check) in a mount namespace that
shows the copies as /repo and /verif, and prints what was reported. /repo and
/verif themselves stay as they are."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SCR", "/tmp/catch")
man = json.load(open(HERE + "/MANIFEST.json"))
cmd = {c["property"]: c["quick_cmd"] for c in man["checks"]}
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
os.makedirs(SCR + "/verif", exist_ok=True)
subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/seeded", "--exclude", "/out", "--exclude", "/harness/target", HERE + "/", SCR + "/verif/"]) \
    if shutil.which("rsync") else subprocess.check_call(
        "cd %s && tar cf - --exclude=./seeded --exclude=./out --exclude=./harness/target . | (cd %s/verif && tar xf -)" % (HERE, SCR), shell=True)
if not os.path.exists(SCR + "/repo"):
    subprocess.check_call(["cp", "-a", "/repo", SCR + "/repo"])
git = ["git", "-C", SCR + "/repo"]
subprocess.check_call(git + ["fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(git + ["reset", "-q", "--hard", "FETCH_HEAD"])
for i in ids:
    d = HERE + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    props = sorted(cmd) if os.environ.get("ALL") else [prop]
    subprocess.check_call(git + ["apply", d + "/patch.diff"])
    try:
        for p in props:
            t = time.time()
            c = cmd[p] if isinstance(cmd[p], str) else " ".join(cmd[p])
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s" % (SCR, SCR, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            if p == prop or r.returncode:
                print("%-28s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "??", r.returncode, time.time() - t, (v or [r.stdout.strip()[-300:] if r.returncode else ""])[0][:200]), flush=True)
    finally:
        subprocess.check_call(git + ["checkout", "-q", "--", "."])
