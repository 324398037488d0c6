#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from a description (see
tools/bugs/*.py), after confirming in a scratch copy that the change builds,
passes the stable tests, and is shown by its demonstration, which passes on
the unchanged tree."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE.get("stable") or BASE.get("passed") or BASE["tests"])
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout
def tests(repo):
    rc, out = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", repo, env=dict(CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0"))
    ok = set(re.findall(r"^test (\S+) \.\.\. ok", out, re.M))
    bad = set(re.findall(r"^test (\S+) \.\.\. FAILED", out, re.M))
    if "could not compile" in out or not ok:
        return None, out[-2500:]
    missing = {s for s in STABLE if s.split("::", 1)[1] not in ok}
    return missing, out
def plant(f):
    ns = {}
    exec(open(f).read(), ns)
    bid = os.path.basename(f)[:-3]
    repo = SCR + "/repo"
    if not os.path.exists(repo):
        os.makedirs(SCR, exist_ok=True)
        sh("cp -a /repo " + repo, "/")
    sh("git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD; git clean -qfd", repo)
    for (name, old, new) in ns["CHANGES"]:
        p = os.path.join(repo, name); s = open(p).read()
        if s.count(old) != ns.get("COUNT", 1):
            return "%s: %d occurrences of %r" % (bid, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", repo)
    d = os.path.join(SCR, "seed", bid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(ns["DEMO"])
    shutil.copy(os.path.join(HERE, "tools", "demo.sh"), d + "/demo.sh")
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    missing, out = tests(repo)
    if missing is None:
        return bid + ": does not build\n" + out
    if missing:
        return bid + ": tests fail: %s" % sorted(missing)
    rc, out = sh("bash %s/demo.sh" % d, repo, 400)
    if rc in (0, 3):
        return bid + ": demo exit %d with the change\n%s" % (rc, out[-1500:])
    sh("git stash -q", repo)
    rc0, out0 = sh("bash %s/demo.sh" % d, repo, 400)
    sh("git stash drop -q", repo)
    if rc0 != 0:
        return bid + ": demo exit %d without the change\n%s" % (rc0, out0[-1500:])
    dst = os.path.join(HERE, "seeded", bid); shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return bid + ": planted (demo exit %d: %s)" % (rc, out.strip().splitlines()[-1][:150] if out.strip() else "")
for f in sys.argv[1:]:
    try:
        print(plant(f), flush=True)
    except Exception as e:
        print(f, "error", e, flush=True)
