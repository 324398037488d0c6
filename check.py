#!/usr/bin/env python3
"""check.py PROPERTY | selfcheck | setup

Decides one property with the TLA+ specification in spec/:
 1. builds the harness against /repo's working tree (hooks on) and the TLC
    overrides,
 2. model checks the design-level modules of the property exhaustively,
 3. lets TLC generate behaviours where the property is about programs or
    histories, replays them on the real code, records what the code does, and
 4. validates every recording against the trace specification with TLC.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
exit 2: the machinery failed.
"""
import concurrent.futures as cf
import collections, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

SPEC = os.path.join(HERE, "spec")
CLASSES = os.path.join(HERE, "java", "classes")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CONF = os.path.join(HERE, "harness", "target", "%s", "conf")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, ""


def build(profiles=("release",)):
    for p in sorted(profiles):
        rc, out = run(["cargo", "build", "--profile", p, "--offline", "-q"], 800, cwd=os.path.join(HERE, "harness"))
        if rc != 0:
            raise ToolError("harness build failed\n" + out[-3000:])
    src = [os.path.join(HERE, "java", f) for f in sorted(os.listdir(os.path.join(HERE, "java"))) if f.endswith(".java")]
    newest = max(os.path.getmtime(f) for f in src)
    stamp = os.path.join(CLASSES, "Stats.class")
    if not os.path.exists(stamp) or os.path.getmtime(stamp) < newest:
        os.makedirs(CLASSES, exist_ok=True)
        rc, out = run(["javac", "-nowarn", "-d", CLASSES, "-cp", TLA.split(":")[0]] + src, 120)
        if rc != 0:
            raise ToolError("javac failed\n" + out[-2000:])


def tlc(work, name, module, cfg, extra=(), env=None, timeout=600, workers="1", heap="2g", overrides=True):
    """returns (exit code, output)"""
    meta = os.path.join(work, "meta-" + name)
    tmp = os.path.join(work, "tmp-" + name)
    os.makedirs(tmp, exist_ok=True)
    cp = TLA + (":" + CLASSES if overrides else "")
    # the queue of states stays in memory: TLC at times loses the files it moves it to
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss128m", "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1048576",
           "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", cp, "tlc2.TLC", "-workers", workers, "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    rc, out = run(cmd, timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc is None:
        raise ToolError("TLC timed out on " + name)
    return rc, out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"(\d+) states generated", out)
    return (int(m[-1]), 0) if m else (0, 0)


def brief(out):
    keep = [ln[:400] for ln in out.splitlines() if not ln.startswith("Loading ") and not ln.startswith("Parsing ")
            and not ln.startswith("Semantic")]
    return "\n".join(keep[-60:])


class Check:
    def __init__(self, pid):
        self.pid, self.p = pid, PROPS[pid]
        self.work = os.path.join(HERE, "out", "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, cases=0,
                        design=[], generated=[], samples=[], operations={})

    # -- design level ------------------------------------------------------
    def design(self, d):
        cfg = d.get("thorough", d["cfg"]) if THOROUGH else d["cfg"]
        extra = list(d.get("extra", []))
        rc, out = tlc(self.work, "d-" + d["module"] + "-" + os.path.basename(cfg), d["module"], cfg, extra=extra,
                      timeout=d.get("timeout", 3000 if THOROUGH else 600),
                      workers=str(d.get("workers", 2)), heap=d.get("heap", "3g"))
        gen, dist = counts(out)
        if rc != 0:
            # the design model does not depend on the code: its failure is ours
            raise ToolError("design model %s/%s: TLC exit %s\n%s" % (d["module"], cfg, rc, brief(out)))
        return dict(kind="design", module=d["module"], cfg=cfg, generated=gen, distinct=dist)

    # -- behaviours generated by the specification ---------------------------
    def generate(self, g, path):
        num = g["num"][1 if THOROUGH else 0]
        extra = []
        if g.get("mode", "simulate") == "simulate":
            extra = ["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(SEED * 7919 + 13)]
        cfg = g.get("thorough", g["cfg"]) if THOROUGH else g["cfg"]
        rc, out = tlc(self.work, "g-" + g["module"] + "-" + os.path.basename(cfg), g["module"], cfg, extra=extra,
                      timeout=g.get("timeout", 300))
        # one behaviour is printed as << "PROG", "op arg arg", "op arg", ... >>
        progs, seen = [], set()
        text = re.sub(r"\n\s+", " ", out)
        for m in re.finditer(r'<<\s*"PROG",\s*(.*?)>>', text):
            ops = re.findall(r'"([^"]*)"', m.group(1))
            line = " ; ".join(ops)
            if line not in seen:
                seen.add(line)
                progs.append(line)
        if rc != 0 or not progs:
            raise ToolError("behaviour generation %s failed: exit %s, %d behaviours\n%s" % (g["module"], rc, len(progs), brief(out)))
        # behaviours that are prefixes of another one add nothing
        progs.sort()
        progs = [a for a, b in zip(progs, progs[1:] + [""]) if not b.startswith(a + " ;")]
        if g.get("mode", "simulate") == "simulate" and len(progs) > num:
            step = len(progs) / num
            progs = [progs[int(i * step)] for i in range(num)]
        with open(path, "w") as f:
            f.write("\n".join(progs) + "\n")
        gen, dist = counts(out)
        return dict(module=g["module"], behaviours=len(progs), states=gen)

    # -- one recorded suite ------------------------------------------------
    def suite(self, s, pool):
        name = s["name"] if "name" in s else s["suite"]
        prog = "-"
        if "gen" in s:
            prog = os.path.join(self.work, name + ".prog")
            self.cov["generated"].append(self.generate(s["gen"], prog))
        jobs = self.record(s, name, prog, s.get("profile", "release"), SEED, s.get("shards", 4), {}, pool)
        if "profile" not in s:
            # a part of it once more as shipped, without debug and overflow assertions
            jobs += self.record(s, name + "-plain", prog, "plain", SEED + 5000, s.get("plain", 4), {"CONF_PART": "3"}, pool)
        return jobs

    def record(self, s, name, prog, profile, seed, shards, env, pool):
        d = os.path.join(self.work, name)
        limit = 2400 if THOROUGH else 400
        conf = CONF % profile
        args = [str(shards), str(seed), TIER, prog] + [str(a) for a in s.get("args", [])]
        rc, out = run([conf, s["suite"], d] + args, limit, env=env)
        if rc is None:
            raise Violation("the code did not return within %d s in suite %s" % (limit, name), dict(suite=name))
        if rc == 3:
            raise ToolError("harness: " + out[-500:])
        if rc != 0:
            rc2, out2 = run([conf, s["suite"], d + "-again"] + args, limit, env=dict(env, CONF_PANICS="1"))
            raise Violation("the code under test ended the process in suite %s (exit %s)" % (name, rc),
                            dict(suite=name, output=(out + "\n" + (out2 or ""))[-4000:]))
        n = json.loads(out.strip().splitlines()[-1])
        self.cov["traces_validated_against_impl"] += n["units"]
        self.cov["events"] += n["events"]
        self.cov["cases"] += n["cases"]
        jobs = []
        for i in range(shards):
            f = os.path.join(d, "t%d.ndjson" % i)
            if os.path.getsize(f) > 0:
                jobs.append(pool.submit(self.validate, s, name, f))
        return jobs

    def validate(self, s, name, f):
        with open(f) as h:
            lines = h.readlines()
        ops = collections.Counter(re.match(r'\{"op":"([^"]*)"', ln).group(1) for ln in lines)
        module = s["trace"]
        rc, out = tlc(self.work, "t-%s-%s" % (name, os.path.basename(f)), module, s.get("cfg", "Trace.cfg"),
                      env={"TRACE": f}, timeout=3000 if THOROUGH else 600, heap=s.get("heap", "3g"))
        gen, dist = counts(out)
        if rc == 0:
            if dist != len(lines) + 1:
                raise ToolError("%s: %d events but %d states\n%s" % (f, len(lines), dist, brief(out)))
            return dict(kind="trace", suite=name, generated=gen, distinct=dist, first=lines[0], ops=ops)
        if "java.lang.OutOfMemoryError" in out or "GC overhead" in out:
            raise ToolError("TLC ran out of memory on " + f)
        # the position of the event nothing explains
        m = re.findall(r"^\s*(?:/\\ )?l = (\d+)", out, re.M)
        if m:
            pos = int(m[-1])
        else:
            pos = dist if dist else 1
        if rc == 11 or "Deadlock reached" in out or (m and rc not in (0, 1)):
            ev = lines[pos - 1] if pos <= len(lines) else ""
            raise Violation("suite %s: the specification %s does not allow event %d" % (name, module, pos),
                            dict(suite=name, module=module, position=pos, event=ev[:20000], trace=f, tlc=brief(out)))
        raise ToolError("TLC exit %s on %s\n%s" % (rc, f, brief(out)))

    # -- all -----------------------------------------------------------------
    def go(self):
        t0 = time.time()
        build({"release", "plain"} if self.p.get("suites") else {"release"})
        self.cov["build_s"] = round(time.time() - t0, 1)
        violation = None
        with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(4) as front:
            jobs = [pool.submit(self.design, d) for d in self.p.get("design", [])
                    if THOROUGH or not d.get("thorough_only")]
            suites = [front.submit(self.suite, s, pool) for s in self.p.get("suites", [])]
            errors = []
            for s in suites:
                try:
                    jobs += s.result()
                except Violation as v:
                    violation = violation or v
                except ToolError as e:
                    errors.append(e)
            for j in jobs:
                try:
                    r = j.result()
                except Violation as v:
                    violation = violation or v
                    continue
                except ToolError as e:
                    errors.append(e)
                    continue
                self.cov["states"] += r["distinct"]
                self.cov["transitions"] += r["generated"]
                if r["kind"] == "design":
                    self.cov["design"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct")})
                    continue
                for o, k in r["ops"].items():
                    self.cov["operations"][o] = self.cov["operations"].get(o, 0) + k
                if len(self.cov["samples"]) < 4 and len(r["first"]) < 3000:
                    self.cov["samples"].append(dict(suite=r["suite"], event=json.loads(r["first"])))
        if violation is None and errors:
            raise errors[0]
        return violation

    def save(self, v):
        d = os.path.join(HERE, "out", "replay", self.pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        det = dict(v.detail)
        if "trace" in det and os.path.exists(det["trace"]):
            keep = os.path.join(d, "trace.ndjson")
            with open(det["trace"]) as i, open(keep, "w") as o:
                for k, ln in enumerate(i):
                    if k >= det.get("position", 1 << 60):
                        break
                    o.write(ln)
            det["trace"] = keep
            det["how"] = "cd spec && TRACE=%s tlc -config Trace.cfg %s.tla" % (keep, det["module"])
        path = os.path.join(d, "violation.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, seed=SEED, tier=TIER, what=v.what, **det), f, indent=1)
        return path


def evidence(c, t0, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not c.cov["samples"]:
        c.cov["samples"] = [dict(note="events of this property are too large to quote; see out/ while the check runs")] \
            if not c.cov["design"] else [c.cov["design"][0]]
    with open(os.path.join(HERE, "evidence", c.pid + ".json"), "w") as f:
        json.dump(dict(property=c.pid, tier=TIER, seed=SEED, level="model_checking", coverage=c.cov,
                       assumptions=c.p.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                       violations=violations), f, indent=1)


def known(pid):
    """KNOWN-FINDING lines of findings recorded, not repaired (there are none at present)"""
    path = os.path.join(HERE, "known-findings.txt")
    for ln in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) (.*)", ln)
        if m and m.group(1) == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2).strip()))


def selfcheck():
    """the arithmetic of the specification agrees with its TLC overrides"""
    build()
    work = os.path.join(HERE, "out", "work", "self-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    res = []
    for ov in (False, True):
        rc, out = tlc(work, "self%d" % ov, "BigSelf", "BigSelf.cfg", overrides=ov, timeout=900)
        if rc != 0:
            raise ToolError("BigSelf: exit %s\n%s" % (rc, brief(out)))
        res.append(re.sub(r"\s+", " ", out[out.index('"OUT"'):out.rindex("Finished computing")]))
    shutil.rmtree(work, ignore_errors=True)
    if res[0] != res[1]:
        raise ToolError("TLC overrides disagree with their TLA+ definitions")
    print("selfcheck: overrides agree with their definitions on %d characters of results" % len(res[0]))


def main():
    t0 = time.time()
    try:
        if sys.argv[1] == "setup":
            build(("release", "plain"))
            selfcheck()
            return 0
        if sys.argv[1] == "selfcheck":
            selfcheck()
            return 0
        c = Check(sys.argv[1])
    except ToolError as e:
        print("ERROR", e)
        return 2
    try:
        v = c.go()
        if v is None:
            known(c.pid)
            evidence(c, t0, 0)
            print("%s holds: %d states, %d behaviours (%d events, %d cases) validated, %.1f s" % (
                c.pid, c.cov["states"], c.cov["traces_validated_against_impl"], c.cov["events"], c.cov["cases"], time.time() - t0))
            return 0
        path = c.save(v)
        evidence(c, t0, 1)
        print("violated:", v.what)
        print("VIOLATION property=%s replay=%s" % (c.pid, path))
        return 1
    except ToolError as e:
        print("ERROR", e)
        return 2
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
