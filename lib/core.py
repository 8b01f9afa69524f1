"""Shared parts of the checks: building the harness, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, "work")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def fresh(*parts):
    d = os.path.join(WORK, *parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def cargo_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def build(crate="harness", binary="mbt", extra=()):
    """Builds a harness crate against /repo's current working tree."""
    t = time.time()
    cmd = ". /opt/vp/env.sh 2>/dev/null; cargo build --offline --locked " + " ".join(extra)
    r = subprocess.run(["bash", "-c", cmd], cwd=os.path.join(ROOT, crate), env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build of %s failed:\n%s" % (crate, r.stdout[-6000:]))
    b = os.path.join(TARGET, "debug", binary)
    print("built %s in %.0f s" % (crate, time.time() - t), flush=True)
    return b


def harness(binary, mode, timeout=600, **kw):
    """Runs the harness. Returns its exit status; 3 or negative: the code under test hung or
    killed the process (the step is in pending.json)."""
    cmd = [binary, mode] + ["%s=%s" % (k, v) for k, v in kw.items()]
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s timed out" % mode)
    if r.returncode not in (0, 3) and r.returncode > 0:
        raise ToolError("harness %s failed (%d):\n%s" % (mode, r.returncode, r.stderr[-4000:]))
    return r.returncode


def tlc(d, module, env=None, workers=2, timeout=800, config=None, extra=(), heap="3g"):
    """Runs TLC on spec/<module>.tla from directory d; returns (ok, output)."""
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
           "-config", (config or module) + ".cfg"] + list(extra) + [module + ".tla"]
    out = os.path.join(d, (config or module) + ".out")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
    text = open(out, errors="replace").read()
    shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    return r.returncode, text


def tlc_counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def must_pass(rc, text, what):
    if rc != 0 or "No error has been found" not in text:
        clean = "\n".join(l for l in text.splitlines() if "@@" not in l)
        raise ToolError("TLC: %s does not pass (%d):\n%s" % (what, rc, clean[-5000:]))


def known_findings(pid):
    """Lines `KNOWN property=<id> key=<key> <what>` of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Report:
    """Collects what a check found; prints the verdict and writes the evidence file."""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t = time.time()
        self.violations = []          # (key, text, replay dict)
        self.cov = {}
        self.assumptions = []

    def violate(self, key, text, replay):
        self.violations.append((key, text, replay))

    def finish(self):
        known = known_findings(self.pid)
        new = [v for v in self.violations if v[0] not in known]
        for k in sorted({v[0] for v in self.violations if v[0] in known}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t, 1), violations=len(new))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + ".json")
            key, text, rep = new[0]
            with open(p, "w") as f:
                json.dump(dict(property=self.pid, what=text, others=sorted({v[1] for v in new})[:20], **rep), f, indent=1)
            print(text)
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        print("%s: held on everything explored (%.0f s)" % (self.pid, time.time() - self.t), flush=True)
        return 0


def parallel(jobs, n):
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]
