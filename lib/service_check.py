"""Checks of the oracle service (C21, C22, C23): design in TLC, conformance of the real service."""
import json, os, random, re
from core import *

SERVICE = ("C21", "C22", "C23")


def judge(d, timeout=800):
    rc, text = tlc(d, "ServiceJudge", dict(MBT_STEPS=os.path.join(d, "steps.ndjson")), workers=2, timeout=timeout)
    must_pass(rc, text, "ServiceJudge")
    return [(p, int(i), w) for p, i, w in re.findall(r'^"@@V (C\d\d) (\d+) (.*)"$', text, re.M)]


def recover(d, status):
    """The service hung the harness (it watches for progress) or killed the process."""
    if status == 0:
        return False
    n = sum(1 for _ in open(os.path.join(d, "steps.ndjson")))
    with open(os.path.join(d, "summary.json"), "w") as f:
        json.dump(dict(steps=n, traces=0, missed=0), f)
    # the last line may be incomplete
    lines = open(os.path.join(d, "steps.ndjson")).read().split("\n")
    good = [l for l in lines if l.endswith("}")]
    with open(os.path.join(d, "steps.ndjson"), "w") as f:
        f.write("\n".join(good) + "\n")
    return True


def history(lines, i):
    r = json.loads(lines[i - 1])
    out = []
    k = i - 1
    while k >= 0:
        x = json.loads(lines[k])
        if x["t"] != r["t"]:
            break
        out.append({a: b for a, b in x.items() if b not in ("", [], 0, False)})
        if x["op"] == "start":
            break
        k -= 1
    out.reverse()
    return dict(kind="service", records=out)


def design(d, tier):
    """TLC on the design: safety, liveness; returns the schedules to replay."""
    def mc(cfg, env=None, workers=3):
        m = os.path.join(d, cfg)
        os.makedirs(m)
        rc, text = tlc(m, "MCService", dict(dict(MBT_MAXLEN="0"), **(env or {})), workers=workers, config=cfg, heap="4g")
        must_pass(rc, text, cfg)
        return text
    maxlen = "8" if tier == "quick" else "10"
    a, b, c = parallel([lambda: mc("MCService"), lambda: mc("MCServiceLive", workers=2),
                        lambda: mc("MCServicePaths", dict(MBT_MAXLEN=maxlen))], 3)
    paths = set()
    for x in re.findall(r'^"@@P <<(.*)>>"$', c, re.M):
        paths.add(tuple("%s:%s" % y for y in re.findall(r'<<\\?"([a-z-]+)\\?", (\d+)>>', x)))
    inner = {p[:k] for p in paths for k in range(len(p))}
    full = sorted(p for p in paths if p not in inner)
    return [tlc_counts(a), tlc_counts(b), tlc_counts(c)], full


def explore(d, tier):
    """All runs of the real service for one check; returns (violations, coverage)."""
    quick = tier == "quick"
    def made():
        try:
            return build("service", "svc")
        except ToolError as e:
            # its interface changed: the executable alone still says what it does
            print("note: driving the executable only: %s" % str(e)[-600:])
            build("service", "e2e", ["--bin", "e2e", "--bin", "vrf-oracle"])
            return None

    jobs = [lambda: ("design", design(d, tier)), lambda: ("build", made())]
    got = dict(parallel(jobs, 2))
    counts, paths = got["design"]
    b = got["build"]
    rnd = random.Random(SEED)
    rnd.shuffle(paths)
    paths = paths[:1500 if quick else 30000]

    def shard(name, mode, **kw):
        s = os.path.join(d, name)
        os.makedirs(s)
        dead = recover(s, harness(b, mode, out=s, timeout=800, **kw))
        return s, judge(s), json.load(open(os.path.join(s, "summary.json"))), dead

    def whole(kind):
        """The executable itself, in real time, over the loopback network."""
        s = os.path.join(d, "e-" + kind)
        os.makedirs(s)
        harness(os.path.join(TARGET, "debug", "e2e"), "service", kind=kind, bin=os.path.join(TARGET, "debug", "vrf-oracle"), out=s, timeout=600)
        return s, judge(s), json.load(open(os.path.join(s, "summary.json"))), False

    runs = [lambda k=k: whole(k) for k in ("calm", "late", "basic", "stream")]
    if b is None:
        return collect(parallel(runs, 4), counts, paths, quick)
    n = 5 if quick else 20
    for i in range(n):
        p = os.path.join(d, "paths-%d.txt" % i)
        with open(p, "w") as f:
            f.writelines(" ".join(x) + "\n" for x in paths[i::n])
        runs.append(lambda i=i, p=p: shard("m-%d" % i, "paths", **{"in": p}))
    for j in range(4 if quick else 24):
        runs.append(lambda j=j: shard("r-%d" % j, "random", seed=SEED * 100 + j, n=250 if quick else 600, len=[60, 30, 120][j % 3]))
    for j in range(2 if quick else 8):
        runs.append(lambda j=j: shard("b-%d" % j, "big", seed=SEED * 100 + j, n=80 if quick else 250))
    for j in range(1 if quick else 4):
        runs.append(lambda j=j: shard("l-%d" % j, "long", seed=SEED * 100 + j))
    return collect(parallel(runs, 9), counts, paths, quick)


def collect(res, counts, paths, quick):
    vs = []
    ops, sends = {}, {}
    samples = []
    for s, bad, summ, dead in res:
        lines = open(os.path.join(s, "steps.ndjson")).read().splitlines()
        if dead:
            vs.append(("C21", "the service made no progress or killed the process", history(lines, len(lines))))
        best = {}
        for p, i, w in bad[:300]:
            h = history(lines, i)
            if (p, w) not in best or len(h["records"]) < len(best[p, w]["records"]):
                best[p, w] = h
        vs += [(p, w, h) for (p, w), h in best.items()]
        for l in lines:
            x = json.loads(l)
            k = x["op"] + ("" if not x["ans"] else " " + x["how"])
            ops[k] = ops.get(k, 0) + 1
            for y in x["sends"]:
                k = y["kind"] + (" accepted" if y["ok"] else " refused")
                sends[k] = sends.get(k, 0) + 1
            if len(samples) < 3 and x["op"] == "answer" and x["sends"]:
                samples.append({a: c for a, c in x.items() if a in ("q", "id", "how", "out", "now")})
    vs.sort(key=lambda v: len(v[2]["records"]))
    cov = dict(states=sum(c[1] for c in counts), transitions=sum(c[0] for c in counts),
               traces_validated_against_impl=sum(r[2]["traces"] for r in res), impl_steps_validated=sum(r[2]["steps"] for r in res),
               schedules_from_spec=len(paths), schedule_events_without_counterpart=sum(r[2]["missed"] for r in res),
               records_by_kind=ops, transactions=sends, samples=samples, exhaustive=False,
               bounds="TLC: 2 requests, 3 attempts, 4 environment events, 2 readers (safety), 1 request, 5 attempts (liveness); impl: schedules of the specification up to %s events, random schedules over 3 queues, overlapping updates of queues with ~95 requests; four scenarios of the whole executable in real time (breaking streams, failing node, periodic refresh, renewal of blockhashes)" % (8 if quick else 10))
    return vs, cov


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    vs, cov = explore(fresh(pid), tier)
    for p, w, h in vs:
        if p == pid:
            rep.violate(re.sub(r"[^A-Za-z]+", "-", w)[:60], "%s: %s (after %d records)" % (pid, w, len(h["records"])), h)
    rep.cov = cov
    rep.assumptions = ["the RPC node is simulated; its chain is the real program in the emulated runtime",
                       "except in the scenarios of the executable, time is virtual: 2.5 s without events are enough for an attempt to act"]
    return rep.finish()
