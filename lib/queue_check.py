"""Check of the queue storage (C12): refinement in TLC, conformance of the real QueueAccount."""
import json, os, re
from core import *

PID = "C12"


def judge(d, timeout=800):
    rc, text = tlc(d, "QueueJudge", dict(MBT_STATES=os.path.join(d, "states.ndjson"),
                                         MBT_STEPS=os.path.join(d, "steps.ndjson")), workers=3, timeout=timeout)
    must_pass(rc, text, "QueueJudge")
    return [(k, int(i), w) for k, i, w in re.findall(r'^"@@V C12 (step|state) (\d+) (.*)"$', text, re.M)]


def recover(d, status):
    if status == 0:
        return
    p = json.loads(open(os.path.join(d, "pending.json")).readline())
    what = "did not terminate" if status == 3 else "killed the process (signal %d)" % -status
    n = sum(1 for _ in open(os.path.join(d, "steps.ndjson")))
    if not p["f"]:
        raise ToolError("the queue harness died while loading")
    with open(os.path.join(d, "steps.ndjson"), "a") as f:
        f.write(json.dumps(dict(f=p["f"], t=p["f"], e=p["e"], par=p["par"], r=dict(st="panic", canary=True, err=what))) + "\n")
    with open(os.path.join(d, "summary.json"), "w") as f:
        json.dump(dict(steps=n + 1, states=0, runs=0), f)


def history(d, kind, i):
    steps = open(os.path.join(d, "steps.ndjson")).read().splitlines()
    states = open(os.path.join(d, "states.ndjson")).read().splitlines()
    if kind == "state":
        j = next((k for k, s in enumerate(steps) if json.loads(s)["t"] == i), None)
        if j is None:
            return dict(kind="queue", events=[], last_to=json.loads(states[i - 1]))
        i = j + 1
    chain = []
    while i:
        s = json.loads(steps[i - 1])
        chain.append(s)
        i = s["par"]
    chain.reverse()
    last = chain[-1]
    return dict(kind="queue", events=[c["e"] for c in chain], results=[c["r"] for c in chain][-1:],
                last_from=json.loads(states[last["f"] - 1]), last_to=json.loads(states[last["t"] - 1]))


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    d = fresh(pid)
    b = build()
    quick = tier == "quick"
    confs = [(420, 9 if quick else 12), (700, 6 if quick else 9), (264, 8 if quick else 14), (16 + 97, 6)]

    def mc(size, maxlen):
        m = os.path.join(d, "mc-%d" % size)
        os.makedirs(m)
        rc, text = tlc(m, "MCQueue", dict(MBT_QSIZE=str(size), MBT_MAXLEN=str(maxlen)), workers=3)
        must_pass(rc, text, "MCQueue")
        p = os.path.join(m, "paths.txt")
        with open(p, "w") as f:
            for x in re.findall(r'^"@@P <<(.*)>>"$', text, re.M):
                f.write(x.replace(",", " ") + "\n")
        return size, p, tlc_counts(text)

    ms = parallel([lambda c=c: mc(*c) for c in confs], 3)

    def shard(name, mode, **kw):
        s = os.path.join(d, name)
        os.makedirs(s)
        recover(s, harness(b, mode, out=s, timeout=800, **kw))
        return s, judge(s), json.load(open(os.path.join(s, "summary.json")))

    jobs = []
    for size, p, _ in ms:
        n = 1 if quick else 3
        for i in range(n):
            jobs.append(lambda size=size, p=p, i=i, n=n: shard("m-%d-%d" % (size, i), "qmodel", size=size, paths=p, part=i, parts=n))
    for j in range(3 if quick else 16):
        jobs.append(lambda j=j: shard("r-%d" % j, "qrandom", seed=SEED * 100 + j, cap=16000 if quick else 40000, len=[60, 200, 30][j % 3]))
    for j in range(1 if quick else 6):
        jobs.append(lambda j=j: shard("f-%d" % j, "qfuzz", seed=SEED * 100 + j, cap=30000 if quick else 200000))
    for j, st in enumerate(["many", "big", "huge"] if quick else ["many", "big"] * 6 + ["huge"] * 2):
        jobs.append(lambda j=j, st=st: shard("l-%d" % j, "qlarge", seed=SEED * 100 + j, style=st))
    res = parallel(jobs, 4)
    steps = sum(r[2]["steps"] for r in res)
    for s, vs, summ in res:
        best = {}
        for kind, i, w in vs[:200]:
            h = history(s, kind, i)
            if w not in best or len(h["events"]) < len(best[w]["events"]):
                best[w] = h
        for w, h in best.items():
            rep.violate(re.sub(r"[^A-Za-z]+", "-", w)[:60], "C12: %s (after %d operations)" % (w, len(h["events"])), h)
    rep.violations.sort(key=lambda v: len(v[2]["events"]))
    ops = {}
    samples = []
    for s, _, _ in res:
        for l in open(os.path.join(s, "steps.ndjson")):
            x = json.loads(l)
            k = x["e"]["op"] + " " + x["r"]["st"]
            ops[k] = ops.get(k, 0) + 1
            if len(samples) < 3 and k.endswith("ok") and x["par"] > 50:
                samples.append(dict(event=x["e"], result=x["r"]))
    rep.cov = dict(states=sum(m[2][1] for m in ms), transitions=sum(m[2][0] for m in ms),
                   traces_validated_against_impl=sum(r[2]["runs"] for r in res), impl_steps_validated=steps,
                   impl_states_validated=sum(r[2]["states"] for r in res), steps_by_outcome=ops, samples=samples, exhaustive=False,
                   bounds="TLC: all operation sequences up to the given length in accounts of %s bytes (size, length); impl: those, random histories in accounts of 12 to 160,000 bytes, 65,540 items in one account, arbitrary bytes" % (confs,))
    rep.assumptions = ["discriminators of at most 64 bytes (the program admits 8)"]
    return rep.finish()
