"""C24: the operator's command line tool, run against a simulated node whose chain is the real program."""
import json, os, re
from core import *


def model(d, genesis, scenario, maxlen):
    m = os.path.join(d, "mc-" + scenario)
    os.makedirs(m)
    rc, text = tlc(m, "MCCli", dict(MBT_GENESIS=genesis, MBT_SCENARIO=scenario, MBT_MAXLEN=str(maxlen)), workers=3, heap="4g")
    must_pass(rc, text, "MCCli/" + scenario)
    a, p = os.path.join(m, "alphabet.json"), os.path.join(m, "paths.txt")
    with open(a, "w") as f:
        f.write(json.loads('"' + re.search(r'^"@@A (.*)"$', text, re.M).group(1) + '"'))
    with open(p, "w") as f:
        for x in re.findall(r'^"@@P <<(.*)>>"$', text, re.M):
            f.write(x.replace(",", " ") + "\n")
    return a, p, tlc_counts(text)


def judge(d):
    rc, text = tlc(d, "CliJudge", dict(MBT_STATES=os.path.join(d, "states.ndjson"), MBT_STEPS=os.path.join(d, "steps.ndjson")))
    must_pass(rc, text, "CliJudge")
    return [(int(i), w) for i, w in re.findall(r'^"@@V (\d+) (.*)"$', text, re.M)]


def bins(*names):
    """Builds the tools; returns their directory."""
    b = build("service", "e2e", [x for n in ("e2e",) + names for x in ("--bin", n)])
    return os.path.dirname(b)


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    d = fresh(pid)
    quick = tier == "quick"
    t = bins("vrf-cli")
    e2e, cli = os.path.join(t, "e2e"), os.path.join(t, "vrf-cli")
    g = os.path.join(d, "genesis.ndjson")
    harness(e2e, "genesis", out=g)
    scen = dict(setup=7, queues=4) if quick else dict(setup=9, queues=6)
    ms = dict(zip(scen, parallel([lambda s=s: model(d, g, s, scen[s]) for s in scen], 2)))

    def shard(name, **kw):
        s = os.path.join(d, name)
        os.makedirs(s)
        harness(e2e, "cli", timeout=850, bin=cli, out=s, **kw)
        return s, judge(s), json.load(open(os.path.join(s, "summary.json")))

    jobs = []
    for j in range(7 if quick else 16):
        s = "queues" if j % 7 < 4 else "setup"
        jobs.append(lambda j=j, s=s: shard("r-%d" % j, seed=SEED * 100 + j, secs=40 if quick else 300, alphabet=ms[s][0], paths=ms[s][1]))
    res = parallel(jobs, 7)
    counts, samples, best = {}, [], {}
    for s, bad, summ in res:
        recs = [json.loads(l) for l in open(os.path.join(s, "steps.ndjson"))]
        for r in recs:
            k = r["c"]["cmd"] + (" done" if r["r"]["exit"] == 0 else " refused")
            counts[k] = counts.get(k, 0) + 1
            if len(samples) < 3 and r["r"]["exit"] == 0 and r["c"]["cmd"] in ("initq", "list", "close"):
                samples.append(dict(command=r["c"], result=r["r"]))
        for i, w in bad:
            r = recs[i - 1]
            if w not in best or len(r["hist"]) < len(best[w]["events"]):
                best[w] = dict(kind="cli", events=r["hist"], result=r["r"])
    for w, h in sorted(best.items(), key=lambda x: len(x[1]["events"])):
        # confirm on a fresh chain
        p = os.path.join(d, "confirm.json")
        with open(p, "w") as f:
            json.dump(h, f)
        s = os.path.join(d, "confirm-" + re.sub(r"[^a-z]+", "-", w)[:50])
        os.makedirs(s)
        harness(e2e, "cli", timeout=300, bin=cli, out=s, seed=1, secs=60, **{"in": p})
        if w not in [x[1] for x in judge(s)]:
            print("note: not reproduced on replay: %s" % w)
        rep.violate(re.sub(r"[^A-Za-z]+", "-", w)[:60], "%s: %s (after %d events)" % (pid, w, len(h["events"])), h)
    rep.cov = dict(states=sum(m[2][1] for m in ms.values()), transitions=sum(m[2][0] for m in ms.values()),
                   traces_validated_against_impl=sum(r[2]["traces"] for r in res), commands_run=sum(r[2]["steps"] for r in res),
                   impl_states=sum(r[2]["states"] for r in res), commands_by_outcome=counts, samples=samples, exhaustive=False,
                   bounds="TLC: sequences of at most %s commands and events; impl: a sample of those and random commands from each of their states" % scen)
    rep.assumptions = ["the RPC node is simulated; its chain is the real program in the emulated runtime", "compute limits and fees are not modelled"]
    return rep.finish()
