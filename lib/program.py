"""Checks of the on-chain program: TLC explores MCProgram, the harness replays its states and
random histories on the real program, TLC (Judge) validates every recorded step."""
import json, os, re, subprocess
from core import *

PROGRAM = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C18", "C19"]
BULK = {"C01", "C02", "C03", "C05", "C06", "C07", "C08", "C11"}
MASS = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11"}
CUSTODY = {"C02", "C03", "C06", "C07", "C11", "C13"}
GOVERNANCE = {"C09", "C10", "C11", "C13", "C19"}


def model(d, binary, scenario, maxreq, maxlen, workers=4):
    g = os.path.join(d, "genesis.ndjson")
    harness(binary, "genesis", out=g)
    m = os.path.join(d, "mc-" + scenario)
    os.makedirs(m)
    rc, text = tlc(m, "MCProgram", dict(MBT_GENESIS=g, MBT_SCENARIO=scenario, MBT_MAXREQ=str(maxreq),
                                        MBT_MAXLEN=str(maxlen)), workers=workers, heap="6g")
    must_pass(rc, text, "MCProgram/" + scenario)
    alpha = re.search(r'^"@@A (.*)"$', text, re.M).group(1)
    a = os.path.join(m, "alphabet.json")
    open(a, "w").write(json.loads('"' + alpha + '"'))
    p = os.path.join(m, "paths.txt")
    with open(p, "w") as f:
        for x in re.findall(r'^"@@P <<(.*)>>"$', text, re.M):
            f.write(x.replace(",", " ") + "\n")
    gen, dist = tlc_counts(text)
    return a, p, gen, dist


def recover(d, status):
    """The code under test hung or killed the harness: record that as a rejected step."""
    if status == 0:
        return
    p = json.loads(open(os.path.join(d, "pending.json")).readline())
    what = "did not terminate" if status == 3 else "killed the process (signal %d)" % -status
    n = sum(1 for _ in open(os.path.join(d, "steps.ndjson")))
    rec = dict(f=p["f"], t=p["f"], e=p["e"], par=p["par"],
               r=dict(ok=False, err=what, pan=True, calls=[], newid="", outh=""))
    with open(os.path.join(d, "steps.ndjson"), "a") as f:
        f.write(json.dumps(rec) + "\n")
    with open(os.path.join(d, "summary.json"), "w") as f:
        json.dump(dict(steps=n + 1, crashed=what), f)


def judge(d, workers=3, timeout=800):
    rc, text = tlc(d, "Judge", dict(MBT_STATES=os.path.join(d, "states.ndjson"),
                                    MBT_STEPS=os.path.join(d, "steps.ndjson")), workers=workers, timeout=timeout)
    must_pass(rc, text, "Judge")
    gen, _ = tlc_counts(text)
    out = []
    for p, kind, i, what in re.findall(r'^"@@V (\S+) (step|state) (\d+) (.*)"$', text, re.M):
        out.append((p, kind, int(i), what))
    return out, gen


def lines(path):
    return open(path).read().splitlines()


def history(d, kind, i):
    """The history that leads to a step (or to the first step reaching a state)."""
    steps = lines(os.path.join(d, "steps.ndjson"))
    if kind == "state":
        j = next((k for k, s in enumerate(steps) if json.loads(s)["t"] == i), None)
        if j is None:
            return None
        i = j + 1
    chain = []
    while i:
        s = json.loads(steps[i - 1])
        chain.append(s)
        i = s["par"]
    chain.reverse()
    states = lines(os.path.join(d, "states.ndjson"))
    slot = json.loads(states[chain[0]["f"] - 1])["slot"]
    b = os.path.join(d, "base")
    return dict(kind="program", genesis_slot=slot, base=int(open(b).read()) if os.path.exists(b) else 0, events=[s["e"] for s in chain], last_result=chain[-1]["r"],
                last_from=json.loads(states[chain[-1]["f"] - 1]), last_to=json.loads(states[chain[-1]["t"] - 1]))


def replay(binary, path, d):
    os.makedirs(d, exist_ok=True)
    st = harness(binary, "replay", **{"in": path, "out": d})
    recover(d, st)
    return judge(d)[0]


def clients(rep, b, quick):
    """Generated calls of every client function, validated against Clients."""
    d = fresh("C19", "clients")
    n = 300 if quick else 3000
    cs = []
    cmds = [[b, "clients"]]
    try:
        cmds.append([build("compat", "compat")])
    except ToolError as e:
        print("note: the SDK does not build with the feature anchor-compat; that variant is not checked\n%s" % str(e)[-800:])
    for i, x in enumerate(cmds):
        out = os.path.join(d, "calls-%d" % i)
        r = subprocess.run(x + ["out=" + out, "seed=%d" % (SEED + i), "rounds=%d" % n], capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            rep.violate("client-function-crashed", "C19: a client function crashed: " + r.stderr[-300:], dict(kind="client", events=[], stderr=r.stderr[-2000:]))
        else:
            cs += lines(out)
    f = os.path.join(d, "calls.ndjson")
    with open(f, "w") as h:
        h.writelines(x + "\n" for x in cs)
    rc, text = tlc(d, "ClientJudge", dict(MBT_CALLS=f), workers=4)
    must_pass(rc, text, "ClientJudge")
    seen = {}
    for i, w in re.findall(r'^"@@V (\d+) (.*)"$', text, re.M):
        c = json.loads(cs[int(i) - 1])
        if w not in seen or len(json.dumps(c)) < len(json.dumps(seen[w])):
            seen[w] = c
    for w, c in sorted(seen.items()):
        rep.violate(re.sub(r"[^A-Za-z]+", "-", w)[:60], "C19: " + w, dict(kind="client", events=[], call=c))
    return len(cs)


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    d = fresh(pid)
    b = build()
    quick = tier == "quick"
    scen = ["requests", "governance"]
    lens = dict(requests=6, governance=9) if quick else dict(requests=8, governance=12)
    main = "governance" if pid in GOVERNANCE else "requests"
    ms = parallel([lambda s=s: model(d, b, s, 3, lens[s]) for s in scen], 2)
    if pid == "C18":
        for c in ("Relay", "RelayScoped"):
            m = fresh(pid, "mc-" + c)
            rc, text = tlc(m, "Relay", config=c)
            must_pass(rc, text, c)
            ms.append((None, None) + tlc_counts(text))
    ncalls = clients(rep, b, quick) if pid == "C19" else 0
    jobs = []
    k = 1 if quick else 12

    def shard(name, mode, **kw):
        s = os.path.join(d, name)
        os.makedirs(s)
        st = harness(b, mode, out=s, focus=pid, timeout=800, **kw)
        recover(s, st)
        v, gen = judge(s)
        return s, v, gen, json.load(open(os.path.join(s, "summary.json")))

    # slots of the run start here: around the places where narrow arithmetic breaks
    bases = [0, 2**32 - 1800, 0, 2**31 - 1800, 2**16 - 1800, 2**53]
    for s, m in zip(scen, ms):
        cap = (20000 if s == main else 6000) * k
        for j in range(2 if quick else 4):
            jobs.append(lambda s=s, m=m, cap=cap, j=j: shard("m-%s-%d" % (s, j), "model", alphabet=m[0], paths=m[1],
                                                             seed=SEED + 7919 * j, cap=cap // (2 if quick else 4),
                                                             base=[0, 2**32 - 1300][j % 2]))
    for j in range(4 if quick else 12):
        jobs.append(lambda j=j: shard("r-%d" % j, "random", seed=SEED * 1000 + j,
                                      cap=8000 if quick else 20000, len=60 if j % 3 else 140, base=bases[j % 6]))
    if pid in BULK:
        for j, st in enumerate(["0", "1", "2-3"] if quick else ["0", "1", "2-3"] * 4):
            jobs.append(lambda j=j, st=st: shard("b-%d" % j, "bulk", seed=SEED * 77 + j, cap=700, styles=st))
    if pid in ("C10", "C11"):
        for j in range(1 if quick else 4):
            jobs.append(lambda j=j: shard("n-%d" % j, "many", seed=SEED * 31 + j))
    if pid in MASS:
        for j in range(1 if quick else 4):
            for h in (0, 1) if pid in ("C07", "C08") or not quick else (0,):
                jobs.append(lambda j=j, h=h: shard("h%d-%d" % (h, j), "mass", seed=SEED * 31 + j, huge=h))
    if pid in CUSTODY:
        for j in range((2 if pid == "C13" else 1) if quick else 6):
            jobs.append(lambda j=j: shard("u-%d" % j, "custody", seed=SEED * 37 + j, cap=600 if quick else 1500))
    if pid == "C09":
        for j in range(1 if quick else 4):
            jobs.append(lambda j=j: shard("c-%d" % j, "crowd", seed=SEED * 31 + j))
    res = parallel(jobs, 4 if quick else 3)
    steps = states = traces = replayed = 0
    samples, counts = [], {}
    found = []
    for s, v, gen, summ in res:
        steps += summ.get("steps", 0)
        states += summ.get("states", 0)
        traces += summ.get("runs", 0) + summ.get("model_states_replayed", 0)
        replayed += summ.get("model_states_replayed", 0)
        for l in open(os.path.join(s, "steps.ndjson")):
            x = json.loads(l)
            key = x["e"]["ix"] + (" accepted" if x["r"].get("ok") else " rejected")
            counts[key] = counts.get(key, 0) + 1
            if len(samples) < 3 and x["r"].get("ok") and x["par"] > 20 and x["e"]["acc"]:
                samples.append(dict(event=x["e"], result=x["r"]))
        for p, kind, i, what in v:
            if p == pid:
                found.append((s, kind, i, what))
    # report: a confirmed violation with a short history first
    seen = {}
    for s, kind, i, what in found:
        key = re.sub(r"[^A-Za-z]+", "-", what)[:60]
        seen.setdefault(key, []).append((s, kind, i, what))
    for key, fs in sorted(seen.items())[:12]:
        best = None
        for s, kind, i, what in fs[:40]:
            h = history(s, kind, i)
            if h and (best is None or len(h["events"]) < len(best[0]["events"])):
                best = (h, what)
        if best is None:
            continue
        h, what = best
        tmp = os.path.join(d, "confirm.json")
        json.dump(h, open(tmp, "w"))
        again = [x for x in replay(b, tmp, os.path.join(d, "confirm-" + key)) if x[0] == pid]
        if not again:
            print("note: not reproduced on replay: %s" % what)
        rep.violate(key, "%s: %s (after %d events)" % (pid, what, len(h["events"])), h)
    rep.violations.sort(key=lambda v: len(v[2]["events"]))
    rep.cov = dict(
        states=sum(m[3] for m in ms), transitions=sum(m[2] for m in ms), traces_validated_against_impl=traces,
        samples=samples, model_states_replayed_on_impl=replayed, impl_steps_validated=steps, impl_states_validated=states,
        steps_by_outcome=counts, exhaustive=False,
        bounds="TLC: all sequences of at most %s alphabet events, 3 requests; impl: those states plus random histories" % lens)
    if ncalls:
        rep.cov["client_calls_validated"] = ncalls
    rep.assumptions = [
        "the emulated runtime (accounts, CPI, System program) behaves like Solana's for the operations used",
        "the delegation and magic programs are stand-ins that follow their published interfaces"]
    return rep.finish()
