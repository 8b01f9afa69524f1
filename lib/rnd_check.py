"""Check of the random helpers (C20)."""
import json, os, re
from core import *


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    d = fresh(pid)
    b = build()
    quick = tier == "quick"

    def shard(name, mode, **kw):
        s = os.path.join(d, name)
        os.makedirs(s)
        st = harness(b, mode, out=s, timeout=800, **kw)
        if st != 0:
            return s, [(0, "a random helper hangs or kills the process")], 0, (0, 0), dict(steps=0, runs=0)
        rc, text = tlc(s, "Rnd", dict(MBT_STEPS=os.path.join(s, "steps.ndjson")), workers=3)
        must_pass(rc, text, "Rnd")
        vs = [(int(i), w) for i, w in re.findall(r'^"@@V C20 step (\d+) (.*)"$', text, re.M)]
        return s, vs, len(re.findall(r'^"@@D ', text, re.M)), tlc_counts(text), json.load(open(os.path.join(s, "summary.json")))

    jobs = [lambda: shard("calls", "rcalls", seed=SEED, every=1 if quick else 4),
            lambda: shard("counts", "rcounts", seed=SEED, root=2000 if quick else 8000)]
    if not quick:
        jobs += [lambda j=j: shard("calls-%d" % j, "rcalls", seed=SEED * 100 + j, every=3) for j in range(4)]
        jobs += [lambda j=j: shard("counts-%d" % j, "rcounts", seed=SEED * 100 + j, root=6000) for j in range(3)]
    res = parallel(jobs, 2)
    # another method than the reference's: its bias is looked for in far more samples
    if any(r[2] for r in res):
        res += parallel([lambda: shard("deep", "rcounts", seed=SEED + 7, root=32768 if quick else 46000, deep=1)], 1)
    samples = []
    for s, vs, dis, _, summ in res:
        recs = open(os.path.join(s, "steps.ndjson")).read().splitlines() if os.path.exists(os.path.join(s, "steps.ndjson")) else []
        for i, w in vs[:300]:
            rep.violate(re.sub(r"[^A-Za-z0-9]+", "-", w), "C20: " + w, dict(kind="rnd", record=json.loads(recs[i - 1]) if i else {}))
        samples += [json.loads(x) for x in recs[1:2]]
    rep.cov = dict(states=sum(r[3][1] for r in res), transitions=sum(r[3][0] for r in res),
                   traces_validated_against_impl=sum(len(open(os.path.join(r[0], "steps.ndjson")).readlines()) for r in res if os.path.exists(os.path.join(r[0], "steps.ndjson"))),
                   calls_that_differ_from_the_reference=sum(r[2] for r in res), random_samples=sum(r[4]["runs"] for r in res),
                   samples=[{k: (v[:8] if isinstance(v, list) else v) for k, v in x.items()} for x in samples], exhaustive=False,
                   bounds="all 32,896 ranges with structured bytes; balance exact in the specification, and counted over uniformly random bytes for every range size on the real code (6.5 standard deviations)")
    rep.assumptions = ["bias too small to show in the sample (about 0.1 percent of a value's share for small ranges) is left to the agreement with the reference algorithm; when the code answers differently from the reference anywhere, the ranges that reject most are counted over 2^30 samples"]
    return rep.finish()
