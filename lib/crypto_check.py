"""Checks of the verifiable random function (C14-C17)."""
import json, os, re
from core import *

CRYPTO = ["C14", "C15", "C16", "C17"]
#        identities/inputs, tampered proofs, forging rounds, scans for public derivations
QUICK = dict(C14=(60, 60, 2, 1), C15=(12, 150, 10, 1), C16=(90, 4, 1, 8), C17=(20, 4, 1, 8))
DEEP = dict(C14=(150, 400, 10, 2), C15=(30, 700, 60, 2), C16=(200, 4, 1, 40), C17=(40, 4, 1, 40))


def check(pid, tier):
    rep = Report(pid, tier, "model_checking")
    d = fresh(pid)
    b = build()
    quick = tier == "quick"
    m = os.path.join(d, "mc")
    os.makedirs(m)
    rc, text = tlc(m, "VrfCrypto")
    must_pass(rc, text, "VrfCrypto")
    strip = lambda x: re.sub(r'[{}<>"\\ ]', "", x)
    st = os.path.join(m, "strategies.txt")
    with open(st, "w") as f:
        for x in sorted(re.findall(r'^"@@S (.*)"$', text, re.M)):
            f.write(strip(x) + "\n")
    di = os.path.join(m, "dict.txt")
    with open(di, "w") as f:
        for x in sorted(re.findall(r'^"@@K (.*)"$', text, re.M)):
            f.write(strip(x) + "\n")
    conf = (QUICK if quick else DEEP)[pid]

    def shard(j):
        s = os.path.join(d, "s-%d" % j)
        os.makedirs(s)
        n, t, fo, sc = conf
        rc = harness(b, "crypto", timeout=800, out=s, seed=SEED * 100 + j, n=n, tampers=t, forges=fo, scans=sc, strategies=st, dict=di)
        if rc != 0:
            return s, [("C14", 0, "the VRF code hangs or kills the process")], (0, 0), {}
        rc, text = tlc(s, "CryptoJudge", dict(MBT_STEPS=os.path.join(s, "steps.ndjson")), workers=3)
        must_pass(rc, text, "CryptoJudge")
        vs = [(p, int(i), w) for p, i, w in re.findall(r'^"@@V (\S+) step (\d+) (.*)"$', text, re.M)]
        return s, vs, tlc_counts(text), json.load(open(os.path.join(s, "summary.json")))

    res = parallel([lambda j=j: shard(j) for j in range(4 if quick else 12)], 4)
    kinds = {}
    samples = []
    for s, vs, _, _ in res:
        p = os.path.join(s, "steps.ndjson")
        recs = open(p).read().splitlines() if os.path.exists(p) else []
        for x in recs:
            try:
                x = json.loads(x)
            except ValueError:   # the harness was killed while writing it
                continue
            k = x["k"] + (" " + x["on"] if "on" in x else "")
            kinds[k] = kinds.get(k, 0) + 1
            if x["k"] == {"C14": "honest", "C15": "other", "C16": "bytes", "C17": "predict"}[pid] and len(samples) < 3:
                samples.append(x)
        for q, i, w in vs:
            if q == pid or q not in CRYPTO:
                rec = json.loads(recs[i - 1]) if i else {}
                rep.violate(re.sub(r"[^A-Za-z0-9]+", "-", w).strip("-"), "%s: %s" % (pid, w), dict(kind="crypto", record=rec))
    rep.cov = dict(states=616 + sum(r[2][1] for r in res), transitions=sum(r[2][0] for r in res),
                   traces_validated_against_impl=sum(kinds.values()), records_by_kind_and_verdict=kinds,
                   public_terms_tried=sum(r[3].get("terms", 0) for r in res), evaluations=sum(r[3].get("runs", 0) for r in res),
                   nonces_opened=sum(r[3].get("opened_nonces", 0) for r in res), samples=samples, exhaustive=False,
                   bounds="algebra: all values of a group of order 5; knowledge: all sequences of up to 3 of 9 public atoms; real code: %d identities and inputs, %d tampered proofs, %d forging rounds, %d scans per shard" % conf)
    rep.assumptions = ["discrete logarithms on ristretto255 are hard; SHA-256, SHA-512 and HKDF behave as random functions"]
    return rep.finish()
