"""Shared by C08 (legacy batches) and C09 (torch data pipeline)."""
BIG = 10**6
CFG = "SPECIFICATION Spec\nINVARIANT NoClauseViolated\nINVARIANT ExactlyOnceInOrder\nINVARIANT CoversAllFrames\nINVARIANT NoFrameTwice\nINVARIANT LimitsHold\nCONSTANTS "


def models(tier):
    if tier == "thorough":
        return [("BatchingMC", CFG + "MaxN=4 MaxL=4 BSizes={1,4,7,9} MSeqs={1,2,100} Pads={0,2,1000} Big=TRUE\n", {"workers": 4, "timeout": 3000})]
    return [("BatchingMC", CFG + "MaxN=3 MaxL=4 BSizes={1,4,7} MSeqs={2,100} Pads={0,1000} Big=FALSE\n")]


def gen_case(rng, torch):
    """random pipeline configuration, JSON-able"""
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if not torch else rng.choice([1, 1, 2, 3, 5, 8, 12])
    nk = rng.choice([1, 2])
    maxl = rng.choice([1, 3, 6, 12])
    c = {"n": n, "nk": nk, "maxl": maxl}
    rel = rng.choice(["same", "double", "free"]) if nk == 2 else "single"
    l1 = [rng.randint(1, maxl) for _ in range(n)]
    if rel == "double":
        lens = [[2 * x, x] for x in l1]
    elif rel == "same":
        lens = [[x, x] for x in l1]
    elif rel == "free":
        lens = [[x, rng.randint(1, maxl)] for x in l1]
    else:
        lens = [[x] for x in l1]
    c["lens"] = lens
    chunk = {"kind": "none", "size": [0] * nk, "step": [0] * nk, "min": [0] * nk}
    if rel != "free" or torch:
        if rng.random() < 0.5:
            s, t, m = rng.randint(1, 5), rng.randint(1, 5), rng.choice([0, 0, 0, 1, 2])
            f = {"double": [2, 1], "same": [1, 1], "single": [1], "free": [1, 0]}[rel]
            chunk = {"kind": "torch" if torch else "legacy", "size": [s * x for x in f], "step": [t * x for x in f], "min": [m * x for x in f]}
            c["chunk_as_int"] = rel in ("same", "single") and rng.random() < 0.5
    c["chunk"] = chunk
    c["minl"] = [rng.choice([0, 0, 0, 2])] * nk
    c["maxlen"] = [rng.choice([BIG, BIG, BIG, maxl - 1 if maxl > 1 else 1])] * nk
    if rng.random() < 0.6:
        c["bs"] = [rng.choice([1, 3, 5, 10, 20, 40])] * nk
        c["bs_int"] = True
    else:
        c["bs"] = [rng.choice([2, 5, 10, 20, 40, BIG]) for _ in range(nk)]
        c["bs_int"] = False
    c["ms"] = rng.choice([1, 2, 3, BIG, BIG])
    return c
