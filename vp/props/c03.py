"""C03: the sequence access protocol: any legal access history sees the same sequences."""
from ..harness import Prop
from .. import tlc
from . import dskit


class P(Prop):
    id = "C03"
    trace_module = "DatasetAccessTrace"
    rule = (
        "a case = dataset kind (15 kinds: user CachedDataset2 with known/unknown length, map, static, HDF with/without"
        " cache, Meta, Concat, Combined, ConcatSeqs, Variable, MultiEpoch, Postprocessing) x a legal consumer history of"
        " init/less/load/data/tag/len/frac/num_seqs/finish; histories are TLC behaviours (simulation of DatasetAccessMC)"
        " or seeded random ones; the sequence order per epoch is taken from a plain sequential pass of a fresh instance"
    )
    assumptions = ("the consumer confirms is_less_than_num_seqs(a) before load_seqs(a, ..), with monotone start",)
    case_timeout = 60

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT NoClauseViolated\nINVARIANT ProducedOnceInOrder\nINVARIANT WindowHoldsLoaded\nVIEW View\nCONSTANTS\n"
        return [("DatasetAccessMC", c + f" MaxN={4 if big else 3} MaxE=2 HistLen={10 if big else 7} EmitHist=FALSE KnownSet={{TRUE,FALSE}}\n")]

    def cases(self, tier, rng):
        big = tier == "thorough"
        beh, _ = tlc.generate(
            "DatasetAccessMC",
            "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n MaxN=5 MaxE=2 HistLen=16 EmitHist=TRUE KnownSet={FALSE}\n",
            extra=("-simulate", f"num={800 if big else 80}", "-depth", "18", "-seed", str(rng.randint(1, 10**6))),
        )
        uniq = list({str(b): b for b in beh}.values())
        rng.shuffle(uniq)
        uniq = uniq[: 8000 if big else 800]
        self.num_spec_behaviours = len(uniq)
        cases = []
        for j, b in enumerate(uniq):
            kind = dskit.ALL[j % len(dskit.ALL)]
            n = max(b["n1"], b["n2"]) + 1
            cases.append(self.base(rng, kind, n, orders=[list(range(b["n1"])), list(range(b["n2"]))[::-1]]))
            cases[-1]["h"] = [x + ([rng.randint(0, 3)] if x[0] in ("data",) else []) for x in b["h"]]
        for j in range(6000 if big else 900):
            kind = dskit.ALL[j % len(dskit.ALL)]
            cases.append(self.base(rng, kind, rng.randint(2, 9)))
            cases[-1]["rnd"] = rng.randint(0, 10**9)
        return cases

    def base(self, rng, kind, n, orders=None):
        so = rng.choice(["default", "random", "sorted", "laplace:2", "reverse", "sort_bin_shuffle:2"])
        if kind == "combined":  # (its length-based orderings need sub-datasets with get_estimated_seq_length)
            so = rng.choice(["default", "random", "reverse", "random_dataset"])
        P = rng.choice([1, 1, 2])
        if kind in ("variable",):
            P = 1
        if not orders:
            o1, o2 = list(range(n)), list(range(n))
            rng.shuffle(o1), rng.shuffle(o2)
            orders = [o1[: rng.randint(1, n)], o2[: rng.randint(1, n)]]
        return dict(kind=kind, n=n, lens=[rng.randint(1, 6) for _ in range(n)], orders=orders, ordering=so, P=P,
                    cache=rng.choice([1, 60, 200, 100000]))  # fmt: skip

    def run_case(self, case, scratch):
        import random

        lens = case["lens"]
        log = []
        orders = []
        # reference: plain sequential pass, fresh instance per epoch
        for ep in (1, 2):
            ds = dskit.build(case["kind"], case, scratch, log)
            ds.init_seq_order(epoch=ep)
            o, i = [], 0
            while ds.is_less_than_num_seqs(i):
                ds.load_seqs(i, i + 1)
                o.append(dskit.ident(ds.get_data(i, "data"), lens))
                i += 1
            orders.append(o)
        ds = dskit.build(case["kind"], case, scratch, log)
        del log[:]
        ev = []
        st = {"ep": 0, "lo": 0, "la": 0, "lb": 0, "conf": 0, "ended": False, "N": 0}

        def drain():
            for i in log:
                ev.append({"op": "collect", "i": i})
            del log[:]

        def do(o):
            k = o[0]
            if k == "init":
                drain()
                ds.init_seq_order(epoch=o[1])
                ev.append({"op": "init", "ep": o[1]})
                st.update(ep=o[1], lo=0, la=0, lb=0, conf=0, ended=False, N=len(orders[o[1] - 1]))
            elif st["ep"] == 0:
                return
            elif k == "less":
                r = bool(ds.is_less_than_num_seqs(o[1]))
                drain()
                ev.append({"op": "less", "n": o[1], "r": r})
                if r:
                    st["conf"] = max(st["conf"], o[1] + 1)
                else:
                    st["ended"] = True
            elif k == "load":
                a, b = o[1], o[2]
                if not (st["lo"] <= a <= b and a < st["conf"]):
                    return
                if b > st["N"] and case["kind"] not in ("custom_known", "custom_unknown", "multiepoch", "pp_stream"):
                    b = st["N"]  # only sources of unknown length accept an end behind their end
                ds.load_seqs(a, b)
                drain()
                ev.append({"op": "load", "a": a, "b": b, "ok": True})
                st.update(lo=a, la=a, lb=min(b, st["N"]))
            elif k == "data":
                if not st["la"] <= o[1] < st["lb"]:
                    return
                key = ["data", "classes"][(o[2] if len(o) > 2 else 0) % 2]
                ev.append({"op": "data", "i": o[1], "v": dskit.ident(ds.get_data(o[1], key), lens, key)})
            elif k == "tag":
                if not st["lo"] <= o[1] < st["conf"]:
                    return
                v = dskit.untag(ds.get_tag(o[1]))
                drain()
                ev.append({"op": "tag", "i": o[1], "v": v})
            elif k == "len":
                if not st["lo"] <= o[1] < st["conf"]:
                    return
                v = int(ds.get_seq_length(o[1])["data"])
                drain()
                ev.append({"op": "len", "i": o[1], "v": v})
            elif k == "frac":
                if not st["la"] <= o[1] < st["lb"]:
                    return
                v = ds.get_complete_frac(o[1], allow_only_lr_suitable=bool(o[2]))
                ev.append({"op": "frac", "i": o[1], "v": -1 if v is None else int(v * 1000000 + 1e-4)})
            elif k == "nseqs":
                if st["ended"] or case["kind"] in dskit.KNOWN:
                    ev.append({"op": "nseqs", "v": int(ds.num_seqs)})
            elif k == "finish":
                ds.finish_epoch()
                ev.append({"op": "finish"})
                st.update(ep=0, lo=0, la=0, lb=0, conf=0, ended=False)

        if "h" in case:
            for o in case["h"]:
                do(o)
        else:
            rng = random.Random(case["rnd"])
            for _ in range(rng.randint(2, 4)):
                do(["init", rng.choice([1, 1, 2])])
                for _ in range(rng.randint(0, 25)):
                    N = st["N"]
                    hi = st["conf"]
                    a = rng.randint(st["lo"], min(N, st["lo"] + 2))
                    do(
                        rng.choice(
                            [
                                ["less", rng.randint(0, min(N + 1, hi + 2))],
                                ["less", hi],
                                ["load", a, rng.randint(a, min(N + 2, a + 3))],
                                ["load", a, rng.randint(a, min(N + 2, a + 3))],
                                ["data", rng.randint(st["la"], max(st["la"], st["lb"] - 1)), rng.randint(0, 1)],
                                ["data", rng.randint(st["la"], max(st["la"], st["lb"] - 1)), rng.randint(0, 1)],
                                ["tag", rng.randint(st["lo"], max(st["lo"], hi - 1))],
                                ["len", rng.randint(st["lo"], max(st["lo"], hi - 1))],
                                ["frac", rng.randint(st["la"], max(st["la"], st["lb"] - 1)), rng.randint(0, 1)],
                                ["nseqs"],
                            ]
                        )
                    )
                if rng.random() < 0.3:
                    do(["finish"])
        cfg = {"order": orders, "lens": lens, "known": case["kind"] in dskit.KNOWN,
               "exactfrac": case["kind"] in dskit.KNOWN}  # fmt: skip
        return [{"cfg": cfg, "ev": ev}]
