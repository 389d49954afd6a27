"""Random legal access histories on a dataset; emits DatasetAccess events."""
from . import dskit


def seq_pass(ds, lens, key="data"):
    o, i = [], 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + 1)
        s = dskit.ident(ds.get_data(i, key), lens, key)
        if dskit.untag(ds.get_tag(i)) != s or dskit.ident(ds.get_data(i, "classes"), lens, "classes") != s:
            s = -1
        o.append(s)
        i += 1
        if i > 300:
            break
    return o


class Driver:
    def __init__(self, ds, orders, lens, known, ev, init, frac=True):
        self.ds, self.orders, self.lens, self.known, self.ev, self.init_fn, self.frac = ds, orders, lens, known, ev, init, frac
        self.st = {"ep": 0}
        self.reset(0)

    def reset(self, ep):
        self.st = dict(ep=ep, lo=0, la=0, lb=0, conf=0, ended=False, N=len(self.orders[ep - 1]) if ep else 0)

    def init(self, k):
        self.init_fn(self.ds, k)
        self.ev.append({"op": "init", "ep": k})
        self.reset(k)

    def finish(self, **kw):
        self.ds.finish_epoch(**kw)
        self.ev.append({"op": "finish"})
        self.reset(0)

    def step(self, rng, mono=False):
        st, ds, ev = self.st, self.ds, self.ev
        N, hi = st["N"], st["conf"]
        k = rng.choice(["less", "less", "load", "load", "data", "data", "tag", "len", "frac", "nseqs"])
        if k == "less":
            n = rng.choice([hi, rng.randint(0, min(N + 1, hi + 2))])
            r = bool(ds.is_less_than_num_seqs(n))
            ev.append({"op": "less", "n": n, "r": r})
            if r:
                st["conf"] = max(st["conf"], n + 1)
            else:
                st["ended"] = True
        elif k == "load":
            a = rng.randint(st["lo"], min(N, st["lo"] + 2))
            b = min(N, rng.randint(a, a + 3))
            if not (st["lo"] <= a <= b and a < st["conf"]):
                return
            ds.load_seqs(a, b)
            ev.append({"op": "load", "a": a, "b": b, "ok": True})
            st.update(lo=a, la=a, lb=b)
        elif k in ("data", "frac"):
            if st["la"] >= st["lb"]:
                return
            i = rng.randint(st["la"], st["lb"] - 1)
            if k == "data":
                key = rng.choice(["data", "classes"])
                ev.append({"op": "data", "i": i, "v": dskit.ident(ds.get_data(i, key), self.lens, key)})
            elif self.frac:
                v = ds.get_complete_frac(i, allow_only_lr_suitable=rng.random() < 0.5)
                ev.append({"op": "frac", "i": i, "v": -1 if v is None else int(v * 1000000 + 1e-4)})
        elif k in ("tag", "len"):
            if st["lo"] >= hi:
                return
            i = rng.randint(st["lo"], hi - 1)
            if k == "tag":
                ev.append({"op": "tag", "i": i, "v": dskit.untag(ds.get_tag(i))})
            else:
                ev.append({"op": "len", "i": i, "v": int(ds.get_seq_length(i)["data"])})
        elif k == "nseqs" and (self.known or st["ended"]):
            ev.append({"op": "nseqs", "v": int(ds.num_seqs)})
