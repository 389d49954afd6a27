"""C05: DistributeFilesDataset: every file in exactly one sub-epoch and shard of a full epoch, delivered completely."""
import gc
import os
import random
from ..harness import Prop
from . import dskit
from .access_driver import Driver, seq_pass
from .c04 import fast_procs


class GetSub:
    """The user function; records the files it is asked for."""

    def __init__(self, c, contents):
        self.c, self.contents, self.calls = c, contents, []

    def __call__(self, files):
        fs = [int(os.path.basename(f if isinstance(f, str) else f[-1])[1:-4]) for f in files]
        self.calls.append(fs)
        c, so = self.c, {"seq_ordering": "random" if self.c["shuffled"] else "default"}
        if c["kind"] == "hdf":
            return {"class": "HDFDataset", "files": [f if isinstance(f, str) else f[-1] for f in files], "use_cache_manager": False, **so}
        sub = dskit.static([s for f in fs for s in self.contents[f]], c["lens"], **so)
        if c["kind"] == "map":
            return sub
        return {"class": "PostprocessingDataset", "dataset": sub, "map_seq_stream": dskit.pp_stream}


class P(Prop):
    id = "C05"
    trace_module = "DistribFilesTrace"
    num_procs = 8
    case_timeout = 30
    rule = (
        "DistributeFilesDataset over 1-9 (some: up to 26) files with 1-4 sequences and arbitrary sizes, partition_epoch 1-3, 1-3 shards, preload 0-2, buffer 1-3, HDF / map-style /"
        " streaming sub datasets, plain and nested file entries: the files of every sub-epoch and shard of two full epochs, and seeded access histories"
        " (epochs forward, backward, repeated, abandoned, finish_epoch with and without freeing, skipped sequences); partly below MultiProcDataset"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT Distributed\nINVARIANT OneWorkerPerEpoch\nINVARIANT CanServe\nINVARIANT CurrentAlive\nCHECK_DEADLOCK FALSE\n"
        c += "CONSTANTS MaxFiles=%i MaxSize=%i MaxBins=%i MaxEp=%i Preload=%i NS=%i MaxOps=%i\n"
        ms = [(6, 4, 5, 1, 0, 1, 0), (7, 3, 6, 1, 0, 1, 0), (1, 0, 1, 4, 1, 4, 7), (1, 0, 1, 4, 2, 3, 7)] if big else [(5, 3, 4, 1, 0, 1, 0), (1, 0, 1, 3, 1, 3, 5)]
        return [("DistribFilesMC", c % a, {"workers": 4, "timeout": 3000}) for a in ms]

    def cases(self, tier, rng):
        cases = []
        for j in range(3000 if tier == "thorough" else 420):
            P_, S = rng.randint(1, 3), rng.choice([1, 1, 2, 3])
            mp = rng.random() < 0.15
            nw = rng.randint(1, 2) if mp else 1
            S = nw if mp else S
            nf = rng.randint(P_ * S, max(P_ * S, 9))
            big = not mp and rng.random() < 0.12
            if big:
                nf, S = rng.randint(20, 26), rng.choice([1, 1, 2])
            counts = [1 if big else rng.randint(1, 4) for _ in range(nf)]
            eq = rng.random() < 0.3
            cases.append(
                {
                    "kind": rng.choice(["map", "map", "hdf", "stream"]), "P": P_, "S": S, "mp": mp, "counts": counts, "eq": eq,
                    "sizes": [1000 if eq else rng.choice([0, 1, 10, 100, rng.randint(0, 3000)]) for _ in range(nf)], "lens": [rng.randint(1, 4) for _ in range(sum(counts))],
                    "random": rng.random() < 0.7, "shuffled": rng.random() < 0.5, "preload": rng.randint(0, 2), "buf": rng.randint(1, 3), "nested": rng.random() < 0.3,
                    "rnd": rng.randint(0, 10**9),
                }
            )  # fmt: skip
            if cases[-1]["nested"] and rng.random() < 0.5:
                cases[-1]["nested"] = 2
            if big:
                c = cases[-1]
                c["kind"], c["P"] = "map", rng.randint(2, 3)
                if rng.random() < 0.6:
                    h = rng.randint(8, nf - 8)
                    c.update(eq=False, random=False, sizes=[3000] * h + [1] * (nf - h))
                    if rng.random() < 0.5:
                        c["sizes"].reverse()
        return cases

    def setup_worker(self, scratch):
        from returnn.log import log
        import returnn.datasets.distrib_files  # noqa
        import returnn.datasets.multi_proc  # noqa
        import returnn.datasets.postprocessing  # noqa

        log.initialize(verbosity=[2])
        fast_procs()

    def run_case(self, c, scratch):
        from returnn.datasets import init_dataset

        rng = random.Random(c["rnd"])
        lens, P_, S, nf = c["lens"], c["P"], c["S"], len(c["counts"])
        contents, s = [], 0
        for k in c["counts"]:
            contents.append(list(range(s, s + k)))
            s += k
        files = []
        for f in range(nf):
            fn = "%s/f%i.dat" % (scratch, f)
            if c["kind"] == "hdf":
                dskit.write_hdf(fn, contents[f], lens)
            else:
                open(fn, "wb").write(b"x" * c["sizes"][f])
            files.append((scratch + "/common.dat", fn) if c["nested"] == 2 else (fn,) if c["nested"] else fn)
        with open(scratch + "/common.dat", "wb"):
            pass
        eq = c["eq"] and c["kind"] != "hdf"
        known = c["kind"] != "stream"

        def make(shard):
            gs = GetSub(c, contents)
            opts = {
                "class": "DistributeFilesDataset", "files": files, "get_sub_epoch_dataset": gs, "partition_epoch": P_, "buffer_size": c["buf"],
                "preload_next_n_sub_epochs": c["preload"], "seq_ordering": "random" if c["random"] else "default",
            }  # fmt: skip
            if c["mp"]:
                opts = {"class": "MultiProcDataset", "dataset": opts, "num_workers": S, "buffer_size": c["buf"], "sharding_method": "dedicated"}
            elif S > 1:
                opts.update(_num_shards=S, _shard_index=shard)
            return init_dataset(opts), gs

        ev, orders, d, ds = [], [], None, None
        me = rng.randrange(S)
        neps = 2 * P_
        cfg = {"nf": nf, "S": S, "P": P_, "eq": eq, "seqs": contents, "random": c["random"], "shuffled": c["shuffled"], "lens": lens, "known": known, "exactfrac": False}
        cfg["sizes"] = [] if c["kind"] == "hdf" else c["sizes"]
        try:
            if c["mp"]:
                for e in range(1, neps + 1):
                    ds, _ = make(0)
                    ds.init_seq_order(epoch=e)
                    orders.append(seq_pass(ds, lens))
                    ds = None
                for f in range(2):
                    ev.append({"op": "union", "eps": list(range(f * P_ + 1, f * P_ + P_ + 1)), "n": len(lens)})
            else:
                mine = {}
                for full in range(2):
                    for shard in range(S):
                        for sub in range(P_):
                            e = full * P_ + sub + 1
                            ds, gs = make(shard)
                            del gs.calls[:]
                            ds.init_seq_order(epoch=e)
                            fs = gs.calls[0]
                            ev.append({"op": "bin", "full": full, "shard": shard, "sub": sub, "files": fs})
                            if shard == me:
                                mine[e] = fs
                                orders.append(seq_pass(ds, lens))
                            ds = None
                for e in range(1, neps + 1):
                    ev.append({"op": "epoch", "k": e, "files": mine[e]})
            ds, _ = make(me)
            d = Driver(ds, orders, lens, known, ev, lambda x, k: x.init_seq_order(epoch=k))
            e = rng.randint(1, neps)
            for _ in range(rng.randint(2, 6)):
                d.init(e)
                for _ in range(rng.choice([0, 2, 25])):
                    d.step(rng)
                if rng.random() < 0.4:
                    d.finish(free_resources=rng.random() < 0.4)
                e = rng.choice([e, min(neps, e + 1), min(neps, e + 1), rng.randint(1, neps)])
        finally:
            ds = None
            if d:
                d.ds = None
            d = None
            gc.collect()
        cfg["order"] = orders
        return [{"cfg": cfg, "ev": ev}]
