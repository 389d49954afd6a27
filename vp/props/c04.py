"""C04: MultiProcDataset is transparent."""
import copy
import gc
import os
import random
from ..harness import Prop
from . import dskit
from .access_driver import Driver, seq_pass

KINDS = [
    ("map", "seq_order"), ("hdf", "seq_order"), ("epmap", "seq_order"), ("meta", "seq_order"), ("hdf", "dedicated"),
    ("meta_ctl", "dedicated"), ("pp", "dedicated"), ("pp_stream", "dedicated"), ("pp_filter", "dedicated"), ("pp_nofrac", "dedicated"),
]  # fmt: skip


def pp_drop(it, **_kw):
    """Drops some sequences, but never all of them."""
    for i, x in enumerate(it):
        if i == 0 or int(x["data"].raw_tensor.flat[0]) // 1000 % 3 != 1:
            yield x


_ep_cls = None


def ep_map(idxs, lens, **kw):
    """A dataset whose data depends on the epoch (like random augmentation): extra stream 'ep'."""
    global _ep_cls
    if _ep_cls is None:
        import numpy
        from returnn.datasets.map import MapDatasetWrapper

        class EpMap(MapDatasetWrapper):
            def _collect_single_seq(self, seq_idx):
                seq = super()._collect_single_seq(seq_idx)
                if seq is not None:
                    seq.features = {**seq.features, "ep": numpy.array([self.epoch], dtype="int32")}
                return seq

        _ep_cls = EpMap
    d = dskit.static(idxs, lens, **kw)
    d["map_dataset"].data_types["ep"] = {"shape": (None,), "sparse": True, "dim": 1000}
    return {**d, "class": _ep_cls}


def pp_nofrac(it, **_kw):
    for x in it:
        x.data.pop("complete_frac")
        yield x


def fast_procs():
    """Start the worker processes by fork of this (warm) process instead of a fresh interpreter: much faster."""
    import multiprocessing.context as c

    c.SpawnProcess._Popen = staticmethod(lambda process_obj: c.ForkProcess._Popen(process_obj))


class P(Prop):
    id = "C04"
    trace_module = "DatasetAccessTrace"
    num_procs = 8
    case_timeout = 20
    rule = (
        "MultiProcDataset (both sharding methods, 1-4 workers, buffers 1-5, over several dataset kinds, compared with the wrapped"
        " dataset over seeded legal access histories: epochs, partitions, seq_list / seq_order, abandoned epochs, finish_epoch with and without freeing"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT RightSeq\nINVARIANT NoSeqTwice\nINVARIANT SizedOrder\nINVARIANT NeverBackward\nINVARIANT NoStaleReply\nINVARIANT AllDelivered\nPROPERTY Progress\n"
        c += "CONSTANTS NW=%i NSeq=%i Buf=%i NInit=%i Sized=%s MaxSkip=%i\n"
        small = [(2, 3, 2, 2, "TRUE", 1), (2, 4, 2, 2, "FALSE", 1)]
        return [("MultiProcMC", c % a, {"workers": 3, "timeout": 3000}) for a in ([(3, 5, 2, 2, "TRUE", 2), (2, 5, 3, 3, "TRUE", 1), (3, 5, 2, 2, "FALSE", 2)] if big else small)]

    def cases(self, tier, rng):
        cases = []
        for j in range(2400 if tier == "thorough" else 700):
            kind, method = KINDS[j % len(KINDS)]
            nw, P_ = rng.randint(1, 4), rng.choice([1, 1, 2])
            n = rng.randint(nw * P_ if kind.startswith("pp") else 1, 12)
            so = rng.choice(["default", "random", "reverse", "sorted", "laplace:2"])
            cases.append(
                {
                    "kind": kind, "n": n, "lens": [rng.randint(1, 5) for _ in range(n)], "ordering": so, "P": P_,
                    "method": method, "nw": nw, "buf": rng.randint(1, 5), "rnd": rng.randint(0, 10**9),
                }
            )  # fmt: skip
        return cases

    def setup_worker(self, scratch):
        from returnn.log import log
        import returnn.datasets  # noqa
        import returnn.datasets.multi_proc  # noqa
        import returnn.datasets.meta  # noqa
        import returnn.datasets.postprocessing  # noqa

        log.initialize(verbosity=[2])
        fast_procs()

    def inner(self, c, scratch):
        n, lens = c["n"], c["lens"]
        so = {"seq_ordering": c["ordering"], "partition_epoch": c["P"]}
        k = c["kind"]
        if k == "map":
            return dskit.static(range(n), lens, **so)
        if k == "epmap":
            return ep_map(range(n), lens, **so)
        fn = scratch + "/a.hdf"
        if not os.path.exists(fn):
            dskit.write_hdf(fn, range(n), lens)
        hdf = {"class": "HDFDataset", "files": [fn], "use_cache_manager": False}
        if k == "hdf":
            return {**hdf, **so}
        if k == "meta_ctl":
            return {
                "class": "MetaDataset", "datasets": {"a": {**hdf, **so}, "b": hdf},
                "data_map": {"data": ("a", "data"), "classes": ("b", "classes")}, "seq_order_control_dataset": "a",
            }  # fmt: skip
        if k == "meta":
            return {
                "class": "MetaDataset", "datasets": {"a": dskit.static(range(n), lens), "b": dskit.static(list(range(n))[::-1], lens)},
                "data_map": {"data": ("a", "data"), "classes": ("b", "classes")}, **so,
            }  # fmt: skip
        base = {**hdf, **so}
        if k == "pp":
            return {"class": "PostprocessingDataset", "dataset": base, "map_seq": dskit.pp_map_seq}
        return {"class": "PostprocessingDataset", "dataset": base, "map_seq_stream": {"pp_stream": dskit.pp_stream, "pp_filter": pp_drop, "pp_nofrac": pp_nofrac}[k]}

    def run_case(self, c, scratch):
        from returnn.datasets import init_dataset

        rng = random.Random(c["rnd"])
        lens, n = c["lens"], c["n"]
        kind, ded = c["kind"], c["method"] == "dedicated"
        known = kind not in ("pp_stream", "pp_filter", "pp_nofrac")
        # the ways to start an epoch
        inits = [{"epoch": 1}, {"epoch": 2}]
        if kind in ("map", "epmap", "hdf", "meta", "meta_ctl"):
            tags = [dskit.tag(s) for s in rng.sample(range(n), rng.randint(1, n))]
            inits.append({"epoch": 3, "seq_list": tags})
        if kind in ("map", "epmap", "hdf", "meta", "meta_ctl"):
            inits.append({"epoch": 2, "seq_order": rng.sample(range(n), rng.randint(1, n))})

        def init(ds, k):
            ds.init_seq_order(**inits[k - 1])

        refs = []
        for k, opts in enumerate(inits, 1):
            r = []
            sharded = ded and "seq_list" not in opts and "seq_order" not in opts
            for w in range(c["nw"] if sharded else 1):
                ds = init_dataset({**self.inner(c, scratch), **({"_num_shards": c["nw"], "_shard_index": w} if sharded else {})})
                init(ds, k)
                r += seq_pass(ds, lens)
            refs.append(r)
        opts = {"class": "MultiProcDataset", "dataset": self.inner(c, scratch), "num_workers": c["nw"], "buffer_size": c["buf"], "sharding_method": c["method"]}
        mp = init_dataset(opts)
        if rng.random() < 0.3:  # as in a data loader process
            mp = copy.deepcopy(mp)
        try:
            ev, orders = [], []
            has_all = kind in ("map", "epmap", "hdf", "meta", "meta_ctl")
            ref = init_dataset(self.inner(c, scratch))

            def meta():
                ok = True
                if has_all:
                    ok = mp.get_total_num_seqs() == ref.get_total_num_seqs() and list(mp.get_all_tags()) == list(ref.get_all_tags())
                ev.append({"op": "meta", "ok": bool(ok)})

            r = rng.random()
            if r < 0.2:
                mp.finish_epoch(free_resources=r < 0.1)
            if 0.1 < r < 0.3:
                meta()
            late = rng.random() < 0.5  # ask for the meta information only after resources were freed
            for k in range(1, len(inits) + 1):
                init(mp, k)
                orders.append(seq_pass(mp, lens))
            for k, r in enumerate(refs):
                ev.append({"op": "cover" if ded and k < 2 else "same", "ep": k + 1, "seqs": r})
            if kind != "pp_filter":
                ev.append({"op": "union", "eps": list(range(1, c["P"] + 1)), "n": n})
            ref.init_seq_order(epoch=1)
            keys = sorted(ref.get_data_keys())
            ok = sorted(mp.get_data_keys()) == keys and all(mp.get_data_dtype(x) == ref.get_data_dtype(x) and mp.get_data_dim(x) == ref.get_data_dim(x) and mp.is_data_sparse(x) == ref.is_data_sparse(x) for x in keys)
            ev.append({"op": "meta", "ok": bool(ok)})
            if not late:
                meta()
            d = Driver(mp, orders, lens, known, ev, init)
            for _ in range(rng.randint(2, 5)):
                d.init(rng.randint(1, len(inits)))
                for _ in range(rng.randint(0, 30)):
                    d.step(rng)
                    if kind == "epmap" and d.st["la"] < d.st["lb"] and rng.random() < 0.3:
                        i = rng.randint(d.st["la"], d.st["lb"] - 1)
                        ev.append({"op": "epoch", "i": i, "v": int(mp.get_data(i, "ep")[0]), "want": inits[d.st["ep"] - 1]["epoch"]})
                if rng.random() < 0.4:
                    d.finish(free_resources=rng.random() < 0.5)
                    if rng.random() < 0.5:
                        meta()
        finally:
            del mp
            ds = ref = d = None
            gc.collect()
        return [{"cfg": {"order": orders, "lens": lens, "known": known, "exactfrac": False, "fracslack": 2 * c["nw"] if has_all else 0}, "ev": ev}]
