"""C09: the PyTorch data pipeline (filter, chunking, batching, buckets, batch shuffling, collation, data loader)."""
from ..harness import Prop
from .batch_common import BIG, models, gen_case
from . import dskit


class BsFn:
    """picklable user function: limits by seq idx"""

    def __init__(self, vals):
        self.vals = vals

    def __call__(self, *, seq_idx, epoch, epoch_continuous, **_kw):
        return self.vals[seq_idx % len(self.vals)]


def add_scalar(d):
    import numpy

    return {**d, "sc": numpy.array(int(str(d["seq_tag"])[4:]) + 1, dtype="int32")}


class P(Prop):
    id = "C09"
    trace_module = "BatchingTrace"
    rule = (
        "a case = length profile x length filter x chunking (int/dict) x batching (frame limit int/dict/user function,"
        " max_seqs int/user function, or buckets) x online batch shuffling x data loader workers (0/1); content of every"
        " collated batch is decoded back into (sequence, frame window) from the frame values"
    )
    case_timeout = 120

    def models(self, tier):
        return models(tier)

    def cases(self, tier, rng):
        res = []
        big = tier == "thorough"
        for i in range(8000 if big else 1500):
            c = gen_case(rng, torch=True)
            c["mode"] = "bucket" if rng.random() < 0.25 else "slices"
            if c["mode"] == "bucket":
                lims = sorted(rng.sample(range(1, 16), rng.randint(1, 4)))
                c["buckets"] = [[x, rng.randint(1, 4)] for x in lims]
                c["lkey"] = rng.randint(1, c["nk"])
                c["rbp"] = rng.choice([0.0, 0.0, 0.5])
            else:
                if rng.random() < 0.3:
                    c["msf"] = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
                if rng.random() < 0.3:
                    c["bsf"] = [rng.randint(1, 40) for _ in range(rng.randint(1, 4))]
            c["shuf"] = rng.choice([0, 0, 0, 1, 2, 3, 10])
            c["seed"] = rng.choice([None, rng.randint(0, 1000)])
            c["cdt"] = rng.choice(["int32", "int32", "uint16", "uint32", "int64", "uint8"])
            c["scal"] = rng.random() < 0.3 and not c.get("chunk_as_int")
            c["workers"] = 1 if i in (7, 8, 9, 10) or (big and i % 100 == 0) else 0
            res.append(c)
        return res

    def run_case(self, c, scratch):
        import numpy
        from returnn.datasets.generating import StaticDataset
        from returnn.torch.data import pipeline as dp
        from returnn.torch.data import returnn_dataset_wrapper as w

        keys = ["data", "classes"][: c["nk"]]
        nk = c["nk"]
        lens = c["lens"]
        cdt = "int32" if c["workers"] or (c["cdt"] == "uint8" and max(l for ls in lens for l in ls) + len(lens) * 50 > 200) else c["cdt"]
        off = {"int32": 0, "uint16": 40000, "uint32": 2**31 + 7, "int64": 2**40, "uint8": 0}[cdt]
        scal = c["scal"] and not c["workers"]
        data = [
            {
                "data": dskit.feat(i + 1, ls[0]),
                **({"classes": (off + (i + 1) * 50 + numpy.arange(ls[1])).astype(cdt)} if nk > 1 else {}),
            }
            for i, ls in enumerate(lens)
        ]
        if c["workers"]:  # (StaticDataset cannot be pickled)
            import json
            from returnn.datasets.hdf import HDFDataset, SimpleHDFWriter

            wr = SimpleHDFWriter(scratch + "/x.hdf", dim=1, ndim=2, extra_type={"classes": (100000, 1, "int32")} if nk > 1 else {})
            for i, d_ in enumerate(data):
                wr.insert_batch(d_["data"][None], seq_len=[len(d_["data"])], seq_tag=["seq-%i" % i],
                                extra={"classes": d_["classes"][None]} if nk > 1 else {})  # fmt: skip
            wr.close()
            ds = HDFDataset(files=[scratch + "/x.hdf"], use_cache_manager=False)
            ds.initialize()
        else:
            ds = StaticDataset(data=data, output_dim={"data": (1, 2), **({"classes": (100000, 1)} if nk > 1 else {})})
        pipe = w.ReturnnDatasetIterDataPipe(ds)
        if scal:
            pipe = pipe.map(add_scalar)
        if c["minl"][0] or c["maxlen"][0] != BIG:
            pipe = dp.LenFilterDataPipe(pipe, min_seq_length=c["minl"][0], max_seq_length=None if c["maxlen"][0] == BIG else c["maxlen"][0])
        ch = c["chunk"]
        if ch["kind"] != "none":
            if c.get("chunk_as_int"):
                pipe = dp.ChunkingIterDataPipe(pipe, (ch["size"][0], ch["step"][0]), min_chunk_size=ch["min"][0])
            else:
                g = lambda x: {k: v for k, v, s in zip(keys, x, ch["size"]) if s}
                pipe = dp.ChunkingIterDataPipe(pipe, (g(ch["size"]), g(ch["step"])), min_chunk_size=g(ch["min"]))
        bs = [c["bs"]] * len(lens)
        ms = [c["ms"]] * len(lens)
        extra = {}
        if c["mode"] == "bucket":
            pipe = dp.BucketOrderingIterDataPipe(
                pipe, buckets=[tuple(b) for b in c["buckets"]], length_key=keys[c["lkey"] - 1], random_bucket_prob=c["rbp"], seed=c["seed"]
            )
            extra = dict(buckets=c["buckets"], lkey=c["lkey"], bestfit=c["rbp"] == 0.0)
        else:
            bsz = c["bs"][0] if c["bs_int"] else {k: v for k, v in zip(keys, c["bs"]) if v != BIG}
            if bsz == {}:
                bsz = None
            mss = c["ms"] if c["ms"] != BIG else [None, -1][len(lens) % 2]
            if "bsf" in c:
                bsz = BsFn(c["bsf"])
                bs = [[c["bsf"][i % len(c["bsf"])]] * nk for i in range(len(lens))]
            if "msf" in c:
                mss = BsFn(c["msf"])
                ms = [c["msf"][i % len(c["msf"])] for i in range(len(lens))]
            pipe = dp.BatchingIterDataPipe(pipe, batch_size=bsz, max_seqs=mss)
        shuf = c["shuf"] if c["mode"] != "bucket" else 0
        if shuf:
            pipe = dp.ShufflingDataPipe(pipe, buffer_size=shuf, monotonic_data_keys=("complete_frac", "seq_idx"), seed=c["seed"])
        loader = dp.create_data_loader_from_batches(pipe, {"num_workers": c["workers"]})
        traces = []
        for epoch in (1, 2):
            ev = []
            for b in loader:
                n = len(b["seq_tag"])
                items = []
                for j in range(n):
                    win, p = [], None
                    for ki, k in enumerate(keys):
                        ln = int(b[k + ":seq_len"][j])
                        a = b[k][j].numpy()
                        a = a[:ln].reshape(-1).astype("int64") - (off if k == "classes" else 0)
                        mul = 1000 if k == "data" else 50
                        s, t0 = int(a[0]) // mul, int(a[0]) % mul
                        if not 1 <= s <= len(lens) or not (a == a[0] + numpy.arange(len(a))).all():
                            s = 0
                        p = s if p in (None, s) else 0  # keys of different sequences: no sequence
                        win.append([t0, t0 + ln])
                    if scal and int(b["sc"][j]) != p:
                        p = 0
                    items.append({"p": p, "w": win})
                tags = [int(str(t)[4:]) for t in b["seq_tag"]]
                ev.append({"op": "batch", "items": items, "n": n, "T": [int(b[k].shape[1]) for k in keys], "tags": tags,
                           "epoch": int(b["epoch"]), "frac": int(float(b["complete_frac"]) * 1e6 + 0.5)})  # fmt: skip
            cfg = dict(nk=nk, mode=c["mode"], seqs=[{"id": i, "lens": ls} for i, ls in enumerate(lens)], chunk=ch, filter="seq",
                       minl=c["minl"], maxl=c["maxlen"], bs=bs, ms=ms, pad=[BIG] * nk, ctx=[0, 0], anyorder=bool(shuf), meta=True,
                       epoch=epoch, **extra)  # fmt: skip
            traces.append({"cfg": cfg, "ev": ev})
        return traces
