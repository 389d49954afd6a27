"""C10: post-processing keeps exactly what the mapping functions say."""
import numpy
from ..harness import Prop

STAGES_SEQ = [["id", 0], ["add", 3], ["dbl", 0], ["head", 2], ["retag", 0], ["idx", 0]]
STAGES_STREAM = [["id", 0], ["add", 5], ["dbl", 0], ["filter", 2], ["dup", 2], ["merge", 2], ["merge", 3], ["head", 1]]


def value(i, n):
    return i * 50 + numpy.arange(n)


class P(Prop):
    id = "C10"
    trace_module = "PostprocTrace"
    rule = (
        "PostprocessingDataset with pipelines (map_seq / map_seq_stream, Sequential, LaplaceOrdering) of mapping, filtering, duplicating, merging, re-tagging and randomised"
        " functions over sized, partitioned and streaming datasets (with and without known fraction), epoch histories incl. abandoned and repeated epochs, load windows"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT DoneOk\nINVARIANT MergeDup\nPROPERTY Term\nCHECK_DEADLOCK FALSE\nCONSTANTS NMax=%i LMax=%i Bins={1,2,3}\n"
        return [("PostprocMC", c % ((6, 2) if big else (5, 1)), {"workers": 4, "timeout": 3000})]

    def cases(self, tier, rng):
        out = []
        for _ in range(9000 if tier == "thorough" else 900):
            stream = rng.random() < 0.65
            n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, 12])
            c = {
                "n": n, "lens": [rng.choice([0, 1, 2, 3, 4, 5, 6]) for _ in range(n)], "stream": stream, "P": rng.choice([1, 1, 1, 2, 3]), "shards": rng.choice([1, 1, 1, 2]),
                "order": rng.choice(["default", "default", "reverse", "random", "sorted"]), "src": rng.choice(["map", "map", "hdf", "stream", "streamfrac"]),
                "laplace": 0, "rng": rng.random() < 0.25, "drop": rng.choice([False, False, True]), "tagless": False, "pnum": None, "seq": rng.random() < 0.5, "mapout": rng.random() < 0.3,
                "multi": rng.random() < 0.04,
            }  # fmt: skip
            c["shard"] = rng.randrange(c["shards"])
            if stream:
                c["stages"] = [rng.choice(STAGES_STREAM) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                c["laplace"] = rng.choice([0, 1, 2, 3, 4, 6, 20]) if not c["rng"] else 0
                c["drop"] = False
                keeps = all(s[0] not in ("filter", "dup", "merge") for s in c["stages"])
                c["pnum"] = rng.choice([None, True]) if keeps else None
            else:
                c["stages"] = [rng.choice(STAGES_SEQ) for _ in range(rng.choice([1, 1, 2, 3]))]
            h = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                h.append([rng.choice(["epoch", "epoch", "epoch", "part"]), rng.choice([1, 1, 2, 3, 4]), rng.randint(0, 3), rng.choice([1, 1, 2, 3])])
            c["h"] = h
            if c["src"] == "map":
                c["shards"], c["shard"] = 1, 0
            if c["src"] == "hdf" and not any(c["lens"]):
                c["src"] = "streamfrac"
            if c["src"].startswith("stream"):
                c["P"], c["shards"], c["shard"], c["order"] = 1, 1, 0, "default"
            out.append(c)
        return out

    def group_key(self, case):
        return "stream" if case["stream"] else "seq"

    def run_case(self, c, scratch):
        from returnn.datasets.basic import init_dataset, DatasetSeq
        from returnn.datasets.cached2 import CachedDataset2
        from returnn.datasets.map import MapDatasetBase
        from returnn.datasets.postprocessing import LaplaceOrdering, Sequential
        from returnn.tensor import Tensor, TensorDict, Dim
        from returnn.util.basic import NumbersDict  # noqa

        class Src(MapDatasetBase):
            def __init__(self):
                super().__init__(data_types={"data": {"shape": (None, 1), "dim": 1}, "classes": {"shape": (None,), "sparse": True, "dim": 100000, "dtype": "int32"}})

            def __len__(self):
                return c["n"]

            def __getitem__(self, i):
                return {"data": value(i, c["lens"][i]).astype("float32")[:, None], "classes": value(i, c["lens"][i]).astype("int32")}

            def get_seq_len(self, i):
                return c["lens"][i]

            def get_seq_tag(self, i):
                return "s%i" % i

        class Stream(CachedDataset2):
            def __init__(self):
                super().__init__()
                self.num_outputs = {"data": (1, 2), "classes": (100000, 1)}
                self.num_inputs = 1

            def initialize(self):
                super().initialize()
                self.init_seq_order(epoch=1)

            def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
                super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
                self._num_seqs = None
                return True

            def _collect_single_seq(self, seq_idx):
                i = seq_idx
                if i >= c["n"]:
                    return None
                fr = (i + 1) / (c["n"] + 1) if c["src"] == "streamfrac" else None
                return DatasetSeq(i, features=value(i, c["lens"][i]).astype("float32")[:, None], targets={"classes": value(i, c["lens"][i]).astype("int32")}, seq_tag="s%i" % i, complete_frac=fr)

        def inner():
            if c["src"] == "map":
                return {"class": "MapDatasetWrapper", "map_dataset": Src(), "seq_ordering": c["order"], "partition_epoch": c["P"]}
            if c["src"] == "hdf":
                return {"class": "HDFDataset", "files": [scratch + "/x.hdf"], "seq_ordering": c["order"], "partition_epoch": c["P"]}
            return Stream()

        if c["src"] == "hdf":
            from returnn.datasets.hdf import SimpleHDFWriter

            w = SimpleHDFWriter(scratch + "/x.hdf", dim=1, ndim=2)
            for i, n in enumerate(c["lens"]):
                w.insert_batch(value(i, n).astype("float32")[None, :, None], seq_len=[n], seq_tag=["s%i" % i], extra={"classes": value(i, n).astype("int32")[None]})
            w.close()

        def arr(td):
            return td.data["data"].raw_tensor, td.data["classes"].raw_tensor

        def put(td, x, y, tag=None, frac=None, keep=True):
            r = TensorDict()
            r.data["data"] = Tensor("data", dims=td.data["data"].dims, dtype="float32", raw_tensor=x)
            r.data["classes"] = Tensor("classes", dims=td.data["classes"].dims, dtype="int32", sparse_dim=td.data["classes"].sparse_dim, raw_tensor=y)
            if keep:
                for k, v in (("seq_tag", tag), ("complete_frac", frac)):
                    if k in td.data:
                        r.data[k] = td.data[k].copy_template()
                        r.data[k].raw_tensor = td.data[k].raw_tensor if v is None else v
            return r

        def seqwise(s, td, idx, rng):
            x, y = arr(td)
            d = int(rng.randint(0, 1000)) if c["rng"] else 0
            x, y = x + d, y + d
            tag = None
            if s[0] == "add":
                x, y = x + s[1], y + s[1]
            elif s[0] == "dbl":
                x, y = numpy.concatenate([x, x]), numpy.concatenate([y, y])
            elif s[0] == "head":
                x, y = x[: s[1]], y[: s[1]]
            elif s[0] == "idx":
                x, y = x + 1000 * idx, y + 1000 * idx
            elif s[0] == "retag":
                tag = numpy.array("t-" + str(td.data["seq_tag"].raw_tensor))
            return put(td, x.astype("float32"), y.astype("int32"), tag, keep=not c["drop"] or any(t[0] == "retag" for t in c["stages"]))

        def mk_seq(s):
            def f(td, *, seq_idx, rng, **kw):
                return seqwise(s, td, seq_idx, rng)

            return f

        def mk_stream(s):
            def f(it, *, rng, **kw):
                if s[0] in ("filter", "dup", "merge"):
                    buf = []
                    for td in it:
                        if s[0] == "filter":
                            if arr(td)[0].shape[0] % s[1] != 0:
                                yield td
                        elif s[0] == "dup":
                            for _ in range(s[1]):
                                yield put(td, *arr(td))
                        else:
                            buf.append(td)
                            if len(buf) == s[1]:
                                yield merge(buf)
                                buf = []
                    if buf:
                        yield merge(buf)
                else:
                    for i, td in enumerate(it):
                        yield seqwise(s, td, i, rng)

            f.preserves_num_seqs = s[0] not in ("filter", "dup", "merge")
            return f

        def merge(buf):
            return put(buf[0], numpy.concatenate([arr(t)[0] for t in buf]), numpy.concatenate([arr(t)[1] for t in buf]), frac=buf[-1].data["complete_frac"].raw_tensor)

        if c["stream"]:
            fs = [mk_stream(s) for s in c["stages"]]
            if c["laplace"]:
                fs.append(LaplaceOrdering(c["laplace"]))
            if not fs:
                fs.append(mk_stream(["id", 0]))
            kw = {"map_seq_stream": fs[0] if len(fs) == 1 and c["seq"] else Sequential(*fs)}
            if c["pnum"]:
                kw["map_seq_stream_preserves_num_seqs"] = True
        else:
            fs = [mk_seq(s) for s in c["stages"]]
            kw = {"map_seq": fs[0] if len(fs) == 1 and c["seq"] else Sequential(*fs)}
        if c["mapout"]:
            t = Dim(None, name="time")
            kw["map_outputs"] = {"data": {"dims": [t, Dim(1, name="f")], "dtype": "float32"}, "classes": {"dims": [t], "dtype": "int32", "sparse_dim": Dim(100000, name="c")}}

        def shards(d):
            return d

        def frac(f):
            return -1 if f is None else int(round(float(f) * 10000))

        def read(d, e, upto=None, win=1, at=None):
            items = []
            i = 0
            while (upto is None or i < upto) and (at is not None or d.is_less_than_num_seqs(i)):
                if at is not None:
                    if len(items) == len(at):
                        break
                    i = at[len(items)]
                d.load_seqs(i, i + win)
                x, y = d.get_data(i, "data"), d.get_data(i, "classes")
                x = x.reshape(-1).tolist()
                assert x == y.tolist(), (x, y.tolist())
                assert d.get_seq_length(i)["data"] == len(x)
                items.append({"tag": str(d.get_tag(i)), "v": [int(v) for v in x], "f": frac(d.get_complete_frac(i, allow_only_lr_suitable=True))})
                i += 1
            return items

        def nseqs(d):
            try:
                return int(d.num_seqs)
            except Exception:
                return -1

        def new():
            extra = {"_num_shards": c["shards"], "_shard_index": c["shard"]} if c["shards"] > 1 else {}
            return init_dataset({"class": "PostprocessingDataset", "dataset": inner(), **kw}, extra_kwargs=extra)

        def new_inner():
            extra = {"_num_shards": c["shards"], "_shard_index": c["shard"]} if c["shards"] > 1 else {}
            return init_dataset(inner(), extra_kwargs=extra) if c["src"] in ("map", "hdf") else inner()

        ref = new_inner()
        inn = []
        for e in range(1, 5):
            ref.init_seq_order(epoch=e)
            inn.append(read(ref, e))
        keeps = not c["stream"] or all(s[0] not in ("filter", "dup", "merge") for s in c["stages"])
        sized = keeps and c["src"] in ("map", "hdf")

        def count(e):
            ls = [len(x["v"]) for x in inn[e - 1]]
            for s in c["stages"]:
                if s[0] == "filter":
                    ls = [x for x in ls if x % s[1]]
                elif s[0] == "dup":
                    ls = [x for x in ls for _ in range(s[1])]
                elif s[0] == "merge":
                    ls = [sum(ls[j : j + s[1]]) for j in range(0, len(ls), s[1])]
                elif s[0] == "dbl":
                    ls = [2 * x for x in ls]
                elif s[0] == "head":
                    ls = [min(s[1], x) for x in ls]
            return len(ls)

        # (an epoch without any sequence is only allowed when the number of sequences is known)
        hist = [h for h in c["h"] if count(h[1]) > 0 or sized]
        ev = []
        ds = new()
        for op, e, k, win in hist:
            ds.init_seq_order(epoch=e)
            items = read(ds, e, k if op == "part" else None, win)
            ev.append({"op": op, "e": e, "items": items, "nseqs": nseqs(ds) if op == "epoch" else -1})
        ds2 = new()  # a fresh one gives the same
        for e in sorted({h[1] for h in hist}, reverse=True)[:2]:
            ds2.init_seq_order(epoch=e)
            ev.append({"op": "epoch", "e": e, "items": read(ds2, e), "nseqs": nseqs(ds2)})
            n = len(ev[-1]["items"])
            at = [i for i in range(n) if (i + c["n"] + e) % 3 == 0 or (e % 2 and i == n - 1)]
            ds2.init_seq_order(epoch=e)
            ev.append({"op": "skip", "e": e, "at": at, "items": read(ds2, e, at=at)})
        return [{"cfg": {"stages": c["stages"], "laplace": c["laplace"], "rng": c["rng"], "inner": inn, "sized": sized}, "ev": ev}]
