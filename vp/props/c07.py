"""C07: what is written to HDF files is what is read from them."""
import os
import numpy
from ..harness import Prop
from . import sched

EXTRAS = ["classes", "align", "ctc", "data_len", "zz"]
TAGS = ["seq-%i", "a/b/%i/x", "t\u00e4g %i", "very-" + "long-" * 20 + "%i", "%i", "path/" * 60 + "%i"]


def rnd(rng, n, hi):
    return [rng.randint(0, hi) for _ in range(n)]


class P(Prop):
    id = "C07"
    trace_module = "HdfStoreTrace"
    rule = (
        "histories of SimpleHDFWriter sessions (padded batches with 1-3 axes, several dynamic axes, extra streams incl. scalars/strings, labels, zero lengths,"
        " extension of existing files, crash at every file system operation of close or before) and HDFDatasetWriter dumps of real datasets, read back by HDFDataset"
        " over one or several files, and NextGenHDFDataset files of every stream kind"
    )
    assumptions = ("values are small integers", "within one file, streams first seen after the first sequence are not generated (the writer refuses them)")

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT OnlyComplete\nINVARIANT BoxOk\nPROPERTY Grows\nCONSTANTS NRec=%i NRuns=%i Atomic=TRUE\n"
        return [("HdfStoreMC", c % ((6, 5) if big else (4, 3)), {"workers": 2, "timeout": 3000})]

    def cases(self, tier, rng):
        big = tier == "thorough"
        out = []
        for _ in range(6000 if big else 700):
            out.append(self._simple(rng))
        for _ in range(2500 if big else 300):
            out.append(self._dump(rng))
        for _ in range(1000 if big else 100):
            out.append(self._nextgen(rng))
        return out

    def _streams(self, rng):
        """layout of the extra streams of a file: key -> (kind, dim)"""
        ks = rng.sample(EXTRAS, rng.choice([0, 1, 1, 2, 2, 3]))
        return [[k, rng.choice(["sparse", "sparse", "dense", "scalar", "str", "float"]), rng.randint(1, 3)] for k in ks]

    def _simple(self, rng):
        form = rng.choice(["dense", "dense", "sparse", "sparse", "2d", "2dfeat", "3d", "vec"])
        dim = rng.randint(1, 4)
        nl = {"dense": 1, "sparse": 1, "2d": 2, "2dfeat": 2, "3d": 3, "vec": 0}[form]
        streams = self._streams(rng)
        if nl > 1:
            streams = [s for s in streams if s[0] != "sizes"]
        fixed = {}

        def batch():
            nb = rng.choice([1, 1, 2, 3])
            lens = [[rng.choice([0, 1, 1, 2, 3, 4]) if nl == 1 else rng.randint(1, 3) for _ in range(nl)] for _ in range(nb)]
            shape = [max(x[a] for x in lens) for a in range(nl)] + ([dim] if form in ("dense", "2dfeat", "vec") else [])
            n = int(numpy.prod(shape))
            hi = dim - 1 if form == "sparse" else 99
            seqs = []
            ex = [s for s in streams if first[0] or rng.random() < 0.85]
            rng.shuffle(ex)
            exlen = {k: rng.choice([0, 1, 2, 3]) if not first[0] else rng.choice([1, 2, 3]) for k, _, _ in ex}
            for x in lens:
                ext = []
                for k, kind, d in ex:
                    sh = {"scalar": [], "dense": [exlen[k], d], "float": [exlen[k]], "sparse": [exlen[k]], "str": [max(1, exlen[k])]}[kind]
                    ext.append({"k": k, "shape": sh, "raw": rnd(rng, int(numpy.prod(sh)), 9)})
                seqs.append({"tag": rng.choice(tagf) % cnt[0], "lens": x, "raw": rnd(rng, n, hi), "extra": ext})
                cnt[0] += 1
            first[0] = False
            return {"op": "insert", "shape": shape, "seqs": seqs}

        cnt = [0]
        tagf = TAGS if rng.random() < 0.3 else TAGS[:1]
        h = []
        files = ["f%i" % i for i in range(rng.choice([1, 1, 2, 3]))]
        for f in files:
            first = [True]
            nsess = rng.choice([1, 1, 2, 3])
            for s in range(nsess):
                h.append({"op": "open", "f": f, "ext": s > 0})
                for _ in range(rng.choice([1, 1, 2, 4])):
                    h.append(batch())
                r = rng.random()
                if r < 0.25:
                    h.append({"op": "crash", "at": rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12])})
                    h.append({"op": "exists", "f": f})
                    h.append({"op": "tryread", "f": f})
                    # carry on: as before the crash or extending what was published
                    h.append({"op": "reopen", "f": f})
                    first = [True]
                    for _ in range(rng.choice([1, 2])):
                        h.append(batch())
                h.append({"op": "close"})
                h.append({"op": "exists", "f": f})
                h.append({"op": "read", "fs": [f]})
        h.append({"op": "read", "fs": files})
        h.append({"op": "labels", "f": files[0]})
        return {
            "kind": "simple", "form": form, "dim": dim, "nl": nl, "streams": streams, "h": h, "dtype": rng.choice(["float32", "float32", "int32", "uint8", "float64"]),
            "labels": rng.random() < 0.5, "extype": rng.choice(["no", "no", "yes", "labels"]), "list_len": rng.random() < 0.5,
        }  # fmt: skip

    def _dump(self, rng):
        n = rng.randint(1, 6)
        keys = rng.choice([["data", "classes"], ["data"], ["data", "classes", "ctc"], ["data", "align", "zz", "classes"], ["data", "ctc"], ["classes", "align"], ["data", "zz", "b"]])
        kinds = {k: rng.choice(["sparse", "dense", "float", "sparse"]) for k in keys}
        kinds[keys[0]] = rng.choice(["dense", "sparse"])
        tagf = rng.choice(TAGS)
        recs = []
        dims = {k: rng.randint(1, 4) for k in keys}
        for i in range(n):
            d = []
            for k in keys:
                ln = rng.choice([0, 1, 2, 3, 4]) if i else rng.randint(1, 4)
                sh = [ln, dims[k]] if kinds[k] == "dense" else [ln]
                d.append([k, sh, rnd(rng, int(numpy.prod(sh)), 9)])
            recs.append({"tag": tagf % i, "d": d})
        targets = rng.choice(["rest", "rest", "all", "none1"])
        start = rng.choice([0, 0, rng.randint(0, n - 1)])
        return {
            "kind": "dump", "keys": keys, "kinds": kinds, "dims": dims, "recs": recs, "targets": targets, "start": start,
            "end": rng.choice([None, None, rng.randint(start + 1, n)]), "order": rng.choice(["default", "default", "reverse", "random", "sorted"]), "epoch": rng.choice([1, 1, 3]),
            "labels": rng.random() < 0.5, "files": rng.choice([1, 1, 2]), "ulabels": rng.random() < 0.4,
        }  # fmt: skip

    def _nextgen(self, rng):
        n = rng.randint(1, 5)
        streams = []
        for k in rng.sample(["features", "classes", "align", "data"], rng.randint(1, 3)):
            streams.append([k, rng.choice(["feature_sequence", "sparse", "segment_alignment"]), rng.randint(1, 4)])
        files = rng.choice([1, 1, 2])
        recs = []
        for i in range(n * files):
            d = {}
            for k, kind, dim in streams:
                if kind == "feature_sequence":
                    ln = rng.randint(1, 4)
                    d[k] = [[ln, dim], rnd(rng, ln * dim, 99)]
                elif kind == "sparse":
                    ln = rng.randint(1, 5)
                    d[k] = [[ln], rnd(rng, ln, dim - 1)]
                else:
                    ln = rng.randint(1, 3)
                    d[k] = [[ln, 2], sum([[rng.randint(0, dim - 1), rng.randint(1, 3)] for _ in range(ln)], [])]
            recs.append({"tag": "s/%i" % i if rng.random() < 0.5 else "s%i" % i, "d": d})
        return {"kind": "nextgen", "streams": streams, "recs": recs, "files": files}

    def setup_worker(self, scratch):
        sched.patch()

    # -- real code

    def run_case(self, c, scratch):
        import tempfile

        d = tempfile.mkdtemp(dir=scratch)
        return [{"cfg": {"kind": c["kind"]}, "ev": getattr(self, "_run_" + c["kind"])(c, d)}]

    def _read(self, ev, fs, d, cls="HDFDataset", **kw):
        from returnn.datasets.basic import init_dataset

        ds = init_dataset({"class": cls, "files": [d + "/" + f + ".hdf" for f in fs], **kw})
        ds.init_seq_order(epoch=1)
        keys = sorted(ds.get_data_keys())
        recs = []
        i = 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            r = {"tag": ds.get_tag(i), "d": []}
            lens = ds.get_seq_length(i)
            for k in keys:
                v = ds.get_data(i, k)
                if v.shape[0] != lens[k]:
                    ev.append({"op": "SeqLengthWrong"})
                r["d"].append([k, list(v.shape), dec(v)])
            recs.append(r)
            i += 1
        ev.append({"op": "read", "fs": fs, "recs": recs})
        ev.append({"op": "dtypes", "v": [[k, ds.get_data_dtype(k)] for k in keys]})
        if ds.num_seqs != len(recs):
            ev.append({"op": "NumSeqsWrong"})
        if cls == "HDFDataset":
            tags = [r["tag"] for r in recs]
            if ds.get_all_tags() != tags or ds.get_total_num_seqs() != len(recs):
                ev.append({"op": "AllTagsWrong"})
            for i in range(len(recs)):
                for k in keys if tags.count(tags[i]) == 1 else []:
                    v = ds.get_data_by_seq_tag(tags[i], k)
                    if dec(v) != dict((x[0], x[2]) for x in recs[i]["d"])[k]:
                        ev.append({"op": "ByTagWrong"})
                s = ds.get_corpus_seq(i)
                if s.seq_tag != tags[i] or any(dec(s.features[k]) != dict((x[0], x[2]) for x in recs[i]["d"])[k] for k in keys):
                    ev.append({"op": "CorpusSeqWrong"})
            for k in keys:
                dim = ds.get_data_dim(k)
                for r in recs:
                    sh = dict((x[0], x[1]) for x in r["d"])[k]
                    if len(sh) == 2 and dim != sh[1]:
                        ev.append({"op": "DimWrong"})
        return ds

    def _run_simple(self, c, d):
        from returnn.datasets.hdf import SimpleHDFWriter

        ev = []
        w = None
        lab = ["l%i" % i for i in range(c["dim"])] if c["labels"] and c["form"] in ("dense", "sparse") else None
        exdt = {"scalar": "int32", "sparse": "int32", "dense": "float32", "float": "float32", "str": "string"}
        exlab = {}
        if c["extype"] == "labels":
            exlab = {k: ["%s-%i" % (k, i) for i in range(d_)] for k, kind, d_ in c["streams"] if kind == "dense"}
        dtype = c["dtype"] if c["form"] != "sparse" else "int32"
        dts = [["data", dtype]] + [[k, "object" if kind == "str" else exdt[kind]] for k, kind, _ in c["streams"]]

        def open_(f, ext):
            kw = {}
            if c["extype"] != "no" and not (ext and c["extype"] == "labels"):
                kw["extra_type"] = {k: (d_ if kind == "dense" else 1, {"scalar": 0, "dense": 2}.get(kind, 1), exdt[kind]) for k, kind, d_ in c["streams"]}
                if c["nl"] > 1:
                    kw["extra_type"]["sizes"] = (1, 1, "int32")
                if exlab and not ext:
                    kw["extra_labels"] = exlab
            ev.append({"op": "open", "f": f, "ext": ext, "lab": ([] if ext else [["data", lab]] * bool(lab) + [[k, v] for k, v in exlab.items()]), "dt": dts})
            dim = c["dim"] if c["form"] in ("dense", "2dfeat", "sparse", "vec") else None
            ndim = {"dense": 2, "sparse": 1, "2d": 2, "2dfeat": 3, "3d": 3, "vec": 1}[c["form"]]
            return SimpleHDFWriter(d + "/" + f + ".hdf", dim=dim, ndim=ndim, labels=lab, extend_existing_file=ext, **kw)

        for h in c["h"]:
            op = h["op"]
            if op == "open":
                w = open_(h["f"], h["ext"])
            elif op == "reopen":
                w = open_(h["f"], os.path.exists(d + "/" + h["f"] + ".hdf"))
            elif op == "insert":
                nb = len(h["seqs"])
                inp = numpy.array([s["raw"] for s in h["seqs"]], dtype=dtype).reshape([nb] + h["shape"])
                sl = {a: [s["lens"][a] for s in h["seqs"]] for a in range(c["nl"])}
                if c["nl"] == 1 and c["list_len"]:
                    sl = sl[0]
                if c["nl"] == 1 and not c["list_len"]:
                    sl = {0: numpy.array(sl[0])}
                extra = {}
                for j, x in enumerate(h["seqs"][0]["extra"]):
                    kind = [s for s in c["streams"] if s[0] == x["k"]][0][1]
                    vals = [s["extra"][j]["raw"] for s in h["seqs"]]
                    if kind == "str":
                        a = numpy.array([["v%i" % v for v in vv] for vv in vals], dtype=object)
                    else:
                        a = numpy.array(vals, dtype=exdt[kind])
                    extra[x["k"]] = a.reshape([nb] + x["shape"])
                w.insert_batch(inp, seq_len=sl, seq_tag=[s["tag"] for s in h["seqs"]], extra=extra or None)
                ev.append(h)
            elif op == "close":
                w.close()
                ev.append({"op": "close"})
            elif op == "crash":
                if h["at"] < 0:
                    ev.append({"op": "crash", "inclose": False})
                else:
                    pr = sched.Proc(1)
                    pr.cmd.put(w.close)
                    done = False
                    for i in range(h["at"] + 1):
                        kind, x, _ = pr.out.get(timeout=20)
                        if kind == "op":
                            if i < h["at"]:
                                pr.go.release()
                        elif kind == "done":
                            done = True
                            break
                        else:
                            raise x
                    ev.append({"op": "close"} if done else {"op": "crash", "inclose": True})
                    self._keep = (getattr(self, "_keep", []) + [pr])[-50:]
                self._keepw = (getattr(self, "_keepw", []) + [w])[-50:]
                w = None
            elif op == "exists":
                ev.append({"op": "exists", "f": h["f"], "v": os.path.exists(d + "/" + h["f"] + ".hdf")})
            elif op == "tryread":
                if os.path.exists(d + "/" + h["f"] + ".hdf"):
                    self._read(ev, [h["f"]], d)
            elif op == "read":
                self._read(ev, h["fs"], d)
            elif op == "labels":
                ds = self._read([], [h["f"]], d)
                ev.append({"op": "labels", "f": h["f"], "v": [[k, list(v)] for k, v in sorted(ds.labels.items())]})
        return ev

    def _run_dump(self, c, d):
        from returnn.datasets.generating import StaticDataset
        from returnn.datasets.hdf import HDFDatasetWriter

        np_ = {"sparse": "int32", "dense": "float32", "float": "float32"}
        keys = c["keys"]
        targets = {"rest": [k for k in keys if k != "data"], "all": list(keys), "none1": []}[c["targets"]]
        if c["targets"] == "none1" and "data" not in keys:
            targets = keys[1:]
        if "data" in targets and "classes" in keys:
            targets.remove("data")  # (stored as "classes" then)
        data = [{k: numpy.array(v, dtype=np_[c["kinds"][k]]).reshape(sh) for k, sh, v in r["d"]} for r in c["recs"]]
        outdim = {k: (10 if c["kinds"][k] == "sparse" else c["dims"][k] if c["kinds"][k] == "dense" else 1, 2 if c["kinds"][k] == "dense" else 1) for k in keys}
        class DS(StaticDataset):
            def get_tag(self, i):
                return c["recs"][int(super().get_tag(i)[4:])]["tag"]

        ev = []
        for i in range(c["files"]):
            ds = DS(data=data, target_list=targets, seq_ordering=c["order"], output_dim=outdim)
            labs = {}
            if c["labels"]:
                labs = {k: [("\u00e4\u00df%i" if c["ulabels"] else "x%i") % j for j in range(outdim[k][0])] for k in keys if k != "data" and c["kinds"][k] == "sparse"}
                ds.labels.update(labs)
            ds.initialize()
            w = HDFDatasetWriter(d + "/f%i.hdf" % i)
            end = c["end"]
            w.dump_from_dataset(ds, epoch=c["epoch"] + i, start_seq=c["start"], **({"end_seq": end} if end is not None else {}), use_progress_bar=False)
            w.close()
            ds2 = DS(data=data, target_list=targets, seq_ordering=c["order"], output_dim=outdim)
            ds2.initialize()
            ds2.init_seq_order(epoch=c["epoch"] + i)
            order = []
            for j in range(len(data)):
                ds2.load_seqs(j, j + 1)
                order.append(int(StaticDataset.get_tag(ds2, j)[4:]))
            ren = {k: k for k in keys}
            inp = [k for k in keys if k not in targets]
            if inp:
                ren[("data" if "data" in inp else inp[0])] = "data"
            elif "data" in keys:
                ren["data"] = "classes"
            recs = [{"tag": c["recs"][j]["tag"], "d": [[ren[k], sh, v] for k, sh, v in c["recs"][j]["d"]]} for j in order]
            e = len(recs) if end is None else min(end + 1, len(recs))
            ev.append({"op": "dump", "f": "f%i" % i, "recs": recs, "start": c["start"], "end": e, "dt": [[ren[k], np_[c["kinds"][k]]] for k in keys], "lab": [[ren[k], v] for k, v in labs.items() if ren[k] != "data"]})  # fmt: skip
            r = self._read(ev, ["f%i" % i], d)
            ev.append({"op": "labels", "f": "f%i" % i, "v": [[k, list(v)] for k, v in sorted(r.labels.items())]})
        if c["files"] > 1:
            self._read(ev, ["f%i" % i for i in range(c["files"])], d)
        return ev

    def _run_nextgen(self, c, d):
        import h5py

        ev = []
        n = len(c["recs"]) // c["files"]
        np_ = {"feature_sequence": "float32", "sparse": "int32", "segment_alignment": "int32"}
        fs = ["f%i" % i for i in range(c["files"])]
        for i, f in enumerate(fs):
            recs = c["recs"][i * n : (i + 1) * n]
            with h5py.File(d + "/" + f + ".hdf", "w") as h:
                names = [r["tag"].replace("\\", "\\\\").replace("/", "\\") for r in recs]
                h.create_dataset("seq_names", data=[r["tag"].encode() for r in recs])
                for k, kind, dim in c["streams"]:
                    g = h.create_group("streams/" + k)
                    g.attrs["parser"] = kind
                    if kind != "feature_sequence":
                        g.create_dataset("feature_names", data=[("x%i" % j).encode() for j in range(dim)])
                    dd = g.create_group("data")
                    for nm, r in zip(names, recs):
                        sh, v = r["d"][k]
                        dd.create_dataset(nm, data=numpy.array(v, dtype=np_[kind]).reshape(sh))
            exp = []
            for r in recs:
                x = {"tag": r["tag"], "d": []}
                for k, kind, dim in c["streams"]:
                    sh, v = r["d"][k]
                    if kind == "segment_alignment":
                        al = []
                        for j in range(0, len(v), 2):
                            for t in range(v[j + 1]):
                                al += [v[j], int(t == v[j + 1] - 1)]
                        sh, v = [len(al)], al
                    x["d"].append([k, sh, v])
                exp.append(x)
            ev.append({"op": "dump", "f": f, "recs": exp, "start": 0, "end": len(exp), "dt": [[k, np_[kind]] for k, kind, _ in c["streams"]], "lab": []})
        from returnn.datasets.hdf import NextGenHDFDataset

        ds = NextGenHDFDataset(input_stream_name=c["streams"][0][0], files=[d + "/" + f + ".hdf" for f in fs])
        ds.initialize()
        ds.init_seq_order(epoch=1)
        recs = []
        i = 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            recs.append({"tag": ds.get_tag(i), "d": []})
            for k, _, _ in c["streams"]:
                v = ds.get_data(i, k)
                recs[-1]["d"].append([k, list(v.shape), dec(v)])
            i += 1
        ev.append({"op": "read", "fs": fs, "recs": recs})
        return ev


def dec(v):
    out = []
    for x in numpy.asarray(v).reshape(-1).tolist():
        if isinstance(x, bytes):
            x = x.decode()
        if isinstance(x, str):
            x = int(x[1:])
        assert x == int(x), x
        out.append(int(x))
    return out
