"""
Corpora whose content identifies every frame, and dataset definitions on top of them.
Frame t of sequence s under key k has value base(k) + 1000*s + t, so that any mix-up is visible.
"""
import os
import numpy


def feat(s, ln):
    return (1000.0 * s + numpy.arange(ln)).astype("float32")[:, None]


def cls(s, ln):
    return (s * 50 + numpy.arange(max(1, ln // 2)) % 50).astype("int32")


def ident(arr, lens, key="data"):
    """:return: index of the sequence whose data this is exactly, or -1"""
    arr = numpy.asarray(arr)
    if arr.size == 0:
        return -1
    if key == "data":
        s = int(arr.flat[0]) // 1000
        exp = feat(s, lens[s]) if 0 <= s < len(lens) else None
    else:
        s = int(arr.flat[0]) // 50
        exp = cls(s, lens[s]) if 0 <= s < len(lens) else None
    if exp is None or arr.shape != exp.shape or not (arr == exp).all():
        return -1
    return s


def tag(s):
    return "seq-%i" % s


def untag(t):
    try:
        return int(str(t)[len("seq-") :])
    except ValueError:
        return -1


def static(idxs, lens, **kw):
    """StaticDataset-like dataset with own tags, as class instance of a map dataset"""
    return {"class": "MapDatasetWrapper", "map_dataset": IdMap(idxs, lens), **kw}


def _mk_idmap():
    from returnn.datasets.map import MapDatasetBase

    class IdMap_(MapDatasetBase):
        def __init__(self, idxs, lens):
            super().__init__(
                data_types={"data": {"shape": (None, 1), "dim": 1}, "classes": {"shape": (None,), "sparse": True, "dim": 100000}}
            )
            self.idxs, self.lens = list(idxs), list(lens)

        def __len__(self):
            return len(self.idxs)

        def __getitem__(self, i):
            s = self.idxs[i]
            return {"data": feat(s, self.lens[s]), "classes": cls(s, self.lens[s])}

        def get_seq_len(self, i):
            return self.lens[self.idxs[i]]

        def get_seq_tag(self, i):
            return tag(self.idxs[i])

    return IdMap_


_idmap_cls = None


def IdMap(idxs, lens):
    global _idmap_cls
    if _idmap_cls is None:
        _idmap_cls = _mk_idmap()
    return _idmap_cls(idxs, lens)


def write_hdf(fn, idxs, lens):
    from returnn.datasets.hdf import SimpleHDFWriter

    w = SimpleHDFWriter(fn, dim=1, ndim=2, extra_type={"classes": (100000, 1, "int32")})
    for s in idxs:
        c = cls(s, lens[s])
        w.insert_batch(
            feat(s, lens[s])[None], seq_len=[lens[s]], seq_tag=[tag(s)], extra={"classes": c[None]},
        )  # fmt: skip
    w.close()


def custom_dataset(orders, lens, known, log, frac=None, nested_cls=None):
    """A user-defined CachedDataset2: the documented extension point."""
    from returnn.datasets.cached2 import CachedDataset2
    from returnn.datasets.basic import DatasetSeq

    class D(CachedDataset2):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.num_inputs = 1
            self.num_outputs = {"data": (1, 2), "classes": (100000, 1)}

        def init_seq_order(self, epoch=None, seq_list=None, seq_order=None):
            super().init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
            self.o = orders[epoch - 1] if epoch else []
            if known or not epoch:
                self._num_seqs = len(self.o)
            return True

        def _collect_single_seq(self, seq_idx):
            if self.epoch:
                log.append(seq_idx)
            if seq_idx >= len(self.o):
                return None
            s = self.o[seq_idx]
            return DatasetSeq(
                seq_idx=seq_idx, seq_tag=tag(s), features={"data": feat(s, lens[s]), "classes": cls(s, lens[s])},
                complete_frac=frac(seq_idx) if frac else None,
            )  # fmt: skip

    d = D()
    d.initialize()
    return d


def pp_map_seq(tensor_dict, **_kw):
    return tensor_dict


def pp_stream(it, **_kw):
    yield from it


def build(kind, p, scratch, log):
    """
    :param p: dict with n, lens, orders (custom), ordering, P, ...
    :return: dataset
    """
    from returnn.datasets import init_dataset

    n, lens = p["n"], p["lens"]
    so = p.get("ordering", "default")
    P = p.get("P", 1)
    h = n // 2
    if kind == "custom_known":
        return custom_dataset(p["orders"], lens, True, log)
    if kind == "custom_unknown":
        return custom_dataset(p["orders"], lens, False, log)
    if kind == "map":
        return init_dataset(static(range(n), lens, seq_ordering=so, partition_epoch=P))
    if kind == "static":
        data = [{"data": feat(s, lens[s]), "classes": cls(s, lens[s])} for s in range(n)]
        return init_dataset(
            {"class": "StaticDataset", "data": data, "output_dim": {"data": (1, 2), "classes": (100000, 1)},
             "seq_ordering": so, "partition_epoch": P}
        )  # fmt: skip
    if kind in ("hdf", "hdfcache", "hdf_nextgen"):
        files = []
        for j, idxs in enumerate([range(0, h), range(h, n)]):
            fn = f"{scratch}/{j}.hdf"
            if len(idxs):
                if not os.path.exists(fn):
                    write_hdf(fn, idxs, lens)
                files.append(fn)
        kw = {"cache_byte_size": p.get("cache", 1)} if kind == "hdfcache" else {}
        return init_dataset(
            {"class": "HDFDataset", "files": files, "use_cache_manager": False, "seq_ordering": so,
             "partition_epoch": P, **kw}
        )  # fmt: skip
    dm = {"data": ("a", "data"), "classes": ("b", "classes")}
    if kind == "meta":
        return init_dataset(
            {"class": "MetaDataset", "datasets": {"a": static(range(n), lens), "b": static(list(range(n))[::-1], lens)},
             "data_map": dm, "seq_ordering": so, "partition_epoch": P}
        )  # fmt: skip
    if kind == "meta_ctrl":
        return init_dataset(
            {"class": "MetaDataset",
             "datasets": {"a": static(range(n), lens, seq_ordering=so, partition_epoch=P), "b": static(list(range(n))[::-1], lens)},
             "data_map": dm, "seq_order_control_dataset": "a"}
        )  # fmt: skip
    if kind == "meta_hdf":
        fn = f"{scratch}/m.hdf"
        if not os.path.exists(fn):
            write_hdf(fn, range(n), lens)
        return init_dataset(
            {"class": "MetaDataset",
             "datasets": {"a": {"class": "HDFDataset", "files": [fn], "use_cache_manager": False, "seq_ordering": so, "partition_epoch": P},
                          "b": static(list(range(n))[::-1], lens)},
             "data_map": dm, "seq_order_control_dataset": "a"}
        )  # fmt: skip
    if kind == "concat":
        return init_dataset(
            {"class": "ConcatDataset", "datasets": [static(range(0, h), lens, seq_ordering=so, partition_epoch=P), static(range(h, n), lens, seq_ordering=so, partition_epoch=P)]}
        )  # fmt: skip
    if kind == "combined":
        return init_dataset(
            {"class": "CombinedDataset",
             "datasets": {"a": static(range(0, h), lens), "b": static(range(h, n), lens)},
             "data_map": {("a", "data"): "data", ("a", "classes"): "classes", ("b", "data"): "data", ("b", "classes"): "classes"},
             "seq_ordering": so, "partition_epoch": P}
        )  # fmt: skip
    if kind == "concatseqs":
        import json

        # singleton "concatenations": identity content
        with open(scratch + "/l.txt", "w") as f:
            f.write("".join(tag(s) + "\n" for s in range(n)))
        with open(scratch + "/len.txt", "w") as f:
            f.write(repr({tag(s): lens[s] for s in range(n)}))
        return init_dataset(
            {"class": "ConcatSeqsDataset", "dataset": static(range(n), lens), "seq_list_file": scratch + "/l.txt",
             "seq_len_file": scratch + "/len.txt", "seq_ordering": so, "partition_epoch": P}
        )  # fmt: skip
    if kind == "variable":
        return init_dataset(
            {"class": "VariableDataset",
             "get_dataset": lambda *, epoch, **_: {"class": "MapDatasetWrapper", "map_dataset": _imap(n, lens), "seq_ordering": so if epoch % 2 else "reverse"}}
        )  # fmt: skip
    if kind == "multiepoch":
        return init_dataset(
            {"class": "MultiEpochDataset", "multi_epoch": 2, "dataset": static(range(n), lens, seq_ordering=so, partition_epoch=2)}
        )  # fmt: skip
    if kind == "pp":
        return init_dataset(
            {"class": "PostprocessingDataset", "dataset": static(range(n), lens, seq_ordering=so, partition_epoch=P),
             "map_seq": pp_map_seq}
        )  # fmt: skip
    if kind == "pp_stream":
        return init_dataset(
            {"class": "PostprocessingDataset", "dataset": static(range(n), lens, seq_ordering=so, partition_epoch=P),
             "map_seq_stream": pp_stream}
        )  # fmt: skip
    raise ValueError(kind)


_imaps = {}


def _imap(n, lens):
    k = (n, tuple(lens))
    if k not in _imaps:
        _imaps[k] = IdMap(range(n), lens)
    return _imaps[k]


# kinds for which num_seqs is known right after init_seq_order
KNOWN = {"custom_known", "map", "static", "hdf", "meta", "meta_ctrl", "meta_hdf", "concat", "combined",
         "concatseqs", "variable", "pp"}  # fmt: skip
ALL = sorted(KNOWN | {"custom_unknown", "multiepoch", "pp_stream"})
