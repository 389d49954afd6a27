"""Driver for epoch ordering: asks real Dataset classes for (epoch, shard) parts in arbitrary histories."""
import json
import os
import re
import subprocess
import sys

METHODS = ["default", "reverse", "default_every_n", "sorted", "sorted_reverse", "random", "laplace", "sort_bin_shuffle",
           "sort_bin_shuffle_x2"]  # fmt: skip


def scheme_str(m):
    k = m["k"]
    if k == "default_every_n":
        return f"{k}:{m['b']}"
    if k == "random":
        return k if m["nth"] == 1 else f"{k}:{m['nth']}"
    if k in ("laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"):
        if m.get("plain"):
            return k  # two bins
        b = str(m["b"]) if not m.get("dot") else "." + str(m["dot"])
        return f"{k}:{b}" + (f":{m['nth']}" if m["nth"] > 1 else "")
    return k


class Source:
    """one configured corpus, of which instances for each shard can be made"""

    def __init__(self, case, scratch):
        self.case = case
        self.kind = case["kind"]
        self.scratch = scratch
        self.n = case["n"]
        self.lens = case["lens"]
        self.tags = ["seq-%i" % t for t in case["tags"]]
        self.make_files()

    def make_files(self):
        c = self.case
        if c["filt"]["on"]:
            with open(self.scratch + "/filter.txt", "w") as f:
                for t in c["filt"]["tags"]:
                    f.write("seq-%i\n" % t)
        if c.get("file_lens"):
            import gzip

            # for the order, the lengths of this file count, and not those of the data
            raw = repr({t: l for t, l in zip(self.tags, c["file_lens"])}).encode("utf8")
            if c["file_gz"]:
                with gzip.open(self.scratch + "/lens.py.gz", "wb") as f:
                    f.write(raw)
            else:
                with open(self.scratch + "/lens.py", "wb") as f:
                    f.write(raw)
        if self.kind in ("hdf", "hdf2"):
            from returnn.datasets.hdf import SimpleHDFWriter
            import numpy

            # several files: the dataset concatenates them
            nf = min(2, self.n)
            per = -(-self.n // nf)
            self.files = []
            for fi in range(nf):
                fn = f"{self.scratch}/d{fi}.hdf"
                idx = list(range(fi * per, min(self.n, (fi + 1) * per)))
                if not idx:
                    continue
                w = SimpleHDFWriter(fn, dim=1, ndim=2)
                for i in idx:
                    w.insert_batch(
                        numpy.full((1, self.lens[i], 1), i, dtype="float32"), seq_len=[self.lens[i]],
                        seq_tag=[self.tags[i]],
                    )  # fmt: skip
                w.close()
                self.files.append(fn)
        elif self.kind == "ogg":
            import zipfile

            self.files = [self.scratch + "/corpus.zip"]
            with zipfile.ZipFile(self.files[0], "w") as z:
                z.writestr(
                    "corpus.txt",
                    repr(
                        [
                            {"text": "t%i" % i, "duration": float(self.lens[i]), "file": "f%i.ogg" % i,
                             "seq_name": self.tags[i]}
                            for i in range(self.n)
                        ]
                    ),
                )  # fmt: skip

    def opts(self, shard):
        c = self.case
        d = dict(seq_ordering=scheme_str(c["m"]), partition_epoch=c["P"], repeat_epoch=c["R"])
        if c.get("callable_order"):
            s = d["seq_ordering"]
            d["seq_ordering"] = lambda *, epoch, **_kw: s
        if c["S"] > 1:
            d.update(_num_shards=c["S"], _shard_index=shard)
        if c["uniq"]:
            d["unique_seq_tags"] = True
        if c["filt"]["on"]:
            d["seq_list_filter_file"] = self.scratch + "/filter.txt"
        if c["fixed"]:
            d["fixed_random_seed"] = 42
        if c.get("file_lens"):
            d["seq_order_seq_lens_file"] = self.scratch + ("/lens.py.gz" if c["file_gz"] else "/lens.py")
        if c.get("offset"):
            d["random_seed_offset"] = c["offset"]
        return d

    def make(self, shard):
        import numpy

        o = self.opts(shard)
        n, lens, tags = self.n, self.lens, self.tags
        if self.kind == "base":
            from returnn.datasets.basic import Dataset

            class D(Dataset):
                def supports_sharding(self):
                    return True

                def get_all_tags(self):
                    return tags

                def get_total_num_seqs(self, *, fast=False):
                    return n

            return D(**o)
        from returnn.datasets import init_dataset

        if self.kind == "static":
            data = [{"data": numpy.full((lens[i], 1), i, dtype="float32")} for i in range(n)]
            return init_dataset({"class": "StaticDataset", "data": data, **o})
        if self.kind == "map":
            from returnn.datasets.map import MapDatasetBase, MapDatasetWrapper

            class M(MapDatasetBase):
                def __init__(self):
                    super().__init__(data_types={"data": {"shape": (None, 1)}})

                def __len__(self):
                    return n

                def __getitem__(self, i):
                    return {"data": numpy.full((lens[i], 1), i, dtype="float32")}

                def get_seq_len(self, i):
                    return lens[i]

                def get_seq_tag(self, i):
                    return tags[i]

            d = MapDatasetWrapper(M(), **o)
            d.initialize()
            return d
        if self.kind == "hdf":
            return init_dataset({"class": "HDFDataset", "files": self.files, "use_cache_manager": False, **o})
        if self.kind == "ogg":
            return init_dataset({"class": "OggZipDataset", "path": self.files, "audio": None, "targets": None, **o})
        raise ValueError(self.kind)

    def ask(self, ds, epoch):
        """:return: list of corpus seq indices in order"""
        if self.kind == "base":
            res = ds.get_seq_order_for_epoch(epoch, self.n, lambda i: self.lens[i])
            return [int(x) for x in res]
        ds.init_seq_order(epoch=epoch)
        res = []
        i = 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            if self.kind == "ogg":
                # raw orth text identifies the sequence
                v = ds.get_data(i, "raw")
                v = v.item() if hasattr(v, "item") else v
                v = v.decode() if isinstance(v, bytes) else v
                idx = int(str(v)[1:])
            else:
                idx = int(ds.get_data(i, "data").flat[0])
            tag = ds.get_tag(i)
            if tag != self.tags[idx]:
                return [-1]  # wrong tag: not a sequence of this corpus
            if self.kind in ("static", "map", "hdf") and ds.have_corpus_seq_idx():
                if int(ds.get_corpus_seq_idx(i)) != idx:
                    return [-2]
            res.append(idx)
            i += 1
        if ds.num_seqs != len(res):
            return [-3]
        return res


def run_history(case, scratch):
    """:return: list of events"""
    src = Source(case, scratch)
    insts = {}
    ev = []
    for ep, sh, fresh in case["hist"]:
        empty = False
        try:
            if fresh or sh not in insts:
                insts[sh] = src.make(sh)
            seq = src.ask(insts[sh], ep)
        except AssertionError as exc:
            if "empty after applying" in str(exc) or (case["filt"]["on"] and not str(exc)):
                # Documented refusal: the white list leaves nothing in this part.
                seq, empty = [], True
            else:
                raise
        ev.append({"ep": ep, "sh": sh, "seq": seq, "empty": empty})
    return ev


def run_subprocess(case, scratch):
    """same requests asked in a different process, with a different hash seed"""
    fn = scratch + "/case.json"
    sub = scratch + "/sub"
    os.makedirs(sub, exist_ok=True)
    json.dump(case, open(fn, "w"))
    env = dict(os.environ, PYTHONHASHSEED="4711")
    code = (
        "import json,sys; from vp.props import seqorder_common as S; "
        "print('RES'+json.dumps(S.run_history(json.load(open(sys.argv[1])), sys.argv[2])))"
    )
    out = subprocess.run([sys.executable, "-c", code, fn, sub], env=env, stdout=subprocess.PIPE, check=True, text=True)
    m = re.search(r"^RES(.*)$", out.stdout, re.M)
    return json.loads(m.group(1))


def run(case, scratch):
    ev = run_history(case, scratch)
    if case.get("subproc"):
        ev = ev + run_subprocess(case, scratch)
    cfg = {k: case[k] for k in ("n", "lens", "tags", "P", "S", "R", "uniq", "filt", "m", "fixed", "reshuf")}
    if case.get("file_lens"):
        cfg["lens"] = case["file_lens"]
    cfg["m"] = {k: cfg["m"][k] for k in ("k", "b", "nth")}
    return [{"cfg": cfg, "ev": ev}]


def random_case(rng, *, kinds, methods, want_scheme, max_n):
    kind = rng.choice(kinds)
    n = rng.choice([1, 2, 3, 5, 7, 8, 12, 13, rng.randint(1, max_n), rng.randint(1, max_n)])
    P = rng.choice([1, 1, 2, 3, 4, 5, rng.randint(1, 8)])
    S = rng.choice([1, 1, 2, 3, 4]) if kind in ("base", "hdf", "ogg") else 1
    R = rng.choice([1, 2, 3]) if P == 1 else 1
    mk = rng.choice(methods)
    if kind == "ogg" and mk == "default_every_n":
        mk = "default"
    b = rng.randint(1, 4)
    if mk == "default_every_n":
        b = rng.randint(1, max(1, min(4, n)))
    m = {"k": mk, "b": b, "nth": rng.choice([1, 1, 2, 3])}
    if mk == "default_every_n" or mk in ("default", "reverse", "sorted", "sorted_reverse"):
        m["nth"] = 1
    if mk in ("laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2") and rng.random() < 0.3:
        size = rng.randint(1, 4)
        bins = max(n // size, 2)
        if bins <= 5:
            m["dot"], m["b"] = size, bins
    elif mk in ("laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2") and rng.random() < 0.2:
        m.update(plain=True, b=2, nth=1)
    uniq = rng.random() < 0.2 and kind in ("base", "map") and mk in (
        "default", "reverse", "sorted", "sorted_reverse", "random") and True  # fmt: skip
    filt = {"on": False, "tags": []}
    tags = list(range(n))
    if uniq:
        tags = [rng.randint(0, max(1, n - 1)) for _ in range(n)]
    if rng.random() < (0.2 if not want_scheme else 0.1) and kind != "ogg" and not (kind == "static" and P > 1):
        filt = {"on": True, "tags": sorted(rng.sample(range(n), rng.randint(1, n))) + [n + 77]}
    lens = [rng.randint(1, rng.choice([1, 3, 20])) for _ in range(n)]
    fixed = rng.random() < 0.12
    full = FullN = n if not uniq else len(set(tags))
    reqs = []
    nfull = rng.choice([1, 2]) if not want_scheme else rng.choice([2, 3, 4])
    first = rng.choice([0, 0, 1, 5])
    if want_scheme and m["nth"] > 1:
        first -= first % m["nth"]
    for f in range(first, first + nfull):
        for k in range(P):
            for s in range(S):
                reqs.append([f * P + k + 1, s, False])
    while len(reqs) > 60:
        reqs.pop()
    how = rng.choice(["seq", "shuffle", "shuffle"])
    if how == "shuffle":
        rng.shuffle(reqs)
    extra = [list(r) for r in rng.sample(reqs, min(len(reqs), rng.randint(0, 5)))]
    for r in extra:
        r[2] = True
    reqs = [[e, s, rng.random() < 0.15] for e, s, _ in reqs]
    hist = reqs + extra
    # reshuffling observable: a clash of two independent shuffles must be impossible in practice
    reshuf = mk == "random" and n >= 12 and not uniq and not filt["on"]
    file_lens = []
    if kind in ("base", "map", "hdf", "ogg") and not uniq and mk not in ("default", "reverse", "random") and rng.random() < 0.2:
        file_lens = [rng.randint(1, rng.choice([3, 20])) for _ in range(n)]
    return dict(file_lens=file_lens, file_gz=rng.random() < 0.5, kind=kind, n=n, P=P, S=S, R=R, m=m, uniq=uniq, filt=filt, tags=tags, lens=lens, fixed=fixed,
                hist=hist, reshuf=reshuf, offset=rng.choice([0, 0, 0, 3, 16127]),
                callable_order=rng.random() < 0.15)  # fmt: skip
