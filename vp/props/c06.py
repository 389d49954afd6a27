"""C06: composed datasets deliver exactly what their parts deliver."""
import pickle
import random
import numpy
from ..harness import Prop
from . import dskit

EOS = 999999


def frames(d, s, n):
    return d * 100000 + s * 100 + numpy.arange(n)


def part(d, ids, lens, clens, eos, **kw):
    return {"class": "MapDatasetWrapper", "map_dataset": Part(d, ids, lens, clens, eos), **kw}


_part_cls = None


def Part(*args):
    global _part_cls
    if _part_cls is None:
        from returnn.datasets.map import MapDatasetBase

        class Part_(MapDatasetBase):
            def __init__(self, d, ids, lens, clens, eos):
                super().__init__(data_types={"data": {"shape": (None, 1), "dim": 1}, "classes": {"shape": (None,), "sparse": True, "dim": 1000000}})
                self.d, self.ids, self.lens, self.clens, self.eos = d, list(ids), lens, clens, eos

            def __len__(self):
                return len(self.ids)

            def __getitem__(self, i):
                s = self.ids[i]
                c = frames(self.d, s, self.clens[s]).astype("int32")
                if self.eos:
                    c = numpy.concatenate([c, numpy.array([EOS], "int32")])
                return {"data": frames(self.d, s, self.lens[s]).astype("float32")[:, None], "classes": c}

            def get_seq_len(self, i):
                return self.lens[self.ids[i]]

            def get_seq_tag(self, i):
                return "seq-%i-%i" % (self.d, self.ids[i])

        _part_cls = Part_
    return _part_cls(*args)


def dec(arr):
    out = []
    for v in numpy.asarray(arr).reshape(-1):
        v = int(v)
        out.append([-1, 0, 0] if v == EOS else [v // 100000, v % 100000 // 100, v % 100])
    return out


class P(Prop):
    id = "C06"
    trace_module = "ComposeTrace"
    rule = (
        "ConcatDataset, CombinedDataset (all order modes, sampling_sizes, repeat_epoch, parts of unknown length, keys missing in parts), MetaDataset (data_map, parts in other"
        " orders and with more sequences, per-part tags, seq_list, control dataset), ConcatSeqsDataset (postfix removal, padding), MultiEpochDataset, VariableDataset over small"
        " parts whose frames identify themselves; every epoch read through seeded load windows; the parts' own orders are taken from stand-alone instances"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT CombinedOk\nINVARIANT ConcatOk\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxA=%i MaxB=%i MaxWin=3\n"
        return [("ComposeMC", c % ((3, 4) if big else (2, 3)), {"workers": 2})]

    def cases(self, tier, rng):
        kinds = ["concat", "combined", "combined", "meta", "meta", "concatseqs", "multi", "variable"]
        return [{"kind": kinds[j % len(kinds)], "rnd": rng.randint(0, 10**9)} for j in range(12000 if tier == "thorough" else 1000)]

    def setup_worker(self, scratch):
        from returnn.log import log

        log.initialize(verbosity=[2])

    def run_case(self, c, scratch):
        from returnn.datasets import init_dataset

        rng = random.Random(c["rnd"])
        kind = c["kind"]
        D = {"concat": rng.randint(1, 3), "combined": rng.randint(1, 3), "meta": rng.randint(2, 3), "concatseqs": 1, "multi": 1, "variable": 2}[kind]
        n = [rng.randint(1, 6) for _ in range(D)]
        if kind == "meta":
            n = [n[0]] + [n[0] + rng.randint(0, 2) for _ in range(D - 1)]  # other parts can have more
        lens = [[rng.randint(1, 4) for _ in range(k)] for k in n]
        eos = kind == "concatseqs" and rng.random() < 0.5
        clens = [[rng.randint(0 if eos else 1, 4) for _ in range(k)] for k in n]
        orders = ["default", "random", "sorted", "laplace:2", "reverse"]

        def mk(d, **kw):
            ids = list(range(n[d]))
            if c.get("shuf", True) and d > 0:
                random.Random(c["rnd"] + d).shuffle(ids)
            return part(d + 1, ids, lens[d], clens[d], eos, **kw)

        P_ = 1
        cfg = {
            "kind": kind, "law": "", "nk": 2, "len": [lens, clens], "eos": [False, eos], "P": 1, "R": 1, "m": 1, "src": [[1, 2]] * D, "size": [0] * D, "which": [], "list": [], "n": n[0],
            "given": [], "from": [], "map": [], "rmpost": [False, False], "multiple": [0, 0], "padto": [{"k": 0, "f": 0}, {"k": 0, "f": 0}], "inner": [],
        }  # fmt: skip
        keys, neps, inits, parts_ep, aband = ["data", "classes"], 2, None, None, None
        so = [{"seq_ordering": rng.choice(orders), "partition_epoch": max(1, min(rng.choice([1, 1, 2]), n[d]))} for d in range(D)]
        stream = kind == "concat" and rng.random() < 0.25
        subs = [mk(d, **so[d]) for d in range(D)]
        if stream:
            subs = [{"class": "PostprocessingDataset", "dataset": s, "map_seq_stream": dskit.pp_stream} for s in subs]
        if kind == "concat":
            cfg["law"], neps = "concat", 3
            if stream:
                cfg["nonum"] = True
            opts = {"class": "ConcatDataset", "datasets": subs}
        elif kind == "combined":
            names = rng.sample("abcxyz", D)
            names.sort()
            dm = {}
            cfg["src"] = []
            keys = ["data", "classes", "extra"]
            cfg["nk"] = 3
            for d, nm in enumerate(names):
                src = [0, 0, 0]
                src[rng.choice([0, 0, 2]) if d > 0 else 0] = 1
                src[1] = rng.choice([2, 2, 0])
                cfg["src"].append(src)
                for k in range(3):
                    if src[k]:
                        dm[(nm, ["data", "classes"][src[k] - 1])] = keys[k]
            used = sorted({k for s in cfg["src"] for k in range(3) if s[k]})
            keys = [keys[k] for k in used]
            cfg["nk"] = len(used)
            cfg["src"] = [[s[k] for k in used] for s in cfg["src"]]
            mode = rng.choice(["default", "random_dataset", "random", "reverse", "sample", "repeat"])
            items = list(zip(names, subs))
            rng.shuffle(items)
            opts = {"class": "CombinedDataset", "datasets": dict(items), "data_map": dm}
            if mode == "sample":
                cfg["size"] = [rng.randint(1, 2 * n[d]) for d in range(D)]
                opts["sampling_sizes"] = dict(zip(names, cfg["size"]))
                opts["seq_ordering"] = rng.choice(["default", "random"])
                cfg["law"], neps = "sample", 4
                subs = [mk(d, seq_ordering="default") for d in range(D)]  # (its sampling continues over the epochs)
                opts["datasets"] = dict(zip(names, subs))
            elif mode == "repeat":
                cfg["law"], cfg["R"] = "bag", 2
                opts.update(seq_ordering=rng.choice(["default", "random"]), repeat_epoch=2)
            else:
                if rng.random() < 0.5:
                    P_ = 2
                    for x in so:  # (the parts' own order must not change within the full epoch)
                        x["seq_ordering"] = rng.choice(["default", "sorted", "reverse"])
                    subs = [mk(d, seq_ordering=so[d]["seq_ordering"]) for d in range(D)]
                    opts["datasets"] = dict(zip(names, subs))
                    opts["partition_epoch"] = P_
                opts["seq_ordering"] = mode
                cfg["law"] = {"default": "interleave" if P_ > 1 else "concat", "random_dataset": "interleave"}.get(mode, "bag")
            if P_ > 1 and sum(n) < P_:
                P_ = opts["partition_epoch"] = 1
            neps = max(neps, 2 * P_) if P_ > 1 else neps
            cfg["P"] = P_
        elif kind == "meta":
            names = ["a", "b", "c"][:D]
            keys = ["data", "classes", "third"]
            cfg["nk"] = 3
            cfg["from"] = [{"d": rng.randint(1, D), "k": 1}, {"d": rng.randint(1, D), "k": 2}, {"d": rng.randint(1, D), "k": rng.randint(1, 2)}]
            dm = {keys[k]: (names[f["d"] - 1], ["data", "classes"][f["k"] - 1]) for k, f in enumerate(cfg["from"])}
            # per-part tags: corpus index i is sequence maps[d][i] of part d
            cfg["map"] = [rng.sample(range(n[d]), n[0]) if d else list(range(n[0])) for d in range(D)]
            cfg["map"][0] = rng.sample(range(n[0]), n[0])
            sl = {nm: ["seq-%i-%i" % (d + 1, s) for s in cfg["map"][d]] for d, nm in enumerate(names)}
            used = {f["d"] for f in cfg["from"]}
            ctl = rng.random() < 0.3
            if not ctl or 1 not in used:
                cfg["from"][0]["d"] = 1
                dm["data"] = ("a", "data")
            opts = {"class": "MetaDataset", "datasets": {nm: mk(d) for d, nm in enumerate(names)}, "data_map": dm}
            used = sorted({f["d"] for f in cfg["from"]})
            if len(used) < D:
                opts["datasets"] = {nm: x for nm, x in opts["datasets"].items() if names.index(nm) + 1 in used}
            fn = "%s/sl%i" % (scratch, c["rnd"])
            if rng.random() < 0.5:
                opts["seq_list_file"] = fn + ".pkl"
                with open(fn + ".pkl", "wb") as f:
                    pickle.dump({nm: sl[nm] for nm in opts["datasets"]}, f)
            else:
                opts["seq_list_file"] = {nm: "%s-%s.txt" % (fn, nm) for nm in opts["datasets"]}
                for nm, x in opts["seq_list_file"].items():
                    with open(x, "w") as f:
                        f.write("".join(t + "\n" for t in sl[nm]))
            P_ = min(rng.choice([1, 1, 2]), n[0])
            cfg["P"] = P_
            neps = 2 * P_
            if ctl:
                # the control part must have exactly the corpus, in corpus order
                o = rng.choice(orders)
                ids = cfg["map"][0]
                opts["datasets"]["a"] = part(1, ids, lens[0], clens[0], eos, seq_ordering=o, partition_epoch=P_)
                opts["seq_order_control_dataset"] = "a"
                cfg["law"] = "given"
                ref = init_dataset(opts["datasets"]["a"])
                for e in range(1, neps + 1):
                    ref.init_seq_order(epoch=e)
                    cfg["given"].append([cfg["map"][0].index(int(ref.get_tag(i).split("-")[2])) for i in range(ref.num_seqs)])
            else:
                opts.update(seq_ordering=rng.choice(["default", "random", "reverse"]), partition_epoch=P_)
                cfg["law"] = "corpus"
                if rng.random() < 0.4:
                    cfg["law"] = "given"
                    inits = []
                    for e in range(1, neps + 1):
                        g = rng.sample(range(n[0]), rng.randint(1, n[0]))
                        if rng.random() < 0.3:
                            g = rng.choices(range(n[0]), k=rng.randint(2, 5))
                        cfg["given"].append(g)
                        if rng.random() < 0.5:
                            inits.append({"seq_order": g})
                        else:
                            inits.append({"seq_list": [sl["a"][i] for i in g]})
                elif rng.random() < 0.5:
                    aband = {"seq_list": [sl["a"][i] for i in rng.sample(range(n[0]), rng.randint(1, n[0]))]}
        elif kind == "concatseqs":
            ls = [[rng.randrange(n[0]) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 5))]
            cfg["list"] = ls
            with open(scratch + "/l.txt", "w") as f:
                f.write("".join(";".join("seq-1-%i" % s for s in x) + "\n" for x in ls))
            with open(scratch + "/len.txt", "w") as f:
                f.write(repr({"seq-1-%i" % s: lens[0][s] for s in range(n[0])}))
            P_ = min(rng.choice([1, 1, 2]), len(ls))
            opts = {"class": "ConcatSeqsDataset", "dataset": mk(0), "seq_list_file": scratch + "/l.txt", "seq_len_file": scratch + "/len.txt", "seq_ordering": rng.choice(orders), "partition_epoch": P_}
            if eos and rng.random() < 0.8:
                opts["remove_in_between_postfix"] = {"classes": EOS}
                cfg["rmpost"][1] = True
            o = rng.random()
            if o < 0.3:
                m = rng.randint(2, 4)
                opts["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": m}
                cfg["multiple"][0] = m
            elif o < 0.6:
                f = rng.randint(1, 3)
                opts["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", f)}
                cfg["padto"][0] = {"k": 2, "f": f}
            cfg["law"], cfg["P"], neps = "taglists", P_, 2 * P_
            if rng.random() < 0.35:
                f0 = rng.randint(1, 3)
                f1 = rng.choice([0, 0, f0, f0 + 1])
                mx = rng.randint(150, 1000)
                cfg["filt"] = {"from": f0, "to": f1, "max": mx}
                cfg["law"], cfg["P"], neps = "filtered", 1, 4
                opts.update(partition_epoch=1, epoch_wise_filter={(f0, f1 or rng.choice([None, -1])): {"max_mean_len": mx / 100}}, seq_ordering="default")
                if rng.random() < 0.4:
                    opts["seq_ordering"] = "reverse"
                    cfg["list"] = ls[::-1]
        elif kind == "multi":
            m = rng.randint(1, 3)
            cfg["law"], cfg["m"] = "multi", m
            so[0]["partition_epoch"] = min(rng.randint(1, 3), n[0])
            sub = mk(0, **so[0])
            if rng.random() < 0.3:
                sub = {"class": "PostprocessingDataset", "dataset": sub, "map_seq_stream": dskit.pp_stream}
            subs = [sub]
            opts = {"class": "MultiEpochDataset", "dataset": sub, "multi_epoch": m}
            neps, parts_ep = 3, 3 * m
            if rng.random() < 0.3 and sub["class"] != "PostprocessingDataset":
                cfg["law"], inits = "given", []
                for e in range(1, neps + 1):
                    g = rng.sample(range(n[0]), rng.randint(1, n[0]))
                    cfg["given"].append(g)
                    inits.append({"seq_order": g} if rng.random() < 0.5 else {"seq_list": ["seq-1-%i" % i for i in g]})
        else:
            cfg["law"], neps = "variable", 4
            cfg["which"] = [rng.randint(1, 2) for _ in range(neps)]
            opts = {"class": "VariableDataset", "get_dataset": lambda *, epoch, **_: subs[cfg["which"][(epoch or 1) - 1] - 1], "dataset_lru_cache_size": rng.randint(1, 2)}
        # the parts alone
        if kind in ("concat", "combined", "multi", "variable"):
            for e in range(1, (parts_ep or neps) + 1):
                row = []
                for s in subs:
                    ds = init_dataset(s)
                    ds.init_seq_order(epoch=e)
                    o, i = [], 0
                    while ds.is_less_than_num_seqs(i):
                        ds.load_seqs(i, i + 1)
                        o.append(int(ds.get_tag(i).split("-")[2]))
                        i += 1
                    row.append(o)
                cfg["inner"].append(row)
        ds = init_dataset(opts)
        ev = []
        for e in range(1, neps + 1):
            if rng.random() < (0.6 if aband else 0.2):
                ds.init_seq_order(epoch=e, **(aband or {}))  # abandoned
                if rng.random() < 0.5 and ds.is_less_than_num_seqs(0):
                    ds.load_seqs(0, 1)
            ds.init_seq_order(epoch=e, **(inits[e - 1] if inits else {}))
            items, i = [], 0
            while ds.is_less_than_num_seqs(i):
                j = i + 1
                for _ in range(rng.randint(0, 2)):
                    if ds.is_less_than_num_seqs(j):
                        j += 1
                ds.load_seqs(i, j)
                for x in range(i, j):
                    tags = ds.get_tag(x).split(";")
                    ts = [int(t.split("-")[2]) for t in tags]
                    d = int(tags[0].split("-")[1])
                    if kind == "meta":
                        ts = [cfg["map"][d - 1].index(ts[0])]
                    items.append({"tag": ts, "d": d, "v": [dec(ds.get_data(x, k)) for k in keys]})
                i = j
                if i > 200:
                    break
            try:
                ns = int(ds.num_seqs)
            except NotImplementedError:
                ns = -1
            ev.append({"op": "epoch", "e": e, "items": items, "nseqs": ns})
        return [{"cfg": cfg, "ev": ev}]
