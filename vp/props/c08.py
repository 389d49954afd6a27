"""C08: legacy mini-batch construction (chunking + batching + BatchSetGenerator)."""
from ..harness import Prop
from .batch_common import BIG, models, gen_case


class P(Prop):
    id = "C08"
    trace_module = "BatchingTrace"
    rule = (
        "a case = corpus length profile x chunking x limits (frames per key, seqs, padding, min/max length) x recurrent or"
        " frame-wise mode, seeded; plus consumer histories (peek/advance/has_more/reset) on the batch set generator"
    )

    def models(self, tier):
        return models(tier)

    def cases(self, tier, rng):
        res = []
        for _ in range(15000 if tier == "thorough" else 2000):
            c = gen_case(rng, torch=False)
            r = rng.random()
            c["mode"] = "frames" if r < 0.15 else "gen" if r < 0.35 else "slices"
            if c["mode"] == "frames":
                c["lens"] = [[x[0]] * c["nk"] for x in c["lens"]]
                c["bs"], c["bs_int"] = [min(c["bs"])] * c["nk"], True
                c["chunk"] = {"kind": "none", "size": [0] * c["nk"], "step": [0] * c["nk"], "min": [0] * c["nk"]}
                c["minl"], c["maxlen"] = [0] * c["nk"], [BIG] * c["nk"]
            if c["mode"] != "frames":
                if rng.random() < 0.4:
                    c["minl"] = [rng.randint(0, 4) for _ in range(c["nk"])]
                if rng.random() < 0.3:
                    c["maxlen"] = [rng.choice([BIG, rng.randint(1, c["maxl"] * 2)]) for _ in range(c["nk"])]
                if c["nk"] == 2 and rng.random() < 0.3 and c["chunk"]["kind"] != "none":
                    # a stream with at most one frame
                    for x in c["lens"]:
                        if rng.random() < 0.6:
                            x[1] = rng.choice([0, 1, 1])
                if c["nk"] == 2 and c["chunk"]["kind"] != "none" and c["chunk"]["step"][0] != c["chunk"]["step"][1]:
                    st, mn = c["chunk"]["step"], c["chunk"]["min"]
                    for x in c["lens"]:
                        y = max(1, x[0] - rng.choice([0, 1, 2, 2, 3]))
                        if x[1] > 1 and (y - (mn[0] or 1)) // st[0] == (x[1] - (mn[1] or 1)) // st[1]:
                            x[0] = y
            c["mtot"] = rng.choice([BIG] * 5 + [1, 2, 3, 5])
            c["used"] = rng.random() < 0.3
            c["pad"] = rng.choice([None, None, 0, 1, 3, 8])
            c["ctx"] = rng.choice([[0, 0], [0, 0], [0, 0], [1, 1], [1, 2]]) if c["mode"] == "slices" else [0, 0]
            c["hist"] = rng.randint(0, 10**9)
            c["shuffle"] = c["mode"] == "gen" and rng.random() < 0.3
            res.append(c)
        return res

    def run_case(self, c, scratch):
        import numpy, random
        from returnn.datasets.generating import StaticDataset
        from returnn.datasets.cached2 import CachedDataset2
        from returnn.datasets.basic import DatasetSeq
        from returnn.util.basic import NumbersDict

        keys = ["data", "classes"][: c["nk"]]
        kw = {}
        ch = c["chunk"]
        if ch["kind"] != "none":
            ks = [k for k, s in zip(keys, ch["size"]) if s]
            if c.get("chunk_as_int"):
                kw.update(chunking=(ch["size"][0], ch["step"][0]), min_chunk_size=ch["min"][0])
            else:
                g = lambda x: {k: v for k, v in zip(keys, x) if k in ks}
                kw.update(chunking=(g(ch["size"]), g(ch["step"])), min_chunk_size=g(ch["min"]))
        if c["ctx"] != [0, 0]:
            kw["context_window"] = {"data": sum(c["ctx"]) + 1, **({"classes": 1} if c["nk"] > 1 else {})}
        data = [{k: numpy.zeros((ln, 1) if k == "data" else (ln,), "float32" if k == "data" else "int32") for k, ln in zip(keys, ls)} for ls in c["lens"]]

        class DS(CachedDataset2):
            def __init__(self, **kw):
                super().__init__(**kw)
                self.num_inputs = 1
                self.num_outputs = {"data": (1, 2), "classes": (10, 1)} if c["nk"] > 1 else {"data": (1, 2)}

            def init_seq_order(self, epoch=None, **kwargs):
                super().init_seq_order(epoch=epoch, **kwargs)
                self._num_seqs = len(data)
                return True

            def get_data_keys(self):
                return keys

            def get_target_list(self):
                return keys[1:]

            def _collect_single_seq(self, seq_idx):
                return DatasetSeq(seq_idx, features=data[seq_idx])

        ds = DS(**kw)
        ds.initialize()
        ds.init_seq_order(epoch=1)
        d = lambda v: v[0] if c["bs_int"] else {k: x for k, x in zip(keys, v)}
        opts = dict(recurrent_net=c["mode"] != "frames", batch_size=d(c["bs"]), max_seqs=-1 if c["ms"] == BIG else c["ms"])
        if c["mode"] != "frames":
            if c["nk"] == 2 and c["maxlen"][0] == BIG and c["maxlen"][1] != BIG and c["hist"] % 2:
                opts["max_seq_length"] = -c["maxlen"][1]  # documented as: limit for the classes
            elif c["maxlen"][0] != c["maxlen"][-1]:
                opts["max_seq_length"] = {k: x for k, x in zip(keys, c["maxlen"]) if x != BIG}
            elif c["maxlen"][0] != BIG:
                opts["max_seq_length"] = c["maxlen"][0]
            opts["min_seq_length"] = c["minl"][0] if c["minl"][0] == c["minl"][-1] else dict(zip(keys, c["minl"]))
            if c["pad"] is not None:
                opts["max_pad_size"] = c["pad"]
        if c["mtot"] != BIG:
            opts["max_total_num_seqs"] = c["mtot"]
        if c["used"]:
            opts["used_data_keys"] = set(keys)
        cfg = dict(
            mtot=c["mtot"],
            nk=c["nk"], mode=c["mode"], seqs=[{"id": i, "lens": ls} for i, ls in enumerate(c["lens"])], chunk=ch, filter="chunk",
            minl=c["minl"], maxl=c["maxlen"], bs=[c["bs"]] * max(1, c["n"]), ms=[c["ms"]] * max(1, c["n"]),
            pad=[BIG if c["pad"] is None or c["mode"] == "frames" else c["pad"]] * c["nk"], ctx=c["ctx"], anyorder=False, meta=False,
        )  # fmt: skip
        ev = []
        if c["mode"] != "gen":
            gen = ds.generate_batches(**opts)
            while gen.has_more():
                (b,) = gen.peek_next_n(1)
                gen.advance(1)
                items = []
                for sq in b.seqs:
                    items.append({"p": sq.seq_idx + 1, "w": [[int(sq.seq_start_frame[k]), int(sq.seq_end_frame[k])] for k in keys],
                                  "off": int(sq.batch_frame_offset["data"] if isinstance(sq.batch_frame_offset, NumbersDict) else sq.batch_frame_offset)})
                if c["mode"] == "slices":
                    assert [sq.batch_slice for sq in b.seqs] == list(range(len(b.seqs))), "batch slices wrong"
                ev.append({"op": "batch", "items": items, "n": b.num_slices, "T": [int(b.max_num_frames_per_slice[k]) for k in keys]})
            return [{"cfg": cfg, "ev": ev}]
        # generator protocol
        ref = []
        g0 = ds.generate_batches(**opts)
        sig = lambda b: tuple((s.seq_idx, str(sorted(s.seq_start_frame.dict.items())), str(s.seq_start_frame.value)) for s in b.seqs)
        while g0.has_more():
            ref.append(sig(g0.peek_next_n(1)[0]))
            g0.advance(1)
        ds.init_seq_order(epoch=1)
        from returnn.engine.batch import BatchSetGenerator

        cache = c["shuffle"] or c["hist"] % 2 == 0
        gen = BatchSetGenerator(dataset=ds, generator=iter_batches(ds, opts), shuffle_batches=c["shuffle"], cache_whole_epoch=cache)
        rng = random.Random(c["hist"])
        pos, total, avail = 0, len(ref), 0
        # (on the first pass the batches come from the generator, in order; shuffling concerns the later passes)
        cfg = dict(cfg, total=total, shuffle=c["shuffle"], mode="gen", seqs=[])
        passes = 2 if cache else 1
        for ps in range(passes):
            for _ in range(30):
                r = rng.random()
                if r < 0.4:
                    k = rng.randint(1, 4)
                    got = [ref.index(sig(b)) + 1 for b in gen.peek_next_n(k)]
                    avail = max(avail, len(got))
                    ev.append({"op": "peek", "n": k, "r": got})
                elif r < 0.6 and avail:
                    k = rng.randint(1, avail)
                    gen.advance(k)
                    avail -= k
                    pos += k
                    ev.append({"op": "advance", "n": k})
                elif r < 0.8:
                    ev.append({"op": "more", "r": bool(gen.has_more())})
                elif r < 0.9:
                    ev.append({"op": "idx", "r": gen.get_current_batch_idx()})
                elif pos > 0:
                    ev.append({"op": "cfrac", "r": int(gen.completed_frac() * 1e6)})
            if ps == 0 and passes == 2:
                # finish the pass
                while gen.has_more():
                    got = [ref.index(sig(b)) + 1 for b in gen.peek_next_n(1)]
                    ev.append({"op": "peek", "n": 1, "r": got})
                    gen.advance(1)
                    ev.append({"op": "advance", "n": 1})
                gen.reset()
                pos = avail = 0
                ev.append({"op": "reset"})
        return [{"cfg": cfg, "ev": ev}]


def iter_batches(ds, opts):
    """the batches of the dataset, via its public API"""
    gen = ds.generate_batches(**opts)
    while gen.has_more():
        yield gen.peek_next_n(1)[0]
        gen.advance(1)
