"""C28: text becomes the label ids which vocabulary, merges and options define; text datasets lose no sentence."""
import gzip
import pickle
import numpy
from ..harness import Prop

ALPH = ["ab", "abc", "abcd", "aé", "a日", "abc\U0001f600", "aw>", "a/<", "a"]
SPECIALS = ["<unk>", "<s>", "</s>", "<pad>", "<c>", "UNK"]


def cp(s):
    return [ord(c) for c in s]


def put(fn, data):
    with (gzip.open if fn.endswith(".gz") else open)(fn, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf8"))


def line_rec(raw):
    return {"w": [cp(w) for w in raw.split()], "c": cp(raw.strip())}


def rand_word(rng, al, n=6):
    return "".join(rng.choice(al) for _ in range(rng.randint(1, n)))


def rand_line(rng, words, messy):
    ws = [rng.choice(words) for _ in range(rng.randint(1, 6))]
    sep = lambda: rng.choice([" ", "  ", " \t"]) if messy and rng.random() < 0.3 else " "
    s = ws[0]
    for w in ws[1:]:
        s += sep() + w
    return (rng.choice(["", "", " "]) + s + rng.choice(["", "", " ", "\r"])) if messy else s


def learn(rng, words, ver, k):
    """some merges, in an order as they would be learned (each one applicable) or a random one"""
    segs = [([*w[:-1], w[-1] + "</w>"] if ver == 2 else [*w, "</w>"]) for w in words]
    codes = []
    for _ in range(k):
        pairs = sorted({(a, b) for s in segs for a, b in zip(s, s[1:])})
        if not pairs:
            break
        p = rng.choice(pairs)
        codes.append(p)
        out = []
        for s in segs:
            r, i = [], 0
            while i < len(s):
                if i + 1 < len(s) and (s[i], s[i + 1]) == p:
                    r.append(s[i] + s[i + 1])
                    i += 2
                else:
                    r.append(s[i])
                    i += 1
            out.append(r)
        segs = out
    if rng.random() < 0.4:
        rng.shuffle(codes)
    return codes


class P(Prop):
    id = "C28"
    trace_module = "TextVocabTrace"
    case_timeout = 60
    rule = (
        "seeded vocabularies (all file formats, special symbols by option or file, word/character/byte/BPE v0.1+v0.2/sampling BPE with '@@' or word prefix),"
        " merge tables, sentences with unknown and unsegmentable words, and text corpora (plain/gz/bliss, several files, empty lines, missing final newline)"
        " through LmDataset and Translation(Factors)Dataset"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT NormalForm\nINVARIANT Lossless\nINVARIANT Stripped\nINVARIANT Found\nCHECK_DEADLOCK FALSE\nCONSTANTS K=2 MaxW=%i NCodes=2 Ver=%i\n"
        n = 5 if tier == "thorough" else 4
        return [("TextVocabMC", c % (n, 1), {"workers": 2}), ("TextVocabMC", c % (n, 2), {"workers": 2})]

    def cases(self, tier, rng):
        out = []
        big = tier == "thorough"
        kinds = ["words", "bpe", "bpe", "sbpe", "sbpe", "chars", "utf8", "lm", "lm", "orth", "orth", "trans"]
        for _ in range(12000 if big else 1800):
            k = rng.choice(kinds)
            if k == "trans" and rng.random() < 0.5:
                k = "orth"
            al = rng.choice(ALPH)
            words = {rand_word(rng, al, rng.choice([2, 4, 7, 9])) for _ in range(rng.randint(2, 8))}
            if rng.random() < 0.4:  # long ones with the same beginning
                w = rand_word(rng, al, 3) + rand_word(rng, al, 6)
                words |= {w + rand_word(rng, al, 3) for _ in range(3)}
            words = sorted(words)
            out.append({"kind": k, "al": al, "words": words, "seed": rng.randint(0, 10**9)})
        return out

    # ------------------------------------------------------------------
    def _labels(self, rng, c, kind):
        """label strings (without the special symbols) and their decomposition"""
        al, words = c["al"], c["words"]
        subs = {w[i:j] for w in words for i in range(len(w)) for j in range(i + 1, len(w) + 1)}
        if kind == "words":
            return sorted(rng.sample(words, rng.randint(1, len(words))))
        if kind == "chars":
            return sorted(set(al[: rng.randint(1, len(al))]) | ({" "} if rng.random() < 0.7 else set()))
        subs = sorted(subs)
        take = sorted(set(rng.sample(subs, rng.randint(1, len(subs)))) | (set(al) if rng.random() < 0.6 else set()))
        out = []
        pre = kind == "prefix"
        for t in take:
            what = rng.choice(["both", "both", "plain", "marked"])
            if what != "marked":
                out.append(t)
            if what != "plain":
                out.append(("▁" + t) if pre else (t + "@@"))
        if pre and (rng.random() < 0.5 or not any(o.startswith("▁") for o in out)):
            out.append("▁")
        if pre and "▁" not in al and not any(o.startswith("▁") for o in out):
            out.append("▁")
        return out

    def _split(self, lab, kind):
        if kind == "prefix" and lab.startswith("▁"):
            return {"t": cp(lab[1:]), "m": False, "p": True}
        if kind in ("bpe", "postfix") and lab.endswith("@@"):
            return {"t": cp(lab[:-2]), "m": True, "p": False}
        return {"t": cp(lab), "m": False, "p": False}

    def _vocab(self, rng, c, kind, scratch):
        """:return: opts for Vocabulary.create_vocab, cfg"""
        labels = self._labels(rng, c, kind)
        specials = [s for s in SPECIALS if rng.random() < 0.5] if kind != "chars" else [s for s in "@#" if rng.random() < 0.7]
        labels = [lb for lb in dict.fromkeys(labels) if lb not in specials] + specials
        rng.shuffle(labels)
        opts, kw, fl = {}, [], []
        filed = {}
        names = ["unknown_label", "bos_label", "eos_label", "pad_label"]
        for nm in names:
            a = rng.choice(specials) if specials and rng.random() < 0.6 else None
            b = rng.choice(specials) if specials and rng.random() < 0.4 else None
            if nm == "unknown_label" and a is None:  # (the default is "UNK" resp. "@", if not given in any way)
                opts[nm] = None
            if a is not None:
                opts[nm] = a if rng.random() < 0.7 else labels.index(a)
            if b is not None and not (nm == "unknown_label" and (kind == "chars" or a is None)):
                filed[nm] = b if rng.random() < 0.7 else labels.index(b)
            kw.append(labels.index(a) if a is not None else -1)
            fl.append(labels.index(b) if nm in filed else -1)
        if filed:
            with open(scratch + "/special.py", "w") as f:
                f.write(repr(filed))
            opts["special_symbols_via_file"] = scratch + "/special.py"
        unk = kw[0] if kw[0] >= 0 else fl[0]
        fmt = rng.choice(["dict", "lines", "pkl", "dictgz", "linesgz"] + (["labels", "fn"] if kind in ("words", "chars") else []))
        if kind == "chars" and " " in labels and fmt.startswith("lines"):
            fmt = "dict"
        d = {lb: i for i, lb in enumerate(labels)}
        items = list(d.items())
        rng.shuffle(items)
        fn = scratch + "/v." + {"dict": "txt", "lines": "txt", "pkl": "pkl"}.get(fmt, "txt.gz")
        if fmt == "pkl":
            put(fn, pickle.dumps(dict(items)))
        elif fmt in ("labels", "fn"):
            fn = None
            opts["labels"] = labels if fmt == "labels" else (lambda: labels)
        else:
            text = ("{%s}" % ",\n".join("%r: %i" % it for it in items)) if fmt.startswith("dict") else "\n".join(labels) + rng.choice(["", "\n"])
            if fmt.startswith("lines") and (labels[0].startswith("{") or labels[-1] == ""):
                text = repr(d)
            put(fn, text)
        opts["vocab_file"] = fn
        post = [rng.randrange(len(labels)) for _ in range(rng.choice([0, 0, 1, 2]))]
        if post or rng.random() < 0.3:
            opts["seq_postfix"] = post
        cfg = {
            "labels": [self._split(lb, kind) for lb in labels], "tab": [cp(lb) for lb in labels], "unk": unk, "post": post, "codes": [], "ver": 2,
            "style": kind, "kw": kw, "fl": fl,
        }  # fmt: skip
        return opts, cfg, labels

    def _table(self, v, labels):
        n = len(labels)
        opt = lambda x: -1 if x is None else int(x)
        valid = [[i, bool(v.is_id_valid(i))] for i in (-1, 0, n - 1, n, n + 3)]
        dflt = v.label_to_id("no such label", -7)
        if dflt == -7:
            dflt = opt(v.to_id(n + 5, -7))
        if dflt == -7:
            dflt = v.id_to_label(n, "dflt")
            dflt = -7 if dflt == "dflt" else 0
        return {
            "op": "labels", "n": v.num_labels, "tab": [cp(lb) for lb in v.labels], "ids": [v.label_to_id(lb) for lb in labels], "valid": valid, "dflt": dflt,
            "sp": [opt(v.unknown_label_id), opt(v.bos_label_id), opt(v.eos_label_id), opt(v.pad_label_id)],
        }  # fmt: skip

    def run_case(self, c, scratch):
        import random
        from returnn.datasets.util.vocabulary import Vocabulary

        rng = random.Random(c["seed"])
        Vocabulary._cache.clear()
        return getattr(self, "_run_" + c["kind"])(c, rng, scratch)

    def _sentences(self, c, rng, messy=True):
        ws = c["words"] + [rand_word(rng, c["al"]) for _ in range(3)] + [rand_word(rng, c["al"] + "z") for _ in range(2)]
        return [rand_line(rng, ws, messy) for _ in range(rng.randint(1, 5))] + ([""] if rng.random() < 0.3 else [])

    def _encode(self, v, enc, cfg, sents, ev):
        for s in sents:
            ln = dict(line_rec(s), c=cp(s))
            try:
                ids = v.get_seq(s)
            except KeyError:
                ev.append({"op": "refused", "enc": enc, "ln": ln})
                continue
            except Exception as exc:
                if "no BPE-split" not in str(exc):
                    raise
                ev.append({"op": "refused", "enc": enc, "ln": ln})
                continue
            ev.append({"op": "enc", "enc": enc, "ln": ln, "ids": [-1 if i is None else int(i) for i in ids]})

    def _run_words(self, c, rng, scratch):
        from returnn.datasets.util.vocabulary import Vocabulary

        opts, cfg, labels = self._vocab(rng, c, "words", scratch)
        ev = []
        for _ in range(2):  # (the second one comes from the cache)
            v = Vocabulary.create_vocab(**opts)
            ev.append(self._table(v, labels))
            self._encode(v, "words", cfg, self._sentences(c, rng), ev)
        seq = [rng.randrange(len(labels)) for _ in range(rng.randint(0, 6))]
        v.seq_postfix = []
        ev.append({"op": "same", "a": seq, "b": v.get_seq(v.get_seq_labels(numpy.array(seq, "int32") if rng.random() < 0.5 else seq))})
        return [{"cfg": cfg, "ev": ev}]

    def _run_chars(self, c, rng, scratch):
        from returnn.datasets.util.vocabulary import Vocabulary

        opts, cfg, labels = self._vocab(rng, c, "chars", scratch)
        if any(len(lb) != 1 for lb in labels):
            return []
        v = Vocabulary.create_vocab(**{"class": "CharacterTargets"}, **opts)
        ev = [self._table(v, labels)]
        sents = self._sentences(c, rng)
        self._encode(v, "chars", cfg, sents, ev)
        s = "".join(rng.choice(labels) for _ in range(rng.randint(0, 9)))
        ids = v.get_seq(s)
        ev.append({"op": "text", "cs": cp(s), "back": cp(v.get_seq_labels(ids[: len(ids) - len(cfg["post"])]))})
        return [{"cfg": cfg, "ev": ev}]

    def _run_utf8(self, c, rng, scratch):
        from returnn.datasets.util.vocabulary import Vocabulary

        post = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2]))]
        opts = {"seq_postfix": post} if post else {}
        cfg = {"labels": [], "tab": [[i] for i in range(256)], "unk": -1, "post": post, "kw": [-1] * 4, "fl": [-1] * 4}
        v = Vocabulary.create_vocab(**{"class": "Utf8ByteTargets"}, **opts)
        ev = [self._table(v, [chr(i) for i in range(256)])]
        chars = [chr(x) for x in (0, 9, 65, 127, 128, 255, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF)] + list(c["al"])
        sents = ["".join(rng.choice(chars) for _ in range(rng.randint(0, 8))) for _ in range(4)]
        self._encode(v, "utf8", cfg, sents, ev)
        for s in sents:
            ids = v.get_seq(s)
            ids = ids[: len(ids) - len(post)]
            ids = rng.choice([ids, numpy.array(ids, "int64"), numpy.array(ids, "uint8")])
            ev.append({"op": "text", "cs": cp(s), "back": cp(v.get_seq_labels(ids))})
        return [{"cfg": cfg, "ev": ev}]

    def _codes(self, c, rng, scratch, cfg):
        ver = rng.choice([1, 2])
        codes = learn(rng, c["words"], ver, rng.randint(0, 8))
        fn = scratch + "/codes"
        lines = list(codes)
        if codes and rng.random() < 0.3:  # duplicates: only the first one counts
            x = rng.choice(codes)
            if sum(a + b == x[0] + x[1] for a, b in codes) == 1:
                lines.append(x)
        head = {1: rng.choice(["", "#version: 0.1\n"]), 2: "#version: 0.2\n"}[ver]
        put(fn, head + "".join("%s %s\n" % x for x in lines))
        tok = lambda t: cp(t[:-4]) + [0] if t.endswith("</w>") else cp(t)
        cfg["codes"] = [[tok(a), tok(b)] for a, b in codes]
        cfg["ver"] = ver
        return fn

    def _run_bpe(self, c, rng, scratch):
        from returnn.datasets.util.vocabulary import Vocabulary
        from returnn.util.bpe import StandardBytePairEncoder

        opts, cfg, labels = self._vocab(rng, c, "bpe", scratch)
        StandardBytePairEncoder._file_cache.clear()
        fn = self._codes(c, rng, scratch, cfg)
        v = Vocabulary.create_vocab(bpe_file=fn, **opts)
        ev = [self._table(v, labels)]
        sents = self._sentences(c, rng)
        self._encode(v, "bpe", cfg, sents + sents[:2], ev)
        return [{"cfg": cfg, "ev": ev}]

    def _run_sbpe(self, c, rng, scratch):
        from returnn.datasets.util.vocabulary import Vocabulary
        from returnn.util.bpe import BpeOpts, CharSyncSearch, PrefixTree

        style = rng.choice(["postfix", "prefix"])
        c = dict(c, words=[w for w in c["words"] if "▁" not in w])
        opts, cfg, labels = self._vocab(rng, c, style, scratch)
        so = {"word_prefix_symbol": "▁"} if style == "prefix" else rng.choice([{}, {"label_postfix_merge_symbol": "@@"}])
        mk = lambda p: Vocabulary.create_vocab(**{"class": "SamplingBytePairEncoding", "breadth_prob": p}, **so, **opts)
        v = mk(0.0)
        ev = [self._table(v, labels)]
        sents = self._sentences(c, rng)
        sents += [rand_word(rng, c["al"][:2], 9) + c["al"][-1] for _ in range(2)]
        self._encode(v, "greedy", cfg, sents, ev)
        p = rng.choice([0.2, 0.5, 0.9, 1.0])
        v = mk(p)
        words = [w for s in sents for w in s.split()][:6]
        for w in words:
            try:
                ev.append({"op": "sample", "w": cp(w), "ids": [int(i) for i in v.get_seq(w)]})
            except Exception as exc:
                if "no BPE-split" not in str(exc):
                    raise
                ev.append({"op": "refused", "enc": "greedy", "ln": line_rec(w)})
        ok = [w for w in words if cfg["unk"] >= 0]
        if ok:
            s = " ".join(ok * 2)
            sd = rng.randint(0, 1000)
            v.set_random_seed(sd)
            a = v.get_seq(s)
            v2 = mk(p)
            v2.get_seq(s)
            v2.set_random_seed(sd)
            ev.append({"op": "same", "a": a, "b": v2.get_seq(s)})
        bo = BpeOpts(label_postfix_merge_symbol="@@") if style == "postfix" else BpeOpts(word_prefix_symbol="▁")
        tree = PrefixTree(opts=bo)
        for lb in labels:
            tree.add(lb)
        idx = {lb: i for i, lb in enumerate(labels)}
        for w in words[:4]:
            ev.append({"op": "all", "w": cp(w), "segs": [[idx[x] for x in sg] for sg in CharSyncSearch(bpe=tree, word=w).search()]})
        return [{"cfg": cfg, "ev": ev}]

    # ------------------------------------------------------------------ datasets
    def _corpus(self, c, rng, scratch, lines):
        """write lines (no whitespace-only ones) to one or several files; :return: files, lines in order, keep (empty lines count)"""
        skip_empty = rng.random() < 0.6
        parts = [lines]
        if rng.random() < 0.5 and len(lines) > 1:
            ks = sorted(rng.sample(range(1, len(lines)), min(len(lines) - 1, rng.choice([1, 1, 2, 3]))))
            parts = [lines[a:z] for a, z in zip([0] + ks, ks + [len(lines)])]
        kinds = [rng.choice(["txt", "txt", "txt.gz", "xml", "xml.gz"]) for _ in parts]
        if any(k.startswith("xml") for k in kinds):
            if not all(k.startswith("xml") for k in kinds) and skip_empty:
                parts = [[x for x in p if x.strip()] for p in parts]
            if all(k.startswith("xml") for k in kinds):
                skip_empty = False  # (segments without words are sequences)
        parts, kinds = zip(*[(p, k) for p, k in zip(parts, kinds)])
        files = []
        for i, (p, k) in enumerate(zip(parts, kinds)):
            if not any(x.strip() for x in p):
                p = list(p) + [c["words"][0]]
            fn = f"{scratch}/corpus{i}.{k}"
            if k.startswith("xml"):
                from xml.sax.saxutils import escape

                text = '<?xml version="1.0" encoding="utf-8"?>\n<corpus name="c">\n <recording name="r" audio="a.wav">\n'
                for j, x in enumerate(p):
                    text += '<segment name="s%i" start="0" end="1"><orth>%s</orth></segment>\n' % (j, escape(x))
                text += "</recording></corpus>\n"
                norm = [" ".join(x.split()) for x in p]
            else:
                text = "\n".join(p) + ("\n" if rng.random() < 0.6 or not p[-1].strip() else "")
                norm = list(p)
            put(fn, text)
            files.append((fn, norm))
        return files, not skip_empty, skip_empty

    def _lm(self, c, rng, scratch, cfg, enc, ds_opts, lines, orth=None, start=-1, start_symbol=None):
        from returnn.datasets.lm import LmDataset

        files, keep, skip_empty = self._corpus(c, rng, scratch, lines)
        alll = [x for _, n in files for x in n]
        kept = [x for x in alll if keep or x.strip()]
        tags = []
        if rng.random() < 0.3:
            tags = ["seg/%i" % (1000 - i) for i in range(len(kept))]
            if rng.random() < 0.5:
                put(scratch + "/tags", "\n".join(tags) + "\n")
                ds_opts["seq_list_file"] = scratch + "/tags"
            else:
                fns, pos = [], 0
                for i, (_, n) in enumerate(files):
                    m = len([x for x in n if keep or x.strip()])
                    fns.append(scratch + "/tags%i" % i)
                    put(fns[-1], "".join(t + "\n" for t in tags[pos : pos + m]))
                    pos += m
                ds_opts["seq_list_file"] = fns
        ds = LmDataset(corpus_file=[f for f, _ in files] if len(files) > 1 or rng.random() < 0.5 else files[0][0], skip_empty_lines=skip_empty, seq_ordering="default", **ds_opts)
        order = []
        total = None
        if rng.random() < 0.5:
            total = ds.get_total_num_seqs()
        r = rng.random()
        if r < 0.2:
            order = [0] + [rng.randrange(len(kept)) for _ in range(rng.randint(0, 5))]
            ds.init_seq_order(epoch=1, seq_order=order)
        elif r < 0.4 and not (orth and not ds_opts.get("error_on_invalid_seq", True)):
            order = [rng.randrange(len(kept)) for _ in range(rng.randint(1, 5))]
            ds.init_seq_order(epoch=1, seq_list=[(tags or ["line-%i" % i for i in range(len(kept))])[i] for i in order])
        else:
            ds.init_seq_order(epoch=rng.randint(1, 3))
        out, i = [], 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            o = {"tag": ds.get_tag(i), "ids": [int(x) for x in ds.get_data(i, "data")], "del": []}
            if start >= 0:
                o["del"] = [int(x) for x in ds.get_data(i, "delayed")]
            out.append(o)
            i += 1
        return {
            "op": "corpus", "enc": enc, "lines": [line_rec(x) for x in alll], "keep": keep, "order": order, "tags": tags, "out": out,
            "orth": orth or {"word": True, "wend": -1, "auto": False}, "start": start, "total": ds.get_total_num_seqs() if total is None else total, "alltags": list(ds.get_all_tags()),
        }  # fmt: skip

    def _lines(self, c, rng, words, messy):
        ls = [rand_line(rng, words, messy) for _ in range(rng.randint(1, 9))]
        for _ in range(rng.choice([0, 0, 1, 3])):
            ls.insert(rng.randint(0, len(ls)), "")
        return ls

    def _run_lm(self, c, rng, scratch):
        from returnn.util.bpe import StandardBytePairEncoder
        from returnn.datasets.util.vocabulary import Vocabulary

        kind = rng.choice(["words", "bpe", "chars", "utf8", "sbpe"])
        if kind == "utf8":
            cfg = {"labels": [], "unk": -1, "post": [], "codes": [], "ver": 2, "style": ""}
            opts = {"class": "Utf8ByteTargets"}
        else:
            for _ in range(50):
                opts, cfg, labels = self._vocab(rng, c, {"sbpe": "postfix"}.get(kind, kind), scratch)
                if cfg["unk"] >= 0 and opts.get("vocab_file"):
                    break
                Vocabulary._cache.clear()
            else:
                return []
            if kind == "chars":
                if any(len(x) != 1 for x in labels):
                    return []
                opts["class"] = "CharacterTargets"
            if kind == "sbpe":
                opts.update({"class": "SamplingBytePairEncoding", "breadth_prob": 0.0})
            if kind == "bpe":
                StandardBytePairEncoder._file_cache.clear()
                opts["bpe_file"] = self._codes(c, rng, scratch, cfg)
        enc = {"sbpe": "greedy"}.get(kind, kind)
        if rng.random() < 0.3:
            opts = Vocabulary.create_vocab(**opts)
        words = c["words"] + [rand_word(rng, c["al"] + "z") for _ in range(2)]
        lines = self._lines(c, rng, words, messy=kind not in ("chars", "utf8"))
        return [{"cfg": cfg, "ev": [self._lm(c, rng, scratch, cfg, enc, {"orth_vocab": opts}, lines)]}]

    def _run_orth(self, c, rng, scratch):
        word = rng.random() < 0.5
        words = c["words"]
        known = rng.sample(words, rng.randint(1, len(words))) if word else list(c["al"][: rng.randint(1, len(c["al"]))])
        wend = None if word or rng.random() < 0.5 else "_"
        labels = sorted(known) + ([" "] if not word and wend is None and rng.random() < 0.8 else []) + ([wend] if wend else [])
        end = rng.choice([None, "[END]", "[E]"])
        unk = rng.choice([None, "[UNKNOWN]", "?"])
        auto = rng.random() < 0.6
        delayed = rng.random() < 0.4 and end is not None
        labels += ([end] if end else []) + ([unk] if unk else []) + (["[START]"] if delayed else [])
        many = rng.choice([0, 0, 0, 100, 140, 300])  # (the data type depends on the number of labels)
        labels = ["x%i" % i for i in range(many)] + labels if rng.random() < 0.7 else labels + ["x%i" % i for i in range(many)]
        opts = {"word_based": word, "word_end_symbol": wend, "seq_end_symbol": end, "unknown_symbol": unk, "auto_replace_unknown_symbol": auto, "error_on_invalid_seq": False}
        fmt = rng.choice(["file", "map", "dict", "pkl"])
        if fmt == "map" and " " in labels:
            fmt = "file"
        d = {lb: i for i, lb in enumerate(labels)}
        items = list(d.items())
        rng.shuffle(items)
        fn = scratch + "/syms" + (".pkl" if fmt == "pkl" else "")
        if fmt == "pkl":
            put(fn, pickle.dumps(dict(items)))
        else:
            put(fn, {"file": "\n".join(labels) + "\n", "map": "".join("%s %i\n" % it for it in items), "dict": repr(dict(items)) + "\n"}[fmt])
        if fmt == "dict" and len(labels) < 2:
            return []
        opts["orth_symbols_file" if fmt == "file" else "orth_symbols_map_file"] = fn
        if delayed:
            opts["add_delayed_seq_data"] = True
        post = ([d[wend]] if wend else []) + ([d[end]] if end else [])
        cfg = {"labels": [self._split(lb, "plain") for lb in labels], "unk": d[unk] if unk else -1, "post": post, "codes": [], "ver": 2, "style": ""}
        ws = words + [rand_word(rng, c["al"] + "z") for _ in range(rng.choice([0, 2]))]
        lines = [rng.choice(known)] + self._lines(c, rng, ws, messy=True)  # (at least one valid one)
        e = self._lm(c, rng, scratch, cfg, "orth", opts, lines, orth={"word": word, "wend": d[wend] if wend else -1, "auto": auto}, start=d["[START]"] if delayed else -1)
        return [{"cfg": cfg, "ev": [e]}]

    def _run_trans(self, c, rng, scratch):
        from returnn.datasets.lm import TranslationDataset, TranslationFactorsDataset

        factors = rng.random() < 0.4
        keys = {"source": ["data"], "target": ["classes"]}
        if factors:
            keys["source"] += ["sf%i" % i for i in range(rng.randint(0, 2))]
            keys["target"] += ["tf%i" % i for i in range(rng.randint(0, 1))]
        only = rng.random() < 0.2
        sides = ["source"] if only else ["source", "target"]
        n = rng.randint(1, 8)
        e = {"op": "trans", "voc": {}, "lines": {}, "post": {}, "unk": {}, "dims": {}, "nlines": n}
        opts, unkd = {}, {}
        for side in sides:
            post = rng.choice(["", "", " </s>"])
            opts[side + "_postfix"] = post
            slines = [[] for _ in range(n)]
            lens = [rng.choice([0, 1, 2, 3, 5]) for _ in range(n)]
            for k in keys[side]:
                words = [rand_word(rng, c["al"], 3) for _ in range(rng.randint(2, 5))]
                voc = sorted(set(words)) + ["</s>"]
                unk = rng.choice([None, "<UNK>"])
                if unk:
                    voc.append(unk)
                    words += ["zz"]
                rng.shuffle(voc)
                unkd[k] = unk
                items = [(w, i) for i, w in enumerate(voc)]
                rng.shuffle(items)
                nm = side if k in ("data", "classes") else k
                put(f"{scratch}/{nm}.vocab.pkl", pickle.dumps(dict(items)))
                e["voc"][k] = [cp(w) for w in voc]
                e["unk"][k] = voc.index(unk) if unk else -1
                e["post"][k] = [cp("</s>")] if post else []
                ls = [[rng.choice(words) for _ in range(m)] for m in lens]
                e["lines"][k] = [[cp(w) for w in x] for x in ls]
                for i in range(n):
                    slines[i].append(ls[i])
            text = "\n".join(rng.choice(["", " "]) + " ".join("|".join(ws) for ws in zip(*x)) for x in slines) + "\n"
            put(f"{scratch}/{side}.train" + rng.choice(["", "", ".gz"]), text)
        order = []
        if rng.random() < 0.3:
            order = [rng.randrange(n) for _ in range(rng.randint(1, 8))]
            put(scratch + "/order", "\n".join(map(str, order)) + "\n")
            opts["seq_list_file"] = scratch + "/order"
        if len(set(unkd.values())) == 1 and rng.random() < 0.5:
            opts["unknown_label"] = unkd["data"]
        else:
            opts["unknown_label"] = {k: u for k, u in unkd.items() if u or rng.random() < 0.5}
        if factors:
            opts["source_factors"] = keys["source"][1:] or None
            opts["target_factors"] = keys["target"][1:] or None
        ds = (TranslationFactorsDataset if factors else TranslationDataset)(path=scratch, file_postfix="train", source_only=only, seq_ordering="default", **opts)
        e["alltags"] = list(ds.get_all_tags())
        if not order and rng.random() < 0.3:
            order = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.5:
                ds.init_seq_order(epoch=1, seq_order=order)
            else:
                ds.init_seq_order(epoch=1, seq_list=["line-%i" % i for i in order])
        else:
            ds.init_seq_order(epoch=rng.randint(1, 3))
        out, i = [], 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            out.append({"tag": ds.get_tag(i), "ids": {k: [int(x) for x in ds.get_data(i, k)] for k in e["voc"]}})
            i += 1
        e["dims"] = {k: int(ds.get_data_dim(k)) for k in e["voc"]}
        e["out"], e["order"] = out, order
        cfg = {"labels": [], "unk": -1, "post": [], "codes": [], "ver": 2, "style": ""}
        return [{"cfg": cfg, "ev": [e]}]
