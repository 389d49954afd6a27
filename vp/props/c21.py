"""C21: frontend ops on padded batches compute what they define on the sequences."""
import random
from ..harness import Prop


def gen_op(rng, f, lens):
    """one random op <<name, args...>> applicable to sequences with f features and these lengths. :return: op, new f, new lens"""
    mn = min(lens)
    B = len(lens)
    while True:
        k = rng.choice(["id", "add", "add", "mul", "mod", "pos", "rev", "shr", "shl", "pad", "padt", "slice", "slicesize", "prefix", "cumsum", "msel", "mscat", "twice", "where", "win", "maxpool", "conv", "topkf", "sortf", "unfold", "stack", "splitf", "dot", "sumf", "addseq", "subsum", "padtf", "gatc", "gatb", "slneg", "conv2", "maxpool2"])
        v = rng.randint(-3, 9)
        if k in ("id", "pos", "rev", "cumsum", "subsum", "sortf"):
            return [k], f, lens
        if k in ("add",):
            return [k, rng.choice([v, v, v, -500, 16000, 40000, -40000])], f, lens
        if k == "padtf":
            a = [rng.randint(0, 3), rng.choice([0, 0, 1, 3]), rng.randint(0, 2), rng.randint(0, 2)]
            if f > 6:
                continue
            return [k] + a + [v], f + a[2] + a[3], [n + a[0] + a[1] for n in lens]
        if k == "gatc":
            idx = [rng.randint(-2, max(lens) + 1) for _ in range(rng.randint(1, 4))]
            if mn == 0:
                continue
            return [k, idx], f, [len(idx)] * B
        if k == "gatb":
            if mn == 0:
                continue
            n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
            return [k, [[rng.randint(-1, n) for _ in range(n1 * n2)] for n in lens], n1, n2], f, [n1 * n2] * B
        if k == "slneg":
            if len(set(lens)) > 1 or mn < 2:
                continue
            s = rng.randint(1, mn)
            return [k, s, rng.choice([0, rng.randint(0, s - 1)])], f, None
        if k in ("conv2", "maxpool2"):
            same = rng.random() < 0.6
            ks, st, d = [rng.randint(1, 3) for _ in "ab"], [rng.choice([1, 1, 2, 3]) for _ in "ab"], [rng.choice([1, 1, 2]) for _ in "ab"]
            if not same and ((ks[1] - 1) * d[1] >= f or (ks[0] - 1) * d[0] >= max(lens)):
                continue
            no = lambda n, i: -(-n // st[i]) if same else -(-max(n - (ks[i] - 1) * d[i], 0) // st[i])  # noqa
            if k == "maxpool2":
                if same and any(not any(0 <= i * st[a] - (ks[a] - 1) * d[a] // 2 + j * d[a] < n for j in range(ks[a])) for a, ns in ((0, lens), (1, [f])) for n in ns for i in range(no(n, a))):
                    continue
                return [k, ks, st, d, same], no(f, 1), [no(n, 0) for n in lens]
            return [k, ks, st, d, same, [[rng.randint(-1, 2) for _ in range(ks[1])] for _ in range(ks[0])]], no(f, 1), [no(n, 0) for n in lens]
        if k == "mul":
            return [k, rng.choice([-1, 2, 3])], f, lens
        if k == "mod":
            return [k, rng.choice([3, 5, 7])], f, lens
        if k in ("shr", "shl"):
            return [k, rng.choice([0, 1, 1, 2, 3, 7]), v], f, lens
        if k == "pad":
            l, r = rng.randint(0, 4), rng.randint(0, 4)
            return [k, l, r, v], f, [n + l + r for n in lens]
        if k in ("padt", "padl"):
            r = [rng.randint(0, 3) for _ in lens]
            return [k, r, v], f, [n + x for n, x in zip(lens, r)]
        if k == "slice":
            s, e, st = rng.randint(0, 2), rng.choice([0, 0, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
            if s + e > mn:
                continue
            return [k, s, e, st], f, [-(-(n - s - e) // st) for n in lens]
        if k == "slicesize":
            s, e = rng.randint(0, 2), rng.randint(1, 3)
            if s + e > mn:
                continue
            return [k, s, e], f, [e] * B
        if k == "prefix":
            m = rng.randint(1, 2)
            return [k, m, v], f, [n + m for n in lens]
        if k == "msel":
            return [k, rng.choice([2, 3])], f, None
        if k == "mscat":
            return [k, rng.choice([2, 3]), v], f, lens
        if k == "twice":
            if max(lens) > 8:
                continue
            return [k], f, [2 * n for n in lens]
        if k == "where":
            return [k, v, rng.randint(0, 5)], f, lens
        if k == "win":
            w = rng.randint(1, 4)
            if f * w > 12:
                continue
            left = rng.choice([None, None, 0, w - 1, w // 2])
            st = rng.choice([1, 1, 2, 3])
            same = rng.random() < 0.7
            if not same and max(lens) < w:
                continue
            lf = left if left is not None else -(-w // 2) - 1
            return [k, w, lf, st, same, left is not None], f * w, [-(-n // st) if same else -(-max(n - w + 1, 0) // st) for n in lens]
        if k in ("maxpool", "conv"):
            w, st, d = rng.randint(1, 3), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
            same = rng.random() < 0.6
            if k == "maxpool" and d > 1 and st > 1 and rng.random() < 0.5:
                continue
            if not same and max(lens) < (w - 1) * d + 1:
                continue
            nl = [-(-n // st) if same else -(-max(n - (w - 1) * d, 0) // st) for n in lens]
            if k == "maxpool":
                if same and any(not any(0 <= i * st - (w - 1) * d // 2 + j * d < n for j in range(w)) for n, m in zip(lens, nl) for i in range(m)):
                    continue  # a window without any frame has no maximum
                return [k, w, st, d, same], f, nl
            o = rng.randint(1, 3)
            return [k, w, st, d, same, [[[rng.randint(-1, 2) for _ in range(w)] for _ in range(f)] for _ in range(o)]], o, nl
        if k == "topkf":
            m = rng.randint(1, f)
            return [k, m], m, lens
        if k == "unfold":
            w = rng.choice([2, 3])
            if f % w or max(lens) > 8:
                continue
            return [k, w], f // w, [n * w for n in lens]
        if k == "stack":
            if f > 4:
                continue
            return [k, v], 2 * f, lens
        if k == "splitf":
            if f < 2:
                continue
            m = rng.randint(1, f - 1)
            return [k, m], f - m, lens
        if k == "dot":
            o = rng.randint(1, 3)
            return [k, [[rng.randint(-1, 2) for _ in range(f)] for _ in range(o)]], o, lens
        if k == "sumf":
            return [k], 1, lens
        if k == "addseq":
            return [k, [rng.randint(-2, 5) for _ in lens]], f, lens


REDS = ["sum", "max", "min", "mean", "any", "all", "last", "sumtf", "hist", "gram", "edit", "numel", "topkt", "argmax", "argmin", "gati", "frob", "smax", "smin", "ssum", "sarg"]
ALLS = ["sumbt", "maxbt", "minbt", "meanbt", "numelbt", "pack", "grambt"]


class P(Prop):
    id = "C21"
    trace_module = "RaggedTrace"
    case_timeout = 120
    rule = (
        "seeded programs of frontend ops (PyTorch backend) on padded batches with garbage in all padding after every op and random axis orders;"
        " lengths, values and reductions of every intermediate result compared with the definition on the sequences"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS NMax=%i VMax=%i Feat=%i\n"
        return [("RaggedMC", c % ((4, 2, 2) if tier == "thorough" else (3, 1, 2)), {"workers": 4})]

    def cases(self, tier, rng):
        out = []
        for i in range(30000 if tier == "thorough" else 1500):
            B = rng.choice([1, 2, 2, 3, 4])
            f = rng.randint(1, 3)
            out.append({"xs": [[[rng.randint(0, 9) for _ in range(f)] for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6]))] for _ in range(B)], "f": f, "dtype": rng.choice(["float32", "float32", "int32", "int64"]), "seed": rng.randrange(10**9), "n": rng.randint(1, 6), "scalar": B == 1 and rng.random() < 0.3})
        return out

    def run_case(self, c, scratch):
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim, Tensor
        from returnn.util.basic import BehaviorVersion

        if BehaviorVersion.get_if_set() is None:
            BehaviorVersion.set(24)
        rf.select_backend_torch()
        rng = random.Random(c["seed"])
        xs, f = c["xs"], c["f"]
        B = Dim(Tensor("B", [], "int32", raw_tensor=torch.tensor(len(xs), dtype=torch.int32)), name="B") if rng.random() < 0.6 else Dim(len(xs), name="B")
        lens = [len(x) for x in xs]
        T = Dim(Tensor("T", [B], "int32", raw_tensor=torch.tensor(lens, dtype=torch.int32)), name="T")
        F = Dim(f, name="F")
        dt = getattr(torch, c["dtype"])
        raw = torch.zeros(len(xs), max(lens), f, dtype=dt)
        for b, x in enumerate(xs):
            raw[b, : len(x)] = torch.tensor(x, dtype=dt)
        x = Tensor("x", [B, T, F], c["dtype"], raw_tensor=raw, feature_dim=F if rng.random() < 0.7 else None)
        ev = []

        def sizes(T):
            if T.dimension is not None:
                return [T.dimension] * len(xs)
            s = T.get_size_tensor()
            if not s.dims:
                return [int(s.raw_tensor)] * len(xs)
            assert s.dims == (B,), s
            return [int(n) for n in s.raw_tensor]

        def dirty(x, T, F):
            """garbage in the padding, random axis order"""
            x = x.copy_transpose([B, T, F])
            raw = x.raw_tensor.clone()
            for b, n in enumerate(sizes(T)):
                if n < raw.shape[1]:
                    raw[b, n:] = torch.tensor([[rng.choice([-37, 41, 99, 0]) for _ in range(raw.shape[2])] for _ in range(raw.shape[1] - n)], dtype=raw.dtype)
            y = x.copy_template()
            y.raw_tensor = raw
            perm = [B, T, F]
            rng.shuffle(perm)
            return y.copy_transpose(perm)

        def read(x, T, F):
            if len(x.dims) != 3 or x.dims_set != {B, T, F}:
                raise ValueError("dims %r, expected %r" % (x.dims, [B, T, F]))
            raw = x.copy_transpose([B, T, F]).raw_tensor
            # the padded width is the dim value, which need not be the max size (e.g. T1+T2: max(T1)+max(T2))
            if tuple(raw.shape) != (len(xs), int(T.get_dim_value()), F.dimension) or raw.shape[1] < max(sizes(T)):
                ev.append({"op": "raw-shape-does-not-fit-dims-" + k, "raw": list(raw.shape), "sizes": sizes(T), "a": op})
            return [[[int(v) for v in fr] for fr in raw[b, :n].tolist()] for b, n in enumerate(sizes(T))]

        def const(v):
            return v

        sliced = False
        x = dirty(x, T, F)
        for _ in range(c["n"]):
            lens = sizes(T)
            op, nf, nl = gen_op(rng, f, lens)
            k = op[0]
            # sums of (a - c) terms only if no partial sum is negative, a documented assumption of the dim math
            sliced = sliced or k in ("slice", "slicesize", "win", "shl", "conv", "maxpool", "conv2", "maxpool2")
            if k in ("conv", "dot", "conv2") and c["dtype"] != "float32":
                op, k, nf = ["id"], "id", f
            if k == "slneg" and not T.is_static():
                op, k, nf = ["id"], "id", f
            if k in ("maxpool", "maxpool2") and c["dtype"] != "float32":
                op, k, nf = ["id"], "id", f
            if max(abs(int(v)) for s in read(x, T, F) for fr in s for v in fr + [0] or [0]) > 20000 if any(lens) else False:
                op, k, nf = ["mod", 7], "mod", f
            x0 = lambda: rf.gather(x, indices=0, axis=F)  # noqa
            T2, F2 = T, F
            if k == "id":
                r = rng.randrange(4)
                if r == 0:
                    y = x
                elif r == 1:
                    y, T2 = rf.replace_dim(x, in_dim=T)
                elif r == 2:
                    order = rng.choice([[B, T], [T, B]])
                    p, pd = rf.pack_padded(x, dims=order)
                    y = rf.pad_packed(p, in_dim=pd, dims=order)
                else:
                    e = Dim(1, name="one")
                    y = rf.squeeze(rf.expand_dim(x, e), e)
            elif k == "add":
                y = x + op[1]
            elif k == "mul":
                y = op[1] * x
            elif k == "mod":
                y = x % op[1]
            elif k == "pos":
                y = rf.combine_bc(x, "+", rf.cast(rf.range_over_dim(T), x.dtype)) if rng.random() < 0.5 else x + rf.cast(rf.range_over_dim(T), x.dtype)
            elif k == "rev":
                y = rf.reverse_sequence(x, axis=T)
            elif k == "shr":
                y = rf.shift_right(x, axis=T, pad_value=op[2], amount=op[1])
            elif k == "shl":
                y = rf.shift_left(x, axis=T, pad_value=op[2], amount=op[1])
            elif k == "pad":
                y, (T2,) = rf.pad(x, axes=[T], padding=[(op[1], op[2])], value=op[3])
            elif k in ("padt", "padl"):
                p = Tensor("p", [B], "int32", raw_tensor=torch.tensor(op[1], dtype=torch.int32))
                p = Dim(p, name="p")
                y, (T2,) = rf.pad(x, axes=[T], padding=[(0, p) if k == "padt" else (p, 0)], value=op[2])
            elif k == "slice":
                y, T2 = rf.slice(x, axis=T, start=op[1] or None, end=-op[2] if op[2] else None, step=op[3] if op[3] > 1 else None)
            elif k == "slicesize":
                y, T2 = rf.slice(x, axis=T, start=op[1], size=op[2])
            elif k == "prefix":
                P_ = Dim(op[1], name="pre")
                y, T2 = rf.concat((rf.full(dims=[P_], fill_value=op[2], dtype=x.dtype), P_), (x, T), allow_broadcast=True)
            elif k == "cumsum":
                y = rf.cumsum(x, spatial_dim=T)
            elif k in ("msel", "mscat"):
                m = (x0() % op[1]) != 0
                y, T3 = rf.masked_select(x, mask=m, dims=[T])
                if k == "msel":
                    T2 = T3
                elif rng.random() < 0.5:
                    y = rf.masked_scatter(y, rf.full(dims=[F], fill_value=op[2], dtype=x.dtype), mask=m, dims=[T], in_dim=T3) if max(sizes(T3)) > 0 else rf.where(m, x, op[2])
                else:
                    order = rng.choice([[B, T], [T, B]])
                    m = m.copy_masked(False)
                    y, P_ = rf.masked_select(x, mask=m, dims=order)
                    bak = rf.full(dims=order + [F], fill_value=op[2], dtype=x.dtype)
                    bak0 = bak.raw_tensor.clone()
                    y = rf.masked_scatter(y, bak, mask=m, dims=order, in_dim=P_)
                    if not torch.equal(bak.raw_tensor, bak0):
                        ev.append({"op": "masked-scatter-modifies-its-input"})
            elif k == "twice":
                T2 = rng.choice([lambda: T * 2, lambda: 2 * T, lambda: T + T if not sliced else T * 2])()
                y = rf.gather(x, indices=rf.range_over_dim(T2) // 2, axis=T)
            elif k == "where":
                y = rf.where(x0() > op[1], x, op[2])
            elif k == "win":
                W = Dim(op[1], name="W")
                kw = {}
                if op[5]:
                    kw["window_left"] = op[2]
                y, T2 = rf.window(x, spatial_dim=T, window_dim=W, padding="same" if op[4] else "valid", stride=op[3], **kw)
                y, F2 = rf.merge_dims(y, dims=[W, F])
                op = op[:5]
            elif k == "maxpool":
                y, T2 = rf.max_pool1d(x, pool_size=op[1], strides=op[2], dilation_rate=op[3], padding="same" if op[4] else "valid", in_spatial_dim=T)
            elif k == "conv":
                O, K = Dim(nf, name="O"), Dim(op[1], name="K")
                w = Tensor("w", [O, F, K], "float32", raw_tensor=torch.tensor(op[5], dtype=torch.float32))
                y, (T2,) = rf.conv(x, in_dim=F, out_dim=O, in_spatial_dims=[T], filter=w, filter_size=[K], padding="same" if op[4] else "valid", strides=op[2], dilation_rate=op[3])
                F2 = O
            elif k == "conv2":
                # (two channels: with one, some PyTorch versions give wrong results for strided convolutions on some memory layouts)
                C2, K1, K2 = Dim(2, name="C2"), Dim(op[1][0], name="K1"), Dim(op[1][1], name="K2")
                w = torch.zeros(2, 2, op[1][0], op[1][1])
                w[1, 1] = torch.tensor(op[5], dtype=torch.float32)
                y, C1 = rf.stack([x * 2, x])
                w = Tensor("w", [C2, C1, K1, K2], "float32", raw_tensor=w)
                y, (T2, F2) = rf.conv(y, in_dim=C1, out_dim=C2, in_spatial_dims=[T, F], filter=w, filter_size=[K1, K2], padding="same" if op[4] else "valid", strides=op[2], dilation_rate=op[3])
                y = rf.gather(y, indices=1, axis=C2)
            elif k == "maxpool2":
                y, (T2, F2) = rf.pool(x, mode="max", pool_size=op[1], strides=op[2], dilation_rate=op[3], padding="same" if op[4] else "valid", in_spatial_dims=[T, F])
            elif k == "padtf":
                pads = [(op[1], op[2]), (op[3], op[4])]
                if rng.random() < 0.5:
                    y, (T2, F2) = rf.pad(x, axes=[T, F], padding=pads, value=op[5])
                else:
                    y, (F2, T2) = rf.pad(x, axes=[F, T], padding=pads[::-1], value=op[5])
            elif k == "gatc":
                T2 = Dim(len(op[1]), name="idx")
                y = rf.gather(x, indices=Tensor("i", [T2], "int32", raw_tensor=torch.tensor(op[1], dtype=torch.int32)), axis=T, clip_to_valid=True)
            elif k == "gatb":
                I1, I2 = Dim(op[2], name="I1"), Dim(op[3], name="I2")
                i = Tensor("i", [B, I1, I2], "int32", raw_tensor=torch.tensor(op[1], dtype=torch.int32).reshape(len(xs), op[2], op[3]))
                perm = [B, I1, I2]
                rng.shuffle(perm)
                y = rf.gather(x, indices=i.copy_transpose(perm), axis=T, clip_to_valid=True)
                y, T2 = rf.merge_dims(y, dims=[I1, I2])
                op = op[:2]
            elif k == "slneg":
                y, T2 = rf.slice(x, axis=T, start=-op[1], end=-op[2] if op[2] else None)
            elif k == "topkf":
                y, _, F2 = rf.top_k(x, axis=F, k=op[1])
            elif k == "sortf":
                y, _, F2 = rf.sort(x, axis=F)
            elif k == "unfold":
                W, F2 = Dim(op[1], name="W"), Dim(nf, name="F2")
                y = rf.split_dims(x, axis=F, dims=[W, F2])
                y, T2 = rf.merge_dims(y, dims=[T, W])
            elif k == "stack":
                if rng.random() < 0.5:
                    y, S = rf.stack([x, x + op[1]])
                    y, F2 = rf.merge_dims(y, dims=[S, F])
                else:
                    y, F2 = rf.concat((x, F), (x + op[1], F))
            elif k == "splitf":
                Fa, F2 = Dim(op[1], name="Fa"), Dim(nf, name="Fb")
                _, y = rf.split(x, axis=F, out_dims=[Fa, F2])
            elif k == "dot":
                O = Dim(nf, name="O")
                w = Tensor("w", [O, F], "float32", raw_tensor=torch.tensor(op[1], dtype=torch.float32))
                y, F2 = rf.matmul(x, w, reduce=F), O
            elif k == "sumf":
                F2 = Dim(1, name="F1")
                y = rf.expand_dim(rf.reduce_sum(x, axis=F), F2)
            elif k == "addseq":
                y = x + Tensor("s", [B], x.dtype, raw_tensor=torch.tensor(op[1], dtype=getattr(torch, x.dtype)))
            elif k == "subsum":
                y = x - rf.cast(rf.reduce_sum(x, axis=T), x.dtype)
            ev.append({"op": "apply", "a": op, "ys": read(y, T2, F2)})
            if y.dtype != x.dtype and k not in ("mod", "sumf", "subsum"):
                ev.append({"op": "dtype-changed-by-" + k})
            x, T, F, f = y, T2, F2, nf
            if not T.is_static() and max(sizes(T)) > 24:
                break
            if max(sizes(T)) == 0:
                break
            x = dirty(x, T, F)
            lens = sizes(T)
            # reductions of the current value
            for r in rng.sample(REDS, 3) + rng.sample(ALLS, 1):
                res = self.reduce(rf, torch, r, x, B, T, F, f, lens, rng, Dim)
                if res is not None:
                    ev.append(res)
            if k in ("win", "conv", "maxpool", "conv2", "maxpool2") and min(lens) == 0 and not op[4]:
                break  # sequences shorter than the window: clipped sizes are outside of the dim math
        return [{"cfg": {"xs": xs, "f": c["f"]}, "ev": ev}]

    def reduce(self, rf, torch, r, x, B, T, F, f, lens, rng, Dim):
        a = [r]

        def rows(t, dims):
            assert t.dims_set == {B, *dims} and len(t.dims) == len(dims) + 1, t
            raw = t.copy_transpose([B, *dims]).raw_tensor.reshape(len(lens), -1)
            return [[int(round(float(v))) for v in row] for row in raw.tolist()]

        if min(lens) == 0 and r in ("max", "min", "mean", "argmax", "argmin", "last", "topkt", "gati"):
            return None
        if r in ("sum", "max", "min", "argmax", "argmin"):
            y = getattr(rf, "reduce_" + r)(x, axis=T)
            return {"op": "red", "a": a, "res": rows(y, [F])}
        if r == "mean":
            if not x.dtype.startswith("float"):
                return None
            y = rf.reduce_mean(x, axis=T) * rf.cast(rf.convert_to_tensor(T.get_size_tensor()) if not T.is_static() else rf.convert_to_tensor(T.dimension, dtype="int32"), x.dtype)
            return {"op": "red", "a": a, "res": rows(y, [F])}
        if r in ("any", "all"):
            y = rf.cast(getattr(rf, "reduce_" + r)((x % 3) == 0, axis=T), "int32")
            return {"op": "red", "a": a, "res": rows(y, [F])}
        if r == "last":
            y = rf.gather(x, indices=rf.last_frame_position_of_dim(T), axis=T)
            return {"op": "red", "a": a, "res": rows(y, [F])}
        if r == "sumtf":
            return {"op": "red", "a": a, "res": rows(rf.reduce_sum(x, axis=rng.choice([[T, F], [F, T]])), [])}
        if r == "hist":
            C = Dim(4, name="C")
            idx = rf.cast(rf.gather(x, indices=0, axis=F) % 4, "int32")
            y = rf.scatter(rf.ones(dims=[B, T], dtype="int32") if rng.random() < 0.5 else rf.ones(dims=[T, B], dtype="int32"), indices=idx, indices_dim=T, out_dim=C)
            return {"op": "red", "a": a, "res": rows(y, [C])}
        if r == "gati":
            i = rng.choice([0, 1, 2, 5, -1])
            return {"op": "red", "a": [r, i], "res": rows(rf.gather(x, indices=i, axis=T, clip_to_valid=True), [F])}
        if r in ("smax", "smin", "ssum", "sarg"):
            C = Dim(4, name="C")
            idx = rf.cast(rf.gather(x, indices=0, axis=F) % 4, "int32")
            fill = rng.choice([-7, 0, 3, 50])
            y = rf.scatter(x, indices=idx, indices_dim=T, out_dim=C, mode={"smax": "max", "smin": "min", "ssum": "sum", "sarg": "argmax"}[r], fill_value=fill)
            return {"op": "red", "a": [r, fill], "res": rows(y, [C, F])}
        if r == "frob":
            if x.dtype != "float32" or int(x.raw_tensor.abs().max()) > 500:
                return None
            perm = [B, T, F]
            rng.shuffle(perm)
            return {"op": "red", "a": a, "res": rows(rf.matmul(x, x.copy_transpose(perm), reduce=rng.choice([[T, F], [F, T]])), [])}
        if r == "gram":
            if x.dtype != "float32" or int(x.raw_tensor.abs().max()) > 500:
                return None
            y, F2 = rf.replace_dim(x, in_dim=F)
            g = rf.matmul(x, y, reduce=T)
            return {"op": "red", "a": a, "res": rows(g, [F, F2])}
        if r == "edit":
            if max(lens) > 7 or T.is_static():
                return None
            p = rf.cast(rf.gather(x, indices=0, axis=F) % 3, "int32")
            q = rf.reverse_sequence(rf.cast(rf.gather(x, indices=f - 1, axis=F) % 3, "int32"), axis=T)
            p.sparse_dim = q.sparse_dim = Dim(3, name="V")
            return {"op": "red", "a": a, "res": rows(rf.edit_distance(p.copy_transpose([B, T]), T, q.copy_transpose([B, T]), T), [])}
        if r == "numel":
            y = rf.num_elements_of_shape([T])
            if isinstance(y, int):
                return {"op": "red", "a": a, "res": [[y]] * len(lens)}
            if B not in y.dims:
                return {"op": "red", "a": a, "res": [[int(y.raw_tensor)]] * len(lens)}
            return {"op": "red", "a": a, "res": rows(y, [])}
        if r == "topkt":
            k = rng.randint(1, min(lens))
            y, _, K = rf.top_k(rf.gather(x, indices=0, axis=F), axis=T, k=k)
            return {"op": "red", "a": [r, k], "res": rows(y, [K])}

        def flat(t, dims):
            return [int(round(float(v))) for v in t.copy_transpose(dims).raw_tensor.reshape(-1).tolist()]

        order = rng.choice([[B, T], [T, B]])
        if r in ("sumbt", "maxbt", "minbt"):
            if r != "sumbt" and sum(lens) == 0:
                return None
            return {"op": "all", "a": a, "res": flat(getattr(rf, "reduce_" + r[:3])(x, axis=order), [F])}
        if r == "meanbt":
            if not x.dtype.startswith("float") or not sum(lens):
                return None
            return {"op": "all", "a": a, "res": flat(rf.reduce_mean(x, axis=order) * float(sum(lens)), [F])}
        if r == "grambt":
            if x.dtype != "float32" or int(x.raw_tensor.abs().max()) > 500:
                return None
            y, F2 = rf.replace_dim(x, in_dim=F)
            perm = [B, T, F2]
            rng.shuffle(perm)
            return {"op": "all", "a": a, "res": flat(rf.matmul(x, y.copy_transpose(perm), reduce=order), [F, F2])}
        if r == "numelbt":
            y = rf.num_elements_of_shape(order)
            return {"op": "all", "a": a, "res": [y if isinstance(y, int) else int(y.raw_tensor)]}
        if r == "pack":
            p, pd = rf.pack_padded(x, dims=[B, T])
            return {"op": "all", "a": a, "res": flat(p, [pd, F])}
