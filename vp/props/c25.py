"""C25: TensorFlow layers on padded batches compute what they define on the sequences."""
import os
import random
from ..harness import Prop
from . import c21

KINDS = ["id", "add", "mul", "mod", "pos", "rev", "shr", "shl", "pad", "slice", "slicesize", "prefix", "postfix", "cumsum", "rcumsum", "msel", "twice", "where",
         "win", "maxpool", "conv", "topkf", "unfold", "stack", "splitf", "dot", "sumf", "addseq", "subsum", "slnd", "slstart", "rep"]
IDS = ["copy", "flat", "flattm", "transpose", "swap", "stackgather", "mergesplit", "reinterpret", "chunk", "expandsqueeze", "concat0", "scatter", "sbt"]
REDS = ["sum", "max", "min", "mean", "last", "sumtf", "gram", "numel", "topkt", "argmax", "argmin", "any", "all"]
ALLS = ["sumbt", "maxbt", "minbt", "meanbt", "pack"]


def gen_op(rng, f, lens, static):
    """one random op <<name, args...>>; :return: op, new f, new lens (None: depends on the values)"""
    v = rng.randint(-3, 9)
    for _ in range(3000):
        k = rng.choice(KINDS)
        if k in ("rep", "slstart", "msel") and static:
            continue  # only for dynamic axes
        if k == "id":
            return [k, rng.choice(IDS), rng.randint(1, 4), rng.randint(1, 3)], f, lens
        if k == "postfix":
            m = rng.randint(1, 2)
            return [k, m, v], f, [n + m for n in lens]
        if k == "rcumsum":
            return [k], f, lens
        if k == "slnd":
            return [k, [rng.randint(0, n - 1) for n in lens], rng.randint(1, 4)], f, "slnd"
        if k == "slstart":
            return [k, [rng.randint(0, n - 1) for n in lens]], f, "slstart"
        if k == "rep":
            return [k, rng.choice([2, 3, 4])], f, None
        op, nf, nl = c21.gen_op(rng, f, lens)
        if op[0] == k:
            if k == "maxpool" and (op[2] > op[1] or op[3] > 1):
                continue  # not supported by TF
            if k in ("maxpool", "conv") and not op[4] and min(lens) < (op[1] - 1) * op[3] + 1 or k == "win" and not op[4] and min(lens) < op[1]:
                continue  # TF cannot do it when there is no window at all
            if k == "conv" and op[2] > 1 and op[3] > 1:
                continue
            if k in ("maxpool", "conv") and op[2] > 1 and op[4]:
                w, st = op[1:3]
                if st > w:
                    continue
                # the padding: documented for "same_static" and dynamic axes, otherwise as TF defines it
                left = max((-(-lens[0] // st) - 1) * st + w - lens[0], 0) // 2 if static else (w - st) // 2
                if any(not any(0 <= i * st - left + j < n for j in range(w)) for n in lens for i in range(-(-n // st))):
                    continue
                return [k + "l", w, st, left] + op[5:], nf, nl
            return op, nf, nl
    return ["add", v], f, lens


class P(Prop):
    id = "C25"
    trace_module = "RaggedTrace"
    case_timeout = 240
    rule = (
        "seeded chains of TensorFlow layers (net dict) on padded batches with garbage in the padding (optionally re-injected between the layers), batch- or time-major,"
        " run on all sequences and on single sequences of the batch; lengths, values and reductions of every intermediate layer compared with the definition on the sequences"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS NMax=%i VMax=%i Feat=%i\n"
        return [("RaggedMC", c % ((4, 2, 2) if tier == "thorough" else (3, 1, 2)), {"workers": 4})]

    def cases(self, tier, rng):
        out = []
        for i in range(4000 if tier == "thorough" else 220):
            B = rng.choice([1, 2, 2, 3, 3])
            f = rng.randint(1, 3)
            xs = [[[rng.randint(0, 9) for _ in range(f)] for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7]))] for _ in range(B)]
            out.append({"xs": xs, "f": f, "seed": rng.randrange(10**9), "tbf": rng.random() < 0.3, "int": rng.random() < 0.15})
        return out

    def run_case(self, c, scratch):
        os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
        import tensorflow as tf
        import numpy
        import returnn.tf.compat as tf_compat
        from returnn.util.basic import BehaviorVersion

        tf_compat.v1.disable_eager_execution()
        if BehaviorVersion.get_if_set() is None:
            BehaviorVersion.set(21)
        rng = random.Random(c["seed"])
        with tf.Graph().as_default(), tf_compat.v1.Session(config=tf_compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)) as session:
            return self.run_net(c, rng, tf, numpy, session)

    def run_net(self, c, rng, tf, numpy, session):
        from returnn.config import Config
        from returnn.tf.network import TFNetwork
        from returnn.tensor import Dim, batch_dim
        import returnn.tf.compat as tf_compat

        xs, f = c["xs"], c["f"]
        B = len(xs)
        T = Dim(None, name="time", kind=Dim.Types.Spatial)
        F = Dim(f, name="feat", kind=Dim.Types.Feature)
        aux_n = Dim(8, name="auxn", kind=Dim.Types.Spatial)
        dims = [T, batch_dim, F] if c["tbf"] else [batch_dim, T, F]
        net, weights, aux = {}, {}, []  # aux: per-sequence constants
        steps, reds = [], []
        B_ = self.B_(net, weights, aux, rng, (T, F))
        lens = [len(x) for x in xs]
        cur, curT, curF, cf = "data", T, F, f
        for i in range(rng.randint(1, 4)):
            if rng.random() < 0.4:
                cur = B_.dirty(cur, curT)
            op, nf, nl = gen_op(rng, cf, lens, B_.static)
            if isinstance(nl, str):
                nl = [op[2]] * B if nl == "slnd" else [n - s for n, s in zip(lens, op[1])]
            cur, curT, curF = B_.layer("s%i" % i, op, cur, curT, curF, cf, nf)
            last = nl is None or curT is None
            cf = nf
            B_.static = B_.static or op[0] in ("slnd", "slicesize")
            steps.append((op, cur, curT, curF))
            if last or max(nl) > 20 or min(nl) < 1:
                lens = None
                break
            lens = nl
            if rng.random() < 0.6:
                r = rng.choice(REDS + ALLS)
                r = [r, rng.randint(1, min(lens))] if r == "topkt" else [r]
                src = B_.dirty(cur, curT) if rng.random() < 0.5 else cur
                name, post = B_.reduce("r%i" % i, r, src, curT, curF)
                reds.append((len(steps), r, name, post, cf))
        for L in net.values():
            L["is_output_layer"] = True
        config = Config({"extern_data": {"data": {"dim_tags": dims}, "aux": {"dim_tags": [batch_dim, aux_n], "dtype": "int32", "available_for_inference": True}}})
        tfnet = TFNetwork(config=config, train_flag=False)
        tfnet.construct_from_dict(net)
        session.run(tf_compat.v1.global_variables_initializer())
        for p in tfnet.get_params_list():
            for name, w in weights.items():
                if p.name.startswith(name + "/"):
                    p.load(numpy.array(w, "float32").reshape(p.shape.as_list()), session)

        def sizes_t(d):
            return d.dyn_size_ext.raw_tensor if d.dyn_size_ext is not None else None

        fetch = {}
        for i, (op, name, t, ff) in enumerate(steps):
            o = tfnet.get_layer(name).output
            # the time axis is the one which is neither batch nor feature
            assert o.batch_ndim == 3, (op, o)
            fa = o.get_axis_from_description(ff)
            ta = [a for a in range(3) if a not in (o.batch_dim_axis, fa)][0]
            td = o.dim_tags[ta]
            fetch["s%i" % i] = [tf.transpose(o.placeholder, [o.batch_dim_axis, ta, fa]), td.dyn_size if td.dimension is None else tf.zeros([0], "int32")]
        for i, (k, r, name, post, cf) in enumerate(reds):
            o = tfnet.get_layer(name).output
            fetch["r%i" % i] = [o.copy_as_batch_major().placeholder if o.have_batch_axis() and r[0] not in ("pack",) else o.placeholder, tf.zeros([0], "int32")]
        d = tfnet.extern_data.data["data"]
        da = tfnet.extern_data.data["aux"]
        traces = []
        plans = [list(range(B))]
        if B > 1:
            plans.append([rng.randrange(B)])
        for ids in plans:
            n = [len(xs[i]) for i in ids]
            raw = numpy.random.RandomState(c["seed"] % 2**31).choice([-40.0, 33.0, 7.0, 0.0], (len(ids), max(n), f)).astype("float32")
            for b, i in enumerate(ids):
                raw[b, : n[b]] = xs[i]
            a = numpy.zeros([len(ids), 8], "int32")
            for j, v in enumerate(aux):
                a[:, j] = [v[i] for i in ids]
            feed = {d.placeholder: raw.transpose(1, 0, 2) if c["tbf"] else raw, d.get_sequence_lengths(): n, da.placeholder: a}
            bd = tfnet.extern_data.get_batch_info()
            if bd.dim is not None and not isinstance(bd.dim, int) and bd.dim.op.type == "Placeholder":
                feed[bd.dim] = len(ids)
            res = session.run(fetch, feed)
            ev = []

            def toint(v):
                if abs(v - round(float(v))) > 1e-3:
                    raise Exception("not an integer: %r" % v)
                return int(round(float(v)))

            for i, (op, *_) in enumerate(steps):
                y, sz = res["s%i" % i]
                sz = [int(s) for s in sz] if len(sz) else [y.shape[1]] * len(ids)
                if len(sz) != len(ids) or y.shape[0] != len(ids) or max(sz) > y.shape[1]:
                    raise Exception("inconsistent shape %r / sizes %r after %s" % (y.shape, sz, op))
                op = list(op)
                if op[0] in ("addseq", "slnd", "slstart"):
                    op[1] = [op[1][j] for j in ids]
                ev.append({"op": "apply", "a": op, "ys": [[[toint(v) for v in r] for r in y[b, : sz[b]]] for b in range(len(ids))], "i": i + 1})
                for j, (k, r, name, post, cf) in enumerate(reds):
                    if k == i + 1:
                        v = res["r%i" % j][0]
                        v = post(v, sz, toint, len(ids))
                        if v is not None:
                            ev.append({"op": "red" if r[0] in REDS else "all", "a": r, "res": v})
            # reductions refer to the value right after their step
            traces.append({"cfg": {"xs": [xs[i] for i in ids], "f": f}, "ev": ev})
        return traces

    class B_:
        """builds the net dict"""

        def __init__(self, net, weights, aux, rng, T0):
            self.net, self.weights, self.aux, self.rng, (self.T0, self.F0) = net, weights, aux, rng, T0
            self.n, self.static, self.swapped = 0, False, False

        def add(self, **d):
            self.n += 1
            name = "l%i" % self.n
            d["class"] = d.pop("cls")
            if "src" in d:
                d["from"] = d.pop("src")
            self.net[name] = d
            return name

        def dirty(self, src, T):
            return self.add(cls="eval", src=src, eval=dirty_func)

        def mask(self, src, T, v):
            if self.static:
                return src
            return self.add(cls="seq_len_mask", src=src, axis=T, mask_value=float(v))

        def seqconst(self, vals):
            self.aux.append(vals)
            return self.add(cls="gather", src="data:aux", axis="stag:auxn", position=len(self.aux) - 1)

        def newdim(self, what, n=None, feat=False):
            from returnn.tensor import Dim

            return Dim(n, name="%s%i" % (what, self.n), kind=Dim.Types.Feature if feat else Dim.Types.Spatial)

        def positions(self, src, T):
            return self.add(cls="range_in_axis", src=src, axis=T, dtype="int32")

        def layer(self, name, op, x, T, F, f, nf):
            """:return: layer name, time dim, feature dim"""
            rng, add, k = self.rng, self.add, op[0]
            if k == "id":
                return self.ident(op, x, T, F, f)
            if k == "add":
                return add(cls="eval", src=x, eval="source(0) + %i." % op[1]), T, F
            if k == "mul":
                return add(cls="eval", src=x, eval="source(0) * %i." % op[1]), T, F
            if k == "mod":
                return add(cls="eval", src=x, eval="tf.math.floormod(source(0), %i.)" % op[1]), T, F
            if k == "pos":
                p = add(cls="cast", src=self.positions(x, T), dtype="float32")
                return add(cls="combine", kind="add", src=[x, p] if rng.random() < 0.6 else [p, x]), T, F
            if k == "rev":
                p = self.positions(x, T)
                n = add(cls="length", src=x, axis=T, dtype="int32")
                i = add(cls="combine", kind="sub", src=[add(cls="eval", src=n, eval="source(0) - 1"), p], allow_broadcast_all_sources=True)
                if rng.random() < 0.3:
                    return add(cls="scatter_nd", src=x, position=i, position_axis=T, out_spatial_dim=T, filter_invalid_indices=True), T, F
                if rng.random() < 0.4:
                    # another axis of the same length for the positions
                    return add(cls="gather", src=x, position=i, axis=T, clip_to_valid=True), T, F
                i = add(cls="eval", src=i, eval="tf.maximum(source(0), 0)")
                return add(cls="gather", src=x, position=i, axis=T), T, F
            if k == "shr":
                if op[1] == 0:
                    return add(cls="copy", src=x), T, F
                return add(cls="shift_axis", src=x, axis=T, amount=op[1], pad_value=op[2], adjust_size_info=False), T, F
            if k == "shl":
                if op[1] == 0:
                    return add(cls="copy", src=x), T, F
                return add(cls="shift_axis", src=self.mask(x, T, op[2]), axis=T, amount=-op[1], pad_value=op[2], adjust_size_info=False), T, F
            if k == "pad":
                o = self.newdim("pad")
                if rng.random() < 0.3 and op[2] == 0:
                    return add(cls="pad", src=x, axes=[T], padding=[(op[1], 0)], value=op[3], out_dims=[o], handle_dynamic_dims=False), o, F
                return add(cls="pad", src=x, axes=T, padding=(op[1], op[2]), value=op[3], out_dims=o, handle_dynamic_dims=True), o, F
            if k == "slice":
                o = self.newdim("slice")
                if op[2] == 0 and op[3] == 1 and op[1] > 0 and rng.random() < 0.3:
                    return add(cls="shift_axis", src=x, axis=T, amount=-op[1], pad=False), None, F
                return add(cls="slice", src=x, axis=T, slice_start=op[1] or None, slice_end=-op[2] if op[2] else None, slice_step=op[3] if op[3] != 1 or rng.random() < 0.3 else None, out_dim=o), o, F
            if k == "slicesize":
                o = self.newdim("slicesize", op[2])
                if rng.random() < 0.5:
                    return add(cls="slice_nd", src=x, axis=T, start=self.seqconst([op[1]] * 8), size=op[2], out_spatial_dim=o), o, F
                return add(cls="slice", src=x, axis=T, slice_start=op[1], slice_end=op[1] + op[2], out_dim=o), o, F
            if k == "slnd":
                o = self.newdim("slnd", op[2])
                return add(cls="slice_nd", src=x, axis=T, start=self.seqconst(op[1]), size=op[2], out_spatial_dim=o), o, F
            if k == "slstart":
                o = self.newdim("slstart")
                return add(cls="slice_nd", src=x, axis=T, start=self.seqconst(op[1]), size=None, out_spatial_dim=o), o, F
            if k == "prefix":
                o = self.newdim("prefix")
                return add(cls="prefix_in_time", src=x, axis=T, prefix=float(op[2]), repeat=op[1], out_dim=o), o, F
            if k == "postfix":
                o = self.newdim("postfix")
                if rng.random() < 0.5 or isinstance(F, str):
                    return add(cls="postfix_in_time", src=x, axis=T, postfix=float(op[2]), repeat=op[1], out_dim=o), o, F
                c = add(cls="constant", value=float(op[2]), shape=[F], dtype="float32", with_batch_dim=True)
                return add(cls="postfix_in_time", src=x, axis=T, postfix=c, repeat=op[1], out_dim=o), o, F
            if k == "cumsum":
                return add(cls="cumsum", src=x, axis=T), T, F
            if k == "rcumsum":
                return add(cls="cumsum", src=self.mask(x, T, 0.0), axis=T, reverse=True), T, F
            if k == "msel":
                g = add(cls="gather", src=x, axis=F, position=0)
                m = add(cls="compare", src=add(cls="eval", src=g, eval="tf.math.floormod(source(0), %i.)" % op[1]), value=0, kind="not_equal")
                return add(cls="masked_computation", mask=m, src=x, unit={"class": "copy", "from": "data"}), None, F
            if k == "twice":
                o = self.newdim("twice")
                if rng.random() < 0.3:
                    return add(cls="resize", src=x, axis=T, factor=2, kind="nn", out_dim=o), o, F
                return add(cls="repeat", src=x, axis=T, repetitions=2, out_dim=o), o, F
            if k == "rep":
                o = self.newdim("rep")
                g = add(cls="gather", src=x, axis=F, position=0)
                r = add(cls="eval", src=[g, self.positions(x, T)], eval="tf.where(tf.zeros_like(source(0), 'bool') | tf.equal(source(1), 0), tf.ones_like(source(0), 'int32'), tf.cast(tf.math.floormod(source(0), %i.), 'int32'))" % op[1], out_type={"dtype": "int32"})
                return add(cls="repeat", src=x, axis=T, repetitions=r, out_dim=o), o, F
            if k == "where":
                g = add(cls="gather", src=x, axis=F, position=0)
                m = add(cls="compare", src=g, value=op[1], kind="greater")
                return add(cls="switch", condition=m, true_from=x, false_from=add(cls="constant", value=float(op[2]), dtype="float32") if rng.random() < 0.5 else float(op[2])), T, F
            if k == "win":
                _, w, left, st, same, given = op
                o, wd = self.newdim("win"), self.newdim("w", w)
                if same:
                    x = self.mask(x, T, 0.0)
                y = add(cls="window", src=x, axis=T, window_dim=wd, padding="same" if same else "valid", stride=st, out_spatial_dim=o, **({"window_left": left} if given and same else {}))
                nF = self.newdim("wf", w * f, feat=True)
                return add(cls="merge_dims", src=y, axes=[wd, F], keep_order=True, out_dim=nF), o, nF
            if k in ("maxpool", "conv", "maxpooll", "convl"):
                w, st, d, same = op[1:5] if not k.endswith("ll") and k != "convl" else (op[1], op[2], 1, True)
                o = self.newdim(k)
                pad = "valid" if not same else "same_static" if st > 1 else rng.choice(["same", "same"] if d > 1 else ["same", "same_static", "SAME"])
                a = dict(src=x, in_spatial_dims=[T], in_dim=F, out_spatial_dims=[o], padding=pad, strides=(st,), use_time_mask=True)
                if k.startswith("maxpool"):
                    return add(cls="pool", mode="max", pool_size=(w,), dilation_rate=(d,), out_dim=F, **a), o, F
                nF = self.newdim("cf", nf, feat=True)
                y = add(cls="conv", filter_size=(w,), dilation_rate=(d,), out_dim=nF, with_bias=False, activation=None, **a)
                self.weights[y] = [[[op[-1][o_][i][t] for o_ in range(nf)] for i in range(f)] for t in range(w)]
                return add(cls="eval", src=y, eval="tf.round(source(0))"), o, nF
            if k == "topkf":
                nF = self.newdim("topk", nf, feat=True)
                return add(cls="top_k", src=x, axis=F, k=nf, k_dim=nF), T, nF
            if k == "unfold":
                w = op[1]
                wd, nF, o = self.newdim("w", w), self.newdim("uf", f // w, feat=True), self.newdim("ut")
                y = add(cls="split_dims", src=x, axis=F, dims=(wd, nF))
                return add(cls="merge_dims", src=y, axes=[T, wd], keep_order=True, out_dim=o), o, nF
            if k == "stack":
                y = add(cls="eval", src=x, eval="source(0) + %i." % op[1])
                if rng.random() < 0.3 and not self.swapped or isinstance(F, str):
                    return add(cls="copy", src=[x, y]), T, "F"
                nF = self.newdim("st", nf, feat=True)
                return add(cls="concat", src=[(x, F), (y, F)], out_dim=nF), T, nF
            if k == "splitf":
                nF = self.newdim("sp", nf, feat=True)
                if rng.random() < 0.5:
                    return add(cls="slice", src=x, axis=F, slice_start=op[1], out_dim=nF), T, nF
                oF = self.newdim("sq", op[1], feat=True)
                y = add(cls="split", src=x, axis=F, out_dims=[oF, nF])
                return add(cls="copy", src=y + "/1"), T, nF
            if k == "dot":
                nF = self.newdim("dot", nf, feat=True)
                y = add(cls="linear", src=x, out_dim=nF, **({} if isinstance(F, str) else {"in_dim": F}), with_bias=False, activation=None)
                self.weights[y] = [[op[1][o_][j] for o_ in range(nf)] for j in range(f)]
                return add(cls="eval", src=y, eval="tf.round(source(0))"), T, nF
            if k == "sumf":
                nF = self.newdim("one", 1, feat=True)
                if rng.random() < 0.5:
                    return add(cls="reduce", mode="sum", src=x, axis=F, keep_dims=True), T, "F"
                return add(cls="expand_dims", src=add(cls="reduce", mode="sum", src=x, axis=F), axis="F", dim=nF), T, nF
            if k == "addseq":
                c = add(cls="cast", src=self.seqconst(op[1]), dtype="float32")
                return add(cls="combine", kind="add", src=[x, c]), T, F
            if k == "subsum":
                r = add(cls="reduce", mode="sum", src=x, axis=T)
                return add(cls="combine", kind="sub", src=[x, r]), T, F
            raise ValueError(op)

        def ident(self, op, x, T, F, f):
            add, k = self.add, op[1]
            if k == "copy":
                return add(cls="copy", src=x), T, F
            if k in ("flat", "flattm"):
                if self.static:
                    return add(cls="copy", src=x), T, F
                y = add(cls="flatten_batch", src=x, axis=T, batch_major=k == "flat")
                y = add(cls="eval", src=y, eval="source(0) + 1. - 1.")
                return add(cls="unflatten_batch", src=y), T, F
            if k in ("swap", "transpose") and isinstance(F, str):
                return add(cls="copy", src=x), T, F
            if k == "transpose" and T is self.T0 and F is self.F0:  # (the hash of a newly defined dim changes, so it cannot be a key of a dict)
                return add(cls="transpose", src=x, perm={T: F, F: T}), T, F
            if k == "transpose":
                return add(cls="swap_axes", src=x, axis1="B", axis2=F), T, F
            self.swapped = self.swapped or k in ("swap", "transpose")
            if k == "swap":
                return add(cls="swap_axes", src=x, axis1=T, axis2=F if self.rng.random() < 0.5 else "B"), T, F
            if k == "stackgather":
                s = self.newdim("stk", 2)
                y = add(cls="eval", src=x, eval="source(0) * 2.")
                z = add(cls="stack", src=[y, x], out_spatial_dim=s)
                return add(cls="gather", src=z, axis=s, position=1), T, F
            if k == "mergesplit":
                b = self.newdim("mf", f, feat=True)
                m = self.newdim("mm", f * 1, feat=True)
                o = self.newdim("one", 1)
                y = add(cls="split_dims", src=x, axis=F, dims=(o, b))
                return add(cls="merge_dims", src=y, axes=[o, b], keep_order=True, out_dim=m), T, m
            if k == "reinterpret":
                return add(cls="reinterpret_data", src=x, size_base=x), T, F
            if k == "chunk":
                y = add(cls="time_chunking", src=x, axis=T, chunk_size=max(op[2], op[3]), chunk_step=op[3])
                y = add(cls="eval", src=y, eval="source(0) + 1. - 1.")
                return add(cls="time_unchunking", src=y, chunking_layer="l%i" % (self.n - 1)), T, F
            if k == "expandsqueeze":
                o = self.newdim("one", 1)
                y = add(cls="expand_dims", src=x, axis="spatial", dim=o)
                return add(cls="squeeze", src=y, axis=o), T, F
            if k == "concat0":
                o = self.newdim("cc")
                y = add(cls="pad", src=x, axes=T, padding=(op[2], op[3]), value=0.0, out_dims=o, handle_dynamic_dims=True)
                q = self.newdim("cs")
                return add(cls="slice", src=y, axis=o, slice_start=op[2], slice_end=-op[3], out_dim=q), q, F
            if k == "scatter":
                p = self.positions(x, T)
                p = add(cls="combine", kind="add", src=[p, self.seqconst([0] * 8)], allow_broadcast_all_sources=True)
                return add(cls="scatter_nd", src=x, position=p, position_axis=T, out_spatial_dim=T, filter_invalid_indices=True), T, F
            if k == "sbt" and T is not self.T0:
                return add(cls="copy", src=x), T, F  # the base needs a time axis
            if k == "sbt":
                y = add(cls="merge_dims", src=x, axes=["B", T], keep_order=True)
                return add(cls="split_batch_time", src=y, base=x), T, F
            raise ValueError(op)

        def reduce(self, name, r, x, T, F):
            """:return: layer, post-processing of the value"""
            add, k = self.add, r[0]

            def per(v, sz, toint, nb):
                v = v.reshape(nb, -1)
                return [[toint(e) for e in row] for row in v]

            if k in ("sum", "max", "min", "argmax", "argmin"):
                return add(cls="reduce", mode=k, src=x, axis=T), per
            if k == "mean":
                n = add(cls="cast", src=add(cls="length", src=x, axis=T), dtype="float32")
                return add(cls="eval", src=[add(cls="reduce", mode="mean", src=x, axis=T), n], eval="tf.round(source(0) * source(1) * 1000.) / 1000."), per
            if k in ("any", "all"):
                m = add(cls="compare", src=add(cls="eval", src=x, eval="tf.math.floormod(source(0), 3.)"), value=0, kind="equal")
                return add(cls="cast", dtype="int32", src=add(cls="reduce", mode=k, src=m, axis=T)), per
            if k == "last":
                n = add(cls="length", src=x, axis=T, dtype="int32")
                return add(cls="gather", src=x, axis=T, position=add(cls="eval", src=n, eval="source(0) - 1")), per
            if k == "sumtf":
                return add(cls="reduce", mode="sum", src=x, axes=[T, F]), per
            if k == "numel" and self.static:
                return add(cls="copy", src=x), (lambda v, sz, toint, nb: None)
            if k == "numel":
                return add(cls="length", src=x, axis=T, dtype="int32"), per
            if k == "gram":
                F2 = self.newdim("f2", F.dimension, feat=True) if not isinstance(F, str) else None
                if F2 is None:
                    return add(cls="copy", src=x), (lambda v, sz, toint, nb: None)
                y = add(cls="reinterpret_data", src=x, set_dim_tags={F: F2})
                return add(cls="dot", src=[x, y], reduce=T), per
            if k == "topkt":
                g = add(cls="gather", src=x, axis=F, position=0)
                return add(cls="top_k", src=self.mask(g, T, -1000.0), axis=T, k=r[1]), per

            def flat(v, sz, toint, nb):
                return [toint(e) for e in v.flatten()]

            if k in ("sumbt", "maxbt", "minbt"):
                return add(cls="reduce", mode=k[:-2], src=x, axes=["B", T]), flat
            if k == "meanbt":
                return add(cls="reduce", mode="mean", src=x, axes=["B", T]), (lambda v, sz, toint, nb: [toint(round(float(e) * sum(sz), 2)) for e in v.flatten()])
            if k == "pack" and self.static:
                return add(cls="copy", src=x), (lambda v, sz, toint, nb: None)
            if k == "pack":
                return add(cls="flatten_batch", src=x, axis=T, batch_major=True), flat
            raise ValueError(r)


def dirty_func(source, **kwargs):
    """garbage in the padding"""
    import tensorflow as tf

    x = source(0, as_data=True)
    y = x.placeholder
    for a in range(x.batch_ndim):
        if a != x.batch_dim_axis and x.dim_tags[a].dimension is None and x.dim_tags[a].need_masking():
            m = x.get_sequence_mask_broadcast(axis=a)
            y = tf.where(tf.broadcast_to(m, tf.shape(y)), y, tf.ones_like(y) * tf.cast(tf.random.uniform([], -50, 50, "int32"), y.dtype))
    return y
