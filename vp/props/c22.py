"""C22: models on a sequence do not depend on its batch, padding, axis order, and (causal) on later frames or the step-wise evaluation."""
import random
from ..harness import Prop

KINDS = [
    "softmax", "logsoftmax", "normalize", "moments", "logsumexp", "layernorm", "rmsnorm", "groupnorm", "batchnorm", "bntrain", "dotatt",
    "conv", "convvalid", "depthwise", "pool",
    "lstm", "zoneout", "scan", "scancond",
    "selfatt", "ropeatt", "relposatt", "learnedrelpos", "crossatt", "causal", "ropecausal", "relposcausal",
    "transenc", "transdec", "transdec0", "conformer", "conformerconv", "conformer2", "ebranch",
    "stft", "mel", "ctc", "ce", "smooth", "cumsum", "specmask", "edit", "seqavg",
]  # fmt: skip
CAUSAL = {"lstm", "zoneout", "scan", "causal", "ropecausal", "relposcausal", "transdec", "transdec0", "cumsum"}


class P(Prop):
    id = "C22"
    trace_module = "SeqModelTrace"
    case_timeout = 200
    rule = (
        "seeded modules (normalisations, convolutions, recurrent, all attention variants, Transformer/Conformer/E-Branchformer, losses, signal processing) with random parameters;"
        " each sequence alone, in random garbage-padded batches with random axis orders, on prefixes and step by step with carried state; results and input gradients compared"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS NB=2 NMax=%i V=%i\n"
        return [("SeqModelMC", c % ((4, 1) if tier == "thorough" else (3, 1)), {"workers": 4})]

    def cases(self, tier, rng):
        out = []
        for i in range(300 if tier == "thorough" else 24):
            for k in KINDS:
                n = rng.choice([2, 3, 4])
                lens = [rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12]) for _ in range(n)]
                out.append({"kind": k, "seed": rng.randrange(10**9), "lens": lens})
        return out

    def run_case(self, c, scratch):
        import numpy
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim, Tensor, batch_dim, single_step_dim
        from returnn.util.basic import BehaviorVersion

        if BehaviorVersion.get_if_set() is None:
            BehaviorVersion.set(24)
        rf.select_backend_torch()
        rng = random.Random(c["seed"])
        nrng = numpy.random.RandomState(c["seed"] % 2**31)
        torch.manual_seed(c["seed"])
        rf.set_random_seed(c["seed"])
        kind = c["kind"]
        rf.init_train_step_run_ctx(train_flag=kind == "bntrain")
        F = Dim(4, name="F")
        V = Dim(6, name="V")
        lens = list(c["lens"])
        if kind in ("stft", "mel"):
            lens = [n * 5 + 8 for n in lens]
        if kind in ("convvalid", "pool"):
            lens = [n + 8 for n in lens]
        if kind == "ctc":
            lens = [n + 3 for n in lens]
        nseq = len(lens)
        lab_in = kind in ("transenc", "transdec", "transdec0", "edit")
        # the sequences: input, and a second one (encoder, targets)
        xs = [nrng.randint(0, 6, (n,)) if lab_in else nrng.normal(0, 1, (n, 4)).astype("float32") for n in lens]
        lens2 = [rng.randint(1, 5) for _ in lens]
        if kind == "ctc":
            lens2 = [rng.randint(1, max(1, n // 2)) for n in lens]
        if kind in ("ce", "smooth"):
            lens2 = lens
        es = [nrng.normal(0, 1, (n, 4)).astype("float32") for n in lens2]
        ls = [nrng.randint(1, 6, (n,)) for n in lens2]

        def garbage(shape, ints):
            return nrng.randint(0, 6, shape) if ints else nrng.choice([-30.0, 25.0, 3.0], shape).astype("float32")

        def batch(parts, name, B, feat, T=None):
            ints = feat is V
            n = [len(p) for p in parts]
            if T is None:
                dyn = kind in ("ctc", "edit")  # other dims not supported
                if len(set(n)) == 1 and rng.random() < 0.3 and not dyn:
                    T = Dim(Tensor("sz", [], "int32", raw_tensor=torch.tensor(n[0], dtype=torch.int32)), name=name)
                elif len(set(n)) == 1 and rng.random() < 0.3 and not dyn:
                    T = Dim(n[0], name=name)
                else:
                    T = Dim(Tensor("sz", [B], "int32", raw_tensor=torch.tensor(n, dtype=torch.int32)), name=name)
            raw = garbage((len(parts), max(n)) + (() if ints else (4,)), ints)
            for b, p in enumerate(parts):
                raw[b, : len(p)] = p
            raw = torch.tensor(raw)
            dims = [B, T] if ints else [B, T, feat]
            if rng.random() < 0.4:
                perm = list(range(len(dims)))
                rng.shuffle(perm)
                if perm != list(range(len(dims))):
                    raw = raw.permute(perm).contiguous()
                    dims = [dims[i] for i in perm]
            if ints:
                return Tensor(name, dims, "int64", sparse_dim=V, raw_tensor=raw), T
            raw.requires_grad_(True)
            return Tensor(name, dims, "float32", raw_tensor=raw, feature_dim=feat), T

        run, step, frames = self.build(kind, rng, F, V)
        # random parameters, also for biases and scales
        if isinstance(run, tuple):
            mods, run = run[:-1], run[-1]
        else:
            mods = ()
        for m in mods:
            for pn, p in m.named_parameters():
                with torch.no_grad():
                    v = nrng.normal(0, 0.5, tuple(p.raw_tensor.shape))
                    if pn.endswith("variance"):
                        v = numpy.abs(v) + 0.3
                    p.raw_tensor.copy_(torch.tensor(v, dtype=p.raw_tensor.dtype))

        def q(v):
            v = v.detach().numpy().astype("float64")
            assert numpy.isfinite(v).all(), v
            return [int(round(x * 1000)) for x in v.flatten()]

        ev = []

        def emit(op, ids, outs, B, extra=lambda e: e):
            for key, (y, D) in sorted(outs.items()):
                y = y.copy_transpose([B] + ([D] if D is not None else []) + [d for d in y.dims if d not in (B, D)]) if B in y.dims else y
                for b, s in enumerate(ids):
                    raw = y.raw_tensor[b] if B in y.dims else y.raw_tensor
                    if D is None:
                        rows = [q(raw)]
                    else:
                        sz = D.get_size_tensor()
                        n = int(sz.raw_tensor[b]) if B in sz.dims else int(sz.raw_tensor)
                        assert n <= raw.shape[0], (n, raw.shape)
                        rows = [q(raw[t]) for t in range(n)]
                    ev.append(extra({"op": op, "s": s + 1, "key": key, "y": rows}))

        def evaluate(ids, cut=None):
            B = rng.choice([batch_dim, Dim(len(ids), name="B")])
            if B is batch_dim:
                batch_dim.reset_eager()
                batch_dim.dyn_size_ext = Tensor("batch", [], "int32", raw_tensor=torch.tensor(len(ids), dtype=torch.int32))
            parts = [xs[i][:cut] for i in ids]
            x, T = batch(parts, "x", B, V if lab_in else F)
            if kind in ("ce", "smooth"):
                z, Z = batch([ls[i] for i in ids], "z", B, V, T=T)
            elif kind in ("ctc", "edit"):
                z, Z = batch([ls[i] for i in ids], "z", B, V)
            else:
                z, Z = batch([es[i] for i in ids], "z", B, F)
            outs = run(x, T, z, Z, B)
            return x, T, z, Z, B, outs

        def grads(ids, x, T, B, outs):
            ys = [(y, D) for _, (y, D) in sorted(outs.items()) if y.raw_tensor.requires_grad and y.raw_tensor.dtype.is_floating_point]
            if not ys or not x.raw_tensor.requires_grad or kind == "logsoftmax":  # (log 0 in the padding)
                return
            y, D = ys[-1]
            w = rf.cast(y, "float32")
            loss = rf.reduce_sum(w * w, axis=w.dims, use_mask=True) if D is not None else rf.reduce_sum(w * w, axis=w.dims)
            (g,) = torch.autograd.grad(loss.raw_tensor, [x.raw_tensor], allow_unused=True)
            if g is None:
                return
            g = Tensor("g", x.dims, "float32", raw_tensor=g)
            emit("full", ids, {"grad": (g, T)}, B)
            if B in T.get_size_tensor().dims:
                gr = g.copy_transpose([B, T] + [d for d in x.dims if d not in (B, T)]).raw_tensor
                for b, s in enumerate(ids):
                    ev.append({"op": "pad", "s": s + 1, "key": "grad", "nonzero": bool((gr[b, int(T.get_size_tensor().raw_tensor[b]) :].abs() > 1e-5).any())})

        if kind == "bntrain":
            # statistics of the batch: as if all frames were one sequence
            ids = list(range(nseq))
            rng.shuffle(ids)
            if len(set(lens)) == 1:
                lens[0] += 1
                xs[0] = nrng.normal(0, 1, (lens[0], 4)).astype("float32")
            init = {n: p.raw_tensor.detach().clone() for n, p in mods[0].named_parameters()}
            cat = numpy.concatenate([xs[i] for i in ids])
            # (with padding: the fused op without padding has another, unbiased, running variance)
            B1 = Dim(2, name="two")
            T1 = Dim(Tensor("sz", [B1], "int32", raw_tensor=torch.tensor([len(cat) - 1, 1], dtype=torch.int32)), name="all")
            raw1 = garbage((2, len(cat) - 1, 4), False)
            raw1[0], raw1[1, 0] = cat[:-1], cat[-1]
            with torch.no_grad():
                y1 = run(Tensor("x", [B1, T1, F], "float32", raw_tensor=torch.tensor(raw1), feature_dim=F), T1, None, None, B1)["y"][0].copy_transpose([B1, T1, F]).raw_tensor
                y1 = torch.cat([y1[0], y1[1, :1]])
                st1 = [q(p.raw_tensor) for n, p in sorted(mods[0].named_parameters())]
                for n, p in mods[0].named_parameters():
                    p.raw_tensor.copy_(init[n])
                pos = 0
                for i in ids:
                    ev.append({"op": "full", "s": i + 1, "key": "y", "y": [q(r) for r in y1[pos : pos + lens[i]]]})
                    ev.append({"op": "full", "s": i + 1, "key": "stats", "y": st1})
                    pos += lens[i]
                x, T, z, Z, B, outs = evaluate(ids)
                emit("full", ids, outs, B)
                st2 = [q(p.raw_tensor) for n, p in sorted(mods[0].named_parameters())]
                ev += [{"op": "full", "s": i + 1, "key": "stats", "y": st2} for i in ids]
            return [{"cfg": {"kind": kind, "frames": list(frames), "lens": lens}, "ev": ev}]

        plans = [[i] for i in range(nseq)]
        rng.shuffle(plans)
        order = list(range(nseq))
        rng.shuffle(order)
        plans.append(order)
        plans.append([rng.randrange(nseq) for _ in range(rng.randint(2, 4))])
        if rng.random() < 0.5:
            rng.shuffle(plans)
        for ids in plans:
            x, T, z, Z, B, outs = evaluate(ids)
            emit("full", ids, outs, B)
            grads(ids, x, T, B, outs)
        if kind in CAUSAL:
            for s in range(nseq):
                if lens[s] > 1 and rng.random() < 0.5:
                    cut = rng.randint(1, lens[s] - 1)
                    x, T, z, Z, B, outs = evaluate([s], cut=cut)
                    emit("prefix", [s], {"y": outs["y"]}, B, lambda e: dict(e, n=cut))
            if step is not None:
                ids = list(order) if rng.random() < 0.7 else [rng.randrange(nseq)]
                x, T, z, Z, B, outs = evaluate(ids)
                xt = x.copy_transpose([B, T] + [d for d in x.dims if d not in (B, T)])
                state, f = step(z, Z, B)
                start = 0
                for t in range(start, max(lens[i] for i in ids)):
                    xf = xt.raw_tensor[:, t]
                    xf = Tensor("xt", [B] + [d for d in xt.dims if d not in (B, T)], xt.dtype, raw_tensor=xf, **({"sparse_dim": V} if lab_in else {"feature_dim": F}))
                    y, state = f(xf, state)
                    y = y.copy_transpose([B] + [d for d in y.dims if d != B])
                    for b, s in enumerate(ids):
                        if t < lens[s]:
                            ev.append({"op": "step", "s": s + 1, "key": "y", "t": t + 1, "y": q(y.raw_tensor[b])})
        return [{"cfg": {"kind": kind, "frames": list(frames), "lens": lens}, "ev": ev}]

    def build(self, kind, rng, F, V):
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim, Tensor, single_step_dim

        O = Dim(rng.choice([4, 6]), name="O")
        D = Dim(8, name="D")

        def fw(f):
            return lambda x, T, z, Z, B: {"y": (f(x, T), T)}

        if kind == "softmax":
            return fw(lambda x, T: rf.softmax(x, axis=T)), None, ("same",)
        if kind == "logsoftmax":
            return fw(lambda x, T: rf.log_softmax(x, axis=T)), None, ("same",)
        if kind == "normalize":
            ax = rng.choice(["T", "TF"])
            return fw(lambda x, T: rf.normalize(x, axis=T if ax == "T" else [T, F])), None, ("same",)
        if kind == "moments":
            return lambda x, T, z, Z, B: dict(zip(("mean", "var"), [(v, None) for v in rf.moments(x, axis=T)])), None, ("one",)
        if kind == "logsumexp":
            f = rng.choice([rf.reduce_logsumexp, rf.reduce_logmeanexp, rf.reduce_mean, rf.reduce_max, rf.reduce_min, rf.reduce_sum])
            return lambda x, T, z, Z, B: {"r": (f(x, axis=T), None)}, None, ("one",)
        if kind == "seqavg":
            # attention-like pooling over time
            m = rf.Linear(F, Dim(1, name="one"))
            return (m, lambda x, T, z, Z, B: {"r": (rf.matmul(rf.softmax(rf.squeeze(m(x), axis=m.out_dim), axis=T), x, reduce=T), None)}), None, ("one",)
        if kind in ("layernorm", "rmsnorm", "groupnorm", "batchnorm", "bntrain"):
            if kind == "layernorm":
                m = rf.LayerNorm(F)
            elif kind == "rmsnorm":
                m = rf.RMSNorm(F)
            elif kind == "groupnorm":
                m = rf.GroupNorm(F, num_groups=2)
            else:
                m = rf.BatchNorm(F, track_running_stats=True)
            return (m, fw(lambda x, T: m(x))), None, ("same",)
        if kind == "dotatt":

            def f(x, T, z, Z, B):
                return {"y": (rf.dot_attention(x, z, z, key_dim=F, axis=Z, att_dropout=0.0), T)}

            return f, None, ("same",)
        if kind == "specmask":
            return fw(lambda x, T: x * rf.cast(rf.sequence_mask(T) if not T.is_static() else rf.ones([T]), x.dtype)), None, ("same",)
        if kind == "cumsum":
            return fw(lambda x, T: rf.cumsum(x, spatial_dim=T)), None, ("same",)
        if kind in ("conv", "convvalid", "depthwise", "pool"):
            k = rng.choice([1, 2, 3, 5])
            st = rng.choice([1, 1, 2, 3])
            dil = rng.choice([1, 1, 2]) if st == 1 else 1
            if kind == "pool":
                mode = rng.choice(["max", "avg"])

                def f(x, T, z, Z, B):
                    y, T2 = rf.pool1d(x, mode=mode, pool_size=k, strides=st, padding="valid", in_spatial_dim=T)
                    return {"y": (y, T2)}

                return f, None, ("valid", k, st)
            if kind == "depthwise":
                m = rf.Conv1d(F, F, filter_size=k, padding="same", groups=4)
                return (m, lambda x, T, z, Z, B: {"y": m(x, in_spatial_dim=T)}), None, ("same",)
            pad = "same" if kind == "conv" else "valid"
            m = rf.Conv1d(F, O, filter_size=k, padding=pad, strides=st, dilation_rate=dil)
            return (m, lambda x, T, z, Z, B: {"y": m(x, in_spatial_dim=T)}), None, ("down", st) if pad == "same" else ("valid", (k - 1) * dil + 1, st)
        if kind in ("lstm", "zoneout"):
            m = rf.LSTM(F, O) if kind == "lstm" else rf.ZoneoutLSTM(F, O, zoneout_factor_cell=0.15, zoneout_factor_output=0.05, **({"use_zoneout_output": True} if rng.random() < 0.5 else {}))

            def f(x, T, z, Z, B):
                y, s = m(x, state=m.default_initial_state(batch_dims=[B]), spatial_dim=T)
                return {"y": (y, T), "h": (s.h, None), "c": (s.c, None)}

            def st(z, Z, B):
                return m.default_initial_state(batch_dims=[B]), lambda x, s: m(x, state=s, spatial_dim=single_step_dim)

            return (m, f), st, ("same",)
        if kind in ("scan", "scancond"):
            m, m2 = rf.Linear(F, O), rf.Linear(O, O)

            def cell(x, s):
                s = rf.tanh(m(x) + m2(s))
                return s, s

            if kind == "scancond":
                # runs until a given number of steps per sequence

                def f(x, T, z, Z, B):
                    n = T.get_size_tensor()
                    if B not in n.dims:
                        n = rf.expand_dim(n, B)
                    x0 = rf.gather(x, axis=T, indices=0) if not T.is_static() or True else x

                    def body(_, s):
                        h = rf.tanh(m(x0) + m2(s.h))
                        return h, rf.State(h=h, i=s.i + 1)

                    ys, fin, D = rf.scan(
                        spatial_dim=None, cond_dims=[B], initial=rf.State(h=rf.zeros([B, O], feature_dim=O), i=rf.zeros([B], dtype="int32")), cond=lambda _, s: s.i < rf.cast(n, "int32"), body=body,
                        ys=Tensor("y", [B, O], "float32", feature_dim=O), cond_before_body=True,
                    )  # fmt: skip
                    return {"y": (ys, D)}

                return (m, m2, f), None, ("same",)

            def f(x, T, z, Z, B):
                ys, s, _ = rf.scan(spatial_dim=T, initial=rf.zeros([B, O], feature_dim=O), xs=x, ys=Tensor("y", [B, O], "float32", feature_dim=O), body=cell)
                return {"y": (ys, T), "h": (s, None)}

            return (m, m2, f), lambda z, Z, B: (rf.zeros([B, O], feature_dim=O), cell), ("same",)
        if kind in ("selfatt", "ropeatt", "relposatt", "learnedrelpos", "causal", "ropecausal", "relposcausal"):
            kw = dict(in_dim=F, proj_dim=rng.choice([None, O]), key_dim_total=D, value_dim_total=rng.choice([D, Dim(4, name="VD")]), num_heads=rng.choice([1, 2]), att_dropout=0.0, with_bias=rng.random() < 0.7)
            cls = {"selfatt": rf.SelfAttention, "ropeatt": rf.RotaryPosSelfAttention, "relposatt": rf.RelPosSelfAttention, "learnedrelpos": rf.RelPosSelfAttention,
                   "causal": rf.CausalSelfAttention, "ropecausal": rf.RotaryPosCausalSelfAttention, "relposcausal": rf.RelPosCausalSelfAttention}[kind]  # fmt: skip
            if kind in ("relposatt", "relposcausal", "learnedrelpos"):
                kw.update(with_linear_pos=rng.random() < 0.5, with_pos_bias=rng.random() < 0.5, separate_pos_emb_per_head=rng.random() < 0.5)
                if kind == "learnedrelpos" or rng.random() < 0.3:
                    kw.update(learnable_pos_emb=True, learnable_pos_emb_clipping=rng.choice([1, 3, 16]))
            m = cls(**kw)
            if "causal" not in kind:
                return (m, fw(lambda x, T: m(x, axis=T))), None, ("same",)

            def f(x, T, z, Z, B):
                y, s = m(x, axis=T)
                return {"y": (y, T)}

            def st(z, Z, B):
                return m.default_initial_state(batch_dims=[B]), lambda x, s: m(x, axis=single_step_dim, state=s)

            return (m, f), st, ("same",)
        if kind == "crossatt":
            m = rf.CrossAttention(F, F, O, key_dim_total=D, value_dim_total=D, num_heads=2, att_dropout=0.0)
            return (m, lambda x, T, z, Z, B: {"y": (m(x, m.transform_encoder(z, axis=Z)), T)}), None, ("same",)
        if kind == "transenc":
            from returnn.frontend.encoder.transformer import TransformerEncoder

            m = TransformerEncoder(V, D, num_layers=2, num_heads=2)
            return (m, fw(lambda x, T: m(x, spatial_dim=T))), None, ("same",)
        if kind in ("transdec", "transdec0"):
            from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForwardGated

            kw = {}
            r = rng.random()
            if r < 0.3:
                kw = dict(norm=rf.RMSNorm, ff=FeedForwardGated, layer_opts=dict(self_att=rf.RotaryPosCausalSelfAttention(in_dim=D, proj_dim=D, key_dim_total=D, value_dim_total=D, num_heads=2, att_dropout=0.0)), pos_enc=None)
            elif r < 0.5:
                kw = dict(layer_opts=dict(self_att=rf.RelPosCausalSelfAttention(in_dim=D, proj_dim=D, key_dim_total=D, value_dim_total=D, num_heads=2, att_dropout=0.0)), pos_enc=None)
            elif r < 0.7:
                kw = dict(embed_dim=Dim(6, name="E"), share_embedding=False)
            enc = kind == "transdec"
            m = TransformerDecoder(F if enc else None, V, D, num_layers=2, num_heads=2, **kw)

            def f(x, T, z, Z, B):
                y, s = m(x, spatial_dim=T, state=m.default_initial_state(batch_dims=[B]), encoder=m.transform_encoder(z, axis=Z) if enc else None)
                y2, _ = m(x, spatial_dim=T, state=m.default_initial_state(batch_dims=[B]), encoder=m.transform_encoder(z, axis=Z) if enc else None, output_only_last_frame=True)
                last = rf.gather(y, axis=T, indices=rf.last_frame_position_of_dim(T))
                return {"y": (y, T), "last": (y2, None), "pos": (rf.cast(s.pos, "float32"), None), "lastdiff": (y2 - last, None)}

            def st(z, Z, B):
                e = m.transform_encoder(z, axis=Z) if enc else None
                return m.default_initial_state(batch_dims=[B]), lambda x, s: m(x, spatial_dim=single_step_dim, state=s, encoder=e)

            return (m, f), st, ("same",)
        if kind in ("conformer", "conformerconv", "conformer2", "ebranch"):
            from returnn.frontend.encoder.conformer import ConformerEncoder, ConformerConvSubsample, ConformerEncoderLayer
            from returnn.frontend.encoder.conformer_v2 import ConformerEncoderV2, ConformerFrontend
            from returnn.frontend.encoder.e_branchformer import EBranchformerLayer

            D1 = Dim(3, name="ch")
            opts = dict(conv_kernel_size=rng.choice([3, 5, 8]), num_heads=2, dropout=0.1)
            if kind == "ebranch":
                m = ConformerEncoder(F, F, num_layers=2, input_layer=None, num_heads=2, encoder_layer=rf.build_dict(EBranchformerLayer, ff_dim=Dim(6, name="ff"), num_heads=2, cgmlp_conv_kernel=3, merge_conv_kernel=3))
                return (m, lambda x, T, z, Z, B: {"y": m(x, in_spatial_dim=T)}), None, ("same",)
            if kind == "conformer2":
                fr = ConformerFrontend(F, D, input_layer=ConformerConvSubsample(F, out_dims=[D1, D1], filter_sizes=[(3, 3), (3, 3)], pool_sizes=[(2, 1), (1, 1)]))
                m = ConformerEncoderV2(D, num_layers=1, **opts)

                def f(x, T, z, Z, B):
                    x, T = fr(x, in_spatial_dim=T)
                    return {"yy": (m(x, spatial_dim=T), T)}

                return (fr, m, f), None, ("one",)
            il = None
            frames = ("same",)
            if kind == "conformerconv":
                st = rng.choice([1, 2, 3])
                il = ConformerConvSubsample(F, out_dims=[D1, D1], filter_sizes=[(3, 3), (3, 3)], pool_sizes=rng.choice([None, [(2, 1), (1, 2)]]), strides=rng.choice([None, [(st, 1), (1, 1)], [1, st]]))
                frames = ("one",)
            m = ConformerEncoder(F, F if il is None else D, num_layers=2, input_layer=il, **opts, conv_norm=rng.choice([rf.BatchNorm, rf.LayerNorm]))
            key = "y" if il is None else "yy"
            return (m, lambda x, T, z, Z, B: {key: m(x, in_spatial_dim=T)}), None, frames
        if kind in ("stft", "mel"):
            L, S = rng.choice([(8, 4), (8, 3), (6, 6), (10, 4)])

            def f(x, T, z, Z, B):
                x = rf.gather(x, axis=F, indices=0)
                if kind == "mel":
                    y, T2 = rf.audio.log_mel_filterbank_from_raw(x, in_spatial_dim=T, out_dim=O, sampling_rate=1000, window_len=L / 1000.0 + 1e-9, step_len=S / 1000.0 + 1e-9)
                    return {"yy": (y, T2)}
                y, T2, Fq = rf.stft(x, in_spatial_dim=T, frame_step=S, frame_length=L, fft_length=16)
                return {"y": (rf.abs(y), T2)}

            return f, None, ("valid", L, S)
        if kind == "ctc":
            m = rf.Linear(F, V)

            def f(x, T, z, Z, B):
                return {"r": (rf.ctc_loss(logits=m(x), targets=z, input_spatial_dim=T, targets_spatial_dim=Z, blank_index=0), None)}

            return (m, f), None, ("one",)
        if kind == "ce":
            m = rf.Linear(F, V)

            def f(x, T, z, Z, B):
                l = rf.cross_entropy(estimated=m(x), estimated_type="logits", target=z, axis=V)
                return {"y": (l, T), "r": (rf.reduce_sum(l, axis=T), None)}

            return (m, f), None, ("same",)
        if kind == "smooth":
            m = rf.Linear(F, V)

            def f(x, T, z, Z, B):
                t = rf.label_smoothing(z, 0.1)
                l = rf.cross_entropy(estimated=rf.log_softmax(m(x), axis=V), estimated_type="log-probs", target=t, axis=V)
                g = rf.label_smoothed_log_prob_gradient(rf.log_softmax(m(x), axis=V), 0.1, axis=V)
                return {"y": (l, T), "g": (g, T)}

            return (m, f), None, ("same",)
        if kind == "edit":
            return lambda x, T, z, Z, B: {"r": (rf.cast(rf.edit_distance(x, T, z, Z), "float32"), None)}, None, ("one",)
        raise ValueError(kind)
