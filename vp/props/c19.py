"""C19: cached positional encodings are those of the dims and offsets asked for."""
import gc
import math
import numpy
from ..harness import Prop


class P(Prop):
    id = "C19"
    trace_module = "PosEncTrace"
    rule = (
        "histories of sinusoidal/relative positional encodings over a pool of dims (static, scalar dynamic, per-sequence sizes, single-step), re-sized each step, freed and created again,"
        " with offsets (none, int, scalar and per-sequence tensors), bases and dtypes"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Transparent\nCHECK_DEADLOCK FALSE\nCONSTANTS Ids={1,2} Sizes={%s} MaxVer=%i SingleStep=9\n"
        return [("PosEncMC", c % (("1,2,3", 5) if tier == "thorough" else ("1,2", 4)), {"workers": 2})]

    def cases(self, tier, rng):
        out = []
        for _ in range(5000 if tier == "thorough" else 400):
            ops = []
            nd = rng.randint(2, 4)
            for _ in range(rng.randint(8, 40)):
                r = rng.random()
                i = rng.randrange(nd)
                n = rng.choice([1, 1, 2, 2, 3, 4, 6])
                if r < 0.25:
                    kind = rng.choice(["static", "scalar", "batched", "batched"])
                    ops.append(["new", i, kind, n, [rng.randint(1, n) for _ in range(2)]])
                elif r < 0.4:
                    ops.append(["resize", i, n, [rng.randint(1, n) for _ in range(2)]])
                elif r < 0.5:
                    ops.append(["free", i])
                elif r < 0.75:
                    ops.append(["sin", rng.choice([-1, i, i, i]), rng.choice(["none", "int", "int", "scalar", "batch"]), rng.randint(0, 2), rng.choice([4, 4, 6]), rng.choice([100, 10000]), rng.choice(["float32", "float32", "float64"])])
                else:
                    ops.append(["rel", rng.choice([-1, i, i]), rng.randrange(nd), rng.choice([None, None, 0, 1, 2]), rng.choice([4, 4, 6])])
            out.append({"nd": nd, "ops": ops, "own_tensor": rng.random() < 0.5})
        return out

    def run_case(self, c, scratch):
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim, Tensor, batch_dim, single_step_dim

        rf.select_backend_torch()
        B = Dim(Tensor("B", [], "int32", raw_tensor=torch.tensor(2, dtype=torch.int32)), name="B")
        feats = {4: Dim(4, name="F4"), 6: Dim(6, name="F6")}
        dims = {}
        offs_t = {}
        ev = []

        def tens(sizes):
            return Tensor("sz", [B], "int32", raw_tensor=torch.tensor(sizes, dtype=torch.int32))

        def size_now(d):
            return int(d.get_dim_value())

        def rows(emb, batched, fd, w_of):
            """:return: decoded positions per batch entry, consistent"""
            order = ([B] if batched else []) + [d for d in emb.dims if d not in (B, fd)] + [fd]
            raw = emb.copy_transpose(order).raw_tensor.double().numpy()
            if not batched:
                raw = raw[None]
            if raw.ndim == 2:
                raw = raw[:, None]
            h = fd.dimension // 2
            w = [w_of(k) for k in range(h)]
            pos = numpy.round(numpy.arcsin(numpy.clip(raw[:, :, h - 1], -1, 1)) / w[-1]).astype(int)
            ok = True
            for k in range(h):
                ok = ok and numpy.abs(raw[:, :, k] - numpy.sin(pos * w[k])).max() < 1e-3 and numpy.abs(raw[:, :, h + k] - numpy.cos(pos * w[k])).max() < 1e-3
            return pos.tolist(), bool(ok)

        for op in c["ops"]:
            if op[0] == "new":
                _, i, kind, n, sizes = op
                dims.pop(i, None)
                gc.collect()
                if kind == "static":
                    dims[i] = [Dim(n, name="d%i" % i), kind, None]
                elif kind == "scalar":
                    t = Tensor("n", [], "int32", raw_tensor=torch.tensor(n, dtype=torch.int32))
                    dims[i] = [Dim(t, name="d%i" % i), kind, None]
                else:
                    dims[i] = [Dim(tens(sizes), name="d%i" % i), kind, sizes]
            elif op[0] == "resize":
                _, i, n, sizes = op
                if i not in dims or dims[i][1] == "static":
                    continue
                d, kind, _s = dims[i]
                # as it is done with the data of the next step
                dt = d.dyn_size_ext.dims
                d.reset_raw()
                raw = torch.tensor(n if kind == "scalar" else sizes, dtype=torch.int32)
                if d.dyn_size_ext is None:
                    d.dyn_size_ext = Tensor("sz", dt, "int32")
                d.dyn_size_ext.raw_tensor = raw
                dims[i][2] = sizes if kind == "batched" else None
            elif op[0] == "free":
                dims.pop(op[1], None)
                gc.collect()
            elif op[0] == "sin":
                _, i, ok, o, f, base, dtype = op
                if i >= 0 and i not in dims:
                    continue
                d = single_step_dim if i < 0 else dims[i][0]
                if i < 0 and ok == "none":
                    ok = "int"
                n = 1 if i < 0 else size_now(d)
                if ok == "none":
                    off, offs = None, []
                elif ok == "int":
                    off, offs = o, [o]
                elif ok == "scalar":
                    if (ok, o) not in offs_t or c["own_tensor"]:
                        offs_t[(ok, o)] = Tensor("off", [], "int32", raw_tensor=torch.tensor(o, dtype=torch.int32))
                    off, offs = offs_t[(ok, o)], [o]
                else:
                    if (ok, o) not in offs_t or c["own_tensor"]:
                        offs_t[(ok, o)] = tens([o, o + 2])
                    off, offs = offs_t[(ok, o)], [o, o + 2]
                emb = rf.sinusoidal_positional_encoding(spatial_dim=d, feat_dim=feats[f], offset=off, base=base, dtype=dtype)
                want = {feats[f]} | ({d} if i >= 0 else set()) | ({B} if ok == "batch" else set())
                dimsok = emb.dims_set == want and len(emb.dims) == len(want) and emb.dtype == dtype
                pos, cons = [], False
                if dimsok:
                    pos, cons = rows(emb, ok == "batch", feats[f], lambda k: math.exp(-math.log(base) / (f // 2 - 1) * k))
                ev.append({"op": "sin", "n": n, "ss": i < 0, "offs": offs, "dimsok": dimsok, "consistent": cons, "pos": pos})
                del emb, want, d, off
            elif op[0] == "rel":
                _, qi, ki, o, f = op
                if ki not in dims or (qi >= 0 and qi not in dims):
                    continue
                if qi < 0 and dims[ki][1] == "batched":
                    continue  # refused by the function (the history has a scalar length)
                kd = dims[ki][0]
                if qi < 0:
                    emb, od = rf.relative_positional_encoding(query_spatial_dim=single_step_dim, key_value_spatial_dim=kd, feat_dim=feats[f])
                    ks = dims[ki][2]
                    want = {kd, feats[f]} | ({B} if ks else set())
                    dimsok = emb.dims_set == want and od == kd
                else:
                    qd = dims[qi][0]
                    emb, od = rf.relative_positional_encoding(query_spatial_dim=qd, key_value_spatial_dim=kd, feat_dim=feats[f], query_offset=o)
                    ks = None
                    want = {od, feats[f]}
                    dimsok = emb.dims_set == want and size_now(od) == size_now(qd) - 1 + size_now(kd)
                pos, cons = [], False
                if dimsok:
                    pos, cons = rows(emb, bool(ks), feats[f], lambda k: math.exp(-2 * math.log(1e4) / f * k))
                ev.append({"op": "rel", "ss": qi < 0, "q": 1 if qi < 0 else size_now(qd), "k": size_now(kd), "ks": ks or [size_now(kd)], "o": o or 0, "dimsok": dimsok, "consistent": cons, "pos": pos})
                del emb, od, want, kd
                qd = None
        return [{"cfg": {}, "ev": ev}]
