"""C20: dim math computes the sizes it says, equality of dims is sound."""
import pickle
import random
from ..harness import Prop


class P(Prop):
    id = "C20"
    trace_module = "DimAlgTrace"
    case_timeout = 120
    rule = (
        "seeded dim expressions (+ - * // ceildiv, left variants, declare_same_as, copies) over static, scalar and per-sequence dims, sizes read in random order and again after all sizes changed;"
        " sizes, dim value, mask, and the equality and hash of all pairs"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%i K=%i\n"
        return [("DimAlgMC", c % ((24, 7) if tier == "thorough" else (12, 4)), {"workers": 4})]

    def cases(self, tier, rng):
        return [
            {"seed": rng.randrange(10**9), "nb": rng.choice([1, 2, 3]), "n": rng.randint(2, 9), "resize": rng.random() < 0.4, "bv": 24 if rng.random() < 0.8 else 0}
            for _ in range(60000 if tier == "thorough" else 4500)
        ]

    def run_case(self, c, scratch):
        import torch
        import returnn.frontend as rf
        from returnn.tensor import Dim, Tensor
        from returnn.util.basic import BehaviorVersion

        if BehaviorVersion.get_if_set() is None:
            BehaviorVersion.set(24)
        rf.select_backend_torch()
        rng = random.Random(c["seed"])
        nb = c["nb"]
        B = Dim(nb, name="B")
        ev = []
        nodes = []  # dicts: dim, v (values), sum (is a sum), neg (has a negative summand), st (static)

        def observe(d, e):
            if d.is_static():
                e.update(static=True, val=int(d.dimension), sz=[int(d.dimension)] * nb)
                return e
            d.complete_dyn_size()
            s = d.get_size_tensor()
            if s.dims == ():
                sz = [int(s.raw_tensor)] * nb
            else:
                assert len(s.dims) == 1 and s.dims[0].dimension == nb, s
                sz = [int(v) for v in s.raw_tensor]
            e.update(static=False, val=int(d.get_dim_value()), sz=sz)
            if s.dims and rng.random() < 0.4 and max(sz) > 0:
                order = rng.choice([None, (s.dims[0], d), (d, s.dims[0])])
                m = d.get_mask(dim_order=order)
                if order and m.dims != order:
                    ev.append({"op": "mask-not-in-the-requested-axis-order"})
                m = m.copy_transpose([s.dims[0], d]).raw_tensor
                assert m.shape == (nb, e["val"]), (m.shape, e["val"])
                # the number of leading frames in the mask, -1 if it is not a prefix
                e["mask"] = [int(r.sum()) if bool(r[: int(r.sum())].all()) else -1 for r in m]
            return e

        def sizes(kind):
            if kind == "batched":
                return [rng.choice([0, 1, 2, 3, 5, 6, 8, 9, 12]) if rng.random() < 0.8 else rng.randint(0, 14) for _ in range(nb)]
            return [rng.choice([1, 2, 3, 4, 6, 9, 11, 12])] * nb

        def tensor(kind, v):
            return torch.tensor(v if kind == "batched" else v[0], dtype=torch.int32)

        for i in range(rng.randint(1, 3)):
            kind = rng.choice(["static", "scalar", "batched", "batched", "batched"])
            v = sizes(kind)
            name = rng.choice(["T", "S%i" % i])
            if kind == "static":
                d = Dim(v[0], name=name)
            else:
                d = Dim(Tensor("sz", [B] if kind == "batched" else [], "int32", raw_tensor=tensor(kind, v)), name=name)
            nodes.append(dict(dim=d, v=v, sum=False, neg=False, atom=True, st=kind == "static", kind=kind, dneg=False, clipped=False))
            ev.append(observe(d, {"op": "atom", "v": v}))
        natoms = len(nodes)
        done = []  # (f, a, k, b)

        def applicable(f, x, y, k):
            """y: node or int. only expressions without any negative dim on the way (see the spec)"""
            xv, yv = x["v"], ([y] * nb if k == "c" else y["v"])
            yn = k == "d" and (y["neg"] or y["clipped"])
            ysum = k == "d" and y["sum"]
            if x["clipped"] and f not in ("floordiv", "ceildiv"):
                return False
            if f in ("add", "radd"):
                return not yn if f == "add" else not (x["neg"] and k == "d") and not (k == "d" and y["clipped"]) and not x["dneg"]
            if f in ("sub", "sub_left"):
                if yn:
                    return False
                if f == "sub_left" and k == "d" and (x["sum"] or y["sum"]):
                    return False
                return all(a >= b for a, b in zip(xv, yv)) or (k == "c" and not x["st"] and x["atom"] and rng.random() < 0.3)
            if f in ("mul", "rmul"):
                if max(xv) * max(yv) > 200:
                    return False
                return not (ysum and x["sum"]) and not yn and not (x["neg"] and k == "d")
            if any(b <= 0 for b in yv) or yn or ysum:
                return False
            if f.startswith("truediv"):
                return all(a % b == 0 for a, b in zip(xv, yv))
            return True

        def rebuildable(f, x, y, k):
            yv = [y] * nb if k == "c" else y["v"]
            if f.startswith("sub") and any(a < b for a, b in zip(x["v"], yv)):
                return False
            if f in ("floordiv", "ceildiv", "ceildiv_left", "truediv", "truediv_left") and any(b <= 0 for b in yv):
                return False
            return not f.startswith("truediv") or all(a % b == 0 for a, b in zip(x["v"], yv))

        F = ["add", "add", "radd", "sub", "sub", "sub_left", "mul", "mul", "rmul", "floordiv", "ceildiv", "ceildiv", "truediv", "ceildiv_left", "truediv_left", "same", "copy", "copyfrom"]

        def make(f, x, y):
            if f == "add":
                return x + y
            if f == "radd":
                return y + x
            if f == "sub":
                return x - y
            if f == "sub_left":
                return x.sub_left(y)
            if f == "mul":
                return x * y
            if f == "rmul":
                return y * x
            if f == "floordiv":
                return x // y
            if f == "ceildiv":
                return x.ceildiv_right(y)
            if f == "truediv":
                return x.div_right(y) if rng.random() < 0.5 else x / y
            if f == "ceildiv_left":
                return x.ceildiv_left(y)
            if f == "truediv_left":
                return x.div_left(y)

        V = {
            "add": lambda a, b: a + b, "radd": lambda a, b: a + b, "sub": lambda a, b: max(a - b, 0), "sub_left": lambda a, b: max(a - b, 0), "mul": lambda a, b: a * b, "rmul": lambda a, b: a * b,
            "floordiv": lambda a, b: a // b, "ceildiv": lambda a, b: -(-a // b), "truediv": lambda a, b: a // b, "ceildiv_left": lambda a, b: -(-a // b), "truediv_left": lambda a, b: a // b,
        }

        def step():
            if done and rng.random() < 0.2:
                f, i, k, j = rng.choice(done)
            else:
                for _ in range(100):
                    f = rng.choice(F)
                    i = rng.randrange(len(nodes))
                    k = rng.choice("cd")
                    j = rng.randrange(len(nodes)) if k == "d" else rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 7])
                    if f in ("same", "copy", "copyfrom"):
                        if nodes[i]["st"] or c["resize"]:
                            continue
                        k, j = "c", 0
                        break
                    if applicable(f, nodes[i], nodes[j] if k == "d" else j, k):
                        break
                else:
                    return
            x = nodes[i]
            if f in ("same", "copy", "copyfrom"):
                if f == "copy":
                    d = x["dim"].copy(same_as_self=False, description="copy")
                else:
                    d = Dim(None, name="other")
                    if f == "same":
                        if rng.random() < 0.5:
                            d.declare_same_as(x["dim"])
                        else:
                            # in two steps
                            d2 = Dim(None, name="other")
                            d.declare_same_as(d2)
                            d2.declare_same_as(x["dim"])
                            if d != x["dim"] or x["dim"] != d or hash(d) != hash(x["dim"]) or hash(d2) != hash(d):
                                ev.append({"op": "declared-same-in-two-steps-but-not-equal"})
                            d = d2
                    else:
                        d.copy_from(x["dim"])
                node = dict(x, dim=d, atom=False)
                if f != "same":
                    node.update(sum=False, neg=False, dneg=False, clipped=False)
            else:
                y = nodes[j] if k == "d" else j
                d = make(f, x["dim"], y["dim"] if k == "d" else y)
                yv = y["v"] if k == "d" else [y] * nb
                v = [V[f](a, b) for a, b in zip(x["v"], yv)]
                node = dict(dim=d, v=v, atom=False, st=d.is_static())
                node["clipped"] = x["clipped"] or (f in ("sub", "sub_left") and any(a < b for a, b in zip(x["v"], yv)))
                node["dneg"] = x["dneg"] or (f == "sub_left" and k == "d") or (k == "d" and y["dneg"])
                if f in ("add", "radd", "sub", "sub_left"):
                    node.update(sum=True, neg=x["neg"] or f.startswith("sub") or (k == "d" and y["neg"]))
                elif f in ("mul", "rmul"):
                    node.update(sum=x["sum"] or (k == "d" and y["sum"]), neg=x["neg"])
                else:
                    # a quotient is a sum again when all summands are divisible
                    node.update(sum=x["sum"], neg=x["neg"])
                done.append((f, i, k, j))
                node["ex"] = (f, i, k, j)
            nodes.append(node)
            ev.append(observe(d, {"op": "dim", "f": f, "a": i + 1, "k": k, "b": j + 1 if k == "d" else j}))

        for _ in range(c["n"]):
            step()
        ev.append(self.eqs(nodes))
        if rng.random() < 0.3:
            # a dim can be pickled (without the sizes) and used again as any other dim
            i = rng.randrange(natoms)
            d = pickle.loads(pickle.dumps(nodes[i]["dim"]))
            d.reset_eager()
            if not nodes[i]["st"]:
                d.dyn_size_ext.raw_tensor = tensor(nodes[i]["kind"], nodes[i]["v"])
            ev.append(observe(d, {"op": "dim", "f": "copy", "a": i + 1, "k": "c", "b": 0}))
            nodes.append(None)
            ev.append(observe(d + 1, {"op": "dim", "f": "add", "a": len(nodes), "k": "c", "b": 1}))
            nodes.append(None)
        if c["resize"]:
            new = [None] * len(nodes)
            for i in range(natoms):
                n = nodes[i]
                new[i] = n["v"]
                if n["st"]:
                    continue
                new[i] = [a + rng.randint(0, 3) * 12 for a in n["v"]] if n["kind"] == "batched" else [n["v"][0] + rng.choice([0, 12])] * nb
                n["dim"].reset_eager()
            for i in range(natoms):
                if not nodes[i]["st"]:
                    nodes[i]["dim"].dyn_size_ext.raw_tensor = tensor(nodes[i]["kind"], new[i])
            # the next step: the same expressions are built again
            ev.append({"op": "resize", "v": [x if x is not None else [] for x in new]})
            for i, n in enumerate(nodes):
                if n is None:
                    continue
                if i < natoms:
                    n["v"] = new[i]
                else:
                    f, a, k, b = n["ex"]
                    x, y = nodes[a], nodes[b] if k == "d" else b
                    if not (rebuildable(f, x, y, k) and x["dim"] is not None and (k == "c" or y["dim"] is not None)):
                        n["dim"] = None
                        continue
                    n["dim"] = make(f, x["dim"], y["dim"] if k == "d" else y)
                    n["v"] = [V[f](p, q) for p, q in zip(x["v"], y["v"] if k == "d" else [y] * nb)]
                    n["clipped"] = x["clipped"]
                ev.append(observe(n["dim"], {"op": "reread", "i": i + 1}))
        return [{"cfg": {"nb": nb}, "ev": ev}]

    def eqs(self, nodes):
        ds = [n["dim"] for n in nodes]
        hs = {}
        return {"op": "eqs", "m": [[bool(a == b) for b in ds] for a in ds], "h": [hs.setdefault(hash(d), len(hs)) for d in ds]}
