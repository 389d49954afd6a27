"""C23: the recurrent layer computes its step equations, optimised or not (TensorFlow)."""
import os
import random
from ..harness import Prop

NF = 2
BIN = ["add", "sub", "max", "min", "mulm"]
KINDS = ["copy"] + BIN * 2 + ["aff", "aff", "lin", "pos", "sumf", "sel", "where", "cumsum", "total", "at", "masked", "masked"]
NARG = {"add": 2, "sub": 2, "max": 2, "min": 2, "mulm": 2, "sel": 3, "where": 3, "masked": 2}
BOUNDED = ("aff", "mulm", "lin")


def gen_net(rng, n, dyn):
    net = []
    for i in range(n):
        k = rng.choice(KINDS)
        if i == 0 and dyn:
            k = "total"
        L = {"k": k, "init": rng.choice([0, 0, 1]), "c": [rng.randint(-1, 3), rng.randint(0, 4)], "w": [[rng.randint(-1, 2) for _ in range(NF)] for _ in range(NF)], "end": 10**6}
        if k in ("cumsum", "masked", "hist"):
            L["init"] = 0
        if k in ("hist", "masked"):
            L["c"][0] = rng.randint(0, 1)

        def ref():
            r = rng.random()
            if i and r < 0.6:
                return ["l", rng.choice([i, i, rng.randint(1, i)])]
            if r < 0.8 and not (dyn and i == 0):
                return ["p", rng.randint(1, n)]
            if dyn:
                return ["l", rng.randint(1, i)] if i else ["p", rng.randint(1, n)]
            return ["x"]

        # the shape of the layer must be known without prev references (otherwise RETURNN cannot infer it)
        while True:
            L["a"] = [ref() for _ in range(NARG.get(k, 1))]
            safe = [r[0] != "p" for r in L["a"]]
            if k == "total" or (k in ("sel",) and safe[0] and any(safe[1:])) or (k == "where" and any(safe[1:])) or (k in ("copy", "aff", "pos") + tuple(BIN) and any(safe)) or all(safe):
                break
        L["base"] = k == "masked" and not dyn and rng.random() < 0.4
        if L["base"]:
            L["a"] = [["x"], ["x"]]
        net.append(L)
    return net


def magnitude(net, xs, dyn, maxlen):
    """rough simulation for the size of the numbers (same arithmetic), to exclude networks with exploding values. :return: max abs or None"""
    big = 0
    for X in xs:
        prev = [[L["init"]] * NF for L in net]
        hist = [[] for _ in net]
        acc = [[0] * NF for _ in net]
        out = [[0] * NF for _ in net]
        for t in range(maxlen if dyn else len(X)):
            cur = list(prev)
            for i, L in enumerate(net):
                A = [X[t] if r[0] == "x" else (cur if r[0] == "l" else prev)[r[1] - 1] for r in L["a"]]
                k = L["k"]
                z = lambda f: [f(a, b) for a, b in zip(A[0], A[1])]
                if k == "copy": v = A[0]
                elif k == "add": v = z(lambda a, b: a + b)
                elif k == "sub": v = z(lambda a, b: a - b)
                elif k == "max": v = z(max)
                elif k == "min": v = z(min)
                elif k == "mulm": big = max(big, max(abs(a * b) for a, b in zip(*A))); v = z(lambda a, b: a * b % 11)
                elif k == "aff": v = [(a * L["c"][0] + L["c"][1]) % 11 for a in A[0]]
                elif k == "lin": v = [sum(A[0][i2] * L["w"][i2][j] for i2 in range(NF)) % 13 for j in range(NF)]
                elif k == "pos": v = [a + t for a in A[0]]
                elif k == "sumf": v = [sum(A[0])] * NF
                elif k == "sel": v = A[1] if sum(A[0]) > L["c"][0] else A[2]
                elif k == "where": v = [b if a > L["c"][0] else c for a, b, c in zip(*A)]
                elif k == "cumsum": acc[i] = v = [a + b for a, b in zip(acc[i], A[0])]
                elif k == "hist": hist[i].append(A[0]); v = [(sum if L["c"][0] == 0 else max)(h[j] for h in hist[i]) for j in range(NF)]
                elif k == "total": v = [a + sum(r[j] for r in X) for j, a in enumerate(A[0])]
                elif k == "at": v = X[sum(A[0]) % len(X)]
                elif k == "masked":
                    if sum(A[0]) % 2 == 1:
                        acc[i] = [a + b for a, b in zip(acc[i], A[1])]
                        out[i] = list(A[1]) if L["c"][0] == 0 else list(acc[i])
                    v = out[i]
                big = max(big, max(abs(a) for a in v))
                cur[i] = v
                if big > 10**5:
                    return None
            prev = cur
            if dyn and t == 0 and sum(cur[-1]) > net[-1]["end"]:
                return None  # no frame at all
    return big


class P(Prop):
    id = "C23"
    trace_module = "RecNetTrace"
    case_timeout = 300
    rule = (
        "seeded networks of layers in a recurrent layer (elementwise, linear, switch, history, masked computation, gather from outside, loop counter, prev references, end condition)"
        " with and without optimising layers out of the loop, sequences in padded batches; every frame of the output and of other layers against the step equations"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS NL=%i NT=%i V=1\n"
        return [("RecNetMC", c % ((3, 2) if tier == "thorough" else (2, 2)), {"workers": 4})]

    def cases(self, tier, rng):
        out = []
        n = 3000 if tier == "thorough" else 250
        while len(out) < n:
            dyn = rng.random() < 0.25
            net = gen_net(rng, rng.randint(1, 7), dyn)
            xs = [[[rng.randint(0, 5) for _ in range(NF)] for _ in range(rng.choice([1, 2, 3, 4, 5, 7]))] for _ in range(rng.choice([1, 2, 3, 3]))]
            if dyn:
                net[-1]["end"] = rng.randint(0, 15)
            if magnitude(net, xs, dyn, 8) is None:
                continue
            out.append({"net": net, "xs": xs, "dyn": dyn, "maxlen": rng.choice([4, 8]), "incl": rng.random() < 0.3, "seed": rng.randrange(10**9), "out": rng.randint(1, len(net)), "tbf": rng.random() < 0.3})
        return out

    def run_case(self, c, scratch):
        os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
        import numpy
        import tensorflow as tf
        from returnn.config import Config
        from returnn.tf.network import TFNetwork
        from returnn.tensor import Dim, batch_dim
        from returnn.util.basic import BehaviorVersion
        import returnn.tf.compat as tf_compat

        tf_compat.v1.disable_eager_execution()
        rng = random.Random(c["seed"])
        net, xs, dyn = c["net"], c["xs"], c["dyn"]
        watch = sorted({rng.randint(1, len(net)) for _ in range(2)})
        ev = []
        modes = [True, False]
        rng.shuffle(modes)
        for opt in modes:
            with tf.Graph().as_default(), tf_compat.v1.Session(config=tf_compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)) as session:
                time_dim = Dim(None, name="time", kind=Dim.Types.Spatial)
                feat_dim = Dim(NF, name="feat", kind=Dim.Types.Feature)
                dims = [time_dim, batch_dim, feat_dim] if c["tbf"] else [batch_dim, time_dim, feat_dim]
                config = Config({"extern_data": {"data": {"dim_tags": dims}}})
                loop_dim = Dim(None, name="loop", kind=Dim.Types.Spatial) if dyn else time_dim
                unit, weights = self.unit(c, net, watch, loop_dim)
                rec = {"class": "rec", "unit": unit, "is_output_layer": True, "optimize_move_layers_out": opt, "n_out": NF}
                if dyn:
                    rec.update({"from": [], "axis": loop_dim, "max_seq_len": c["maxlen"], "include_eos": c["incl"]})
                else:
                    rec["from"] = "data"
                tfnet = TFNetwork(config=config, train_flag=False)
                base = {
                    "tot": {"class": "reduce", "mode": "sum", "axis": "T", "from": "data", "is_output_layer": True},
                    "len": {"class": "length", "from": "data", "axis": "T", "dtype": "int32", "is_output_layer": True},
                }
                if any(L["base"] for L in net):
                    base["msum"] = {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"}
                    base["modd"] = {"class": "eval", "from": "msum", "eval": "tf.math.floormod(source(0), 2.)"}
                    base["mask"] = {"class": "compare", "from": "modd", "value": 1, "kind": "equal"}
                    for k in (0, 1):
                        base["masked%i" % k] = {"class": "masked_computation", "mask": "mask", "from": "data", "unit": {"class": ["copy", "cumsum"][k], "from": "data"}}
                try:
                    tfnet.construct_from_dict(dict(base, output=rec))
                except AssertionError as exc:
                    if "currently cannot use both cur + prev frame" in str(exc):
                        continue  # documented restriction of the optimised loop
                    raise
                session.run(tf_compat.v1.global_variables_initializer())
                for p in tfnet.get_params_list():
                    for name, w in weights.items():
                        if "/%s/" % name in p.name:
                            p.load(numpy.array(w, "float32"), session)
                fetch = {}
                for l in [0] + watch:
                    lay = tfnet.get_layer("output" if l == 0 else "output/l%i" % l)
                    o = lay.output.copy_as_batch_major()
                    fetch[l] = (o.placeholder, o.get_sequence_lengths(), o.get_time_dim_tag())
                    tdim = o.time_dim_axis
                    if tdim != 1:
                        raise Exception("unexpected layout %r" % o)
                d = tfnet.extern_data.data["data"]
                plans = [list(range(len(xs)))]
                if len(xs) > 1:
                    plans.append([rng.randrange(len(xs))])
                for ids in plans:
                    n = [len(xs[i]) for i in ids]
                    raw = numpy.random.RandomState(c["seed"] % 2**31).choice([-40.0, 33.0, 7.0], (len(ids), max(n), NF)).astype("float32")
                    for b, i in enumerate(ids):
                        raw[b, : n[b]] = xs[i]
                    feed = {d.placeholder: raw.transpose(1, 0, 2) if c["tbf"] else raw, d.get_sequence_lengths(): n}
                    bd = tfnet.extern_data.get_batch_info()
                    if bd.dim is not None and not isinstance(bd.dim, int) and bd.dim.op.type == "Placeholder":
                        feed[bd.dim] = len(ids)
                    res = session.run({l: v[:2] for l, v in fetch.items()}, feed)
                    for l, (y, sz) in res.items():
                        for b, i in enumerate(ids):
                            rows = [[float(v) for v in r] for r in y[b, : sz[b]]]
                            assert len(rows) == sz[b], (y.shape, sz)
                            ev.append({"op": "out", "s": i + 1, "l": l or c["out"], "opt": opt, "y": [[int(v) if v == int(v) else v * 1.0 for v in r] for r in rows]})
                            if any(v != int(v) for r in rows for v in r):
                                raise Exception("not an integer: layer %i %r" % (l, rows))
        cfg = {"net": net, "nf": NF, "xs": xs, "dyn": dyn, "maxlen": c["maxlen"], "incl": c["incl"]}
        return [{"cfg": cfg, "ev": ev}]

    def unit(self, c, net, watch, time_dim):
        from returnn.tensor import Dim

        unit, weights = {}, {}

        def nm(r):
            return "data:source" if r[0] == "x" else ("" if r[0] == "l" else "prev:") + "l%i" % r[1]

        def summed(i, r, suffix="s"):
            unit["l%i%s" % (i, suffix)] = {"class": "reduce", "mode": "sum", "axis": "F", "from": nm(r)}
            return "l%i%s" % (i, suffix)

        for i, L in enumerate(net, 1):
            k = L["k"]
            A = [nm(r) for r in L["a"]]
            name = "l%i" % i
            if k == "copy":
                d = {"class": "copy", "from": A}
            elif k in ("add", "sub", "max", "min"):
                d = {"class": "combine", "kind": {"max": "maximum", "min": "minimum"}.get(k, k), "from": A}
            elif k == "mulm":
                d = {"class": "eval", "from": A, "eval": "tf.math.floormod(source(0) * source(1), 11.)"}
            elif k == "aff":
                d = {"class": "eval", "from": A, "eval": "tf.math.floormod(source(0) * %i. + %i., 11.)" % tuple(L["c"])}
            elif k == "lin":
                unit[name + "w"] = {"class": "linear", "activation": None, "with_bias": False, "n_out": NF, "from": A}
                weights[name + "w"] = L["w"]
                d = {"class": "eval", "from": name + "w", "eval": "tf.math.floormod(tf.round(source(0)), 13.)"}
            elif k == "pos":
                d = {"class": "eval", "from": A + [":i"], "eval": "source(0) + tf.cast(source(1), 'float32')"}
            elif k == "sumf":
                unit[name + "z"] = {"class": "eval", "from": A, "eval": "source(0) * 0."}
                d = {"class": "combine", "kind": "add", "from": [name + "z", summed(i, L["a"][0])]}
            elif k == "sel":
                unit[name + "c"] = {"class": "compare", "from": summed(i, L["a"][0]), "value": L["c"][0], "kind": "greater"}
                d = {"class": "switch", "condition": name + "c", "true_from": A[1], "false_from": A[2]}
            elif k == "where":
                unit[name + "c"] = {"class": "compare", "from": A[0], "value": L["c"][0], "kind": "greater"}
                d = {"class": "switch", "condition": name + "c", "true_from": A[1], "false_from": A[2]}
            elif k == "cumsum":
                d = {"class": "cumsum", "axis": time_dim, "from": A}
            elif k == "hist":
                nd = Dim(None, name="hist%i" % i, kind=Dim.Types.Spatial)
                unit[name + "h"] = {"class": "cum_concat", "from": A, "out_spatial_dim": nd}
                d = {"class": "reduce", "mode": ["sum", "max"][L["c"][0]], "axis": nd, "from": name + "h"}
            elif k == "total":
                d = {"class": "combine", "kind": "add", "from": A + ["base:tot"]}
            elif k == "at":
                unit[name + "i"] = {"class": "eval", "from": [summed(i, L["a"][0]), "base:len"], "eval": "tf.math.floormod(tf.cast(source(0), 'int32'), source(1))", "out_type": {"dtype": "int32"}}
                d = {"class": "gather", "from": "base:data", "position": name + "i", "axis": "T"}
            elif k == "masked":
                s = summed(i, L["a"][0])
                unit[name + "o"] = {"class": "eval", "from": s, "eval": "tf.math.floormod(source(0), 2.)"}
                unit[name + "c"] = {"class": "compare", "from": name + "o", "value": 1, "kind": "equal"}
                unit[name + "m"] = {"class": "masked_computation", "mask": name + "c", "from": A[1], "unit": {"class": "copy", "from": "data"} if L["c"][0] == 0 else {"class": "cumsum", "from": "data"}}
                d = {"class": "unmask", "from": name + "m", "mask": name + "c"}
                if L["base"]:
                    unit.pop(name + "m")
                    d["from"] = "base:masked%i" % L["c"][0]
            else:
                raise ValueError(k)
            if L["init"]:
                d["initial_output"] = L["init"]
            if i in watch:
                d["is_output_layer"] = True
            unit[name] = d
        unit["output"] = {"class": "copy", "from": "l%i" % c["out"]}
        if c["dyn"]:
            unit["endsum"] = {"class": "reduce", "mode": "sum", "axis": "F", "from": "l%i" % len(net)}
            unit["end"] = {"class": "compare", "from": "endsum", "value": net[-1]["end"], "kind": "greater"}
        return unit, weights
