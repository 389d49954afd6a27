"""C24: the forward task hands every sequence to the callback exactly once, unpadded."""
import numpy
from ..harness import Prop

KEYS = ["plus", "tbf", "sum", "flag", "lab", "half", "outer", "static", "beam"]


class P(Prop):
    id = "C24"
    trace_module = "ForwardTrace"
    case_timeout = 120
    rule = (
        "Engine.forward_with_callback with a model computing outputs of all layouts (time, feature, other axis order, scalars, own time axes, two dynamic axes, beam with own lengths),"
        " padding filled with garbage, over seeded corpora, batch limits, orderings, repeated forwards, and memory running out in arbitrary steps (batch splitting)"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT InOrder\nPROPERTY All\nCHECK_DEADLOCK FALSE\nCONSTANTS NSeq=%i MaxB=%i MaxOom=%i\n"
        return [("ForwardMC", c % ((9, 5, 6) if tier == "thorough" else (6, 4, 3)), {"workers": 2})]

    def cases(self, tier, rng):
        out = []
        for _ in range(3000 if tier == "thorough" else 300):
            n = rng.randint(1, 9)
            out.append({
                "x": [[rng.randint(0, 9) for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 7]))] for _ in range(n)],
                "y": [[rng.randint(0, 9) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(n)],
                "keys": rng.sample(KEYS, rng.randint(1, len(KEYS))), "max_seqs": rng.choice([1, 2, 3, 4, 6, 20]), "batch_size": rng.choice([4, 8, 15, 1000]),
                "order": rng.choice(["default", "random", "sorted_reverse", "laplace:.2"]), "sort": rng.choice([None, True, False]), "nf": rng.randint(1, 3),
                "oom": sorted(rng.sample(range(12), rng.choice([0, 0, 1, 2, 4]))), "runs": rng.choice([1, 1, 2]), "expected": rng.random() < 0.5, "same_time": rng.random() < 0.2,
                "tag": rng.choice(["s%i", "corpus/rec %i/\u00e4", "%i"]),
            })  # fmt: skip
            c = out[-1]
            if c["same_time"]:
                c["y"] = [[rng.randint(0, 9) for _ in x] for x in c["x"]]
        return out

    def run_case(self, c, scratch):
        import torch
        import returnn.frontend as rf
        from returnn.config import Config, global_config_ctx
        from returnn.datasets import init_dataset
        from returnn.datasets.map import MapDatasetBase
        from returnn.forward_iface import ForwardCallbackIface
        from returnn.tensor import Dim, Tensor, batch_dim
        from returnn.torch.engine import Engine

        ev = []
        nf = c["nf"]

        class Src(MapDatasetBase):
            def __init__(self):
                super().__init__(data_types={"data": {"shape": (None, nf), "dim": nf}, "classes": {"shape": (None,), "sparse": True, "dim": 100, "dtype": "int32"}})

            def __len__(self):
                return len(c["x"])

            def __getitem__(self, i):
                x = numpy.array(c["x"][i], "float32")[:, None] + numpy.arange(nf, dtype="float32")[None]
                return {"data": x, "classes": numpy.array(c["y"][i], "int32")}

            def get_seq_len(self, i):
                return len(c["x"][i])

            def get_seq_tag(self, i):
                return c["tag"] % i

        time_dim = Dim(None, name="time")
        lab_dim = time_dim if c["same_time"] else Dim(None, name="lab")
        feat_dim = Dim(nf, name="feat")
        calls = [0]
        beam_dim = Dim(2, name="beam")
        exp_dims = {"half": Dim(None, name="halftime")}

        def garbage(t):
            """overwrites the padding"""
            raw = t.raw_tensor
            for i, d in enumerate(t.dims):
                if d.dyn_size_ext is not None and d.dyn_size_ext.dims:
                    assert d.dyn_size_ext.dims == (batch_dim,)
                    sz = d.dyn_size_ext.raw_tensor
                    b = t.dims.index(batch_dim)
                    sz = sz.reshape([-1 if j == b else 1 for j in range(raw.ndim)])
                    ar = torch.arange(raw.shape[i]).reshape([-1 if j == i else 1 for j in range(raw.ndim)])
                    raw = torch.where(ar < sz, raw, torch.full((), 55.0 if raw.is_floating_point() else 1).to(raw.dtype))
            r = t.copy()
            r.raw_tensor = raw
            return r

        def forward_step(*, model, extern_data, **_kw):
            calls[0] += 1
            if calls[0] in c["oom"] and int(batch_dim.get_dim_value()) >= 2:
                raise torch.cuda.OutOfMemoryError("injected")
            ctx = rf.get_run_ctx()
            x, y = extern_data["data"], extern_data["classes"]
            y = rf.cast(y, "float32")
            y.sparse_dim = None
            tsz, lsz = time_dim.get_size_tensor(), lab_dim.get_size_tensor()
            x0 = rf.gather(x, axis=feat_dim, indices=0)
            o = {}
            if "plus" in c["keys"]:
                o["plus"] = garbage(x + 1.0)
            if "tbf" in c["keys"]:
                o["tbf"] = garbage(x.copy_transpose([time_dim, batch_dim, feat_dim]))
            if "sum" in c["keys"]:
                o["sum"] = rf.reduce_sum(x0, axis=time_dim)
            if "flag" in c["keys"]:
                o["flag"] = rf.copy_to_device(tsz > lsz)
            if "lab" in c["keys"]:
                o["lab"] = garbage(y)
            if "static" in c["keys"]:
                s = rf.reduce_sum(y, axis=lab_dim)
                d3 = Dim(3, name="three")
                o["static"] = s + rf.cast(rf.range_over_dim(d3), "float32")
            if "half" in c["keys"]:
                h, hd = rf.slice(x0, axis=time_dim, step=2)
                if c["expected"]:
                    exp_dims["half"].declare_same_as(hd)
                o["half"] = garbage(h)
            if "outer" in c["keys"]:
                if c["same_time"]:
                    l2, y2 = lab_dim, y
                    l2 = Dim(lab_dim.get_size_tensor(), name="lab2")
                    y2 = y.copy()
                    y2 = y.copy_template_replace_dim_tag(axis=y.get_axis_from_description(lab_dim), new_dim_tag=l2)
                    y2.raw_tensor = y.raw_tensor
                else:
                    l2, y2 = lab_dim, y
                r = rf.combine_bc(y2 * 100.0, "+", x0)
                o["outer"] = garbage(r.copy_transpose([batch_dim, l2, time_dim]))
            if "beam" in c["keys"]:
                sz = Tensor("sz", [batch_dim, beam_dim], "int32", raw_tensor=torch.stack([tsz.raw_tensor, lsz.raw_tensor], dim=1).int())
                bd = Dim(sz, name="hyp")
                m = int(bd.get_dim_value())
                raw = torch.full((int(batch_dim.get_dim_value()), 2, m), 55.0)
                raw[:, 0, : x0.raw_tensor.shape[1]] = x0.raw_tensor
                yr = y.raw_tensor
                raw[:, 1, : yr.shape[1]] = yr
                o["beam"] = Tensor("beam", [batch_dim, beam_dim, bd], "float32", raw_tensor=raw)
            for k, v in o.items():
                ctx.mark_as_output(v, k, dims=v.dims)

        class CB(ForwardCallbackIface):
            def init(self, *, model):
                ev.append({"op": "init"})

            def process_seq(self, *, seq_tag, outputs):
                outs = []
                for k, v in sorted(outputs.data.items()):
                    raw = v.raw_tensor
                    assert isinstance(raw, numpy.ndarray), type(raw)
                    if batch_dim in v.dims:
                        ev.append({"op": "BatchDimStillThere"})
                    if list(raw.shape) != [int(d.get_dim_value()) for d in v.dims]:
                        ev.append({"op": "DimsDisagreeWithData"})
                    o = [k, list(raw.shape), [int(z) for z in raw.reshape(-1).tolist()]]
                    if k == "beam":
                        sz = v.dims[1].dyn_size_ext.raw_tensor
                        o.append([[int(z) for z in raw[j, : int(sz[j])]] for j in range(2)])
                        o[2] = []
                    else:
                        o.append([])
                    outs.append(o)
                ev.append({"op": "seq", "tag": seq_tag, "outs": outs})

            def finish(self):
                ev.append({"op": "finish"})

        conf = {
            "task": "forward", "device": "cpu", "behavior_version": 21, "get_model": lambda **_kw: torch.nn.Linear(1, 1), "forward_step": forward_step, "batch_size": c["batch_size"], "max_seqs": c["max_seqs"],
            "extern_data": {"data": {"dims": [batch_dim, time_dim, feat_dim], "dtype": "float32"}, "classes": {"dims": [batch_dim, lab_dim], "sparse_dim": Dim(100, name="c"), "dtype": "int32"}},
            "torch_dataloader_opts": {"num_workers": 0}, "log_verbosity": 1, "forward_auto_split_batch_on_oom": bool(c["oom"]),
        }  # fmt: skip
        if c["sort"] is not None:
            conf["sort_dataset"] = c["sort"]
        if c["expected"]:
            md = {"plus": {"dims": [batch_dim, time_dim, feat_dim], "dtype": "float32"}, "sum": {"dims": [batch_dim], "dtype": "float32"}, "half": {"dims": [batch_dim, exp_dims["half"]], "dtype": "float32"}}
            if all(k in md for k in c["keys"]):
                conf["model_outputs"] = {k: md[k] for k in c["keys"]}
        with global_config_ctx(Config(conf)) as _:
            from returnn.config import get_global_config

            eng = Engine(config=get_global_config())
            eng.init_network_from_config()
            for r in range(c["runs"]):
                ds = init_dataset({"class": "MapDatasetWrapper", "map_dataset": Src(), "seq_ordering": c["order"]})
                eng.forward_with_callback(dataset=ds, callback=CB())
        seqs = [{"tag": c["tag"] % i, "x": x, "y": y} for i, (x, y) in enumerate(zip(c["x"], c["y"]))]
        return [{"cfg": {"seqs": seqs, "keys": c["keys"], "nf": nf}, "ev": ev}]
