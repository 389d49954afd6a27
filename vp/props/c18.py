"""C18: the torch training loop does exactly the configured updates and reports the true scores."""
import os
import shutil
import tempfile
from ..harness import Prop

NPAR = 7
NAMES = ["m.weight.0", "m.weight.1", "m.bias", "ln.weight.0", "ln.weight.1", "emb.weight.0", "frozen.weight"]
LOSS = [1, 1, 1, 2, 2, 2, 2]


def include_check(*, module, full_param_name, param, **_kw):
    return {"m.bias": True, "m.out_bias": True, "bias": True, "m.weight": False}.get(full_param_name)


class P(Prop):
    id = "C18"
    trace_module = "TrainLoopTrace"
    num_procs = 8
    case_timeout = 60
    rule = (
        "trainings of a linear model with integer data over seeded corpora, batchings, accumulation (constant / dynamic), learning rate tables,"
        " dynamic rates, multipliers, clipping, weight decay groups, loss scales/normalisations; every parameter at every step and every score checked"
    )
    assumptions = ("plain SGD arithmetic (exact in floating point for the integer data used); stateful optimizers are torch's own",)

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Linear\nINVARIANT NoLeak\nCONSTANTS NSeq=%i NEp=2 MaxB=%i Acc=%i\n"
        return [("TrainLoopMC", c % a, {"workers": 3, "timeout": 3000}) for a in ([(5, 3, 2), (5, 2, 3)] if tier == "thorough" else [(4, 2, 2)])]

    def cases(self, tier, rng):
        n = 3000 if tier == "thorough" else 330
        cases = []
        for _ in range(n):
            norm = rng.random() < 0.3
            wd = rng.choice([0, 0, 1])
            ns = rng.randint(1, 9)
            seqs = []
            for nn in (ns, rng.randint(1, 4)):
                ss = []
                for _ in range(nn):
                    t = rng.choice([1, 2, 4]) if norm else rng.randint(1, 4)
                    ss.append({"x": [[rng.randint(-2, 2) for _ in range(NPAR)] for _ in range(t)], "f": rng.choice([1, 2, 3])})
                seqs.append(ss)
            if norm:  # batches with 2^k frames: equal length seqs, max_seqs a power of two dividing their number
                t = rng.choice([1, 2, 4])
                ns = rng.choice([2, 4, 6, 8])
                seqs[0] = [{"x": [[rng.randint(-2, 2) for _ in range(NPAR)] for _ in range(t)], "f": 2} for _ in range(ns)]
            cnorm = rng.random() < 0.4
            nep = rng.randint(1, 3)
            cases.append(
                {
                    "seqs": seqs, "nep": nep, "max_seqs": rng.choice([1, 2]) if norm else rng.randint(1, 4), "wd": wd, "norm": norm, "cnorm": cnorm,
                    "lr": [rng.choice([1, 2]) for _ in range(nep)],
                    "dynlr": [rng.choice([1, 2]) for _ in range(rng.randint(1, 3))] if rng.random() < 0.5 else [1],
                    "accum": [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 1, 3]))], "accumfn": rng.random() < 0.3,
                    "clip": rng.choice([0, 0, 0, 1, 3]), "scale": [rng.choice([1, 1, 2]), rng.choice([1, 1, 0, 2])], "err": rng.random() < 0.2,
                    "tied": rng.random() < 0.3, "bname": rng.choice(["bias", "bias", "out_bias", "root"]), "clipn": rng.random() < 0.4,
                    "mult": rng.choice([1, 1, 1, 2]), "black": rng.choice(["", "", "linear", "check"]), "loss3": rng.random() < 0.3, "saveint": rng.choice([1, 1, 2]),
                }
            )  # fmt: skip
        return cases

    def setup_worker(self, scratch):
        import torch
        from returnn.util.basic import BackendEngine
        from returnn.log import log

        BackendEngine.select_engine(engine=BackendEngine.Torch)
        import returnn.torch.engine  # noqa
        import returnn.frontend as rf

        torch.set_num_threads(1)
        log.initialize(verbosity=[2])
        rf.select_backend_torch()

    def run_case(self, c, scratch):
        d = tempfile.mkdtemp(dir=scratch, prefix="tl")
        try:
            return [self._run(c, d)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, c, d):
        import gc
        import numpy
        import torch
        import returnn.frontend as rf
        from returnn.tensor import TensorDict  # noqa
        from returnn.config import Config, global_config_ctx
        from returnn.datasets.generating import StaticDataset
        from returnn.torch.engine import Engine
        from returnn.learning_rate_control import ConstantLearningRate

        unit = 256
        # param values which stay exact
        nupd = 0
        ev = []

        class M(torch.nn.Module):
            def __init__(self, **_kw):
                super().__init__()
                self.m = torch.nn.Module()
                self.m.weight = torch.nn.Parameter(torch.tensor([1.0, -2.0]))
                if c["tied"]:  # the same parameter, once more, under a name which would be treated differently
                    self.tied = torch.nn.Module()
                    self.tied.bias = self.m.weight
                if c["bname"] == "root":
                    self.bias = torch.nn.Parameter(torch.tensor([2.0]))
                else:
                    setattr(self.m, c["bname"], torch.nn.Parameter(torch.tensor([2.0])))
                self.ln = torch.nn.LayerNorm(2, bias=False)
                self.emb = torch.nn.Embedding(1, 1)
                with torch.no_grad():
                    self.emb.weight[:] = 3.0
                self.frozen = torch.nn.Linear(1, 1, bias=False)
                with torch.no_grad():
                    self.frozen.weight[:] = 1.0
                self.frozen.weight.requires_grad = False

            def vec(self):
                bias = self.bias if c["bname"] == "root" else getattr(self.m, c["bname"])
                return torch.cat([self.m.weight, bias, self.ln.weight, self.emb.weight[0], self.frozen.weight[0]])

        def units(v):
            r = [float(x) * unit for x in v.detach().tolist()]
            return [int(x) if x == int(x) else 10**9 for x in r]

        def train_step(*, model, extern_data, **_kw):
            ctx = rf.get_run_ctx()
            data = extern_data["data"]
            b, t = data.dims[:2]
            w = model.vec()
            raw = data.raw_tensor
            l1 = rf.convert_to_tensor((raw[..., :3] * w[:3]).sum(-1), dims=[b, t])
            l2 = rf.convert_to_tensor((raw[..., 3:7] * w[3:7]).sum(-1), dims=[b, t])
            kw = {}
            if c["cnorm"]:
                kw["custom_inv_norm_factor"] = rf.convert_to_tensor(raw[:, 0, 7], dims=[b])
            ctx.mark_as_loss(l1, "l1", scale=float(c["scale"][0]), use_normalized_loss=c["norm"], **kw)
            ctx.mark_as_loss(l2, "l2", scale=float(c["scale"][1]), as_error=c["err"], use_normalized_loss=c["norm"])
            if c["loss3"]:
                ctx.mark_as_loss(l2 * 3.0, "l3", scale=0.0)
            lens = data.dims[1].dyn_size_ext.raw_tensor.tolist()
            e = {"op": "step" if ctx.train_flag else "eval", "ep": int(ctx.epoch), "seqs": [int(x) for x in raw[:, 0, 8].tolist()], "w": units(w), "train": bool(model.training)}
            if ctx.train_flag:
                e["step"] = int(ctx.step)
                e["loss"] = [int(float(sum(l.raw_tensor[i, : lens[i]].sum() for i in range(len(lens)))) * unit) for l in (l1, l2)]
            ev.append(e)

        def ds(ss):
            o = [{"data": numpy.array([x + [s["f"], i + 1] for x in s["x"]], dtype="float32")} for i, s in enumerate(ss)]
            r = StaticDataset(data=o, output_dim={"data": [9, 2]}, input_dim=9)
            r.init_seq_order(epoch=1)
            return r

        opt = {"class": "sgd"}
        wdp = [False] * NPAR
        if c["wd"]:
            opt["weight_decay"] = 1.0 / c["wd"]
            wdp = [True, True, False, False, False, False, True]
            if c["black"] == "linear":
                opt["weight_decay_modules_blacklist"] = ["torch.nn.Linear"]
                wdp = [True, True, False, True, True, True, False]
            elif c["black"] == "check":
                opt["weight_decay_custom_include_check"] = include_check
                wdp = [False, False, True, False, False, False, True]
        elif c["black"] == "linear":
            opt["weight_decay_modules_blacklist"] = ["torch.nn.Linear"]
        if c["mult"] != 1:
            opt["learning_rate_multiplier"] = float(c["mult"])
        conf = {
            "task": "train", "device": "cpu", "extern_data": {"data": {"dim": 9}}, "get_model": M, "train_step": train_step, "batch_size": 10**6, "max_seqs": c["max_seqs"],
            "num_epochs": c["nep"], "model": d + "/net/model", "learning_rate_file": d + "/lr", "learning_rates": [float(x) for x in c["lr"]], "optimizer": opt, "torch_dataloader_opts": {"num_workers": 0},
            "save_interval": c["saveint"], "stop_on_nonfinite_train_score": False,
        }  # fmt: skip
        if c["clip"]:
            conf["gradient_clip"] = float(c["clip"])
            if c["clipn"]:  # no effect after the clipping of each value
                conf["gradient_clip_global_norm"] = 3.0 * c["clip"]
        if len(c["accum"]) > 1 or c["accumfn"]:
            conf["accum_grad_multiple_step"] = lambda *, epoch, global_train_step, **_kw: c["accum"][(global_train_step + epoch) % len(c["accum"])]
        elif c["accum"][0] > 1:
            conf["accum_grad_multiple_step"] = c["accum"][0]
        if c["dynlr"] != [1]:
            conf["dynamic_learning_rate"] = lambda *, global_train_step, epoch, learning_rate, **_kw: learning_rate * c["dynlr"][(global_train_step + epoch) % len(c["dynlr"])]
        conf = Config(conf)
        eng = None
        try:
            with global_config_ctx(conf):
                eng = Engine(config=conf)
                eng.init_train_from_config(train_data=ds(c["seqs"][0]), dev_data=ds(c["seqs"][1]))
                eng.train()
            st = torch.load(f"{d}/net/model.{c['nep']:03d}.pt")
            m = M()
            m.load_state_dict(st["model"])
            end = {"op": "end", "w": units(m.vec()), "step": int(st["step"])}
        finally:
            if eng is not None:
                eng._mp_manager.shutdown()
            del eng
            gc.collect()
        ctl = ConstantLearningRate(default_learning_rate=1.0, filename=d + "/lr")

        def den(k, l):
            return sum(s["f"] if (l == 1 and c["cnorm"]) else len(s["x"]) for s in c["seqs"][k])

        def sc(errs, name, k):
            r = []
            for l in (1, 2):
                v = errs[f"{name}_loss_l{l}"] * den(k, l) * unit
                r.append(int(round(v)) if abs(v - round(v)) < 1e-3 else 10**9)
            return r

        out = []
        for ep in range(1, c["nep"] + 1):
            out += [e for e in ev if e["ep"] == ep]
            dat = ctl.epoch_data[ep]
            out.append({"op": "scores", "ep": ep, "lr": dat.learning_rate, "train": sc(dat.error, "train", 0), "dev": sc(dat.error, "dev", 1)})
        for e in out:
            if "lr" in e:
                e["lr"] = int(e["lr"]) if e["lr"] == int(e["lr"]) else -1
        out.append(end)
        cfg = {
            "seqs": [[{"n": len(s["x"]), "x": [sum(f[j] for f in s["x"]) for j in range(NPAR)], "f": s["f"]} for s in ss] for ss in c["seqs"]],
            "params": [{"loss": LOSS[j], "frozen": j == 6, "wd": wdp[j]} for j in range(NPAR)],
            "losses": [{"scale": c["scale"][0], "norm": c["norm"], "cnorm": c["cnorm"], "err": False}, {"scale": c["scale"][1], "norm": c["norm"], "cnorm": False, "err": c["err"]}],
            "unit": unit, "w0": [int(x * unit) for x in (1, -2, 2, 1, 1, 3, 1)], "lr": c["lr"], "dynlr": c["dynlr"], "mult": c["mult"], "lrden": 1, "lrshow": 1, "accum": c["accum"],
            "clip": c["clip"], "wdinv": c["wd"] or 1, "nep": c["nep"],
        }  # fmt: skip
        return {"cfg": cfg, "ev": out}
