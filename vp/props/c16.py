"""C16: checkpoint retention and resume epoch selection."""
import math
import os
from ..harness import Prop

NAN = 99999


class P(Prop):
    id = "C16"
    trace_module = "RetentionTrace"
    rule = (
        "training histories (save a checkpoint with scores, sometimes without clean-up, restarts losing the score history, nan and missing"
        " scores, changing score keys) with the clean-up applied in between; and resume decisions for all subsets of model/optimizer"
        " files of up to 5 epochs and seeded ones"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT BestEver\nINVARIANT LastThere\nINVARIANT CleanPossible\nCONSTANTS NEp=%i Scores=%s Last=%i BestN=%i KeyNames=%s\n"
        ms = [("RetentionMC", c % (6 if big else 5, "{1,2,99999}", 1, 1, '{"a"}')), ("RetentionMC", c % (4 if big else 3, "{1,2,3}", 1, 1, '{"a","b"}'))]
        if big:
            ms.append(("RetentionMC", c % (6, "{1,2,3}", 2, 2, '{"a"}')))
        return [(a, b, {"workers": 3, "timeout": 3000}) for a, b in ms]

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        for _ in range(12000 if big else 1200):
            keys = rng.choice([["dev_score"], ["dev_score", "dev_error"], ["train_score", "dev_score", "dev_error"]])
            nep = rng.randint(1, 14)
            vals = rng.choice([list(range(1, 50)), [1, 2, 3], [5, 6]])
            e, h = 0, []
            while e < nep:
                e += rng.choice([1, 1, 1, 1, 2])
                sc = [[k, rng.choice(vals) if rng.random() < 0.93 else NAN] for k in keys if rng.random() < 0.95]
                h.append(["save", e, sc, rng.random() < 0.03])
                if rng.random() < 0.7:
                    h.append(["cleanup", rng.random() < 0.05])
            h.append(["cleanup", False])
            haskeep = rng.random() < 0.7
            cases.append(
                {
                    "kind": "ret", "last": rng.randint(1, 4), "best": rng.choice([0, 1, 1, 2, 4]), "haskeep": haskeep,
                    "keep": sorted({rng.randint(1, 15) for _ in range(rng.randint(0, 3))}) if haskeep else [], "h": h, "off": rng.choice([0, 0, 40, 300]),
                    "default": rng.random() < 0.15, "file": rng.random() < 0.5,
                }
            )  # fmt: skip
        # resume: all subsets for few epochs
        n = 5 if big else 4
        for m in range(4**n):
            fs, x = [], m
            for e in range(1, n + 1):
                fs.append([e, bool(x & 1), bool(x & 2)])
                x >>= 2
            cases.append({"kind": "start", "files": fs, "train": True, "start": 0, "load": 0, "final": 10})
        for _ in range(4000 if big else 500):
            fs = [[e, rng.random() < 0.7, rng.random() < 0.6] for e in range(1, rng.randint(2, 14))]
            train = rng.random() < 0.7
            full = [e for e, p, o in fs if p and (o or not train)]
            start, load, final = 0, 0, rng.choice([20, 20, 5])
            full = [e for e in full if e <= final]
            r = rng.random()
            if train and r < 0.2:
                start = 1
            elif train and r < 0.4 and full:
                start = rng.choice(full) + 1
            elif not train and full and r < 0.4:
                load = rng.choice(full)
            cases.append({"kind": "start", "files": fs, "train": train, "start": start, "load": load, "final": final})
        return cases

    def setup_worker(self, scratch):
        from returnn.util.basic import BackendEngine

        BackendEngine.select_engine(engine=BackendEngine.Torch)
        import returnn.torch.engine  # noqa

    def run_case(self, c, scratch):
        import shutil
        import tempfile

        d = tempfile.mkdtemp(dir=scratch, prefix="rt")
        try:
            return [getattr(self, "case_" + c["kind"])(c, d)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case_ret(self, c, d):
        from returnn.config import Config
        from returnn.engine.base import EngineBase
        from returnn.torch.engine import Engine
        from returnn.learning_rate_control import load_learning_rate_control_from_config

        class Eng(EngineBase):
            delete_model = staticmethod(Engine.delete_model)

        conf = Config()
        opts = {}
        if not c["default"]:
            opts = {"keep_last_n": c["last"], "keep_best_n": c["best"]}
        if c["haskeep"]:
            opts["keep"] = [e + c["off"] for e in c["keep"]]
        cfg = {"last": 2 if c["default"] else c["last"], "best": 4 if c["default"] else c["best"], "keep": opts.get("keep", []), "haskeep": c["haskeep"]}
        conf.update({"model": d + "/m/net", "num_epochs": 1000, "cleanup_old_models": opts, "learning_rate": 1.0})
        if c["file"]:
            conf.update({"learning_rate_file": d + "/lr"})
        ctl = load_learning_rate_control_from_config(conf)
        os.makedirs(d + "/m")
        ev = []
        for op, *a in c["h"]:
            if op == "save":
                e, sc, noscore = a
                e += c["off"]
                fn = EngineBase.epoch_model_filename(d + "/m/net", e)
                for x in (".pt", ".opt.pt"):
                    with open(fn + x, "w") as f:
                        f.write("x")
                if len(ev) == 0 and not sc:
                    sc = [["dev_score", 3]]
                noscore = (noscore and len(ev) > 0) or (not sc)
                if not noscore:
                    ctl.set_epoch_error(e, {k: float("nan") if v == NAN else float(v) for k, v in sc})
                    if c["file"]:
                        ctl.save()
                ev.append({"op": "save", "e": e, "sc": sc, "noscore": noscore})
            else:
                eng = Eng(config=conf)
                if not c["file"]:
                    eng.learning_rate_control = ctl
                conf.update({"dry_run": a[0]})
                raised = ""
                try:
                    eng.cleanup_old_models()
                except Exception as exc:
                    raised = f"{type(exc).__name__}: {exc}"
                left = sorted(int(x[4:-3]) for x in os.listdir(d + "/m") if x.endswith(".pt") and not x.endswith(".opt.pt"))
                opt = sorted(int(x[4:-7]) for x in os.listdir(d + "/m") if x.endswith(".opt.pt"))
                ev.append({"op": "cleanup", "left": left, "opt": opt, "dry": a[0], "raised": bool(raised), "x": raised})
        return {"cfg": cfg, "ev": ev}

    def case_start(self, c, d):
        from returnn.config import Config
        from returnn.engine.base import EngineBase

        conf = Config()
        conf.update({"model": d + "/m/net", "num_epochs": c["final"], "task": "train" if c["train"] else "forward"})
        if c["start"]:
            conf.update({"start_epoch": c["start"]})
        if c["load"]:
            conf.update({"load_epoch": c["load"]})
        os.makedirs(d + "/m")
        for e, p, o in c["files"]:
            fn = EngineBase.epoch_model_filename(d + "/m/net", e)
            for b, x in ((p, ".pt"), (o, ".opt.pt")):
                if b:
                    with open(fn + x, "w") as f:
                        f.write("x")
        r, fn = EngineBase.get_epoch_model(conf)
        st = EngineBase.get_train_start_epoch(conf) if c["train"] else 0
        e = {"op": "start", "files": c["files"], "train": c["train"], "start": c["start"], "load": c["load"], "final": max(c["final"], c["load"]), "r": r or 0, "fnep": int(fn.split(".")[-1]) if fn else 0, "startep": st}
        return {"cfg": {"last": 1, "best": 1, "keep": [], "haskeep": False}, "ev": [e]}
