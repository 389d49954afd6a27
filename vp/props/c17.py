"""C17: a training which crashes and restarts anywhere is the uninterrupted training."""
import json
import os
import shutil
from .. import tlc
from ..harness import Prop
from . import trainkit

ADAM = {"class": "adam"}


class P(Prop):
    id = "C17"
    trace_module = "CheckpointTrace"
    num_procs = 8
    case_timeout = 150
    rule = (
        "complete trainings with the real torch engine (several optimizers, schedules, orderings, save intervals, clean-up settings), killed"
        " at (a sample of / every) file system operation, incl. torn writes, up to 3 crashes, then restarted until finished; and trainings extended to more epochs"
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT NotWrong\nINVARIANT NoWorkLost\nINVARIANT RestartWorks\nPROPERTY Finishes\nCONSTANTS NEp=%i Interval=%i KeepLast=%i MaxCrash=%i\n"
        return [("CheckpointMC", c % a, {"workers": 2, "timeout": 3000}) for a in ([(6, 1, 1, 3), (7, 2, 1, 3), (6, 3, 2, 3)] if big else [(4, 1, 1, 2), (4, 2, 1, 2)])]

    def configs(self):
        cl = {"keep_last_n": 1, "keep_best_n": 1, "keep": []}
        nb = {"learning_rate_control": "newbob_multi_epoch", "newbob_multi_num_epochs": 2, "newbob_learning_rate_decay": 0.5, "newbob_relative_error_threshold": 0.5, "learning_rate_control_error_measure": "dev_loss_ce"}
        return [
            {"nep": 4, "dropout": 0.1, "conf": {"optimizer": {"class": "adamw", "weight_decay": 0.1}, "learning_rate": 0.05, "cleanup_old_models": cl}},
            {"nep": 5, "save_interval": 2, "dynlr": True, "conf": {"optimizer": ADAM, "learning_rates": [0.1, 0.02, 0.05], "cleanup_old_models": True}, "eval2": True},
            {"nep": 4, "kind": "bn", "stepnoise": True, "seq_ordering": "random", "partition_epoch": 2, "ntrain": 12, "conf": {"optimizer": {"class": "sgd", "momentum": 0.9}, "learning_rate": 0.02, **nb}},
            {"nep": 4, "accumdyn": True, "dropout": 0.3, "conf": {"optimizer": ADAM, "learning_rate": 0.05, "gradient_clip_global_norm": 0.5, "apply_cleanup_old_models_to_optim_states": True, "cleanup_old_models": cl}},
            {"nep": 5, "save_interval": 3, "dropout": 0.2, "stepnoise": True, "conf": {"optimizer": {"class": "rmsprop", "momentum": 0.5}, "learning_rate": 0.01, "accum_grad_multiple_step": 2, "online_shuffle_batches": 3}},
            {"nep": 4, "eval2": True, "sum": True, "conf": {"optimizer": ADAM, "learning_rate": 0.01, "learning_rate_control": "newbob_multi_epoch", "newbob_multi_num_epochs": 1, "newbob_multi_update_interval": 1, "newbob_learning_rate_decay": 0.5, "newbob_relative_error_threshold": 0.0, "min_learning_rate": 0.001, "cleanup_old_models": {"keep_last_n": 2, "keep_best_n": 1}}},
            # the parameters are created in another order after each restart
            {"nep": 4, "kind": "perm", "dropout": 0.1, "conf": {"optimizer": ADAM, "learning_rate": 0.05}},
        ]  # fmt: skip

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        cfgs = self.configs()
        # pairs of crash points, from the specification
        self.num_spec_behaviours = 0
        for iv, keep, nep in [(1, 1, 4), (2, 1, 4)] + ([(2, 2, 5), (3, 1, 5)] if big else []):
            res, _ = tlc.generate("CheckpointGen", f"SPECIFICATION GSpec\nINVARIANT Emit\nCONSTANTS NEp={nep} Interval={iv} KeepLast={keep} MaxCrash=2\n", workers=4)
            uniq = {json.dumps([[x["pc"], x["ep"]] for x in r["h"]]): r for r in res}
            uniq = [uniq[k] for k in sorted(uniq)]
            mis = [r for r in uniq if r["h"][1]["mis"]]
            rest = [r for r in uniq if not r["h"][1]["mis"]]
            sel = mis + rest if big else rng.sample(mis, min(len(mis), 30)) + rng.sample(rest, min(len(rest), 8))
            self.num_spec_behaviours += len(sel)
            c = {"nep": nep, "save_interval": iv, "ntrain": 3, "max_seqs": 2, "conf": {"optimizer": ADAM, "learning_rate": 0.05, "cleanup_old_models": {"keep_last_n": keep, "keep_best_n": 0, "keep": []}}}
            for r in sel:
                cases.append({"c": c, "at": [[x["pc"], x["ep"]] for x in r["h"]], "crash": [], "steps": [nep]})
        for ci, c in enumerate(cfgs):
            n = 100 if big else 14
            off = rng.random()
            for i in range(n):
                cases.append({"c": c, "crash": [(i + off) / n], "steps": [c["nep"]]})
            for _ in range(60 if big else 5):
                cases.append({"c": c, "crash": [rng.random() for _ in range(rng.randint(2, 3))], "steps": [c["nep"]]})
            if "learning_rate_control" not in c["conf"] or 1:
                for _ in range(12 if big else 2):
                    s = sorted(rng.sample(range(1, c["nep"]), rng.randint(1, 2))) + [c["nep"]]
                    cases.append({"c": c, "crash": [rng.random()] if rng.random() < 0.4 else [], "steps": s})
        rng.shuffle(cases)
        return cases

    def setup_worker(self, scratch):
        import gc
        import torch
        from returnn.util.basic import BackendEngine
        from returnn.log import log

        BackendEngine.select_engine(engine=BackendEngine.Torch)
        import returnn.torch.engine  # noqa
        import returnn.frontend as rf

        torch.set_num_threads(1)
        log.initialize(verbosity=[2])
        rf.select_backend_torch()
        # warm up in a child-like way, so the forked children start fast
        d = scratch + "/warm"
        os.makedirs(d)
        orig = torch.save
        try:
            trainkit.train_once({**self.configs()[0], "nep": 1}, d, d + "/ev", None)
        except Exception:
            pass
        import sys

        sys.setprofile(None)
        torch.save = orig
        gc.collect()
        gc.freeze()
        self.refs = {}

    def scores(self, fn):
        from returnn.learning_rate_control import ConstantLearningRate

        if not os.path.exists(fn):
            return []
        ctl = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
        out = []
        for ep, dat in sorted(ctl.epoch_data.items()):
            out.append({"ep": ep, "k": "lr", "v": repr(float(dat.learning_rate))})
            for k, v in sorted(dat.error.items()):
                out.append({"ep": ep, "k": k, "v": repr(float(v))})
        return out

    def files(self, d):
        import torch

        pt, opt = [], []
        nd = d + "/net"
        for f in sorted(os.listdir(nd)) if os.path.isdir(nd) else []:
            for post, ls in ((".opt.pt", opt), (".pt", pt)):
                if f.endswith(post):
                    try:
                        s = torch.load(nd + "/" + f)
                        ok, hh = True, trainkit.h(*[x for _, x in sorted(s["model"].items())]) if "model" in s else ""
                        hh += f":{s['epoch']}:{s['step']}"
                    except Exception:
                        ok, hh = False, ""
                    ls.append({"ep": int(f.split(".")[1]), "ok": ok, "h": hh})
                    break
        return pt, opt

    def reference(self, c, scratch):
        key = json.dumps(c, sort_keys=True)
        if key in self.refs:
            return self.refs[key]
        r = {**c, "save_interval": 1, "conf": {**c["conf"], "cleanup_old_models": None, "apply_cleanup_old_models_to_optim_states": True}}
        d = scratch + "/ref"
        os.makedirs(d)
        rc, err = trainkit.spawn(r, d, d + "/ev", None)
        if rc != 0:
            raise RuntimeError(f"uninterrupted training failed: {err}")
        evs = trainkit.read_events(d + "/ev")
        pt, _ = self.files(d)
        assert [f["ep"] for f in pt] == list(range(1, c["nep"] + 1)), pt
        evals = [sorted({e["h"] for e in evs if e["op"] == "eval" and e["ep"] == ep}) for ep in range(1, c["nep"] + 1)]
        cfg = {
            "ref": [{"ep": e["ep"], "step": e["step"], "h": e["h"]} for e in evs if e["op"] == "step"], "evals": evals, "ckpt": [f["h"] for f in pt],
            "scores": self.scores(d + "/lr"), "interval": c.get("save_interval", 1), "nep": c["nep"],
        }  # fmt: skip
        d = scratch + "/cnt"
        os.makedirs(d)
        rc, err = trainkit.spawn(c, d, d + "/ev", None)
        if rc != 0:
            raise RuntimeError(f"uninterrupted training failed: {err}")
        evs = trainkit.read_events(d + "/ev")
        n0 = [e["n"] for e in evs if e["op"] == "step"][0]
        self.refs[key] = (cfg, n0, evs[-1]["n"])
        return self.refs[key]

    def run_case(self, case, scratch):
        c = case["c"]
        cfg, n0, n1 = self.reference(c, scratch)
        d = scratch + "/d"
        os.makedirs(d)
        crash = list(case["crash"])
        steps = list(case["steps"])
        at = list(case.get("at", []))
        ev = []
        num = 0
        while steps:
            nep = steps[0]
            num += 1
            pt, opt = self.files(d)
            ev.append({"op": "disk", "pt": pt, "opt": opt, "nep": nep})
            n = None
            if crash:
                f = crash.pop(0)
                n = n0 + 1 + int(f * (n1 - n0)) if num == 1 else 3 + int(f * (n1 - n0))
            evf = f"{d}/ev{num}"
            rc, err = trainkit.spawn({**c, "nep": nep, "order": num - 1 if c.get("kind") == "perm" else 0}, d, evf, n, at=at.pop(0) if at else None)
            es = trainkit.read_events(evf)
            ev += [{k: e[k] for k in ("op", "ep", "step", "h") if k in e} for e in es if e["op"] != "done"]
            if rc == 77:
                if not any(e["op"] == "begin" for e in es):
                    ev.append({"op": "crash"})
                    continue
                ev.append({"op": "crash"})
            elif rc == 0:
                if not any(e["op"] == "done" for e in es):
                    raise RuntimeError("no done event")
                steps.pop(0)
                pt, opt = self.files(d)
                ev.append({"op": "finish", "scores": self.scores(d + "/lr"), "pt": pt})
            else:
                ev.append({"op": "fail", "rc": rc, "err": err[-700:]})
                break
        shutil.rmtree(d, ignore_errors=True)
        return [{"cfg": cfg, "ev": ev}]
