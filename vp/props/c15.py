"""C15: learning rate schedule and its persistence."""
import math
import os
from ..harness import Prop
from . import sched

KEYS = ["dev_score", "dev_score_output", "dev_score_output/output", "dev_score_output/output_prob", "dev_score_output/x", "dev_error",
        "dev_error_ctc", "dev_loss", "train_score", "train_score_output", "aaa", "train_error", "zzz"]  # fmt: skip
NONE = -9999


def enc(v):
    if math.isnan(v):
        return 777777
    if math.isinf(v):
        return 888888 if v > 0 else -888888
    assert v == int(v), v
    return int(v)


def dec(v):
    return {777777: float("nan"), 888888: float("inf"), -888888: float("-inf")}.get(v, float(v))


class P(Prop):
    id = "C15"
    trace_module = "LearnRateTrace"
    rule = (
        "training histories (get lr / set train and dev scores / meta / save / restart / crash at every operation of save) over all"
        " schedulers, thresholds, presets, error measures; scores with changing keys, nan/inf side metrics"
    )
    assumptions = ("learning rates are powers of two and scores integers, so that float arithmetic is exact", "scores exactly on a threshold are not generated")

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT LrSame\nINVARIANT NotBelowMin\nINVARIANT NoRise\nCONSTANTS NEp=%i Scores={1,2,4} Kinds=%s\n"
        return [("LearnRateMC", c % ((5 if big else 3), '{"const","rel","abs","multi"}'), {"workers": 4, "timeout": 3000})]

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        for _ in range(20000 if big else 2200):
            kind = rng.choice(["const", "rel", "rel", "abs", "multi", "multi"])
            thr = rng.choice([-11, -7, 3, -253, -501]) if kind != "abs" else rng.choice([-10, -1500, 500, 2500])
            nep = rng.randint(2, 9)
            multi = kind == "multi"
            cfg = {
                "kind": kind, "def": rng.choice([0, -3, 2, -16]), "min": rng.choice([-100, -100, -2, -4, -18]), "decay": rng.choice([-1, -1, -2]),
                "growth": rng.choice([0, 0, 1]), "presets": rng.choice([[], [], [[1, 1]], [[1, 0], [2, -1], [3, -2]], [[3, 1]], [[2, 1], [5, -3]]]),
                "keys": rng.choice([[], [], ["dev_error"], ["train_score"], ["dev_loss", "dev_error"], ["dev_score"], ["nokey"]]),
                "rellr": rng.random() < (0.15 if multi else 0.3), "mine": rng.choice([0, 0, 0, 1, 2, 3]), "divold": rng.random() < 0.4,
                "thr": thr, "gthr": rng.choice([thr, thr, thr - 120]), "nume": rng.choice([1, 2, 3, 5]), "upd": rng.choice([1, 1, 2, 3]),
            }  # fmt: skip
            if cfg["def"] == -16:
                cfg["rellr"] = False  # (TLC's integers)
            if multi and cfg["rellr"]:
                cfg["growth"], cfg["decay"], cfg["presets"], cfg["def"], nep = 0, -1, [], 0, min(nep, 6)
            vals = [1, 2, 4, 8] if multi else rng.choice([[1, 2, 4, 8], list(range(1, 41)), [-5, -3, 2, 3, 7], [0, 1, 2, 3]])
            main = rng.choice(KEYS)
            h = []
            e = 1
            while e <= nep:
                h.append(["get", e])
                keys = {main: rng.choice(vals)} if rng.random() < 0.9 else {}
                for _ in range(rng.choice([0, 0, 1, 2])):
                    keys[rng.choice(KEYS)] = rng.choice(vals)
                raw = [[k, [["", v]]] for k, v in keys.items()]
                if rng.random() < 0.12 and not multi:
                    nsub = rng.randint(1, 2)
                    raw.append([rng.choice(["dev_score", "train_score"]), [["ctc", rng.choice(vals)], ["att", rng.choice(vals)]][:nsub]])
                    raw = list({r[0]: r for r in raw}.values())
                if "dev_loss" not in keys and rng.random() < 0.1 and cfg["keys"] != ["nokey"]:
                    raw.append(["zzz", [["", rng.choice([777777, 888888, -888888])]]]) if any(r[0].startswith("dev") for r in raw) else None
                train = [r for r in raw if not r[0].startswith("dev")]
                dev = [r for r in raw if r[0].startswith("dev")]
                crash = rng.random() < 0.25
                at = rng.randint(0, 4)
                steps = [["err", e, train], ["meta", e, rng.choice(["lr_eff", "steps"]), rng.randint(0, 9)], ["save"], ["err", e, dev], ["save"]]
                for i, s in enumerate(steps):
                    if crash and i == at:
                        if s[0] == "save":
                            h.append(["crashsave", rng.randint(0, 12)])
                        h.append(["new"])
                        break
                    if s[0] != "err" or s[2]:
                        h.append(s)
                else:
                    h.append(["key", e])
                    if rng.random() < 0.4:
                        h.append(
                            ["best", rng.randint(1, e + 1), rng.choice([1, 1, rng.randint(1, e)]), rng.choice([0, 0, 1, 2, 3]), rng.choice([NONE, 2, 4]), rng.choice([-1, -1, 1, 2]), rng.choice([0, 0, 1])]
                        )  # fmt: skip
                    if rng.random() < 0.15:
                        h.append(["new"])
                    elif rng.random() < 0.06:  # continued with other learning rates in the config: past epochs keep what they had
                        h.append(["new", [[x, rng.randint(-3, 2)] for x in range(1, e + 1 + rng.randint(0, 2)) if rng.random() < 0.7]])
                    e += 1
                    if rng.random() < 0.05:
                        e += 1  # skipped epochs
            h += [["get", nep + 1], ["dump"]]
            cases.append({"kind": kind, "cfg": cfg, "h": h, "conf": rng.random() < 0.5, "callable": rng.random() < 0.3})
        # (a score exactly on a threshold is a matter of float rounding)
        return cases

    def setup_worker(self, scratch):
        sched.patch()
        import returnn.learning_rate_control  # noqa

    def run_case(self, c, scratch):
        import shutil
        import tempfile

        d = tempfile.mkdtemp(dir=scratch, prefix="lr")
        try:
            return [self._run(c, d)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, c, d):
        from returnn.config import Config
        from returnn.learning_rate_control import load_learning_rate_control_from_config

        cfg = c["cfg"]
        fn = d + "/sub/newbob.data"
        presets = {e: 2.0**lr for e, lr in cfg["presets"]}
        decay, growth = 2.0 ** cfg["decay"], 2.0 ** cfg["growth"]
        if c["callable"]:
            decay_, growth_ = decay, growth
            decay, growth = lambda lr: lr * decay_, lambda lr: lr * growth_
        is_list = list(presets) == list(range(1, len(presets) + 1))
        conf = Config()
        conf.update(
            {
                "learning_rate_control": {"const": "constant", "rel": "newbob_rel", "abs": "newbob_abs", "multi": "newbob_multi_epoch"}[cfg["kind"]],
                "learning_rate": 2.0 ** cfg["def"], "min_learning_rate": 0.0 if cfg["min"] == -100 else 2.0 ** cfg["min"],
                "learning_rate_control_relative_error_relative_lr": cfg["rellr"], "learning_rate_control_min_num_epochs_per_new_lr": cfg["mine"],
                "newbob_relative_error_div_by_old": cfg["divold"], "learning_rate_decay": decay, "learning_rate_growth": growth, "learning_rate_file": fn,
                "newbob_relative_error_threshold": cfg["thr"] / 1000, "newbob_error_threshold": cfg["thr"] / 1000,
                "newbob_relative_error_grow_threshold": cfg["gthr"] / 1000, "newbob_multi_num_epochs": cfg["nume"], "newbob_multi_update_interval": cfg["upd"],
            }
        )  # fmt: skip
        if presets:
            conf.update({"learning_rates": list(presets.values()) if is_list and c["conf"] else presets})
        if cfg["keys"]:
            conf.update({"learning_rate_control_error_measure": cfg["keys"][0] if len(cfg["keys"]) == 1 else cfg["keys"]})
        ev = []

        def lrexp(x):
            m, e = math.frexp(x)
            assert m == 0.5, f"learning rate {x} is not what the schedule allows"
            return e - 1

        def dump(ctl):
            return [
                {"e": e, "lr": lrexp(x.learning_rate), "err": [[k, enc(v)] for k, v in x.error.items()], "meta": [[k, v] for k, v in x.meta.items()]}
                for e, x in sorted(ctl.epoch_data.items())
            ]

        cur = [cfg["presets"]]

        def new(presets=None):
            if presets is not None:
                cur[0] = presets
                conf.typed_dict.pop("learning_rates", None)
                if presets:
                    conf.update({"learning_rates": {e: 2.0**lr for e, lr in presets}})
            ctl = load_learning_rate_control_from_config(conf)
            ev.append({"op": "new", "dump": dump(ctl), "presets": cur[0]})
            return ctl

        ctl = new()
        for op, *a in c["h"]:
            if op == "get":
                ev.append({"op": "get", "e": a[0], "lr": lrexp(ctl.get_learning_rate_for_epoch(a[0]))})
            elif op == "err":
                ctl.get_learning_rate_for_epoch(a[0])
                err = {}
                for k, sub in a[1]:
                    err[k] = dec(sub[0][1]) if sub[0][0] == "" else {"cost:" + s: dec(v) for s, v in sub}
                ctl.set_epoch_error(a[0], err)
                ev.append({"op": "err", "e": a[0], "raw": [{"key": k, "sub": sub} for k, sub in a[1]]})
            elif op == "meta":
                ctl.get_learning_rate_for_epoch(a[0])
                ev.append({"op": "get", "e": a[0], "lr": lrexp(ctl.get_learning_rate_for_epoch(a[0]))})
                ctl.epoch_data[a[0]].meta[a[1]] = a[2]
                ev.append({"op": "meta", "e": a[0], "k": a[1], "v": a[2]})
            elif op == "save":
                ctl.save()
                ev.append({"op": "save"})
            elif op == "crashsave":
                pr = sched.Proc(1)
                pr.cmd.put(ctl.save)
                done = False
                for i in range(a[0] + 1):
                    kind, x, _ = pr.out.get(timeout=20)
                    if kind == "op":
                        if i < a[0]:
                            pr.go.release()
                    elif kind == "done":
                        done = True
                        break
                    else:
                        raise x
                ev.append({"op": "save" if done else "crash"})
                # (not killed before the end: the buffers of a crashed process are never flushed)
                self._keep = getattr(self, "_keep", []) + [pr]
                self._keep = self._keep[-50:]
            elif op == "new":
                ctl = new(*a)
            elif op == "dump":
                ev.append({"op": "dump", "dump": dump(ctl)})
            elif op == "key":
                k, v = ctl.get_epoch_error_key_value(a[0])
                if k is not None:
                    ev.append({"op": "key", "e": a[0], "key": k, "v": enc(v)})
            elif op == "best":
                last, first, lastn, filt, onlyn, dist = a
                r = ctl.get_last_best_epoch(
                    last, first_epoch=first, only_last_epochs=lastn or None, filter_score=float("inf") if filt == NONE else float(filt), only_last_n=onlyn, min_score_dist=float(dist)
                )  # fmt: skip
                ev.append({"op": "best", "last": last, "first": first, "lastn": lastn, "filter": filt, "onlyn": onlyn, "dist": dist, "r": r or 0})
        return {"cfg": cfg, "ev": ev}
