"""
Check harness: runs the TLC models of a property, drives the real code of /repo in worker
processes, and lets TLC validate the recorded traces against the specification.
"""
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import tlc

VERIF = tlc.VERIF
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")  # (overridden only when developing against planted bugs)


class Prop:
    """One property check. Subclass in vp/props/<id>.py as `P`."""

    id = "?"
    trace_module = None  # TLA+ module instantiating TraceBase
    trace_cfg_extra = ""
    case_timeout = 60  # secs per case before it counts as a hang
    num_procs = 8
    cases_per_proc_min = 1
    level = "model_checking"
    rule = ""
    assumptions = ()
    env = {}

    def models(self, tier):
        """:return: list of (module, cfg_text) or (module, cfg_text, extra_args)"""
        return []

    def cases(self, tier, rng):
        """:return: list of JSON-able cases (run in main process; no returnn import)"""
        return []

    def setup_worker(self, scratch):
        """called once per worker process"""

    def run_case(self, case, scratch):
        """:return: list of traces {"cfg","ev"} recorded from the real code"""
        raise NotImplementedError

    def known_finding(self, case, trace, verdict):
        """:return: finding text if this rejected trace is a listed known finding"""
        return None

    def group_key(self, case):
        return str(case.get("kind", "")) if isinstance(case, dict) else ""

    def nontrivial_key(self, trace):
        return json.dumps(trace, sort_keys=True)


def worker_env(scratch):
    e = dict(os.environ)
    e.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        LANG="C.UTF-8",
        HOME=scratch + "/home",
        TMPDIR=scratch + "/tmp",
        RETURNN_CACHE_DIR=os.environ.get("VP_RETURNN_CACHE_DIR", "") or (scratch + "/cache"),
        PYTHONPATH=f"{REPO}:{VERIF}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        TF_USE_LEGACY_KERAS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        CUDA_VISIBLE_DEVICES="",
        HF_HUB_OFFLINE="1",
        TRANSFORMERS_OFFLINE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        USER="root",
    )
    for d in ("home", "tmp", "cache", "work"):
        os.makedirs(scratch + "/" + d, exist_ok=True)
    return e


def run_cases(prop, tier, cases, scratch, num_procs=None):
    """:return: list of (case_idx, trace)"""
    if not cases:
        return []
    n = max(1, min(num_procs or prop.num_procs, len(cases) // prop.cases_per_proc_min or 1))
    shards = [list(range(i, len(cases), n)) for i in range(n)]
    results = [None] * len(cases)
    lock = threading.Lock()
    errors = []

    deadline = time.time() + (6000 if tier == "thorough" else 480)

    def run_shard(si):
        todo = list(shards[si])
        attempt = 0
        while todo:
            attempt += 1
            wdir = f"{scratch}/w{si}.{attempt}"
            os.makedirs(wdir)
            env = worker_env(wdir)
            env.update(prop.env)
            env["VP_DEADLINE"] = str(deadline)
            with open(wdir + "/cases.json", "w") as f:
                json.dump([[i, cases[i]] for i in todo], f)
            logf = open(wdir + "/log", "wb")
            p = subprocess.Popen(
                [PY, "-m", "vp.worker", prop.id, wdir],
                cwd=wdir + "/work", env=env, stdout=logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                start_new_session=True,
            )  # fmt: skip
            prog = wdir + "/progress"
            open(prog, "w").close()
            last_change, last_size = time.time(), -1
            killed = False
            startup = True
            while p.poll() is None:
                time.sleep(0.05)
                sz = os.path.getsize(prog)
                if sz != last_size:
                    startup = startup and sz <= 0
                    last_size, last_change = sz, time.time()
                elif time.time() - last_change > (300 if startup else prop.case_timeout * 1.5 + 20):
                    killed = True
                    break
            _kill_group(p)
            logf.close()
            done = set()
            started = None
            stopped = False
            out = []
            for line in open(prog):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                stopped = stopped or j[0] == "stop"
                if j[0] == "start":
                    started = j[1]
                elif j[0] == "done":
                    done.add(j[1])
                    out.append((j[1], j[2]))
                    started = None
            with lock:
                for i, traces in out:
                    results[i] = traces
            todo = [i for i in todo if i not in done]
            if not todo:
                break
            if stopped:  # out of time, or after a hang
                with lock:
                    if time.time() > deadline or sum(1 for r in results if r and any("fatal" in t for t in r)) > 1:
                        return
                continue
            logtail = open(wdir + "/log", errors="replace").read()[-3000:]
            if started is None:
                with lock:
                    errors.append(f"worker {si} ended (rc={p.returncode}, killed={killed}) outside a case:\n{logtail}")
                return
            # The process died or hung inside this case: an observation about the code.
            with lock:
                what = "hang" if killed else "process-died"
                results[started] = [
                    {"cfg": {"x": 0}, "ev": [], "fatal": f"{what} rc={p.returncode}", "log": logtail}
                ]
            todo.remove(started)
            with lock:
                if sum(1 for r in results if r and any("fatal" in t for t in r)) > 3:
                    return  # enough evidence

    threads = [threading.Thread(target=run_shard, args=(i,)) for i in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise tlc.TlcError("; ".join(errors))
    out = []
    for i, ts in enumerate(results):
        for t in ts or []:
            out.append((i, t))
    return out


def _kill_group(p):
    import signal

    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        pass


def known_findings():
    fn = VERIF + "/known_findings.json"
    return json.load(open(fn)) if os.path.exists(fn) else []


def run_check(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = importlib.import_module(f"vp.props.{pid.lower()}")
    prop = mod.P()
    scratch = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    model_res, model_err = [], []

    def run_models():
        try:
            for m in prop.models(tier):
                kw = m[2] if len(m) > 2 else {}
                model_res.append(tlc.check_model(m[0], m[1], **{"workers": 2, **kw}))
        except Exception:
            model_err.append(traceback.format_exc())

    mt = threading.Thread(target=run_models)
    try:
        rng = random.Random(seed * 7919 + 13)
        if replay:
            cases = [json.load(open(replay))["case"]]
        else:
            mt.start()
            cases = prop.cases(tier, rng)
        pairs = run_cases(prop, tier, cases, scratch)
        t_run = time.time() - t0
        num_run = len({i for i, _ in pairs})
        fatal = [(i, t) for i, t in pairs if "fatal" in t]
        pairs = [(i, t) for i, t in pairs if "fatal" not in t]
        traces = [t for _, t in pairs]
        verdicts, vst = [], {"states": 0, "transitions": 0}
        if traces:
            verdicts, vst = tlc.validate_traces(
                prop.trace_module, traces, workers=6, cfg_extra=prop.trace_cfg_extra,
                timeout=3000 if tier == "thorough" else 700,
            )  # fmt: skip
        if mt.is_alive() or mt.ident:
            mt.join()
        if model_err:
            raise tlc.TlcError(model_err[0])
        viol, known = [], {}
        for i, t in fatal:
            viol.append((cases[i], t, {"l": -1, "bad": [t["fatal"]]}))
        for (i, t), v in zip(pairs, verdicts):
            if v is None:
                continue
            kf = prop.known_finding(cases[i], t, v)
            if kf:
                known.setdefault(kf, 0)
                known[kf] += 1
            else:
                viol.append((cases[i], t, v))
        drv = [x for x in viol if any(b.startswith("DRIVER") for b in x[2]["bad"])]
        if drv and len(drv) < len(viol):
            viol = [x for x in viol if x not in drv]
        elif drv:
            raise tlc.TlcError(f"the driver produced an illegal history: {drv[0]}")
        if os.environ.get("VP_SUMMARY"):
            groups = {}
            for c, t, v in viol:
                groups.setdefault((prop.group_key(c), re.sub("[0-9]+", "#", str(v["bad"])[:160])), []).append((c, t, v))
            for g, ls in sorted(groups.items(), key=lambda x: -len(x[1])):
                c, t, v = min(ls, key=lambda x: len(str(x[0])))
                print(len(ls), g, "\n    ", str(c)[:300], "\n    ", str(t["ev"][max(0, v["l"] - 5) : v["l"]])[-400:], t.get("log", "")[-int(os.environ.get("VP_TB", "300")) :])
        for kf, cnt in sorted(known.items()):
            print(f"KNOWN-FINDING: property={pid} {kf} ({cnt} traces)")
        nt = len({prop.nontrivial_key(t) for t in traces})
        evd = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": prop.level,
            "coverage": {
                "states": sum(m["states"] for m in model_res) + vst["states"],
                "transitions": sum(m["transitions"] for m in model_res) + vst["transitions"],
                "traces_validated_against_impl": len(traces),
                "evaluations": num_run,
                "distinct_nontrivial": nt,
                "rule": prop.rule,
                "models": [{k: m[k] for k in ("module", "states", "transitions", "wall_s")} for m in model_res],
                "behaviours_from_spec": getattr(prop, "num_spec_behaviours", 0),
                "trace_events": sum(len(t["ev"]) for t in traces),
                "samples": [
                    {"case": cases[i], "trace": {"cfg": t["cfg"], "ev": t["ev"][:6]}} for i, t in pairs[:: max(1, len(pairs) // 2)][:3]
                ],
            },
            "assumptions": list(prop.assumptions),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(viol),
        }  # fmt: skip
        if not replay:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
                json.dump(evd, f, indent=1, default=str)
        os.makedirs(VERIF + "/replay", exist_ok=True)
        for n, (case, t, v) in enumerate(viol[:5]):
            fn = f"{VERIF}/replay/{pid}-{n}.json"
            with open(fn, "w") as f:
                json.dump({"property": pid, "case": case, "trace": t, "verdict": v}, f, indent=1, default=str)
            l = v["l"]
            evt = t["ev"][l - 1] if 1 <= l <= len(t["ev"]) else t.get("fatal", "end-of-trace")
            print(f"  clause(s) violated: {v['bad']} at event {l}: {str(evt)[:400]}")
            print(f"VIOLATION property={pid} replay={fn}")
        print(
            f"{pid} [{tier}] cases={len(cases)} traces={len(traces)} distinct={nt} spec-states={evd['coverage']['states']}"
            f" models={[(m['module'], m['states']) for m in model_res]} drive={t_run:.1f}s validate={vst.get("wall_s", 0)}s model_s={sum(m["wall_s"] for m in model_res):.1f} violations={len(viol)}"
            f" wall={evd['wall_s']}s"
        )
        return 1 if viol else 0
    finally:
        if mt.ident:
            mt.join()
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    args = ap.parse_args()
    try:
        rc = run_check(args.property, args.tier, args.seed, replay=args.replay)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={args.property}: check machinery failed")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
