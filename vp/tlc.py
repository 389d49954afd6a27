"""Run TLC (models, behaviour generation, batch trace validation)."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = VERIF + "/specs"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """machinery failure"""


def _run(module, cfg_text, *, env=None, workers=4, timeout=800, extra=(), heap="6g", jvm=()):
    scratch = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        cfg = scratch + "/M.cfg"
        with open(cfg, "w") as f:
            f.write(cfg_text)
        cmd = [
            "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss64m", *jvm,
            f"-Djava.io.tmpdir={scratch}", f"-DTLA-Library={SPECS}",
            "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", scratch + "/meta", "-noGenerateSpecTE",
            "-workers", str(workers), *extra, SPECS + "/" + module + ".tla",
        ]  # fmt: skip
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True
            )
        except subprocess.TimeoutExpired:
            raise TlcError(f"TLC timeout after {timeout}s: {module}")
        return p.returncode, p.stdout, time.time() - t0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def check_model(module, cfg_text, *, workers=4, timeout=800, extra=(), env=None):
    """Exhaustive (or simulated) model checking. Any violated invariant/property of the SPEC is a machinery error
    unless the caller handles it: it means that the specification itself is inconsistent with its properties."""
    rc, out, secs = _run(module, cfg_text, workers=workers, timeout=timeout, extra=("-deadlock", *extra), env=env)
    if rc != 0:
        raise TlcError(f"TLC rc={rc} on model {module}:\n{out[-6000:]}")
    gen, dist = _stats(out)
    return {"module": module, "transitions": gen, "states": dist, "wall_s": round(secs, 1), "out": out}


def generate(module, cfg_text, *, marker="BEH", workers=1, timeout=600, extra=(), env=None):
    """Run a generator model; returns the parsed JSON of the lines it prints with k=marker, plus stats."""
    rc, out, secs = _run(module, cfg_text, workers=workers, timeout=timeout, extra=("-deadlock", *extra), env=env)
    if rc != 0:
        raise TlcError(f"TLC rc={rc} on generator {module}:\n{out[-6000:]}")
    res = []
    for line in out.splitlines():
        j = _json_line(line)
        if j is not None and j.get("k") == marker:
            res.append(j)
    gen, dist = _stats(out)
    return res, {"module": module, "transitions": gen, "states": dist, "wall_s": round(secs, 1)}


def _json_line(line):
    line = line.strip()
    if line.startswith('"{') and line.endswith('}"'):
        try:
            return json.loads(json.loads(line))
        except ValueError:
            return None
    if line.startswith("{") and line.endswith("}"):
        try:
            return json.loads(line)
        except ValueError:
            return None
    return None


TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"


def validate_traces(module, traces, *, workers=4, timeout=800, cfg_extra="", batch=4000):
    """
    :param traces: list of {"cfg":..., "ev":[...]}
    :return: (list of verdicts (None = accepted | {"l":.., "bad":[..]}), stats)
    """
    verdicts = []
    st = {"module": module, "states": 0, "transitions": 0, "wall_s": 0.0}
    for i in range(0, len(traces), batch):
        part = traces[i : i + batch]
        verdicts += _validate_batch(module, part, st, workers=workers, timeout=timeout, cfg_extra=cfg_extra)
    return verdicts, st


def _small_ints(x, lim=2**30):
    """TLC has 32 bit integers: values (of broken code) beyond are cut off"""
    if isinstance(x, dict):
        return {k: _small_ints(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_small_ints(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > lim:
        return lim if x > 0 else -lim
    return x


def _validate_batch(module, traces, st, *, workers, timeout, cfg_extra):
    fd, fn = tempfile.mkstemp(prefix="vp-tr-", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(_small_ints({"cfg": t["cfg"], "ev": t["ev"]})) + "\n")
        rc, out, secs = _run(
            module, TRACE_CFG + cfg_extra, env={"TRACE_FILE": fn}, workers=workers, timeout=timeout
        )
        res = [0] * len(traces)
        for line in out.splitlines():
            j = _json_line(line)
            if not j:
                continue
            if j.get("k") == "ACCEPT":
                res[j["tid"] - 1] = None
            elif j.get("k") == "REJECT":
                res[j["tid"] - 1] = {"l": j["l"], "bad": sorted(j["bad"])}
        gen, dist = _stats(out)
        st["states"] += dist
        st["transitions"] += gen
        st["wall_s"] = round(st["wall_s"] + secs, 1)
        if rc != 0 or any(r == 0 for r in res):
            # An evaluation error inside TLC (e.g. a malformed value observed from the code) is itself
            # information about one trace: bisect so that the verdict stays total and is pinned to a trace.
            if len(traces) == 1:
                if rc != 0:
                    st["eval_errors"] = st.get("eval_errors", 0) + 1
                    m = re.search(r"Error: (.*?)(?:\n\n|$)", out, re.S)
                    return [{"l": -1, "bad": ["tlc-eval-error: " + (m.group(1)[:600] if m else out[-600:])]}]
                raise TlcError(f"no verdict for trace in {module}:\n{out[-3000:]}")
            if "Parsing or semantic analysis failed" in out or "***Parse Error***" in out:
                raise TlcError(f"parse error in {module}:\n{out[-4000:]}")
            tids = re.findall(r"\btid = (\d+)", out)
            if tids and 1 <= int(tids[-1]) <= len(traces):
                k = int(tids[-1]) - 1
                kw = dict(workers=workers, timeout=timeout, cfg_extra=cfg_extra)
                if st.get("eval_errors", 0) >= 2:
                    return [r or None for r in res[:k]] + _validate_batch(module, traces[k : k + 1], st, **kw) + [r or None for r in res[k + 1 :]]
                a = _validate_batch(module, traces[k : k + 1], st, **kw)
                b = _validate_batch(module, traces[:k] + traces[k + 1 :], st, **kw)
                return b[:k] + a + b[k:]
            if st.get("eval_errors", 0) >= 3:  # enough of them are pinned down
                return [r or None for r in res]
            h = len(traces) // 2
            a = _validate_batch(module, traces[:h], st, workers=workers, timeout=timeout, cfg_extra=cfg_extra)
            return a + _validate_batch(module, traces[h:], st, workers=workers, timeout=timeout, cfg_extra=cfg_extra)
        return res
    finally:
        os.unlink(fn)
