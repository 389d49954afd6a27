"""C27: the native code cache only ever hands out complete, up-to-date libraries."""
import hashlib
import io
import json
import os
import time
from ..harness import Prop
from .. import tlc
from . import sched

TIMEOUT = 60 * 60


class FakeCompiler:
    """stand-in for subprocess.Popen: a compiler which writes its output file piece by piece"""

    def __init__(self, args, **_kw):
        self.args = args
        self.returncode = None
        self.pid = 1

    def communicate(self, *_a, **_kw):
        args = list(self.args)
        out = args[args.index("-o") + 1]
        src = [a for a in args if a.endswith((".cc", ".c", ".cpp"))][0]
        with open(src) as f:
            code = f.read()
        dep = code.split("#include ")[1].split("\n")[0] if "#include " in code else None
        ver = open(dep).read() if dep else "1"
        data = ("LIB %s %s END" % (hashlib.md5(code.encode()).hexdigest(), ver)).encode()
        # Like ld: a new file. (The old one might be in use.)
        try:
            os.unlink(out)
        except FileNotFoundError:
            pass
        fd = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o755)
        try:
            os.write(fd, data[:5])
            os.write(fd, data[5:20])
            os.write(fd, data[20:])
        finally:
            os.close(fd)
        self.returncode = 0
        return b"fake compiler output", None

    def wait(self, *_a, **_kw):
        if self.returncode is None:
            self.communicate()
        return self.returncode

    poll = wait

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        self.wait()

    def kill(self):
        pass

    stdout = stderr = stdin = None


class P(Prop):
    id = "C27"
    trace_module = "NativeCacheTrace"
    case_timeout = 60
    rule = (
        "schedules of 2-4 processes (threads stopped before each file system operation) which ask for the library of their code in one cache directory, with a stand-in compiler which writes its output piecewise;"
        " crashes at any operation, changed headers, aged locks and directories; schedules from TLC and seeded"
    )
    assumptions = (
        "processes are threads with separate compiler objects; one builtin file system call is atomic",
        "a lock counts as left behind (1 h old) only when its holder is dead; headers do not change while a compiler runs",
    )

    def models(self, tier):
        big = tier == "thorough"
        c = "CHECK_DEADLOCK FALSE\nINVARIANT NoClauseViolated\nCONSTANTS Recheck=TRUE Atomic=TRUE HistLen=0 EmitHist=FALSE "
        return [
            ("NativeCacheMC", "SPECIFICATION FairSpec\nPROPERTY Progress\n" + c + ("NP=3 MaxDie=1 MaxVer=2 Rounds=2\n" if big else "NP=2 MaxDie=1 MaxVer=3 Rounds=2\n"), {"workers": 4, "timeout": 3000}),
            ("NativeCacheMC", "SPECIFICATION Spec\n" + c + ("NP=4 MaxDie=2 MaxVer=2 Rounds=1\n" if big else "NP=3 MaxDie=2 MaxVer=2 Rounds=1\n"), {"workers": 4, "timeout": 3000}),
        ]

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        beh = []
        for atomic in ("TRUE", "FALSE"):
            b, _ = tlc.generate(
                "NativeCacheMC",
                "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS NP=3 MaxDie=2 MaxVer=3 Rounds=2 Recheck=%s Atomic=%s HistLen=30 EmitHist=TRUE\n" % (atomic, atomic),
                extra=("-simulate", f"num={4000 if big else 1200}", "-depth", "32", "-seed", str(rng.randint(1, 10**6))),
            )
            beh += list({str(x["h"]): x["h"] for x in b}.values())
        rng.shuffle(beh)
        self.num_spec_behaviours = len(beh)
        for h in beh[: 4000 if big else 700]:
            k = rng.choice([2, 5, 9])
            cases.append({"n": 3, "codes": self.codes(rng, 3), "dep": True, "h": [[op, p, rng.randint(1, k)] for op, p in h]})
        for _ in range(8000 if big else 1200):
            n = rng.choice([2, 2, 3, 4])
            pd, run, h = rng.choice([0, 0.02, 0.06]), rng.choice([1, 4, 12, 30]), []
            for _ in range(rng.randint(10, 90)):
                p = rng.randint(1, n)
                r = rng.random()
                h.append(["die", p, 0] if r < pd else ["dep", 0, 0] if r < pd + 0.04 else ["age", 0, 0] if r < pd + 0.08 else ["agedir", 0, 0] if r < pd + 0.1 else ["old", 0, 0] if r < pd + 0.13 else ["step", p, rng.randint(1, run)])
            cases.append({"n": n, "codes": self.codes(rng, n), "dep": rng.random() < 0.6, "h": h})
        return cases

    @staticmethod
    def codes(rng, n):
        return [1] * n if rng.random() < 0.6 else [rng.choice([1, 1, 2]) for _ in range(n)]

    def setup_worker(self, scratch):
        import platform
        import subprocess

        platform.platform()
        sched.patch()
        import returnn.util.native_code_compiler  # noqa

        subprocess.Popen = FakeCompiler

    def run_case(self, c, scratch):
        import shutil
        import tempfile
        from returnn.util.native_code_compiler import NativeCodeCompiler

        d = tempfile.mkdtemp(dir=scratch, prefix="nc")
        os.environ["RETURNN_CACHE_DIR"] = d + "/cache"
        dep = d + "/dep.h"
        ver = 1
        with open(dep, "w") as f:
            f.write("1")
        past = time.time() - 5
        os.utime(dep, (past, past))
        n = c["n"]
        code = {k: "// code %i\n%s" % (k, "#include %s\n" % dep if c["dep"] else "") for k in (1, 2)}
        of_md5 = {hashlib.md5(code[k].encode()).hexdigest(): k for k in code}
        ev = []
        procs = {p: sched.Proc(p) for p in range(1, n + 1)}
        state = {p: "idle" for p in procs}
        libfile = {}
        owner = {}  # lock file -> proc
        touched = {}
        log = io.StringIO()

        def make(k):
            return NativeCodeCompiler(base_name="thing", code_version=1, code=code[k], include_deps=[dep] if c["dep"] else None, log_stream=log)

        def lib(p):
            try:
                with open(libfile[p]) as f:
                    w = f.read().split()
            except FileNotFoundError:
                w = []
            ok = len(w) == 4 and w[0] == "LIB" and w[3] == "END" and w[1] in of_md5
            return {"complete": ok, "code": of_md5[w[1]] if ok else 0, "ver": int(w[2]) if ok else 0}

        def locks():
            res = {}
            for r, _, fs in os.walk(d + "/cache"):
                for x in fs:
                    if "lock" in x:
                        try:
                            res[r + "/" + x] = os.lstat(r + "/" + x).st_ino
                        except OSError:
                            pass
            return res

        def one(p):
            pr = procs[p]
            pre = locks()
            pr.go.release()
            get(p)
            for fn, i in locks().items():
                if pre.get(fn) != i:
                    owner[fn] = p

        def get(p):
            kind, val, _skip = procs[p].out.get(timeout=50)
            if kind == "op":
                return
            if kind == "done":
                libfile[p] = val
                ev.append({"op": "ret", "p": p, "lib": lib(p)})
                state[p] = "use"
            elif kind == "exc":
                ev.append({"op": "exc", "p": p, "x": repr(val)[:300]})
                state[p] = "dead"
            else:
                state[p] = "dead"

        def step(p, k):
            if state[p] == "idle":
                ev.append({"op": "call", "p": p})
                state[p] = "run"
                procs[p].cmd.put(lambda: make(c["codes"][p - 1]).get_lib_filename())
                get(p)
            elif state[p] == "use":
                ev.append({"op": "use", "p": p, "lib": lib(p)})
                state[p] = "idle"
            for _ in range(k):
                if state[p] == "run":
                    one(p)

        def busy():
            return any(s == "run" for s in state.values())

        def age():
            """locks of dead processes get old; then one process goes on alone until it is beyond that"""
            for fn in locks():
                if state.get(owner.get(fn)) == "dead":
                    t = time.time() - 2 * TIMEOUT
                    os.utime(fn, (t, t))
                    ev.append({"op": "age"})
                    for p in procs:
                        for _ in range(400):
                            if state[p] != "run" or not os.path.exists(fn) or time.time() - os.lstat(fn).st_mtime < TIMEOUT:
                                break
                            one(p)

        def agedirs():
            """directories which nobody works on get old"""
            if busy():
                return
            t = time.time() - 2 * TIMEOUT
            for r, ds, fs in os.walk(d + "/cache"):
                for x in ds:
                    os.utime(r + "/" + x, (t, t))

        def old():
            """libraries not used for long, and then used again: they are not removed"""
            if busy() or any(s == "use" for s in state.values()) or not (1 in c["codes"] and 2 in c["codes"]):
                return
            if locks():
                return
            for k in (1, 2):  # up-to-date before
                make(k).get_lib_filename()
            t = time.time() - 61 * 24 * 3600
            for r, ds, fs in os.walk(d + "/cache"):
                for x in fs:
                    if x.endswith((".so", ".py")):
                        os.utime(r + "/" + x, (t, t))
            if c["dep"]:
                os.utime(dep, (t - 10, t - 10))
            fn = make(1).get_lib_filename()
            i = os.lstat(fn).st_ino
            agedirs()
            make(2).get_lib_filename()
            if not os.path.exists(fn) or os.lstat(fn).st_ino != i:
                ev.append({"op": "recompiled", "p": 1})

        try:
            for op, p, k in c["h"]:
                if op == "step":
                    step(p, k)
                elif op == "die":
                    if state[p] in ("run", "use") and sum(s != "dead" for s in state.values()) > 1:
                        state[p] = "dead"
                        ev.append({"op": "die", "p": p})
                elif op == "dep":
                    if not busy() and c["dep"]:
                        ver += 1
                        time.sleep(0.012)
                        with open(dep, "w") as f:
                            f.write(str(ver))
                        time.sleep(0.012)
                        ev.append({"op": "dep"})
                elif op == "age":
                    age()
                elif op == "agedir":
                    agedirs()
                elif op == "old":
                    old()
            # fair phase
            for _ in range(600):
                age()
                for p in procs:
                    if state[p] == "run":
                        step(p, 5)
                    elif state[p] == "use":
                        step(p, 0)
                if not busy():
                    break
            for p in procs:
                if state[p] == "run":
                    ev.append({"op": "stuck", "p": p})
            # and again, when all is over
            agedirs()
            for p in procs:
                if state[p] == "idle":
                    for _ in range(600):
                        step(p, 5)
                        if state[p] != "run":
                            break
        finally:
            for pr in procs.values():
                pr.kill()
            shutil.rmtree(d, ignore_errors=True)
        for e in ev:
            e.setdefault("p", 0)
        return [{"cfg": {"n": n, "code": c["codes"]}, "ev": ev}]
