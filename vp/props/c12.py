"""C12: LockFile mutual exclusion, stale takeover, progress - controlled scheduling of the real code."""
import os
from ..harness import Prop
from .. import tlc
from . import sched

TIMEOUT = 1000.0


class P(Prop):
    id = "C12"
    trace_module = "LockFileTrace"
    rule = (
        "schedules of 2-4 processes calling lock/unlock on one lock file, one file system operation at a time, with deaths at any"
        " operation and staleness of a dead owner's lock: TLC-simulated behaviours of LockFileMC (both variants) and seeded random"
        " schedules; each followed by a fair phase in which every live waiter must obtain the lock"
    )
    assumptions = (
        "a live holder never holds the lock longer than lock_timeout (documented staleness rule)",
        "processes are threads with separate LockFile objects; one builtin file system call is atomic",
    )

    def models(self, tier):
        big = tier == "thorough"
        base = "CONSTANTS NP=%i Atomic=TRUE MaxDie=%i MaxRounds=%i HistLen=0 EmitHist=FALSE\nINVARIANT NoClauseViolated\nINVARIANT MutualExclusion\n"
        ms = [
            ("LockFileMC", "SPECIFICATION FairSpec\nPROPERTY Progress\n" + base % ((3, 2, 2) if big else (2, 1, 2)), {"workers": 4, "timeout": 3000}),
            ("LockFileMC", "SPECIFICATION Spec\n" + base % ((4, 2, 1) if big else (3, 1, 2)), {"workers": 4, "timeout": 3000}),
        ]
        return ms

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        self.num_spec_behaviours = 0
        for atomic, hl in (("TRUE", 24), ("FALSE", 24), ("FALSE", 40)):
            beh, _ = tlc.generate(
                "LockFileMC",
                "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS NP=3 Atomic=%s MaxDie=2 MaxRounds=3 HistLen=%i EmitHist=TRUE\n" % (atomic, hl),
                extra=("-simulate", f"num={6000 if big else 2000}", "-depth", str(hl + 2), "-seed", str(rng.randint(1, 10**6))),
            )  # fmt: skip
            uniq = list({str(b["h"]): b["h"] for b in beh}.values())
            rng.shuffle(uniq)
            uniq = uniq[: 6000 if big else 350]
            self.num_spec_behaviours += len(uniq)
            cases += [{"kind": "beh", "n": 3, "h": h, "ctx": rng.random() < 0.3, "sub": rng.random() < 0.3} for h in uniq]
        for _ in range(12000 if big else 900):
            n = rng.choice([2, 2, 3, 4])
            h = []
            pd = rng.choice([0.0, 0.03, 0.08])
            run = rng.choice([1, 2, 5])
            while len(h) < rng.randint(20, 120):
                p = rng.randint(1, n)
                r = rng.random()
                if r < pd:
                    h.append(["die", p])
                elif r < pd + 0.05:
                    h.append(["age", 0])
                elif r < pd + 0.08:
                    h.append([rng.choice(["half", "half", "ageown", "rmdir"]), 0])
                elif r < pd + 0.1:
                    h += [["micro", p], ["rmdir", 0]] if rng.random() < 0.5 else [["micro", p]]
                elif r < pd + 0.13:
                    h.append(["islocked", 0])
                elif r < pd + 0.25:
                    h.append(["rel", p])
                else:
                    h += [["step", p]] * rng.randint(1, run)
            cases.append({"kind": "rnd", "n": n, "h": h, "ctx": rng.random() < 0.3, "sub": rng.random() < 0.3})
        for c in cases:
            c["skew"] = rng.random() < 0.2
        return cases

    def known_finding(self, case, trace, verdict):
        if verdict["bad"] == ["stale-takeover-race"]:
            return (
                "LockFile.maybe_remove_old_lockfile: two waiters judge the same stale lock old; the second one's os.remove"
                " (directly after its stat) deletes the fresh lock which the first one just acquired"
            )
        return None

    def setup_worker(self, scratch):
        sched.patch()
        import returnn.util.basic  # noqa

    def run_case(self, c, scratch):
        import shutil
        import tempfile
        import time
        from returnn.util.basic import LockFile

        d = tempfile.mkdtemp(dir=scratch, prefix="lk")
        ldir = d + "/sub/dir" if c["sub"] else d
        path = ldir + "/the_lock"
        n = c["n"]
        ev = []
        procs = {}
        for p in range(1, n + 1):
            pr = procs[p] = sched.Proc(p)
            pr.lf = None
        probe = LockFile(ldir, "the_lock", lock_timeout=TIMEOUT)
        st = {"own": 0}

        def inst():
            try:
                s = os.lstat(path)
            except OSError:
                return None
            return s.st_ino

        fds = []

        def collect(pr, pre, opname):
            """after the granted operation: wait for the next point; record what happened"""
            r = pr.out.get(timeout=50)
            post = inst()
            # identity: ino can be reused only after removal, which is observed (one op at a time)
            if pre is None and post is not None:
                ev.append({"op": "create", "p": pr.p})
                st["own"] = pr.p
                mut = True
            elif pre is not None and post is None:
                ev.append({"op": "remove", "p": pr.p})
                st["own"] = 0
                mut = True
            elif pre != post:
                ev.append({"op": "remove", "p": pr.p})
                ev.append({"op": "create", "p": pr.p})
                st["own"] = pr.p
                mut = True
            else:
                mut = False
            if not mut and opname is not None:
                ev.append({"op": "look" if opname in ("stat", "lstat", "fstat") else "step", "p": pr.p})
            return r

        def after(pr, r):
            kind, name, skip = r
            if kind == "op":
                pr.pending = (name, skip)
                return
            if kind == "exc":
                ev.append({"op": "exc", "p": pr.p, "x": repr(name)[:200]})
                pr.state = "dead"
                return
            if kind == "dead":
                pr.state = "dead"
                return
            if pr.state == "locking":
                pr.state = "cs"
                ev.append({"op": "acq", "p": pr.p})
            elif pr.state == "unlocking":
                pr.state = "idle"
                pr.lf = None
                ev.append({"op": "reld", "p": pr.p})

        def start_lock(pr):
            pr.lf = LockFile(ldir, "the_lock", lock_timeout=TIMEOUT)
            fds.append(pr.lf)
            pr.state = "locking"
            lf = pr.lf
            pr.cmd.put(lf.__enter__ if c["ctx"] else lf.lock)
            after(pr, collect(pr, inst(), None))

        def start_unlock(pr):
            pr.state = "unlocking"
            lf = pr.lf
            ev.append({"op": "rel", "p": pr.p})
            pr.cmd.put((lambda: lf.__exit__(None, None, None)) if c["ctx"] else lf.unlock)
            after(pr, collect(pr, inst(), None))

        def one(pr):
            """grant one operation"""
            name, skip = pr.pending
            pre = inst()
            pr.go.release()
            after(pr, collect(pr, pre, name))
            return skip

        def step(p):
            pr = procs[p]
            if pr.state == "idle":
                start_lock(pr)
            if pr.state in ("locking", "unlocking"):
                for _ in range(30):  # operations of makedirs and sleeping are not scheduling points of the model
                    if not one(pr) or pr.state not in ("locking", "unlocking"):
                        break

        def micro(p):
            """one operation, whichever"""
            pr = procs[p]
            if pr.state == "idle":
                start_lock(pr)
            if pr.state in ("locking", "unlocking"):
                one(pr)

        def rmdir():
            if c["sub"]:
                try:
                    os.rmdir(ldir)
                except OSError:
                    return
                ev.append({"op": "rmdir"})

        def ageown():
            """a live holder which nobody waits for takes longer than the timeout, then releases"""
            p = st["own"]
            if p and procs[p].state == "cs" and inst() and all(pr.state != "locking" for pr in procs.values()):
                t = time.time() - TIMEOUT * 2
                os.utime(path, (t, t))
                ev.append({"op": "ageown"})
                rel(p)
                for _ in range(50):
                    if procs[p].state != "unlocking":
                        break
                    step(p)

        def rel(p):
            if procs[p].state == "cs":
                start_unlock(procs[p])

        def die(p):
            if procs[p].state != "dead" and sum(x.state != "dead" for x in procs.values()) > 1:
                procs[p].state = "dead"
                ev.append({"op": "die", "p": p})

        def age():
            if st["own"] and procs[st["own"]].state == "dead" and inst():
                t = time.time() + TIMEOUT * (2 if c.get("skew") else -2)  # (or the clocks of the hosts differ)
                os.utime(path, (t, t))
                ev.append({"op": "age"})

        def half():
            if st["own"] and inst() and abs(os.lstat(path).st_mtime - time.time()) < TIMEOUT / 4:
                t = time.time() - TIMEOUT * (0.95 if c["sub"] else 0.5)
                os.utime(path, (t, t))
                ev.append({"op": "half"})

        try:
            for op, p in c["h"]:
                if op == "step":
                    step(p)
                elif op == "rel":
                    rel(p)
                elif op == "die":
                    die(p)
                elif op == "age":
                    age()
                elif op == "half":
                    half()
                elif op == "micro":
                    micro(p)
                elif op == "rmdir":
                    rmdir()
                elif op == "ageown":
                    ageown()
                elif op == "islocked":
                    ev.append({"op": "islocked", "r": bool(probe.is_locked())})
            # fair phase
            want = {p for p, pr in procs.items() if pr.state == "locking"}
            for _ in range(40):
                for p, pr in procs.items():
                    if pr.state == "cs":
                        rel(p)
                    elif pr.state in ("locking", "unlocking"):
                        step(p)
                    if pr.state == "cs":
                        want.discard(p)
                if st["own"] and procs[st["own"]].state == "dead" and inst() and abs(os.lstat(path).st_mtime - time.time()) < TIMEOUT:
                    age()
            for p in sorted(want):
                if procs[p].state == "locking":
                    ev.append({"op": "stuck", "p": p})
            ev.append({"op": "islocked", "r": bool(probe.is_locked())})
        finally:
            for pr in procs.values():
                pr.kill()
            for lf in fds:
                if lf.fd is not None:
                    try:  # (only if it still is our lock file, the number might be reused)
                        if os.readlink(f"/proc/self/fd/{lf.fd}").startswith(d):
                            os.close(lf.fd)
                    except OSError:
                        pass
            shutil.rmtree(d, ignore_errors=True)
        return [{"cfg": {"n": n}, "ev": ev}]
