"""C11: file cache - crash points, source modification, full disk, keep-alive, clean-up policy, on the real code."""
import errno
import os
from ..harness import Prop
from .. import tlc
from . import sched

FAULTABLE = {"open", "posix_fallocate", "write", "truncate", "mkdir"}
DAY = 60 * 60 * 24


class P(Prop):
    id = "C11"
    trace_module = "FileCacheTrace"
    rule = (
        "get_file with a crash / a source modification / a full disk at every single file system operation (enumerated) and pairs of"
        " them, then recovery; 2-3 concurrent processes scheduled one file system operation at a time by TLC behaviours of FileCacheMC"
        " and seeded schedules; keep-alive rounds after get/release histories; the clean-up policy on seeded directory states"
    )
    assumptions = (
        "source files change their mtime to a later one when modified (documented)",
        "a process is a thread with its own FileCache; a crash is a thread stopped for ever; time is virtual (mtimes are set back)",
        "no concurrent clean-up pressure while get_file is between releasing its lock and touching the file",
    )

    def models(self, tier):
        big = tier == "thorough"
        cfg = "SPECIFICATION FairSpec\nINVARIANT NoClauseViolated\nINVARIANT OneWriter\nINVARIANT NeverTornAndTrusted\nPROPERTY Returns\nCONSTANTS NP=%i MaxMod=%i MaxCrash=%i MaxGets=%i HistLen=0 EmitHist=FALSE\n"
        ms = [("FileCacheMC", cfg % (2, 2, 1, 3), {"workers": 4, "timeout": 3000})]
        if big:
            ms = [("FileCacheMC", cfg % (3, 2, 2, 4), {"workers": 6, "timeout": 3000})]
        return ms

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        maxop = 150
        sizes = [[200_000, 200_000, 200_000, 200_000], [70_000, 150_000, 70_000, 10], [10, 10, 10, 10], [0, 5, 5, 9], [140_000, 70_000, 70_000, 200_000]]
        for sz in sizes[:3] if not big else sizes:
            # k operations before the end of get_file (the number of operations depends on the depth of the directories)
            first = sz is sizes[0] or big
            for k in list(range(0, 60 if first else 40)) + (list(range(60, 160, 6)) if first else []):
                cases.append({"kind": "run", "n": 2, "sz": sz, "h": [["beg", 1], ["opse", 1, k], ["crash", 1]]})
                cases.append({"kind": "run", "n": 2, "sz": sz, "h": [["beg", 1], ["opse", 1, k], ["mod", 0], ["fin", 1]]})
                # update of an already cached file
                cases.append({"kind": "run", "n": 2, "sz": sz, "h": [["beg", 1], ["fin", 1], ["mod", 0], ["beg", 1], ["opse", 1, k], ["crash", 1]]})
                cases.append({"kind": "run", "n": 2, "sz": sz, "h": [["beg", 1], ["fin", 1], ["mod", 0], ["beg", 1], ["opse", 1, k], ["mod", 0], ["fin", 1]]})
        for k in range(0, 30):
            for nf in (1, 2, 3, 4):
                cases.append({"kind": "run", "n": 2, "sz": rng.choice(sizes), "fault": [k, nf], "h": [["beg", 1], ["fin", 1]]})
                cases.append({"kind": "run", "n": 2, "sz": rng.choice(sizes), "fault": [k, nf], "h": [["beg", 2], ["fin", 2], ["mod", 0], ["beg", 1], ["fin", 1]]})
        for _ in range(3000 if big else 250):
            h = []
            for _ in range(rng.randint(1, 3)):
                h.append(["beg", 1])
                pts = sorted(rng.randint(0, maxop) for _ in range(rng.randint(0, 2)))
                last = 0
                for x in pts:
                    h += [["ops", 1, x - last], ["mod", 0]]
                    last = x
                if rng.random() < 0.3:
                    h += [["ops", 1, rng.randint(0, 40)], ["crash", 1], ["age", 0]]
                    break
                h.append(["fin", 1])
                if rng.random() < 0.5:
                    h.append(["mod", 0])
            cases.append({"kind": "run", "n": 2, "sz": rng.choice(sizes), "h": h})
            if rng.random() < 0.25:
                # the source is replaced by an older file, of another size
                cases[-1].update(back=True, sz=[200_000, 150_000, 70_000, 300])
        beh, _ = tlc.generate(
            "FileCacheMC", "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS NP=3 MaxMod=2 MaxCrash=2 MaxGets=6 HistLen=30 EmitHist=TRUE\n",
            extra=("-simulate", f"num={4000 if big else 800}", "-depth", "32", "-seed", str(rng.randint(1, 10**6))),
        )  # fmt: skip
        uniq = list({str(b["h"]): b["h"] for b in beh}.values())
        rng.shuffle(uniq)
        uniq = uniq[: 4000 if big else 300]
        self.num_spec_behaviours = len(uniq)
        for h in uniq:
            cases.append({"kind": "run", "n": 4, "sz": rng.choice(sizes), "stride": rng.choice([1, 3, 7, 12]), "h": h})
        for _ in range(3000 if big else 200):
            n = rng.choice([2, 3])
            h = []
            while len(h) < rng.randint(10, 60):
                r = rng.random()
                p = rng.randint(1, n)
                h.append(["mod", 0] if r < 0.04 else ["crash", p] if r < 0.06 else ["age", 0] if r < 0.1 else ["beg", p] if r < 0.3 else ["ops", p, rng.choice([1, 2, 5, 20])])
            cases.append({"kind": "run", "n": n + 1, "sz": rng.choice(sizes), "h": h})
        for _ in range(1500 if big else 150):
            nf = rng.randint(1, 3)
            h = [[rng.choice(["get", "get", "rel", "chk"]), rng.randint(1, nf)] for _ in range(rng.randint(3, 14))]
            cases.append({"kind": "alive", "nf": nf, "h": h, "hold": rng.choice([-1, rng.randint(0, 45)]), "slash": rng.random() < 0.3})
        ages = [0, 2, 5, 100, 3600, DAY - 600, DAY + 600, 3 * DAY, 10 * DAY, 31 * DAY - 600, 31 * DAY + 600, 40 * DAY]
        for _ in range(6000 if big else 700):
            n = rng.randint(1, 9)
            pool = rng.choice([ages, ages[:3], ages[3:6], ages[5:10], ages[2:8]])
            fs = [[rng.choice(pool), rng.randint(1, 6), rng.random() < 0.8, rng.randint(0, 2)] for _ in range(n)]
            total = rng.choice([1000, 2000, 100])  # in units of 8 blocks (4096 bytes)
            cases.append(
                {
                    "kind": "clean", "fs": fs, "total": total, "free": rng.choice([0, 1, 3, 5, 10, 20, total // 5 - 3, total // 5 + 3, total // 5 * 2]),
                    "need": rng.choice([0, 1, 2, 5, 10, 15, 30]), "ratio": rng.choice([20, 20, 0, 5]), "mult": rng.choice([1, 2, 2, 3]),
                    "always": rng.choice([31, 31, 5]), "wanted": rng.choice([1, 1, 2]), "recent": rng.choice([-1, 10, 550, 700, 700]),
                    "unrem": [i for i in range(n) if rng.random() < 0.3] if rng.random() < 0.25 else [],
                }
            )  # fmt: skip
        return cases

    def setup_worker(self, scratch):
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        sched.patch()
        self.statvfs = None
        self.counts = {}
        real = os.statvfs

        def statvfs(path):
            r = real(path)
            total, free = self.statvfs or (10**7, 5 * 10**6)
            return os.statvfs_result((4096, 4096, total, free, free) + tuple(r)[5:])

        os.statvfs = statvfs
        self.unrem = set()
        real_remove = os.remove

        def remove(path, **kw):
            if os.fspath(path) in self.unrem:
                raise PermissionError(errno.EACCES, "Permission denied (injected)", path)
            return real_remove(path, **kw)

        remove.__module__ = "posix"
        os.remove = os.unlink = remove
        import returnn.util.file_cache  # noqa

    def run_case(self, c, scratch):
        import shutil
        import tempfile

        d = tempfile.mkdtemp(dir=scratch, prefix="fc")
        self.statvfs = None
        try:
            return [getattr(self, "case_" + c["kind"])(c, d)]
        finally:
            self.statvfs = None
            self.unrem = set()
            shutil.rmtree(d, ignore_errors=True)

    # --- get_file under crashes, modifications, faults, concurrency
    def case_run(self, c, d):
        import time
        from returnn.util.file_cache import FileCache

        n = c["n"]
        src = d + "/src/x.dat"
        cdir = d + "/cache"
        os.makedirs(d + "/src")
        contents = {}
        cur = [0]
        t0 = 1_700_000_000 * 10**9

        def mod():
            cur[0] += 1
            v = cur[0]
            size = c["sz"][v - 1] if v <= len(c["sz"]) else 5 + v
            data = ((b"%i:......" % v)[:8] * (size // 8 + 1))[:size]
            assert data not in contents
            contents[data] = v
            with open(src, "wb") as f:
                f.write(data)
            t = t0 + v * 10**6 * (-1 if c.get("back") else 1)  # 1 ms apart
            os.utime(src, ns=(t, t))

        mod()
        ev = []
        procs = {p: sched.Proc(p) for p in range(1, n + 1)}
        caches = {}
        dst = cdir + src
        vis = [0]
        owner = {}  # file -> (ino, p)

        def ver(path):
            try:
                with open(path, "rb") as f:
                    data = f.read()
            except FileNotFoundError:
                return 0
            return contents.get(data, -1)

        def sample(p):
            v = ver(dst)
            if v != vis[0]:
                ev.append({"op": "vis", "p": p, "v": v})
                vis[0] = v
            try:
                for e in os.scandir(os.path.dirname(dst)):
                    i = e.inode()
                    if e.path not in owner or owner[e.path][0] != i:
                        owner[e.path] = (i, p)
            except FileNotFoundError:
                pass

        def after(pr, r):
            sample(pr.p)
            kind, x, skip = r
            if kind == "op":
                pr.pending = x
                return
            pr.state = "idle"
            if kind == "done":
                ev.append({"op": "ret", "p": pr.p, "v": ver(x)})
            elif kind == "exc":
                ev.append({"op": "raise", "p": pr.p, "enospc": isinstance(x, OSError) and x.errno == errno.ENOSPC, "x": repr(x)[:200]})

        def beg(p):
            pr = procs[p]
            if pr.state != "idle":
                return
            if p not in caches:
                caches[p] = FileCache(cache_directory=cdir, num_tries=3)
            fc = caches[p]
            if c.get("fault") and p == 1:
                k, nf = c["fault"]
                cnt = [0, 0]

                def fault(name):
                    if name in FAULTABLE:
                        cnt[0] += 1
                        if cnt[0] > k and cnt[1] < nf:
                            cnt[1] += 1
                            ev.append({"op": "fault", "p": p, "at": name})
                            return OSError(errno.ENOSPC, "No space left on device (injected)")

                pr.fault = fault
            pr.state = "run"
            ev.append({"op": "beg", "p": p})
            pr.cmd.put(lambda: fc.get_file(src))
            after(pr, pr.out.get(timeout=50))

        def ops(p, k):
            pr = procs[p]
            while k > 0 and pr.state == "run":
                k -= 1
                pr.go.release()
                after(pr, pr.out.get(timeout=50))

        def count(p):
            pr, k = procs[p], 0
            while pr.state == "run":
                ops(p, 1)
                k += 1
            return k

        def crash(p):
            if procs[p].state == "run":
                procs[p].state = "dead"
                ev.append({"op": "crash", "p": p})

        def age():
            t = time.time() - 30
            for fn, (i, p) in owner.items():
                if procs[p].state == "dead" and os.path.exists(fn) and os.stat(fn).st_ino == i:
                    os.utime(fn, (t, t))
            ev.append({"op": "age"})

        try:
            for i, (op, p, *a) in enumerate(c["h"]):
                if op == "cnt":
                    self.count = count(p)
                elif op == "opse":
                    ops(p, max(0, self.num_ops(c, i, d) - a[0]))
                elif op == "mod":
                    mod()
                    ev.append({"op": "mod"})
                elif op == "beg":
                    beg(p)
                elif op == "step":
                    ops(p, c["stride"])
                elif op == "ops":
                    ops(p, a[0])
                elif op == "fin":
                    ops(p, 1500)
                elif op == "crash":
                    crash(p)
                elif op == "age":
                    age()
            # fair phase: everybody alive finishes
            for _ in range(60):
                age()
                for p in procs:
                    ops(p, 25)
            for p, pr in procs.items():
                if pr.state == "run":
                    ev.append({"op": "stuck", "p": p})
            if all(pr.state != "run" for pr in procs.values()):
                # recovery by a process which did nothing so far, and once more without anything to do
                for _ in range(2):
                    beg(n)
                    for _ in range(60):
                        age()
                        ops(n, 25)
                    if procs[n].state == "run":
                        ev.append({"op": "stuck", "p": n})
                        break
        finally:
            for pr in procs.values():
                pr.kill()
        return {"cfg": {"n": n, "tries": 3}, "ev": ev}

    def num_ops(self, c, i, d):
        """:return: number of file system operations the running get_file at this point of the history has in total"""
        import shutil
        import tempfile

        key = str((c["sz"], c["h"][:i]))
        if key not in self.counts:
            d2 = tempfile.mkdtemp(dir=os.path.dirname(d), prefix="fc")
            self.case_run(dict(c, h=c["h"][:i] + [["cnt", c["h"][i][1]]]), d2)
            shutil.rmtree(d2, ignore_errors=True)
            self.counts[key] = self.count
        return self.counts[key]

    # --- keep-alive
    def case_alive(self, c, d):
        import threading
        import time
        from returnn.util.file_cache import FileCache

        cdir = d + "/cache" + ("/" if c["slash"] else "")
        os.makedirs(d + "/src/sub")
        srcs = []
        for i in range(c["nf"]):
            fn = d + ("/src/%i" % i if i % 2 else "/src/sub/%i" % i)
            with open(fn, "w") as f:
                f.write("x%i" % i)
            srcs.append(fn)
        pr = sched.Proc(1)
        ev = []
        held = {}
        dsts = {}
        try:
            fc = FileCache(cache_directory=cdir)
            nops = [0]
            rounds = [1, 0]  # to be done, done

            def tick():
                rounds[0] += 1
                pr.tick.release()

            def settle():
                while rounds[1] < rounds[0] and pr.idle.acquire(timeout=5):
                    rounds[1] += 1

            if c["hold"] >= 0:
                pr.hold_utime = threading.Event()

            def do(f):
                pr.cmd.put(f)
                while True:
                    kind, x, _ = pr.out.get(timeout=50)
                    if kind == "op":
                        if nops[0] == c["hold"]:
                            tick()  # a keep-alive round starts here, and is slow
                        nops[0] += 1
                        pr.go.release()
                    elif kind == "done":
                        return x
                    else:
                        raise x

            def check():
                if pr.hold_utime is not None:
                    pr.hold_utime.set()
                    pr.hold_utime = None
                if not dsts:
                    return
                # wait until the keep-alive thread waits; if it died or never waits, its work is simply not done
                settle()
                t = time.time() - 15
                for root, dirs, files in os.walk(cdir):
                    for fn in files:
                        os.utime(root + "/" + fn, (t, t))
                tick()
                settle()
                for i, dst in dsts.items():
                    fns = [dst] + [dst + e.name[len(os.path.basename(dst)) :] for e in os.scandir(os.path.dirname(dst)) if e.name.startswith(os.path.basename(dst) + ".")]
                    fresh = [time.time() - os.stat(fn).st_mtime < 12 for fn in fns]
                    ev.append({"op": "use", "f": i, "held": held[i] > 0, "fresh": all(fresh) if held[i] > 0 else any(fresh), "files": len(fns)})

            for op, i in c["h"]:
                i -= 1
                if op == "get":
                    dsts[i] = do(lambda: fc.get_file(srcs[i]))
                    held[i] = held.get(i, 0) + 1
                elif op == "rel" and held.get(i, 0) > 0:
                    do(lambda: fc.release_files(dsts[i]))
                    held[i] -= 1
                elif op == "chk":
                    check()
            check()
        finally:
            pr.kill()
        return {"cfg": {"n": 1, "tries": 3}, "ev": ev}

    # --- clean-up policy
    def case_clean(self, c, d):
        import time
        from returnn.util.file_cache import FileCache

        cdir = d + "/cache"
        os.makedirs(cdir)
        fc = FileCache(
            cache_directory=cdir, cleanup_files_always_older_than_days=c["always"], cleanup_files_wanted_older_than_days=c["wanted"],
            cleanup_disk_usage_wanted_free_ratio=c["ratio"] / 100, cleanup_disk_usage_wanted_multiplier=c["mult"],
        )  # fmt: skip
        if c["recent"] >= 0:
            # a previous full clean-up (of the so far empty cache), that long ago
            fc.cleanup()
            for e in os.scandir(cdir):
                t = time.time() - c["recent"]
                os.utime(e.path, (t, t))
        files = []
        now = time.time()
        for i, (age, size, info, sub) in enumerate(c["fs"]):
            fn = cdir + ["/a/b", "/a/c", "/e"][sub] + "/f%i" % i
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "wb") as f:
                f.write(b"x" * (4096 * size - (i % 2) * 10))
            t = now - age - i * 0.01  # distinct, so that the order from old to new is unique
            if info:
                with open(fn + ".returnn-info", "w") as f:
                    f.write('{"mtime_ns": 1}')
                os.utime(fn + ".returnn-info", (t, t))
            os.utime(fn, (t, t))
            files.append(fn)
        empty = cdir + "/a/empty_in_use"
        os.makedirs(empty)
        used = cdir + "/a/empty_old"
        os.makedirs(used)
        os.utime(used, (now - 1000, now - 1000))
        blocks = [os.stat(fn).st_blocks * 512 for fn in files]
        assert all(b % 4096 == 0 for b in blocks), blocks
        self.statvfs = (c["total"], c["free"])
        raised = False
        self.unrem = {files[i] for i in c["unrem"]}
        try:
            fc.cleanup(need_at_least_free_space_size=c["need"] * 4096)
        except Exception as exc:
            if "free enough space" not in str(exc) and type(exc) is not Exception and not isinstance(exc, OSError):
                raise
            raised = True
        self.statvfs = None
        rec = []
        for i, fn in enumerate(files):
            # age in 0.01 s, to keep the order
            rec.append(
                {"id": i, "age": c["fs"][i][0], "rank": i, "size": blocks[i] // 4096, "left": os.path.exists(fn), "info": os.path.exists(fn + ".returnn-info"), "hadinfo": c["fs"][i][2], "unrem": i in c["unrem"]}
            )  # fmt: skip
        e = {
            "op": "cleanup", "files": rec, "need": c["need"], "free": c["free"], "total": c["total"], "ratio": c["ratio"], "mult": c["mult"],
            "always": c["always"] * DAY, "wanted": c["wanted"] * DAY, "recent": 0 <= c["recent"] < 600, "raised": raised, "dirlost": not os.path.isdir(empty),
        }  # fmt: skip
        return {"cfg": {"n": 1, "tries": 3}, "ev": [e]}
