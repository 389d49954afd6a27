"""C13: LRU memo cache."""
from ..harness import Prop
from .. import tlc


class P(Prop):
    id = "C13"
    trace_module = "LruCacheTrace"
    rule = (
        "histories of call/return/set/peek/pop/pop_oldest/clear/set_maxsize/info with up to 3 concurrently running calls;"
        " TLC-simulated behaviours of LruCacheMC and longer seeded histories, over different argument forms (typed, kwargs)"
    )

    def models(self, tier):
        big = tier == "thorough"
        return [("LruCacheMC", "SPECIFICATION Spec\nINVARIANT Bounded\nINVARIANT NoDup\nINVARIANT RecencyOrder\nINVARIANT ValuesFresh\nVIEW View\nCONSTANTS Keys={1,2,3} Maxes={0,1,2} Threads={1,2} HistLen=%i EmitHist=FALSE\n" % (7 if big else 5), {"workers": 4, "timeout": 3000})]

    def cases(self, tier, rng):
        big = tier == "thorough"
        beh, _ = tlc.generate(
            "LruCacheMC", "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS Keys={1,2,3,4} Maxes={0,1,2,3} Threads={1,2,3} HistLen=18 EmitHist=TRUE\n",
            extra=("-simulate", f"num={4000 if big else 1200}", "-depth", "20", "-seed", str(rng.randint(1, 10**6))),
        )  # fmt: skip
        uniq = list({str(b["h"]): b["h"] for b in beh}.values())
        rng.shuffle(uniq)
        uniq = uniq[: 10000 if big else 1200]
        self.num_spec_behaviours = len(uniq)
        cases = []
        for h in uniq:
            cases.append({"max": rng.choice([0, 1, 2, 3]), "h": h, "typed": rng.random() < 0.5})
        for _ in range(8000 if big else 1000):
            nk = rng.randint(2, 8)
            h = []
            for _ in range(rng.randint(10, 80)):
                k = rng.randint(1, nk)
                r = rng.random()
                h.append(
                    ["call", rng.randint(1, 3), k] if r < 0.4 else ["ret", rng.randint(1, 3), 0] if r < 0.7 else ["set", 0, k] if r < 0.75
                    else ["peek", rng.randint(0, 1), k] if r < 0.82 else ["pop", rng.randint(0, 1), k] if r < 0.87
                    else ["popold", rng.randint(0, 1), 0] if r < 0.9 else ["max", rng.randint(0, 5), 0] if r < 0.93
                    else ["clear", 0, 0] if r < 0.94 else ["info", 0, 0] if r < 0.97 else ["len", 0, 0]
                )  # fmt: skip
            cases.append({"max": rng.choice([0, 1, 2, 3, 5, None]), "h": h, "typed": rng.random() < 0.5})
        for c in cases:
            c["alt"], c["none"], c["late"] = rng.random() < 0.3, rng.random() < 0.25, rng.random() < 0.5
        return cases

    def setup_worker(self, scratch):
        """The locks of the cache stop where a thread is told to: other operations can get in between before it gets the lock."""
        import threading

        orig = threading.RLock
        self.stop = threading.local()
        stop = self.stop

        class Lock:
            def __init__(self):
                self.lock = orig()

            def acquire(self, *a, **kw):
                f = getattr(stop, "at_lock", None)
                if f:
                    stop.at_lock = None
                    f()
                return self.lock.acquire(*a, **kw)

            def release(self):
                self.lock.release()

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        threading.RLock = Lock
        try:
            import returnn.util.lru_cache  # noqa
        finally:
            threading.RLock = orig

    def run_case(self, c, scratch):
        import queue
        import threading
        from returnn.util.lru_cache import lru_cache

        if c["typed"]:
            forms = [((1,), {}), ((1.0,), {}), ((True,), {}), (("1",), {}), ((), {"a": 1}), ((), {"a": 1.0}), ((1, 1), {}), ((1, 1.0), {})]
            if c.get("alt"):
                forms = [((1,), {"a": 1}), ((1,), {"a": 1.0}), ((1.0,), {"a": 1}), ((1, "a", 1), {}), ((), {"a": 1, "b": 1}), ((), {"a": 1, "b": True}), (("a", 1), {}), ((), {"a": 1})]
        else:
            forms = [((1,), {}), ((2,), {}), (("a",), {}), ((), {"a": 1}), ((1,), {"a": 1}), ((None,), {}), (((1, 2),), {}), ((1, 2), {})]
            if c.get("alt"):
                forms = [((), {"a": 1}), (("a", 1), {}), ((), {"a": 2}), ((1, "a", 1), {}), ((1,), {"a": 1}), ((), {}), ((("a", 1),), {}), ((), {"a": 1, "b": 1})]
        val = [100]

        def real(v):  # the values are numbers, or some of them None
            return None if c.get("none") and v % 3 == 0 else v

        def seen(v):
            return 0 if c.get("none") and v is not None and v >= 100 and v % 3 == 0 else 0 if v is None else v

        local = threading.local()

        @lru_cache(maxsize=c["max"], typed=c["typed"])
        def f(*a, **kw):
            local.out.put(("fn", None))
            v, late = local.inp.get(timeout=50)
            if late:

                def at_lock():
                    local.out.put(("lock", None))
                    local.inp.get(timeout=50)

                self.stop.at_lock = at_lock
            return real(v)

        def thread(inp, out, cmd):
            local.inp, local.out = inp, out
            while True:
                k = cmd.get()
                if k is None:
                    return
                a, kw = forms[k - 1]
                try:
                    r = f(*a, **kw)
                    self.stop.at_lock = None
                    out.put(("res", r))
                except BaseException as exc:
                    out.put(("exc", repr(exc)))

        ths = {}
        pend = {}
        ev = []

        def th(t):
            if t not in ths:
                qs = [queue.Queue() for _ in range(3)]
                x = threading.Thread(target=thread, args=tuple(qs), daemon=True)
                x.start()
                ths[t] = qs
            return ths[t]

        def ret(t, late=None):
            """:param late: done when the call is about to take the lock for storing its result"""
            k = pend.pop(t)
            inp, out, cmd = th(t)
            v = val[0]
            val[0] += 1
            inp.put((v, late is not None))
            what, r = out.get(timeout=20)
            if what == "lock":
                late()
                inp.put(None)
                what, r = out.get(timeout=20)
            assert what == "res", (what, r)
            ev.append({"op": "ret", "t": t, "k": k, "v": seen(v), "r": seen(r)})

        def do(op, t, k):
            a, kw = forms[k - 1] if k else ((), {})
            if op == "call":
                if t in pend:
                    return
                inp, out, cmd = th(t)
                cmd.put(k)
                what, r = out.get(timeout=20)
                assert what in ("fn", "res"), (what, r)
                ev.append({"op": "call", "t": t, "k": k, "hit": what == "res", "v": seen(r) if what == "res" else 0})
                if what == "fn":
                    pend[t] = k
            elif op == "ret":
                if t in pend:
                    ret(t)
            elif op == "set":
                f.cache_set(*a, result=real(val[0]), **kw)
                ev.append({"op": "set", "k": k, "v": seen(val[0])})
                val[0] += 1
            elif op == "peek":
                r = f.cache_peek(*a, update_statistics=bool(t), fallback=-1, **kw)
                ev.append({"op": "peek", "k": k, "upd": bool(t), "r": seen(r)})
            elif op == "pop":
                try:
                    r = f.cache_pop(*a, fallback=-1, **kw) if t else f.cache_pop(*a, **kw)
                except KeyError:
                    r = -2
                ev.append({"op": "pop", "k": k, "fb": bool(t), "r": seen(r)})
            elif op == "popold":
                try:
                    r = f.cache_pop_oldest(fallback=-1) if t else f.cache_pop_oldest()
                except KeyError:
                    r = -2
                ev.append({"op": "popold", "fb": bool(t), "r": seen(r)})
            elif op == "max":
                f.cache_set_maxsize(t)
                ev.append({"op": "max", "n": t})
            elif op == "clear":
                f.cache_clear()
                ev.append({"op": "clear"})
            if op in ("len", "call", "ret", "popold", "max"):
                ev.append({"op": "len", "r": f.cache_len()})
            if op == "info":
                i = f.cache_info()
                mx = 10**6 if i.maxsize is None or i.maxsize > 10**6 else i.maxsize
                ev.append({"op": "info", "hits": i.hits, "misses": i.misses, "max": mx, "cur": i.currsize})
        h = list(c["h"])
        while h:
            op, t, k = h.pop(0)
            if op == "ret" and c.get("late") and t in pend and h and h[0][0] not in ("ret", "call"):
                nxt = h.pop(0)
                done = []

                def late():
                    do(*nxt)
                    done.append(1)

                ret(t, late)
                if not done:
                    do(*nxt)
                ev.append({"op": "len", "r": f.cache_len()})
            else:
                do(op, t, k)
        for t in sorted(pend):
            ret(t)
        # drain: reveals the complete LRU order
        while f.cache_len():
            ev.append({"op": "popold", "fb": False, "r": seen(f.cache_pop_oldest())})
        ev.append({"op": "len", "r": f.cache_len()})
        for qs in ths.values():
            qs[2].put(None)
        return [{"cfg": {"max": 10**6 if c["max"] is None else c["max"]}, "ev": ev}]
