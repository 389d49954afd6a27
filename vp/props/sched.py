"""
Controlled scheduling of real code: "processes" are threads which stop before each file system
operation (builtin calls of posix/_io, seen by sys.setprofile), until the controller lets them go on.
A crashed process is a thread which is never let go on (so its buffers are never flushed).
Waiting (time.sleep, Event.wait with timeout) is virtual for controlled threads.
"""
import os
import queue
import sys
import threading

tl = threading.local()
_MODS = {"posix", "_io", "io", "fcntl", "_posixshmem"}
_IGNORE = {"fspath", "getpid", "getcwd", "strerror", "get_blocking", "getuid", "urandom", "getenv", "putenv", "fileno", "_path_normpath", "isatty", "readable", "writable", "seekable", "tell", "cpu_count", "environ"}  # fmt: skip


class Killed(BaseException):
    pass


class Proc:
    def __init__(self, p):
        self.p = p
        self.go = threading.Semaphore(0)
        self.out = queue.SimpleQueue()
        self.cmd = queue.SimpleQueue()
        self.killed = False
        self.state = "idle"
        self.pending = None
        self.fault = None  # callable(name) -> exception or None
        self.idle = threading.Semaphore(0)
        self.tick = threading.Semaphore(0)
        self.hold_utime = None
        self.children = 0
        threading.Thread(target=_thread_main, args=(self,), daemon=True).start()

    def kill(self):
        self.killed = True
        self.cmd.put(None)
        self.go.release()
        for _ in range(5):
            self.tick.release()
        if self.hold_utime:
            self.hold_utime.set()


def _point(name, skip):
    pr = tl.pr
    pr.out.put(("op", name, skip))
    pr.go.acquire()
    if pr.killed:
        raise Killed


def _prof(frame, event, arg):
    if event != "c_call" or tl.off:
        return
    mod = getattr(arg, "__module__", None)
    if mod is None:
        mod = type(getattr(arg, "__self__", None)).__module__
    if mod not in _MODS:
        return
    name = arg.__name__
    if name in _IGNORE:
        return
    f, skip = frame, False
    while f is not None:
        if f.f_code.co_name == "makedirs":
            skip = True
            break
        if f.f_code.co_name == "_thread_main":
            break
        f = f.f_back
    tl.off = True
    try:
        _point(name, skip)
    finally:
        tl.off = False
    if tl.pr.fault:
        exc = tl.pr.fault(name)
        if exc:
            raise exc


def _thread_main(pr):
    tl.pr = pr
    tl.off = True
    while True:
        c = pr.cmd.get()
        if c is None:
            return
        try:
            tl.off = False
            sys.setprofile(_prof)
            try:
                r = c()
            finally:
                sys.setprofile(None)
                tl.off = True
            pr.out.put(("done", r, False))
        except Killed:
            pr.out.put(("dead", None, False))
            return
        except BaseException as exc:
            pr.out.put(("exc", exc, False))


def patch():
    """once per worker process, before importing the code under test"""
    import time

    real_sleep = time.sleep
    real_wait = threading.Event.wait
    real_start = threading.Thread.start
    real_utime = os.utime

    def child_wait(pr):
        pr.idle.release()
        pr.tick.acquire()
        if pr.killed:
            raise SystemExit

    def sleep(s):
        pr = getattr(threading.current_thread(), "_vp_pr", None)
        if pr is not None:
            return child_wait(pr)
        if getattr(tl, "pr", None) is None:
            return real_sleep(s)
        off, tl.off = tl.off, True
        try:
            _point("sleep", True)
        finally:
            tl.off = off
        if not off and sys.getprofile() is None:
            sys.setprofile(_prof)  # was unset by an injected fault

    def wait(self, timeout=None):
        pr = getattr(threading.current_thread(), "_vp_pr", None)
        if pr is None or timeout is None:
            return real_wait(self, timeout)
        child_wait(pr)
        return self.is_set()

    def start(self):
        pr = getattr(tl, "pr", None)
        if pr is not None:
            self._vp_pr = pr
            pr.children += 1
        return real_start(self)

    def utime(*args, **kwargs):
        pr = getattr(threading.current_thread(), "_vp_pr", None)
        if pr is not None and pr.hold_utime is not None:
            real_wait(pr.hold_utime)
        return real_utime(*args, **kwargs)

    time.sleep = sleep
    threading.Event.wait = wait
    threading.Thread.start = start
    os.utime = utime
