"""Running tiny trainings with the real torch engine in forked child processes, with crash injection."""
import hashlib
import json
import os
import signal
import sys
import time

MUT = {"open", "write", "writelines", "rename", "replace", "unlink", "remove", "mkdir", "rmdir", "close", "utime", "truncate", "ftruncate", "fsync", "link", "symlink", "flush"}  # fmt: skip


def h(*tensors):
    m = hashlib.md5()
    for t in tensors:
        m.update(t.detach().contiguous().cpu().numpy().tobytes())
    return m.hexdigest()[:8]


class _Ops:
    """Counts mutating file system operations of this thread; dies at number n."""

    def __init__(self, n):
        self.n = n
        self.count = 0
        self.off = False
        self.names = []

    def prof(self, frame, event, arg):
        if event != "c_call" or self.off:
            return
        name = getattr(arg, "__name__", "")
        if name not in MUT:
            return
        mod = getattr(arg, "__module__", None)
        slf = getattr(arg, "__self__", None)
        tn = type(slf).__name__
        if mod is None:
            mod = type(slf).__module__
        if not (mod in ("posix", "_io", "io") ):
            return
        if mod in ("_io", "io") and (tn in ("StringIO", "BytesIO") or getattr(slf, "name", None) in ("<stdout>", "<stderr>", "<stdin>")):
            return
        if mod in ("_io", "io") and name != "open" and slf is not None and tn in ("BufferedReader",):
            return
        self.count += 1
        if self.n is None:
            self.names.append(f"{name}")
        if self.n is not None and self.count >= self.n:
            os._exit(77)


def make_model(torch, dropout, kind, order=0):
    class M(torch.nn.Module):
        def __init__(self, **_kw):
            super().__init__()
            g = torch.Generator().manual_seed(7)
            ps = {"w": torch.randn(9, 4, generator=g), "v": torch.randn(4, 2, generator=g)}
            if kind == "perm":
                ps.update({x: torch.randn(4, generator=g) for x in "abc"})
            names = sorted(ps, key=lambda x: (len(x), "wvabc".index(x)))
            for x in names[order % len(names) :] + names[: order % len(names)]:
                setattr(self, x, torch.nn.Parameter(ps[x]))
            self.register_buffer("cnt", torch.zeros((), dtype=torch.int64))
            self.n = torch.nn.BatchNorm1d(4) if kind == "bn" else None

        def forward(self, x):
            x = torch.tanh(x @ self.w)
            if kind == "perm":
                x = (x * self.a + self.b) * self.c
            if self.n is not None:
                x = self.n(x.transpose(1, 2)).transpose(1, 2)
            x = torch.nn.functional.dropout(x, dropout, training=self.training)
            return torch.log_softmax(x @ self.v, -1)

    return M


def train_once(c, d, evf, crash_at, at=None):
    """Runs one training process to its end (in this process). d: directory with the model files."""
    import torch
    import returnn.frontend as rf
    from returnn.config import Config, global_config_ctx
    from returnn.datasets import init_dataset
    from returnn.torch.engine import Engine

    ops = _Ops(crash_at)

    def in_child():
        ops.n = None
        at.clear()
        sys.setprofile(None)

    os.register_at_fork(after_in_child=in_child)
    orig_save = torch.save

    def save(obj, f, *a, **kw):
        # torch.save writes in C++: as one operation which can be torn
        ops.count += 1
        torn = (ops.n is not None and ops.count >= ops.n) or die_if("save", f)
        ops.off = True
        r = orig_save(obj, f, *a, **kw)
        if torn:
            if isinstance(f, str):
                os.truncate(f, os.path.getsize(f) // 2)
            os._exit(77)
        ops.off = False
        return r

    torch.save = save
    at = list(at or [])

    def die_if(what, path):
        """at: [protocol point, epoch]"""
        if not at or ops.off:
            return False
        base = os.path.basename(str(path))
        pc, ep = at
        m = {"pttmp": ("save", False), "opttmp": ("save", True), "pt": ("mv", False), "opt": ("mv", True), "optdel": ("rm", True), "clean": ("rm", False)}
        if pc in ("lr1", "eval", "missing-eval"):
            return what == "mv" and base == "lr" and cur["ep"] == ep and cur["ev"] == (pc != "lr1")
        if pc not in m or m[pc] != (what, ".opt." in base) or ".pt" not in base:
            return False
        return cur["ep"] == ep if what == "rm" else f".{ep:03d}." in base

    def wrap(mod, name, what, pos):
        orig = getattr(mod, name)

        def f(*a, **kw):
            if die_if(what, a[pos] if len(a) > pos else ""):
                os._exit(77)
            return orig(*a, **kw)

        setattr(mod, name, f)

    cur = {"ep": 0, "ev": False}
    if at:
        for nm, what, pos in (("rename", "mv", 1), ("replace", "mv", 1), ("unlink", "rm", 0), ("remove", "rm", 0)):
            wrap(os, nm, what, pos)
    fd = os.open(evf, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def emit(**kw):
        ops.off = True
        os.write(fd, (json.dumps(kw) + "\n").encode())
        ops.off = False

    def train_step(*, model, extern_data, **_kw):
        ctx = rf.get_run_ctx()
        data = extern_data["data"]
        lens = data.dims[1].dyn_size_ext.raw_tensor
        tr = bool(ctx.train_flag)
        cur.update(ep=int(ctx.epoch), ev=not tr)
        if at and at[0] == "next" and tr and int(ctx.epoch) == at[1] + 1:
            os._exit(77)
        if tr:
            model.cnt += 1
        logits = model(data.raw_tensor)
        m = torch.arange(logits.shape[1])[None, :] < lens[:, None]
        loss = torch.nn.functional.nll_loss(logits[m], extern_data["classes"].raw_tensor[m].long(), reduction="none")
        if tr and c.get("stepnoise"):
            loss = loss * (1.0 + 0.01 * (int(ctx.step) % 7))
        if not c.get("sum"):
            ctx.mark_as_loss(name="ce", loss=loss)
        else:
            ctx.mark_as_loss(name="ce", loss=loss.sum(), use_normalized_loss=False)
        x = h(*[p for _, p in (sorted if c.get("kind") == "perm" else list)(model.named_parameters())], *model.buffers(), data.raw_tensor, lens, loss)
        emit(n=ops.count, op="step" if tr else "eval", ep=int(ctx.epoch), step=int(ctx.step) if tr else 0, h=x)

    conf = {
        "task": "train", "device": "cpu", "extern_data": {"data": {"dim": 9}, "classes": {"dim": 2, "sparse": True}},
        "get_model": make_model(torch, c.get("dropout", 0.0), c.get("kind", ""), c.get("order", 0)), "train_step": train_step, "batch_size": c.get("batch_size", 60), "max_seqs": c.get("max_seqs", 3),
        "num_epochs": c["nep"], "model": d + "/net/model", "torch_dataloader_opts": {"num_workers": 0}, "learning_rate_file": d + "/lr",
        "save_interval": c.get("save_interval", 1), "random_seed": c.get("seed", 42), "log_verbosity": 1,
    }  # fmt: skip
    conf.update(c.get("conf", {}))
    if c.get("dynlr"):

        def dynamic_learning_rate(*, global_train_step, epoch, epoch_continuous=None, learning_rate, **_kw):
            return learning_rate / (1.0 + 0.1 * global_train_step + 0.01 * epoch)

        conf["dynamic_learning_rate"] = dynamic_learning_rate
    if c.get("accumdyn"):
        conf["accum_grad_multiple_step"] = lambda *, epoch, global_train_step, **_kw: 1 + (global_train_step // 2) % 2
    conf = Config(conf)

    def ds(name, n, seed):
        o = {"class": "Task12AXDataset", "num_seqs": n, "name": name}
        if name == "train":
            o.update({"seq_ordering": c.get("seq_ordering", "random"), "partition_epoch": c.get("partition_epoch", 1)})
        else:
            o["fixed_random_seed"] = seed
        ds_ = init_dataset(o)
        ds_.init_seq_order(epoch=1)
        return ds_

    train, dev = ds("train", c.get("ntrain", 7), 0), ds("dev", 3, 3)
    ev = ds("eval", 2, 4) if c.get("eval2") else None
    sys.setprofile(ops.prof)
    with global_config_ctx(conf):
        eng = Engine(config=conf)
        eng.init_train_from_config(train_data=train, dev_data=dev, eval_data=ev)
        emit(op="begin", ep=int(eng.get_train_start_epoch(conf)))
        eng.train()
    sys.setprofile(None)
    os.write(fd, (json.dumps({"op": "done", "n": ops.count, "names": ops.names}) + "\n").encode())


def spawn(c, d, evf, crash_at, at=None, timeout=60):
    """:return: exit code (77: crashed as injected), error text"""
    err = evf + ".err"
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.setsid()
            f = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, 1)
            os.dup2(f, 2)
            try:
                train_once(c, d, evf, crash_at, at)
                sys.stdout.flush()
            except BaseException:
                sys.setprofile(None)
                import traceback

                os.write(2, traceback.format_exc().encode())
                os._exit(1)
            os._exit(0)
        finally:
            os._exit(3)
    t0 = time.time()
    rc = None
    while time.time() - t0 < timeout:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(st)
            break
        time.sleep(0.01)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if rc is None:
        os.waitpid(pid, 0)
        rc = -999
    return rc, open(err, errors="replace").read()[-1500:]


def read_events(evf):
    return [json.loads(x) for x in open(evf)] if os.path.exists(evf) else []
