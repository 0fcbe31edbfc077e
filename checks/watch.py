"""C23 child watchers: threads, exits and descriptors under a symbolic schedule."""

import asyncio
import errno
import os
import select
import signal
import sys
import types

from symx import core
from symx.threads import Deadlock, Sched, installed
from symx.world import World, use

from .base import private

FD0 = 1_000_000


class Inst:
    "One open descriptor (numbers are reused, as the kernel does)."

    def __init__(self, fd, kind, **kw):
        self.fd, self.kind, self.open, self.closes = fd, kind, True, 0
        self.__dict__.update(kw)


class Watch(World):
    "The operations that a child watcher uses; each is a switch point."

    def __init__(self, E, S, faults=()):
        super().__init__(E)
        self.S = S
        self.table = {}
        self.insts = []
        self.misuse = []
        self.faults = faults
        self.nfault = 0
        self.failed = []
        self.mayexit = True
        self.unreg = []

    # -- processes -------------------------------------------------------------
    def env(self):
        "Processes may exit before any operation that could tell."
        if not self.mayexit:
            return
        while True:
            live = [p for p in self.procs if p.alive and not p.stays]
            if not live:
                return
            k = self.E.choice("exit", 1 + len(live))
            if not k:
                return
            live[k - 1].exit(live[k - 1].code)

    def op(self, exits=False):
        self.S.op()
        if exits:
            self.env()

    def fail(self, name, setup=False):
        if name in self.faults and self.nfault < 1:
            if self.E.decide(self.E.bool(f"fail-{name}")):
                self.nfault += 1
                self.failed.append((name, setup))
                self.E.cover(f"fault:{name}")
                raise OSError(errno.EMFILE, "Too many open files")

    def os_waitpid(self, pid, options):
        self.op(True)
        p = self.proc(pid)
        if not options & os.WNOHANG and p is not None and not p.reaped and p.alive:
            self.S.block(lambda: not p.alive)
        r = super().os_waitpid(pid, options)
        return r

    def kill(self, pid, sig):
        self.op(True)
        super().kill(pid, sig)

    # -- descriptors -------------------------------------------------------------
    def alloc(self, kind, **kw):
        fd = FD0
        while fd in self.table:
            fd += 1
        i = Inst(fd, kind, **kw)
        self.table[fd] = i
        self.insts.append(i)
        return i

    def pipe(self, owner="lib"):
        self.op()
        self.fail("pipe", True)
        r = self.alloc("pipe-r", data=0)
        w = self.alloc("pipe-w", peer=r)
        r.peer = w
        return r.fd, w.fd

    def close(self, fd, via="os.close"):
        self.S.op()
        i = self.table.pop(fd, None)
        if i is None:
            self.misuse.append(("close of a descriptor that is not open", fd))
            raise OSError(errno.EBADF, "Bad file descriptor")
        i.open = False
        i.closes += 1

    def write(self, fd, data):
        self.op()
        i = self.table.get(fd)
        if i is None or i.kind != "pipe-w":
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not i.peer.open:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        i.peer.data += len(data)
        return len(data)

    def read(self, fd, n):
        self.op()
        i = self.table.get(fd)
        if i is None or i.kind != "pipe-r":
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.S.block(lambda: i.data or not i.peer.open)
        k = min(n, i.data)
        i.data -= k
        return b"\0" * k

    def pidfd_open(self, pid, flags=0):
        self.op()
        self.fail("pidfd_open")
        p = self.proc(pid)
        if p is None or p.reaped:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        i = self.alloc("pidfd", proc=p)
        return i.fd

    def set_blocking(self, fd, b):
        pass

    def fstat(self, fd):
        return super().fstat(fd)

    def readable(self, fd):
        i = self.table.get(fd)
        if i is None:
            return False
        if i.kind == "pidfd":
            return not i.proc.alive
        if i.kind == "pipe-r":
            return i.data > 0 or not i.peer.open
        return False

    def poll(self, loop):
        # asyncio's own loop turns: other threads may run in between
        self.S.point()


def fake_epoll(W):
    class epoll:
        def __init__(self, sizehint=-1, flags=0):
            W.op()
            W.fail("epoll", True)
            self.i = W.alloc("epoll")
            self.set = {}

        def _ok(self):
            if not self.i.open:
                raise ValueError("I/O operation on closed epoll object")

        def fileno(self):
            self._ok()
            return self.i.fd

        @property
        def closed(self):
            return not self.i.open

        def close(self):
            if self.i.open:
                W.close(self.i.fd)

        def __del__(self):
            if getattr(self, "i", None) is not None and self.i.open:
                W.table.pop(self.i.fd, None)
                self.i.open = False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def _live(self):
            self.set = {fd: (i, m) for fd, (i, m) in self.set.items() if i.open}

        def register(self, fd, eventmask=7):
            W.op()
            self._ok()
            fd = fd if isinstance(fd, int) else fd.fileno()
            i = W.table.get(fd)
            if i is None:
                raise OSError(errno.EBADF, "Bad file descriptor")
            W.fail("register", i.kind != "pidfd")
            self._live()
            if fd in self.set:
                raise FileExistsError(errno.EEXIST, "File exists")
            self.set[fd] = (i, eventmask)

        def modify(self, fd, eventmask):
            self._ok()
            self._live()
            if fd not in self.set:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory")
            self.set[fd] = (self.set[fd][0], eventmask)

        def unregister(self, fd):
            W.op()
            self._ok()
            fd = fd if isinstance(fd, int) else fd.fileno()
            if fd not in W.table:
                raise OSError(errno.EBADF, "Bad file descriptor")
            self._live()
            if fd not in self.set:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory")
            del self.set[fd]

        def _ready(self):
            self._live()
            out = []
            for fd, (i, m) in self.set.items():
                if m & 0xFFFFFF & ~select.EPOLLONESHOT and W.readable(fd):
                    out.append(fd)
            return out

        def poll(self, timeout=None, maxevents=-1):
            W.op(True)
            self._ok()
            if timeout is not None and timeout >= 0:
                r = self._ready()
            else:
                W.S.block(lambda: bool(self._ready()))
                r = self._ready()
            # in any order
            out = []
            while r:
                out.append(r.pop(W.E.choice("order", len(r))))
            if maxevents > 0:
                out = out[:maxevents]
            for fd in out:
                i, m = self.set[fd]
                if m & select.EPOLLONESHOT:
                    self.set[fd] = (i, m & select.EPOLLONESHOT)
            return [(fd, select.EPOLLIN) for fd in out]

    return epoll


def watch(E, n=2, strategy="epoll", preempt=2, faults=(), bad=False, lost=False, early=False, again=False, adders=1,
          dies=True):
    """n processes are watched; they exit at any time.

    bad: callbacks may raise RuntimeError.  lost: somebody else may take a status.
    early: the watcher may be closed before they have exited.  again: the watcher
    is used again after it was closed.  adders: threads that register processes.
    """
    import shellous.util as su
    import shellous.watcher as sw

    S = Sched(E, preempt, [sw.__file__])
    W = Watch(E, S, faults)
    called = []         # (index of the process, pid, status, args)
    added = {}
    ends = {}

    def callback(pid, status, *args):
        S.op()
        called.append((pid, status, args))
        W.log("callback", pid)
        p = W.proc(pid)
        if p is not None and p.cbfails:
            E.cover("bad-callback")
            raise RuntimeError("Event loop is closed")

    def new_proc(k):
        p = W.spawn(types.SimpleNamespace(), [f"/sx/p{k}"], None, None, None, {})
        p.code = E.int(f"status{k}", -64, 255)
        p.stays = p.setup = False
        p.cbfails = bad and E.decide(E.bool(f"bad{k}"))
        p.lost = lost and E.decide(E.bool(f"lost{k}"))
        return p

    def on_kill(p, sig):
        # the process that could not be watched dies, at once or within a second
        if not p.alive:
            return
        if sig != signal.SIGKILL and E.decide(E.bool("ignored")):
            p.stays = True
            return
        p.code = -sig
        if E.decide(E.bool("at-once")):
            p.exit(-sig)
        else:
            p.stays = True
            W.loop.after(E.real("death", 0, 1), lambda: p.exit(-sig), "death")
    W.on_kill = on_kill

    def idle():
        live = [p for p in W.procs if p.alive and not p.stays]
        if not live:
            return False
        p = live[E.choice("exit-idle", len(live))]
        p.exit(p.code)
        return True
    S.on_idle = idle

    def quiet():
        return not any(S.runnable(t) for t in S.threads if t is not S.main)

    def add(w, p):
        args = (f"arg{p.idx}", p.idx) if p.idx % 2 == 0 else ()
        added[p.idx] = args
        try:
            w.add_child_handler(p.pid, callback, *args)
            ends[p.idx] = "ok"
        except core.PathAbort:
            raise
        except Exception as ex:
            ends[p.idx] = type(ex).__name__
            if W.nfault:
                # killed and reported, unless the watcher itself could not be set up
                p.setup = any(f[1] for f in W.failed)
            else:
                E.check(False, "C23 a process can be watched", [p.idx, repr(ex), strategy])

    async def main():
        w = private(E, "watcher", "DefaultChildWatcher", thread_strategy=strategy == "thread")
        if adders == 1:
            for k in range(n):
                add(w, new_proc(k))
        else:
            ps = [new_proc(k) for k in range(n)]
            import threading as T_  # noqa
            ths = [fk["Thread"](target=add, args=(w, p), name=f"adder{p.idx}") for p in ps[1:]]
            for t in ths:
                t.start()
            add(w, ps[0])
            for t in ths:
                t.join()
        if early and E.decide(E.bool("early")):
            E.cover("early")
        else:
            settle()
            if any(v != "ok" for v in ends.values()):
                # tasks that poll for processes that could not be watched
                for _ in range(5):
                    await asyncio.sleep(1)
                    settle()
            judge(w)
        w.close()
        released()
        settle()
        if again:
            before = len(W.procs)
            for p in W.procs:
                p.stays = True
            add(w, new_proc(before))
            settle()
            once(W.procs[before])
            w.close()
            released()
            settle()

    def released():
        left = [i.kind for i in W.insts if i.open]
        E.check(not left, "C23 closing the watcher releases its descriptors", left)

    def settle():
        "Everything exits and all threads have nothing left to do."
        while True:
            S.block(quiet)
            if not idle():
                break

    def once(p):
        got = [c for c in called if c[0] == p.pid]
        E.check(len(got) == 1, "C23 the callback of a watched process is called exactly once",
                [p.idx, len(got), ends.get(p.idx), strategy])
        _, status, args = got[0]
        E.check(args == added[p.idx], "C23 the callback gets the registered arguments", [p.idx, args])
        want = 255 if p.lost else p.status
        E.check(status == want, "C23 the callback gets the exit status", [p.idx])

    def judge(w):
        for p in W.procs:
            if ends[p.idx] == "ok" or not p.setup:
                once(p)
            else:
                E.check(len([c for c in called if c[0] == p.pid]) <= 1, "C23 no callback twice", [p.idx])
        E.cover("reported")

    names = {(select, "epoll"): fake_epoll(W), (os, "pidfd_open"): W.pidfd_open}
    saved = {k: getattr(*k) for k in names}
    from symx.threads import fakes
    o = {}
    with use(W):
        with installed(S, [sw]):
            fk = {"Thread": sw.threading.Thread} if hasattr(sw, "threading") else fakes(S)
            try:
                for (m, k), v in names.items():
                    setattr(m, k, v)
                sys.settrace(S.trace)
                try:
                    t = W.loop.drive(main())
                    t.result()
                    o["kind"] = "ok"
                except Deadlock as ex:
                    o["kind"] = "deadlock"
                    o["why"] = str(ex)
                finally:
                    sys.settrace(None)
            finally:
                S.finish()
                for (m, k), v in saved.items():
                    setattr(m, k, v)
    E.obs("kind", o["kind"])
    E.obs("calls", [c[0] for c in called])
    E.check(o["kind"] == "ok", "C23 the watcher does not hang", o.get("why"))
    for p in W.procs:
        E.check(len([c for c in called if c[0] == p.pid]) <= 1, "C23 no callback twice", [p.idx])
    E.check(not W.misuse, "C23 every descriptor is closed exactly once", W.misuse)
    released()
    died = [repr(t.error) for t in S.threads if t.error is not None]
    E.check(not died, "C23 no watcher thread dies", died)
    E.cover("closed")
