"""A symbolic operating system: descriptors, pipes, ptys, files, processes.

Nothing here touches the real system.  Descriptor numbers are never reused,
so a second close, or a close of something the library does not own, is always
visible.  Which call fails, when processes exit, how they react to signals and
what they read and write is decided by the harness through engine inputs.
"""

import asyncio
import builtins
import errno
import io
import os
import stat
import subprocess
import sys
import termios
import time as _time
from asyncio import base_subprocess, events, unix_events
from fractions import Fraction

from . import core, data as sdata, sxaio
from .loop import SymLoop, add, num
from .values import SymBV, is_sym

FD_BASE = 1_000_000
PID_BASE = 5_000_000

CUR = None

_REAL = {}


class FdInfo:
    __slots__ = ("fd", "kind", "owner", "open", "closes", "pipe", "end", "obj", "path", "closed_ncb", "desc")

    def __init__(self, fd, kind, owner, pipe=None, end=None, path=None):
        self.fd = fd
        self.kind = kind
        self.owner = owner  # "lib", "user", "asyncio"
        self.open = True
        self.closes = 0
        self.pipe = pipe
        self.end = end
        self.obj = None
        self.path = path
        self.closed_ncb = None
        self.desc = None         # open file description, if the file has contents

    def __repr__(self):
        return f"<fd {self.fd} {self.kind} {self.owner} closes={self.closes}>"


class Pipe:
    "A unidirectional byte channel. `chunks`: data waiting for the reader."

    def __init__(self, kind="pipe"):
        self.kind = kind
        self.chunks = []
        self.readers = 0
        self.writers = 0
        self.written = []        # everything the parent wrote
        self.accept = None       # None: accept all; else callable(data)->n
        self.on_read = None      # called when the parent took a chunk
        self.on_write = None     # called when the parent wrote something
        self.error = None        # raised by a read once the chunks are gone


def part(c, a, b):
    "c[a:b] where the ends may be symbolic."
    if not (is_sym(a) or is_sym(b) or is_sym(c)):
        return c[a:b]
    segs = sdata.segs_of(c)
    if b is not None:
        segs = sdata.cut(segs, b.t if is_sym(b) else b)[0]
    if is_sym(a) or a:
        segs = sdata.cut(segs, a.t if is_sym(a) else a)[1]
    return sdata.mkbytes(segs)


class Desc:
    "Open file description: a file's contents (shared list cell), a position, O_APPEND."

    def __init__(self, w, cell, pos=0, append=False):
        self.w = w
        self.cell = cell
        self.pos = pos
        self.append = append

    def size(self):
        return self.w.E.len(self.cell[0])

    def truncate(self, n):
        c = self.cell[0]
        ln = self.w.E.len(c)
        if self.w.E.decide(ln >= n):
            self.cell[0] = part(c, 0, n)
        else:
            raise core.Unsupported("extending truncate")

    def read(self, n):
        d = self.cell[0][self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def write(self, data):
        E = self.w.E
        if self.append:
            self.pos = self.size()
        c = self.cell[0]
        ln = E.len(c)
        if E.decide(self.pos > ln):
            k = self.pos - ln
            k = E.concretize(k.t) if is_sym(k) else k
            c = c + bytes(k)
            ln = self.pos
        end = self.pos + E.len(data)
        self.cell[0] = part(c, 0, self.pos) + data + part(c, end, None)
        self.pos = end


class FakeFile(io.RawIOBase):
    "File object for a fake descriptor."

    def __init__(self, world, fd, mode="rb", closefd=True, path=None):
        self._w = world
        self._fd = fd
        self.mode = mode
        self.name = path if path is not None else fd
        self._closefd = closefd
        self._shut = False

    def fileno(self):
        if self._shut:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def close(self):
        if self._shut:
            return
        self._shut = True
        if self._closefd and CUR is self._w:
            self._w.close(self._fd, via="file")

    @property
    def closed(self):
        return self._shut

    def __del__(self):
        pass

    def seekable(self):
        return True

    def _desc(self):
        fi = self._w.fds.get(self._fd)
        return fi.desc if fi is not None else None

    def truncate(self, size=None):
        self._w.log("truncate", self._fd, size)
        d = self._desc()
        if d is not None:
            d.truncate(d.pos if size is None else size)
        return size

    def seek(self, pos, whence=0):
        self._w.log("seek", self._fd, pos, whence)
        d = self._desc()
        if d is not None:
            d.pos = pos + (0, d.pos, d.size())[whence]
            return d.pos
        return pos

    def tell(self):
        return self.seek(0, 1)

    def readinto(self, buf):
        d = self._desc()
        if d is None:
            return 0
        x = d.read(len(buf))
        buf[:len(x)] = x
        return len(x)

    def write(self, data):
        d = self._desc()
        if d is None:
            return len(data)
        d.write(bytes(data))
        return len(data)

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "r" not in self.mode

    def __repr__(self):
        return f"<FakeFile {self.name!r} {self.mode}>"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Proc:
    "A child process of the fake system."

    def __init__(self, world, pid, info):
        self.w = world
        self.pid = pid
        self.info = info          # spawn arguments
        self.name = world.prog_name(info["args"])
        self.alive = True
        self.status = None        # exit status (int) once exited
        self.reaped = False
        self.exit_time = None
        self.exit_ncb = None
        self.notified = False     # loop told about the exit
        self.signals = []         # [(time, ncb, sig, delivered)]
        self.stdin = self.stdout = self.stderr = None  # Pipe objects
        self.ends = []            # (pipe, end) held by the process
        self.exit_ev = None
        self.orphan = False       # a child of its own keeps its pipes open
        self.let_go_time = None
        self.on_signal = None
        self.watch = None
        self.got_eof = False

    def close_end(self, pipe, end):
        if (pipe, end) in self.ends:
            self.ends.remove((pipe, end))
            if end == "r":
                pipe.readers -= 1
            else:
                pipe.writers -= 1

    def exit(self, status):
        "The process terminates now."
        if not self.alive:
            return
        self.alive = False
        self.status = status
        w = self.w
        self.exit_time = w.loop._now
        self.exit_ncb = w.loop._ncb
        if not self.orphan:
            self.let_go()
        w.log("exit", self.idx, status)

    def let_go(self):
        "Nobody has the process's pipes open any more."
        self.let_go_time = self.w.loop._now
        for pipe, end in list(self.ends):
            self.close_end(pipe, end)

    def exit_after(self, delay, status):
        if self.exit_ev is not None:
            self.exit_ev.cancel()
        self.exit_ev = self.w.loop.after(delay, lambda: self.exit(status), f"exit{self.idx}")

    def write(self, data, stream="stdout"):
        p = self.sink(stream)
        if p is not None:
            p.chunks.append(data)
            return
        fi = self.target(stream)
        if fi is not None and fi.desc is not None:
            fi.desc.write(data)

    def target(self, stream):
        "Descriptor the stream is connected to, if it is one of ours."
        v = self.info[stream]
        if v == subprocess.STDOUT and isinstance(v, int):
            return self.target("stdout")
        return self.w.fds.get(fileno(v))

    def sink(self, stream):
        "Pipe the process's stdin/stdout/stderr is connected to (None: something else)."
        p = getattr(self, stream)
        if p is None:
            v = self.info[stream]
            if v == subprocess.STDOUT and isinstance(v, int):
                return self.sink("stdout")
            fi = self.w.fds.get(fileno(v))
            if fi is not None and fi.pipe is not None:
                p = fi.pipe
                if isinstance(p, _TtyChild):
                    p = p.t.inp if stream == "stdin" else p.t.out
        return p

    @property
    def idx(self):
        return self.pid - PID_BASE


def fileno(v):
    if isinstance(v, FakeFile):
        return v._fd
    if isinstance(v, io.IOBase):
        return v.fileno()
    return v


class FakePopen:
    "Duck-typed subprocess.Popen (CPython semantics of poll/send_signal)."

    def __init__(self, world, args, stdin, stdout, stderr, **kwargs):
        self.args = args
        self.returncode = None
        self._w = world
        self.proc = world.spawn(self, args, stdin, stdout, stderr, kwargs)
        self.pid = self.proc.pid

    def poll(self):
        if self.returncode is None:
            try:
                pid, st = self._w.waitpid(self.pid, os.WNOHANG)
            except ChildProcessError:
                self.returncode = 0
            else:
                if pid == self.pid:
                    self.returncode = st
        return self.returncode

    def send_signal(self, sig):
        self.poll()
        if self.returncode is not None:
            self._w.log("signal-skipped", self.proc.idx, _signo(sig))
            return
        try:
            self._w.kill(self.pid, sig)
        except ProcessLookupError:
            pass

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)


def _signo(sig):
    return int(sig)


class FakeSubprocessTransport(base_subprocess.BaseSubprocessTransport):
    def _start(self, args, shell, stdin, stdout, stderr, bufsize, **kwargs):
        self._proc = FakePopen(CUR, args, stdin, stdout, stderr, shell=shell,
                               bufsize=bufsize, **kwargs)

    def _sx_signal(self, sig):
        if self._proc is not None:
            CUR.log("send", self._proc.proc.idx, _signo(sig), self._returncode is not None)

    def send_signal(self, signal):
        self._sx_signal(signal)
        super().send_signal(signal)

    def terminate(self):
        self._sx_signal(15)
        super().terminate()

    def kill(self):
        self._sx_signal(9)
        super().kill()

    def __del__(self):
        pass


class SymReadPipe(unix_events._UnixReadPipeTransport):
    def __del__(self):
        pass


class SymWritePipe(unix_events._UnixWritePipeTransport):
    def __del__(self):
        pass


class WorldLoop(SymLoop):
    "SymLoop with the fake system behind its transports."

    def _make_read_pipe_transport(self, pipe, protocol, waiter=None, extra=None):
        cls = sxaio.SXReadPipe if sdata.ACTIVE else SymReadPipe
        return cls(self, pipe, protocol, waiter, extra)

    def _make_write_pipe_transport(self, pipe, protocol, waiter=None, extra=None):
        cls = sxaio.SXWritePipe if sdata.ACTIVE else SymWritePipe
        return cls(self, pipe, protocol, waiter, extra)

    async def _make_subprocess_transport(self, protocol, args, shell, stdin, stdout,
                                         stderr, bufsize, extra=None, **kwargs):
        # Mirrors asyncio.unix_events._UnixSelectorEventLoop (Python 3.12).
        if CUR.launch_delay is not None:
            d = CUR.launch_delay()
            if d is not None:
                await asyncio.sleep(d)
        waiter = self.create_future()
        transp = FakeSubprocessTransport(self, protocol, args, shell, stdin, stdout,
                                         stderr, bufsize, waiter=waiter, extra=extra,
                                         **kwargs)
        if not CUR.ignore_watcher():
            CUR.watch(transp.get_pid(), self._child_watcher_callback, transp)
        try:
            await waiter
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException:
            transp.close()
            await transp._wait()
            raise
        CUR.log("launched", transp._proc.proc.idx)
        return transp

    def _child_watcher_callback(self, pid, returncode, transp):
        self.call_soon_threadsafe(transp._process_exited, returncode)

    def drain(self, n=60):
        "Run callbacks that are already scheduled, without advancing time."
        prev = events._get_running_loop()
        events._set_running_loop(self)
        try:
            for _ in range(n):
                if not self._ready:
                    break
                for _ in range(len(self._ready)):
                    h = self._ready.popleft()
                    if not h._cancelled:
                        h._run()
                        if self._sx_e.dead:
                            raise core.PathAbort("dead")
        finally:
            events._set_running_loop(prev)


class World:
    symdata = False     # byte strings and texts may be symbolic

    def __init__(self, E, preempt=0, merge=0):
        self.E = E
        self.loop = WorldLoop(E, preempt, merge)
        self.fds = {}
        self._next_fd = FD_BASE
        self._next_pid = PID_BASE
        self.procs = []
        self.spawns = []
        self.events = []           # chronological log of observable happenings
        self.bad = []              # descriptor misuse: (kind, fd)
        self.files = {}            # path -> [contents], for files that have contents
        self.opens = []            # (path, mode, fd)
        self.ttys = {}             # child fd -> termios attrs
        self.ioctls = []
        self.tty_attrs = None      # callable() -> attributes of a new terminal
        self.tty_size = (0, 0)     # rows, columns of a new terminal
        self.watched = {}          # pid -> (callback, args)
        self.fault = None          # callable(op, n, **info) -> exception or None
        self.counts = {}
        self.total = 0
        self.launch_delay = None   # callable() -> seconds a launch takes
        self.on_spawn = None       # callable(proc)
        self.on_kill = None        # callable(proc, sig)
        self.fdata = {}
        self.which = None
        self.env_ignore = False
        self.pipes = []
        self.low = []             # numbers of the next pipe descriptors (0, 1, 2: free in the parent)

    # -- bookkeeping -----------------------------------------------------------
    def log(self, *ev):
        self.events.append((self.loop._now, self.loop._ncb) + ev)

    def new_fd(self, kind, owner="lib", **kw):
        if kind == "pipe" and self.low:
            fd = self.low.pop(0)
        else:
            fd = self._next_fd
            self._next_fd += 1
        self.fds[fd] = FdInfo(fd, kind, owner, **kw)
        return fd

    def prog_name(self, args):
        a = args[0] if isinstance(args, (list, tuple)) else args
        return os.fspath(a) if not isinstance(a, (str, bytes)) else a

    def _fault(self, op, **info):
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        total = self.total
        self.total += 1
        if self.fault is not None:
            ex = self.fault(op, n, total=total, **info)
            if ex is not None:
                self.log("fault", op, n)
                raise ex

    # -- descriptors -------------------------------------------------------------
    def user_fd(self, kind="user", num=None):
        if num is not None:
            self.fds[num] = FdInfo(num, kind, "user")
            return num
        return self.new_fd(kind, "user")

    def user_file(self, mode="wb"):
        fd = self.new_fd("file", "user")
        f = FakeFile(self, fd, mode, True, f"/sx/user{fd}")
        self.fds[fd].obj = f
        return f

    def pipe(self, owner="lib"):
        self._fault("pipe")
        p = Pipe()
        self.pipes.append(p)
        r = self.new_fd("pipe", owner, pipe=p, end="r")
        w = self.new_fd("pipe", owner, pipe=p, end="w")
        p.readers += 1
        p.writers += 1
        self.log("pipe", r, w)
        return r, w

    def close(self, fd, via="os.close"):
        info = self.fds.get(fd)
        if info is None:
            self.bad.append(("close-unknown", fd))
            raise OSError(errno.EBADF, "Bad file descriptor")
        info.closes += 1
        if not info.open:
            self.bad.append(("double-close", fd))
            raise OSError(errno.EBADF, "Bad file descriptor")
        info.open = False
        info.closed_ncb = self.loop._ncb
        if info.pipe is not None:
            if info.end in ("r", "rw"):
                info.pipe.readers -= 1
            if info.end in ("w", "rw"):
                info.pipe.writers -= 1
        self.log("close", fd)
        self.loop_closed_fd(fd)

    def loop_closed_fd(self, fd):
        # epoll forgets closed descriptors
        self.loop._readers.pop(fd, None)
        self.loop._writers.pop(fd, None)

    def _live(self, fd):
        info = self.fds.get(fd)
        if info is None or not info.open:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return info

    def open_path(self, path, mode):
        self._fault("open", path=path)
        fd = self.new_fd("file", "lib", path=path)
        f = FakeFile(self, fd, mode, True, path)
        self.fds[fd].obj = f
        self.opens.append((path, mode, fd))
        self.log("open", path, mode)
        cell = self.files.get(path)
        if cell is not None:
            if "w" in mode:
                cell[0] = b""
            self.fds[fd].desc = Desc(self, cell, 0, "a" in mode)
        return f

    def fdopen(self, fd, mode="r", buffering=-1, closefd=True, **kw):
        self._fault("fdopen")
        self._live(fd)
        return FakeFile(self, fd, mode, closefd)

    def fstat(self, fd):
        info = self._live(fd)

        class St:
            st_mode = stat.S_IFCHR if info.kind.startswith("pty") else stat.S_IFIFO
        return St

    def set_blocking(self, fd, b):
        self._live(fd)

    def read(self, fd, n):
        info = self._live(fd)
        p = info.pipe
        if p is None:
            return b""
        if info.end == "rw":   # pty parent
            p = p.out
            if not p.chunks:
                if p.writers > 0:
                    raise BlockingIOError()
                raise OSError(errno.EIO, "EIO")
        if p.chunks:
            d = p.chunks[0]
            if self.lt(n, d):
                p.chunks[0] = d[n:]
                return d[:n]
            del p.chunks[0]
            if p.on_read is not None:
                p.on_read()
            return d
        if p.error is not None:
            raise p.error
        if p.writers > 0:
            raise BlockingIOError()
        return b""

    def lt(self, n, data):
        "n < len(data), decided."
        if not is_sym(data):
            return n < len(data)
        return bool(data.sx_len() > n)

    def write(self, fd, data):
        if not is_sym(data):
            data = bytes(data)
        elif isinstance(data, bytearray):
            data = sdata.mkbytes(sdata.segs_of(data))
        info = self._live(fd)
        p = info.pipe
        if p is None:
            return self.E.len(data)
        if info.end == "rw":
            # a terminal takes what it has room for, even if nobody will ever read it
            p = p.inp
        elif p.readers <= 0:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if p.accept is not None:
            n = p.accept(data)
            if not is_sym(n) and n == 0:
                raise BlockingIOError()
            data = data[:n]
        else:
            n = self.E.len(data)
        p.written.append(data)
        if p.on_write is not None:
            p.on_write()
        return n

    def readable(self, fd):
        info = self.fds.get(fd)
        if info is None or not info.open:
            return False
        p = info.pipe
        if p is None:
            return False
        if info.end == "w":
            return p.readers <= 0
        if info.end == "rw":
            p = p.out
            return bool(p.chunks) or p.writers <= 0
        return bool(p.chunks) or p.writers <= 0 or p.error is not None

    def writable(self, fd):
        info = self.fds.get(fd)
        if info is None or not info.open:
            return False
        p = info.pipe
        if info.end == "rw":
            p = p.inp
        elif p.readers <= 0:
            return True
        if p.accept is None:
            return True
        return p.accept(None) > 0

    # -- ptys ----------------------------------------------------------------------
    def openpty(self):
        self._fault("openpty")

        class Tty:
            pass
        t = Tty()
        t.out = Pipe("pty")     # child -> parent
        t.inp = Pipe("pty")     # parent -> child
        t.readers = t.writers = 0
        parent = self.new_fd("pty-parent", "lib", pipe=t, end="rw")
        child = self.new_fd("pty-child", "lib", pipe=_TtyChild(t), end="rw")
        t.out.readers = 1
        t.inp.writers = 1
        t.out.writers = 1       # the parent's copy of the child side
        t.inp.readers = 1
        self.ttys[child] = self.ttys[parent] = t
        t.attrs = default_attrs() if self.tty_attrs is None else self.tty_attrs()
        t.winsize = tuple(self.tty_size)
        t.resized = 0
        t.parent, t.child = parent, child
        self.log("openpty", parent, child)
        return parent, child

    def ttys_parent(self):
        "The parent side of the last terminal opened."
        return max(t.parent for t in self.ttys.values())

    def tcgetattr(self, fd):
        self._fault("tcgetattr")
        self._live(fd)
        a = list(self.ttys[fd].attrs)
        a[6] = list(a[6])
        return a

    def tcsetattr(self, fd, when, attrs):
        self._live(fd)
        a = list(attrs)
        a[6] = list(a[6])
        self.ttys[fd].attrs = a
        self.log("tcsetattr", fd)

    def ttyname(self, fd):
        self._fault("ttyname")
        self._live(fd)
        return f"/sx/tty{fd}"

    # -- processes -------------------------------------------------------------------
    def spawn(self, popen, args, stdin, stdout, stderr, kwargs):
        self._fault("spawn", args=args)
        info = dict(args=list(args), stdin=stdin, stdout=stdout, stderr=stderr, **kwargs)
        pid = self._next_pid
        self._next_pid += 1
        proc = Proc(self, pid, info)
        popen.stdin = popen.stdout = popen.stderr = None
        used = []
        for name, v, num_ in (("stdin", stdin, 0), ("stdout", stdout, 1), ("stderr", stderr, 2)):
            if v == subprocess.PIPE and isinstance(v, int):
                p = Pipe()
                setattr(proc, name, p)
                if num_ == 0:
                    fd = self.new_fd("pipe", "asyncio", pipe=p, end="w")
                    p.writers = 1
                    p.readers = 1
                    proc.ends.append((p, "r"))
                    popen.stdin = FakeFile(self, fd, "wb")
                else:
                    fd = self.new_fd("pipe", "asyncio", pipe=p, end="r")
                    p.readers = 1
                    p.writers = 1
                    proc.ends.append((p, "w"))
                    setattr(popen, name, FakeFile(self, fd, "rb"))
            elif isinstance(v, int) and v >= 0:
                used.append(v)
            elif isinstance(v, io.IOBase):
                if v.closed:
                    self.bad.append(("file-closed-at-launch", v.name))
                else:
                    used.append(v.fileno())
        used.extend(kwargs.get("pass_fds") or ())
        for fd in used:
            fi = self.fds.get(fd)
            if fi is None:
                continue
            if not fi.open:
                self.bad.append(("closed-at-launch", fd))
                continue
            if fi.pipe is not None:
                t = fi.pipe
                if isinstance(t, _TtyChild):
                    if (t.t.out, "w") not in proc.ends:
                        t.t.out.writers += 1
                        proc.ends.append((t.t.out, "w"))
                        t.t.inp.readers += 1
                        proc.ends.append((t.t.inp, "r"))
                    proc.tty = t.t
                else:
                    if fi.end == "r":
                        t.readers += 1
                    else:
                        t.writers += 1
                    proc.ends.append((t, fi.end))
        self.procs.append(proc)
        self.spawns.append(info)
        info["proc"] = proc
        self.log("spawn", proc.idx, proc.name)
        if self.on_spawn is not None:
            self.on_spawn(proc)
        return proc

    def proc(self, pid):
        i = pid - PID_BASE
        if 0 <= i < len(self.procs):
            return self.procs[i]
        return None

    def waitpid(self, pid, options=0):
        p = self.proc(pid)
        if p is None or p.reaped:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if p.alive:
            if not options & os.WNOHANG:
                raise core.Unsupported("blocking waitpid on a running process")
            return 0, 0
        if getattr(p, "lost", False):
            # somebody else took the status
            p.reaped = True
            p.reap_ncb = self.loop._ncb
            raise ChildProcessError(errno.ECHILD, "No child processes")
        p.reaped = True
        p.reap_ncb = self.loop._ncb
        return pid, p.status

    def kill(self, pid, sig):
        p = self.proc(pid)
        if p is None or p.reaped:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        sig = _signo(sig)
        p.signals.append((self.loop._now, self.loop._ncb, sig, p.alive))
        self.log("signal", p.idx, sig)
        if p.alive and self.on_kill is not None and sig != 0:
            self.on_kill(p, sig)

    def ignore_watcher(self):
        return False

    def watch(self, pid, callback, *args):
        self.watched[pid] = (callback, args)

    def poll(self, loop):
        "Child watcher: a pidfd becomes readable once the process has exited."
        for pid, (cb, args) in list(self.watched.items()):
            p = self.proc(pid)
            if not p.alive and not getattr(p, "hold_notify", False):
                del self.watched[pid]
                try:
                    _, st = self.waitpid(pid, os.WNOHANG)
                except ChildProcessError:
                    st = 255
                p.notified = True
                # asyncio's PidfdChildWatcher runs as a reader callback.
                loop._ready.append(events.Handle(cb, (pid, st) + args, loop, None))

    # -- summary ----------------------------------------------------------------------
    def unreaped(self):
        return [p.idx for p in self.procs if p.alive or not p.reaped]

    def open_fds(self, owner="lib"):
        return [i for i in self.fds.values() if i.open and i.owner == owner]


class _TtyChild:
    "Parent's copy of the child side of a pty."

    def __init__(self, t):
        self.t = t

    @property
    def readers(self):
        return self.t.inp.readers

    @readers.setter
    def readers(self, v):
        self.t.inp.readers = v

    @property
    def writers(self):
        return self.t.out.writers

    @writers.setter
    def writers(self, v):
        self.t.out.writers = v

    chunks = ()
    accept = None


def default_attrs():
    cc = [b"\x00"] * 32
    cc[termios.VEOF] = b"\x04"
    cc[termios.VMIN] = 1
    cc[termios.VTIME] = 0
    return [termios.ICRNL, termios.OPOST, 191, termios.ICANON | termios.ECHO | termios.ISIG, 15, 15, cc]


# --- patching of the os module ----------------------------------------------------
def _w():
    return CUR


def _patch_os():
    import fcntl
    import pty
    import shutil
    import tty

    def save(mod, name):
        _REAL[(mod.__name__, name)] = getattr(mod, name)
        return getattr(mod, name)

    r_close = save(os, "close")

    def close(fd):
        if CUR is None:
            if isinstance(fd, int) and fd >= FD_BASE:
                return None
            return r_close(fd)
        return CUR.close(fd)

    def wrap(name, meth, is_fd=True):
        real = save(os, name)

        def f(*a, **k):
            if CUR is None:
                return real(*a, **k)
            if is_fd and not (isinstance(a[0], int) and a[0] >= FD_BASE):
                return real(*a, **k)
            return getattr(CUR, meth)(*a, **k)
        f.__name__ = name
        setattr(os, name, f)

    os.close = close
    wrap("pipe", "pipe", False)
    wrap("read", "read")
    wrap("write", "write")
    wrap("fstat", "fstat")
    wrap("set_blocking", "set_blocking")
    wrap("ttyname", "ttyname")
    wrap("fdopen", "fdopen")

    r_kill = save(os, "kill")

    def kill(pid, sig):
        if CUR is None:
            if pid >= PID_BASE:
                raise ProcessLookupError()
            return r_kill(pid, sig)
        return CUR.kill(pid, sig)
    os.kill = kill

    r_waitpid = save(os, "waitpid")

    def waitpid(pid, options):
        if CUR is None:
            if pid >= PID_BASE:
                raise ChildProcessError()
            return r_waitpid(pid, options)
        return CUR.os_waitpid(pid, options)
    os.waitpid = waitpid

    r_exitcode = save(os, "waitstatus_to_exitcode")

    def waitstatus_to_exitcode(st):
        if isinstance(st, ExitStatus):
            return st.code
        if is_sym(st):
            return sym_exitcode(st)
        return r_exitcode(st)
    os.waitstatus_to_exitcode = waitstatus_to_exitcode

    r_open = builtins.open

    def open_(file, mode="r", *a, **k):
        if CUR is not None:
            p = file
            if isinstance(p, os.PathLike):
                p = os.fspath(p)
            if isinstance(p, (str, bytes)) and str(p).startswith("/sx/"):
                return CUR.open_path(p, mode)
            if isinstance(p, int) and p >= FD_BASE:
                return CUR.fdopen(p, mode, *a, **k)
        return r_open(file, mode, *a, **k)
    builtins.open = open_
    io.open = open_

    for mod, name, meth in ((pty, "openpty", "openpty"), (os, "openpty", "openpty")):
        real = save(mod, name)

        def f(real=real, meth=meth):
            if CUR is None:
                return real()
            return getattr(CUR, meth)()
        setattr(mod, name, f)

    for name, meth in (("tcgetattr", "tcgetattr"), ("tcsetattr", "tcsetattr"),
                       ("tcgetwinsize", "tcgetwinsize"), ("tcsetwinsize", "tcsetwinsize")):
        real = save(termios, name)

        def g(*a, real=real, meth=meth):
            if CUR is None or not a[0] >= FD_BASE:
                return real(*a)
            return getattr(CUR, meth)(*a)
        setattr(termios, name, g)
        if hasattr(tty, name):
            setattr(tty, name, g)

    r_ioctl = save(fcntl, "ioctl")

    def ioctl(fd, req, arg=0, mutate=True):
        if CUR is None or not fd >= FD_BASE:
            return r_ioctl(fd, req, arg, mutate)
        return CUR.ioctl(fd, req, arg)
    fcntl.ioctl = ioctl


class ExitStatus:
    "Opaque wait status of the fake system (decoded by waitstatus_to_exitcode)."
    __slots__ = ("code",)

    def __init__(self, code):
        self.code = code


def _os_waitpid(self, pid, options):
    p, st = self.waitpid(pid, options)
    if p == 0:
        return 0, 0
    raw = getattr(self.proc(pid), "raw", None)
    if raw is not None:
        return p, raw
    return p, ExitStatus(st)


def sym_exitcode(st):
    "os.waitstatus_to_exitcode (Linux) for a symbolic wait status."
    low = st & 0x7F
    if low == 0:
        return ((st >> 8) & 0xFF).as_int()
    if low == 0x7F:
        raise ValueError("invalid wait status")
    return -(low.as_int())


World.os_waitpid = _os_waitpid


def _word(u, i):
    "Unsigned 16-bit word i of the units u."
    lo, hi = u[2 * i], u[2 * i + 1]
    if isinstance(lo, int) and isinstance(hi, int):
        return lo + 256 * hi
    import z3
    b = [z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in (hi, lo)]
    return SymBV(z3.simplify(z3.Concat(*b)))


def _ioctl(self, fd, req, arg):
    self._fault("ioctl", req=req)
    self._live(fd)
    self.ioctls.append((fd, req, arg))
    t = self.ttys.get(fd)
    if t is not None and req == termios.TIOCSWINSZ:
        if isinstance(arg, int):
            raise OSError(errno.EFAULT, "Bad address")
        u = sdata.units(arg)
        if len(u) < 8:
            raise OSError(errno.EFAULT, "Bad address")
        self.set_winsize(t, _word(u, 0), _word(u, 1))
    elif t is not None and req == termios.TIOCGWINSZ:
        r, c = t.winsize
        return sdata.pack("HHHH", r, c, 0, 0)
    return arg


def _set_winsize(self, t, rows, cols):
    t.winsize = (rows, cols)
    t.resized += 1


World.ioctl = _ioctl
World.set_winsize = _set_winsize


def _tcsetwinsize(self, fd, size):
    self._live(fd)
    rows, cols = size
    for x in (rows, cols):
        if not 0 <= x <= 0xFFFF:
            raise OverflowError("winsize value out of range")
    self.set_winsize(self.ttys[fd], rows, cols)


def _tcgetwinsize(self, fd):
    self._live(fd)
    return tuple(self.ttys[fd].winsize)


World.tcsetwinsize = _tcsetwinsize
World.tcgetwinsize = _tcgetwinsize

_patched = False


def patch():
    global _patched
    if not _patched:
        _patched = True
        _patch_os()


class use:
    "Context manager: make `w` the current world."

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        global CUR
        patch()
        CUR = self.w
        if self.w.symdata and self.w.E.symbolic:
            sxaio.activate(True)
        return self.w

    def __exit__(self, *a):
        global CUR
        CUR = None
        if sdata.ACTIVE:
            sxaio.activate(False)
        self.w.loop.dispose()
