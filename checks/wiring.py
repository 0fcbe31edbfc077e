"""C13 redirections, C14 replace and append, C26 process substitution."""

import asyncio
import io
import logging
import subprocess
import sys
from pathlib import Path

from symx import core
from symx.world import Desc, FakeFile, World

from .datas import Sink, user_writer
from .lifecycle import attach_behaviour, execute, sym_fault, Boom

PIPE, STDOUT, DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL

STDIN = ("default", "bytes", "str", "bytearray", "bytesio", "stringio", "reader", "path", "fd", "file",
         "DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "STDOUT", "none", "object", "float")
OUT = ("default", "path", "bytearray", "bytesio", "stringio", "logger", "writer", "fd", "file",
       "DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "STDOUT", "none", "str", "object")
FEED = ("bytes", "str", "bytearray", "bytesio", "stringio", "reader")
SINK = ("bytearray", "bytesio", "stringio", "logger", "writer")


class Odd:
    "Not a redirection."


class OtherPath:
    "os.PathLike, but no pathlib.Path."

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def bad_kind(kind, stream):
    "Exceptions a target of this kind is rejected with."
    if kind in ("none", "object", "float") or kind == "str" and stream != "stdin":
        return ("TypeError",)
    if kind == "BUFFER" and stream == "stdin":
        return ("TypeError",)
    if kind == "STDOUT" and stream != "stderr":
        return ("ValueError",)
    return ()


def is_fd(v, fd):
    return isinstance(v, int) and v == fd


def redirect(E, pty="no", stdin=STDIN, stdout=OUT, stderr=OUT, flags=True, mode="with", how="method"):
    """One command with every combination of targets.

    how: "method" sets the targets on the command, "context" on a context first.
    """
    from shellous import sh

    W = World(E)
    kinds = {"stdin": stdin[E.choice("stdin", len(stdin))],
             "stdout": stdout[E.choice("stdout", len(stdout))],
             "stderr": stderr[E.choice("stderr", len(stderr))]}
    E.obs("kinds", list(kinds.values()))
    for k, v in kinds.items():
        E.cover(f"{k}:{v}")
    ispty = pty != "no"
    ptyfn = []
    bad = sum((bad_kind(v, k) for k, v in kinds.items()), ())
    st = {"paths": {}, "objs": {}, "out": {}, "closes": {}}

    def flag(name):
        return E.bool(name) if flags else False

    def on_spawn(p):
        p.write(b"OUT\n", "stdout")
        p.write(b"ERR\n", "stderr")
        p.exit_after(1, 0)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)

    async def make(stream):
        "The target object of a stream."
        k = kinds[stream]
        if k == "default":
            return sh.DEFAULT if hasattr(sh, "DEFAULT") else None
        if k in ("DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "STDOUT"):
            return getattr(sh, k)
        if k == "path":
            return Path(f"/sx/{stream}")
        if k == "fd":
            return W.user_fd()
        if k == "file":
            return W.user_file("rb" if stream == "stdin" else "wb")
        if k == "none":
            return None
        if k == "float":
            return 1.5
        if k == "object":
            return Odd()
        if stream == "stdin":
            if k == "bytes":
                return b"IN\n"
            if k == "str":
                return "IN\n"
            if k == "bytearray":
                return bytearray(b"IN\n")
            if k == "bytesio":
                return io.BytesIO(b"IN\n")
            if k == "stringio":
                return io.StringIO("IN\n")
            if k == "reader":
                r = asyncio.StreamReader()
                r.feed_data(b"IN\n")
                r.feed_eof()
                return r
        if k == "str":
            return "/sx/name"
        if k == "bytearray":
            return bytearray(b"old")
        if k == "bytesio":
            return io.BytesIO(b"old")
        if k == "stringio":
            return io.StringIO("old")
        if k == "logger":
            return Sink()
        if k == "writer":
            p, mk = user_writer(W)
            st["out"][stream] = p
            return await mk()
        raise AssertionError(k)

    probe = {}

    async def run():
        c = sh if how == "context" else sh("/sx/prog")
        if pty == "true":
            c = c.set(pty=True)
        elif pty == "fn":
            c = c.set(pty=ptyfn.append)
        for s in ("stdin", "stdout", "stderr"):
            k = kinds[s]
            if k == "default":
                continue
            o = st["objs"][s] = await make(s)
            close = flag(f"{s}close")
            st["closes"][s] = close
            if s == "stdin":
                c = c.stdin(o, close=close)
            else:
                app = st[s + "app"] = flag(f"{s}append")
                c = getattr(c, s)(o, append=app, close=close)
        if how == "context":
            c = c("/sx/prog")
        if mode == "await":
            return await c.result
        async with c.result as r:
            p = probe["proc"] = W.procs[0]
            probe["stdin"], probe["stdout"], probe["stderr"] = r.stdin, r.stdout, r.stderr
            if r.stdin is not None and kinds["stdin"] == "CAPTURE":
                r.stdin.write(b"MINE\n")
                if not ispty:
                    r.stdin.close()
            if r.stdout is not None:
                probe["got-out"] = await r.stdout.read()
            if r.stderr is not None:
                probe["got-err"] = await r.stderr.read()
        return r.result()

    out = execute(E, W, run, None, linger=0)
    kind = out["kind"]
    E.obs("kind", kind)
    multi = mode == "await" and kinds["stdout"] == kinds["stderr"] == "CAPTURE"
    if bad or multi:
        E.cover("rejected")
        E.check(kind in bad or multi and kind == "ValueError", "C13 an unsupported target is rejected with TypeError or ValueError",
                [kinds, repr(out["exc"])])
        E.check(not W.spawns, "C13 an unsupported target is rejected before the process is started", kinds)
        return
    E.check(kind == "ok", "C13 a supported combination runs", [kinds, pty, out.get("hang"), repr(out["exc"])])
    E.cover("ran")
    E.check(len(W.spawns) == 1, "C13 one process is started", kinds)
    info = W.spawns[0]
    p = info["proc"]
    if ispty:
        E.check(len(W.ttys) == 2 and getattr(p, "tty", None) is not None or
                not any(is_fd(info[s], W_child(W)) for s in ("stdin", "stdout", "stderr")),
                "C13 one terminal is allocated", kinds)
        E.check(info["start_new_session"] is True, "C13 a process on a terminal starts its own session")
        if pty == "fn":
            E.check(ptyfn == [W_child(W)], "C13 the pty function gets the child side", ptyfn)
    else:
        E.check(not W.ttys, "C13 no terminal without the pty option", kinds)
    child = W_child(W)

    def connected(s, v, what):
        E.check(v, f"C13 {s} is connected to {what}", [kinds, pty, repr(info[s])])

    # standard input
    k = kinds["stdin"]
    v = info["stdin"]
    if k in FEED or k in ("default", "CAPTURE"):
        if ispty:
            connected("stdin", is_fd(v, child), "the terminal")
        else:
            connected("stdin", is_fd(v, PIPE), "a pipe")
    else:
        plain("stdin", k, v, st, E, kinds, W)
    # standard output
    k = kinds["stdout"]
    v = info["stdout"]
    if k in SINK or k in ("default", "CAPTURE", "BUFFER"):
        if ispty:
            connected("stdout", is_fd(v, child), "the terminal")
        else:
            connected("stdout", is_fd(v, PIPE), "a pipe")
    else:
        plain("stdout", k, v, st, E, kinds, W)
    # standard error
    k = kinds["stderr"]
    v = info["stderr"]
    merged = k == "STDOUT" or k == "default" and ispty
    only = kinds["stdout"] == "DEVNULL" and k == "STDOUT"
    if only:
        connected("stderr", is_fd(v, PIPE), "a pipe of its own (stdout is discarded)")
    elif merged:
        same = is_fd(v, STDOUT) or v is info["stdout"] or is_fd(v, info["stdout"]) and is_fd(info["stdout"], v)
        if kinds["stdout"] == "DEVNULL":
            same = same or is_fd(v, PIPE)
        connected("stderr", same, "the same place as stdout")
    elif k in SINK or k in ("default", "BUFFER", "CAPTURE"):
        connected("stderr", is_fd(v, PIPE), "a pipe")
    else:
        plain("stderr", k, v, st, E, kinds, W)
    # What the run exposes.
    res = out["value"]
    want_out = b"" if kinds["stdout"] not in ("default", "BUFFER") else b"OUT\n"
    want_err = b"" if k not in ("default", "BUFFER") or merged else b"ERR\n"
    outcap = kinds["stdout"] == "CAPTURE"
    both = b"OUT\n" + (b"ERR\n" if merged else b"")
    if want_out:
        want_out = both
    if only:
        want_out = b"ERR\n"
    if not (ispty and kinds["stdout"] == "DEVNULL" and k == "default"):
        E.check(res.output_bytes == want_out, "C13 the result has the buffered output", [kinds, pty, res.output_bytes])
    E.check(res.error_bytes == want_err, "C13 the result has the buffered error output", [kinds, pty, res.error_bytes])
    for s in ("stdout", "stderr"):
        check_sink(E, st, kinds, s, both if s == "stdout" else b"ERR\n")
    if mode != "await":
        cap_in = kinds["stdin"] == "CAPTURE" or ispty and kinds["stdin"] == "default"
        E.check((probe["stdin"] is not None) == cap_in, "C13 run.stdin is exposed exactly if stdin is captured", [kinds, pty])
        E.check((probe["stdout"] is not None) == outcap, "C13 run.stdout is exposed exactly if stdout is captured", [kinds, pty])
        E.check((probe["stderr"] is not None) == (k == "CAPTURE"),
                "C13 run.stderr is exposed exactly if stderr is captured", [kinds, pty])
        if outcap:
            E.check(probe["got-out"] == both, "C13 the captured stdout is the process's", [kinds, pty, probe["got-out"]])
        if k == "CAPTURE":
            E.check(probe["got-err"] == b"ERR\n", "C13 the captured stderr is the process's", [kinds, pty, probe["got-err"]])
    src = b"".join(bytes(x) for x in (p.sink("stdin").written if p.sink("stdin") is not None else ()))
    if kinds["stdin"] in FEED:
        E.check(src.startswith(b"IN\n"), "C13 the process gets the input", [kinds, pty, src])
        E.check(ispty or src == b"IN\n", "C13 the process gets exactly the input", [kinds, pty, src])
    elif kinds["stdin"] == "CAPTURE" and mode != "await":
        E.check(src == b"MINE\n", "C13 run.stdin writes to the process", [kinds, pty, src])
    elif kinds["stdin"] == "default":
        E.check(src == b"", "C13 the default input is empty", [kinds, pty, src])


def W_child(W):
    for t in W.ttys.values():
        return t.child
    return None


def plain(s, k, v, st, E, kinds, W):
    "Targets that the process gets as they are."
    o = st["objs"][s]
    if k == "path":
        ok = isinstance(v, FakeFile) and v.name == f"/sx/{s}"
        what = "the file"
        if ok:
            modes = [m for p, m, fd in W.opens if p == f"/sx/{s}"]
            E.check(len(modes) == 1 and modes[0] in (("rb",) if s == "stdin" else ("wb", "ab")),
                    f"C13 {s} opens the file once", [kinds, modes])
            if s != "stdin":
                app = st[s + "app"]
                E.check(E.Or(E.And(app, modes[0] == "ab"), E.And(E.Not(app), modes[0] == "wb")),
                        f"C13 {s} opens the file to append exactly if asked to", [kinds, modes])
    elif k == "fd":
        ok, what = is_fd(v, o), "the given descriptor"
    elif k == "file":
        ok, what = v is o or is_fd(v, o._fd), "the given file"
    elif k == "DEVNULL":
        ok, what = is_fd(v, DEVNULL), "the null device"
    elif k == "INHERIT":
        f = getattr(sys, s)
        ok, what = v is f or is_fd(v, f.fileno()), "our own stream"
    else:
        raise AssertionError(k)
    E.check(ok, f"C13 {s} is connected to {what}", [kinds, repr(v)])


def check_sink(E, st, kinds, s, want):
    k = kinds[s]
    o = st["objs"].get(s)
    if k not in SINK:
        return
    app = st[s + "app"]
    if k == "logger":
        got = "".join(m + "\n" for _, m in o.msgs).encode()
        E.check(got == want, f"C13 {s} is logged", [kinds, got])
        return
    if k == "writer":
        got = b"".join(bytes(x) for x in st["out"][s].written)
        E.check(got == want, f"C13 {s} is written to the stream", [kinds, got])
        return
    got = bytes(o) if k == "bytearray" else o.getvalue()
    if k == "stringio":
        got = got.encode()
    E.check(E.Or(E.And(app, got == b"old" + want), E.And(E.Not(app), got == want)),
            f"C13 {s} arrives in the target", [kinds, got])


# --- C14 ----------------------------------------------------------------------------
TARGETS = ("path", "bytearray", "bytesio", "stringio", "raw", "buffered", "random", "text", "fd")
FORMS = ("stdout", "stderr", "op", "pipeop", "pipeout", "pipeerr")


def append(E, target="path", form="op", chunks=2, hi=30000):
    "C14: prior contents and position, symbolic; `|` and `>>`."
    from shellous import sh

    W = World(E)
    W.symdata = target in ("path", "bytearray", "bytesio", "stringio", "raw")
    text = target == "stringio"
    small = target in ("buffered", "random", "text", "fd")
    if text:
        old = E.chars("old", E.choice("oldlen", 4), lo=1, hi=0x7F)
        new = E.chars("new", 1 + E.choice("newlen", 3), lo=1, hi=0x7F)
        data = [new.encode("ascii")]
    elif small:
        old = b"0123456789"[:E.choice("oldlen", 4)]
        data = [b"ab", b"cde"][:1 + E.choice("newlen", 2)]
        new = b"".join(data)
    else:
        old = E.bytes("old", 0, hi)
        data = [E.bytes(f"new{i}", 1, hi) for i in range(chunks)]
        new = data[0]
        for d in data[1:]:
            new = new + d
    app = E.decide(E.bool("append"))
    if text or small:
        pos = E.choice("pos", 6)
    else:
        pos = E.int("pos", 0, hi + 100)
    err = form in ("stderr", "pipeerr")
    pipe = form.startswith("pipe")
    st = {}

    def on_spawn(p):
        if pipe and p.idx == 0:
            p.exit_after(0, 0)
            return
        for d in data:
            p.write(d, "stderr" if err else "stdout")
        p.exit_after(0, 0)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)

    def file(cls):
        mode = ("wb", "r+b", "ab")[E.choice("openmode", 3)] if target != "raw" else "r+b"
        fd = W.new_fd("file", "user")
        cell = [old]
        W.fds[fd].desc = st["desc"] = Desc(W, cell, 0, mode == "ab")
        raw = FakeFile(W, fd, mode, False, "/sx/user")
        raw.readable = lambda: True
        raw.writable = lambda: True
        st["cell"] = cell
        if cls is None:
            st["desc"].pos = pos
            return raw
        f = cls(raw)
        if target == "text":
            f = io.TextIOWrapper(f, encoding="latin-1", newline="")
        f.seek(min(pos, len(old)))
        if target == "random" and mode == "r+b" and E.decide(E.bool("peek")):
            f.peek(1)
        elif target == "text" and mode == "r+b" and E.decide(E.bool("peek")):
            f.read(1)
            return f
        if mode != "ab" and E.decide(E.bool("unflushed")):
            # the user has written something that is still in the buffer
            k = f.tell()
            f.write("Z" if target == "text" else b"Z")
            st["old"] = (old + bytes(max(0, k - len(old))))[:k] + b"Z" + old[k + 1:]
        return f

    def make():
        if target == "path":
            st["cell"] = W.files["/sx/target"] = [old]
            return Path("/sx/target")
        if target == "bytearray":
            return E.bytearray(old)
        if target == "bytesio":
            return E.bytesio(old, pos)
        if target == "stringio":
            return E.stringio(old, pos)
        if target == "raw":
            return file(None)
        if target == "buffered":
            return file(io.BufferedWriter)
        if target == "random":
            return file(io.BufferedRandom)
        if target == "text":
            return file(io.BufferedRandom)
        if target == "fd":
            f = file(None)
            st["keep"] = f
            return f._fd

    t = make()

    async def run():
        cmd = sh("/sx/prog")
        if pipe:
            cmd = sh("/sx/first") | cmd
        if form in ("op", "pipeop"):
            c = cmd >> t if app else cmd | t
        elif err:
            c = cmd.stderr(t, append=app)
        else:
            c = cmd.stdout(t, append=app)
        return await c

    out = execute(E, W, run, None)
    E.obs("kind", out["kind"])
    E.check(out["kind"] == "ok", "C14 the run ends normally", [out.get("hang"), repr(out["exc"])])
    E.cover("append" if app else "replace")
    if "cell" in st:
        got = st["cell"][0]
    elif target == "bytearray":
        got = t
    else:
        got = t.getvalue()
    E.obs("len", E.len(got))
    if target == "fd":
        # an open descriptor: written where it stands, in either case
        if st["desc"].append:
            want = old + new
        else:
            want = old + b"\0" * (pos - len(old)) if pos > len(old) else old
            want = want[:pos] + new + want[pos + len(new):]
        E.check(E.same(got, want), "C14 a descriptor is written at its position", [old, pos, got])
        return
    old = st.get("old", old)
    want = old + new if app else new
    E.check(E.same(got, want), "C14 append keeps the previous contents" if app else
            "C14 replace leaves exactly the new output", [target, form, old, pos, got])


def append2(E, pipe=False, hi=3000):
    "C14: a target on each output, replaced or appended to independently."
    from shellous import sh

    W = World(E)
    W.symdata = True
    KINDS = ("path", "bytearray", "bytesio", "raw")
    kinds = [KINDS[E.choice(f"kind{i}", 4)] for i in range(2)]
    olds = [E.bytes(f"old{i}", 0, hi) for i in range(2)]
    news = [E.bytes(f"new{i}", 1, hi) for i in range(2)]
    app = [E.decide(E.bool(f"append{i}")) for i in range(2)]
    cells = {}

    def make(i):
        k = kinds[i]
        if k == "path":
            cells[i] = W.files[f"/sx/target{i}"] = [olds[i]]
            return Path(f"/sx/target{i}")
        if k == "bytearray":
            return E.bytearray(olds[i])
        if k == "bytesio":
            return E.bytesio(olds[i], E.int(f"pos{i}", 0, hi))
        fd = W.new_fd("file", "user")
        cells[i] = [olds[i]]
        W.fds[fd].desc = Desc(W, cells[i], 0, False)
        raw = FakeFile(W, fd, "r+b", False, "/sx/user")
        raw.readable = raw.writable = lambda: True
        return raw
    ts = [make(0), make(1)]

    def on_spawn(p):
        if p.name == "/sx/prog":
            p.write(news[0], "stdout")
            p.write(news[1], "stderr")
        p.exit_after(0, 0)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    order = E.decide(E.bool("stderr-first"))

    async def run():
        c = sh("/sx/first") | sh("/sx/prog") if pipe else sh("/sx/prog")
        for i in (1, 0) if order else (0, 1):
            if i:
                c = c.stderr(ts[1], append=app[1])
            else:
                c = c >> ts[0] if app[0] else c | ts[0]
        return await c
    out = execute(E, W, run, None)
    E.obs("kind", out["kind"])
    E.check(out["kind"] == "ok", "C14 the run ends normally", [out.get("hang"), repr(out["exc"])])
    E.cover(f"{app[0]}{app[1]}")
    for i in range(2):
        got = cells[i][0] if i in cells else ts[i] if kinds[i] == "bytearray" else ts[i].getvalue()
        E.obs(f"len{i}", E.len(got))
        want = olds[i] + news[i] if app[i] else news[i]
        E.check(E.same(got, want), "C14 append keeps the previous contents" if app[i] else
                "C14 replace leaves exactly the new output", [kinds, app, i, olds[i], got])


# --- C13, pipelines -----------------------------------------------------------------
FIRST = ("default", "bytes", "path", "fd", "DEVNULL", "INHERIT", "CAPTURE")
LAST = ("default", "path", "bytearray", "fd", "DEVNULL", "INHERIT", "CAPTURE")
ERRS = ("default", "path", "bytearray", "fd", "DEVNULL", "INHERIT", "STDOUT")


def pipeline(E, n=3, mode="with", inner=True):
    "Each command of a pipeline is connected to the next; the ends as for one command."
    from shellous import sh

    W = World(E)
    kin = FIRST[E.choice("stdin", len(FIRST))]
    kout = LAST[E.choice("stdout", len(LAST))]
    which = E.choice("errof", n)
    errs = ERRS + ("CAPTURE",) if mode == "with" else ERRS
    kerr = errs[E.choice("stderr", len(errs))]
    st = {}
    E.cover(f"in:{kin}")
    E.cover(f"out:{kout}")

    def on_spawn(p):
        i = int(p.name[-1])
        p.write(f"O{i}".encode(), "stdout")
        p.write(f"E{i}".encode(), "stderr")
        p.exit_after(1, 0)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)

    def make(k, s):
        if k in ("DEVNULL", "INHERIT", "CAPTURE", "STDOUT"):
            return getattr(sh, k)
        if k == "bytes":
            return b"IN"
        if k == "path":
            W.files[f"/sx/{s}"] = [b""]
            return Path(f"/sx/{s}")
        if k == "bytearray":
            return bytearray()
        if k == "fd":
            fd = W.user_fd()
            W.fds[fd].desc = Desc(W, [b""])
            return fd

    probe = {}

    async def run():
        cmds = [sh(f"/sx/p{i}") for i in range(n)]
        if kerr != "default":
            st["err"] = make(kerr, "stderr")
            cmds[which] = cmds[which].stderr(st["err"])
        if inner:
            # settings of the inner streams are replaced by the pipes
            cmds[0] = cmds[0].stdout(sh.DEVNULL)
            cmds[1] = cmds[1].stdin(b"not this")
        pipe = cmds[0]
        for c in cmds[1:]:
            pipe = pipe | c
        if kin != "default":
            st["in"] = make(kin, "stdin")
            pipe = pipe.stdin(st["in"])
        if kout != "default":
            st["out"] = make(kout, "stdout")
            pipe = pipe.stdout(st["out"])
        if mode == "await":
            return await pipe.result
        async with pipe.result as r:
            probe["streams"] = (r.stdin, r.stdout, r.stderr)
            if kin == "CAPTURE":
                r.stdin.write(b"MINE")
                r.stdin.close()
            if r.stdout is not None:
                probe["got"] = await r.stdout.read()
            if r.stderr is not None:
                probe["goterr"] = await r.stderr.read()
        return r.result()

    out = execute(E, W, run, None, linger=0)
    E.obs("kind", out["kind"])
    E.check(out["kind"] == "ok", "C13 the pipeline runs", [kin, kout, kerr, out.get("hang"), repr(out["exc"])])
    E.check(len(W.spawns) == n, "C13 every command of the pipeline is started once")
    by = {p.name[-1]: p for p in W.procs}
    ps = [by[str(i)] for i in range(n)]
    last = b""
    merged = b""
    for i, p in enumerate(ps):
        o = f"O{i}".encode()
        e = f"E{i}".encode()
        if which == i and kerr == "STDOUT":
            o += e
        if i:
            a, b = ps[i - 1].target("stdout"), p.target("stdin")
            ok = a is not None and b is not None and a.pipe is not None and a.pipe is b.pipe and (a.end, b.end) == ("w", "r")
            E.check(ok, "C13 each command's stdout is a pipe to the next command's stdin", [i, kin, kout, kerr])
            others = [q.name for q in ps for s in ("stdin", "stdout", "stderr")
                      if q.target(s) is not None and q.target(s).pipe is a.pipe]
            extra = 1 if which == i - 1 and kerr == "STDOUT" else 0
            E.check(len(others) == 2 + extra, "C13 no other stream is connected to that pipe", [i, others])
            E.check(b"".join(a.pipe.chunks) == prev, "C13 the pipe carries the previous command's output", [i, a.pipe.chunks])
        prev = o
    # the ends
    v = ps[0].info["stdin"]
    if kin in ("default", "bytes", "CAPTURE"):
        E.check(is_fd(v, PIPE), "C13 the first command's stdin is a pipe", [kin, repr(v)])
        src = b"".join(bytes(x) for x in ps[0].stdin.written)
        want = {"default": b"", "bytes": b"IN", "CAPTURE": b"MINE" if mode == "with" else b""}[kin]
        E.check(src == want, "C13 the first command gets the pipeline's input", [kin, src])
    elif kin == "path":
        E.check(isinstance(v, FakeFile) and v.name == "/sx/stdin", "C13 the first command reads the file")
    elif kin == "fd":
        E.check(is_fd(v, st["in"]), "C13 the first command reads the descriptor")
    elif kin == "DEVNULL":
        E.check(is_fd(v, DEVNULL), "C13 the first command reads the null device")
    else:
        E.check(v is sys.stdin, "C13 the first command reads our own stdin")
    v = ps[-1].info["stdout"]
    res = out["value"]
    if kout in ("default", "bytearray", "CAPTURE"):
        E.check(is_fd(v, PIPE), "C13 the last command's stdout is a pipe", [kout, repr(v)])
        if kout == "default":
            E.check(res.output_bytes == prev, "C13 the pipeline's output is the last command's", [res.output_bytes])
        elif kout == "bytearray":
            E.check(bytes(st["out"]) == prev, "C13 the last command's output arrives in the target", [st["out"]])
        elif mode == "with":
            E.check(probe["got"] == prev, "C13 the captured stdout is the last command's", [probe.get("got")])
    elif kout == "path":
        E.check(isinstance(v, FakeFile) and v.name == "/sx/stdout" and W.files["/sx/stdout"][0] == prev,
                "C13 the last command writes the file")
    elif kout == "fd":
        E.check(is_fd(v, st["out"]), "C13 the last command writes the descriptor")
    elif kout == "DEVNULL":
        only = which == n - 1 and kerr == "STDOUT"
        E.check(is_fd(v, DEVNULL), "C13 the last command writes the null device", [only, repr(v)])
    else:
        E.check(v is sys.stdout, "C13 the last command writes our own stdout")
    for i, p in enumerate(ps):
        v = p.info["stderr"]
        k = kerr if i == which else "default"
        if k in ("default", "bytearray", "CAPTURE"):
            E.check(is_fd(v, PIPE), "C13 the standard error of each command is its own pipe", [i, k, repr(v)])
            if k == "bytearray":
                E.check(bytes(st["err"]) == f"E{i}".encode(), "C13 a command's error output arrives in its target", [i])
        elif k == "path":
            E.check(isinstance(v, FakeFile) and v.name == "/sx/stderr", "C13 a command's error output goes to its file", [i])
        elif k == "fd":
            E.check(is_fd(v, st["err"]), "C13 a command's error output goes to its descriptor", [i])
        elif k == "DEVNULL":
            E.check(is_fd(v, DEVNULL), "C13 a command's error output is discarded", [i])
        elif k == "INHERIT":
            E.check(v is sys.stderr, "C13 a command's error output goes to our own stderr", [i])
    if mode == "with":
        a, b, c = probe["streams"]
        E.check((a is not None) == (kin == "CAPTURE"), "C13 the pipeline exposes stdin exactly if captured", [kin])
        E.check((b is not None) == (kout == "CAPTURE"), "C13 the pipeline exposes stdout exactly if captured", [kout])
        mine = kerr == "CAPTURE" and which == n - 1
        E.check((c is not None) == mine, "C13 the pipeline exposes stderr exactly if captured", [kerr])
        if mine:
            E.check(probe["goterr"] == f"E{n - 1}".encode(), "C13 the captured stderr is the last command's", [probe["goterr"]])


# --- C26 -----------------------------------------------------------------------------
def procsub(E, shape="r", fault=None, code=False, exits=True, preempt=0, merge=0, first=False):
    """shape: one letter per substitution: r/w command, R/W pipeline of two (W: writable set on the
    pipeline), V: writable set on the pipeline's first command; '=' is the previous object once more;
    '.' is a plain argument."""
    from shellous import sh

    W = World(E, preempt, merge)
    subs = []
    args = []
    for i, ch in enumerate(shape):
        if ch == ".":
            args.append(f"plain{i}")
            continue
        if ch == "=":
            args.append(c)
            subs.append((len(args) - 1,) + subs[-1][1:])
            continue
        if ch == "r":
            c = sh(f"/sx/sub{i}")
            names = [f"/sx/sub{i}"]
        elif ch == "w":
            c = sh(f"/sx/sub{i}").writable
            names = [f"/sx/sub{i}"]
        else:
            names = [f"/sx/sub{i}a", f"/sx/sub{i}b"]
            if ch == "V":
                c = sh(names[0]).writable | sh(names[1])
            else:
                c = sh(names[0]) | sh(names[1])
                if ch == "W":
                    c = c.writable
        args.append(c)
        subs.append((len(args) - 1, ch in "wWV", names))
    n_all = 1 + sum(len(x[2]) for x in subs)
    st = {"n": 0}

    def on_spawn(p):
        i = p.idx
        c = 0
        if code:
            c = E.choice(f"code{i}", 2)
        st.setdefault("codes", {})[p] = c
        if p.name == "/sx/prog":
            # what the process can see when it starts
            st["pass"] = list(p.info.get("pass_fds") or ())
            st["live"] = {fd: (W.fds[fd].open, W.fds[fd].pipe, W.fds[fd].end) for fd in st["pass"] if fd in W.fds}
        else:
            p.write(p.name.encode(), "stdout")
        if exits:
            p.exit_after(1 + 2 * E.choice(f"exit{i}", 3) + i % 2, c)
        else:
            p.exit_after(1, c)
    W.on_spawn = on_spawn

    def on_kill(p, sig):
        p.exit(-sig)
    W.on_kill = on_kill
    fs = None
    if fault:
        fs = sym_fault(E, W, ["OSError", "FileNotFoundError"], 8, ops=fault)
    more = None
    if first:
        more = W.user_fd()
    probe = {}

    async def run():
        c = sh("/sx/prog", *args)
        if more is not None:
            c = c.set(pass_fds=[more])
        async with c.result as r:
            probe["run"] = r
            await asyncio.sleep(0.5)
            pipes = [W.fds[fd].pipe for fd in st["live"]]
            probe["early"] = [(f.fd, f.end) for f in W.fds.values()
                              if f.open and f.pipe is not None and any(f.pipe is x for x in pipes)]
        return r.result()

    out = execute(E, W, run, None)
    kind = out["kind"]
    E.obs("kind", kind)
    E.cover(f"outcome:{kind}")
    E.check(kind != "HANG" and not out.get("hang"), "C26 the run ends", [shape, out.get("hang")])
    E.check(not out["unreaped"], "C26 every sub-command has ended when the run returns", [shape, out["unreaped"]])
    fired = fs and fs["fired"]
    if fired:
        E.cover(f"fault:{fired[0]}")
    main = [p for p in W.procs if p.name == "/sx/prog"]
    if not main:
        E.cover("main-not-launched")
        E.check(bool(fired), "C26 the main process is started", [shape, kind])
        E.check(not W.spawns, "C26 no sub-command is started unless the main process is", [shape])
        E.check(kind in ("OSError", "FileNotFoundError"), "C26 the launch failure is raised", [shape, kind])
        return
    order = [e[4] for e in W.events if e[2] == "spawn"]
    E.check(order[0] == "/sx/prog", "C26 sub-commands are started after the main process", order)
    p = main[0]
    info = p.info
    argv = info["args"]
    E.check(len(argv) == 1 + len(args), "C26 every argument stays in its place", argv)
    used = set()
    for i, a in enumerate(args):
        if isinstance(a, str):
            E.check(argv[1 + i] == a, "C26 plain arguments are unchanged", argv)
    for pos, writable, names in subs:
        a = argv[1 + pos]
        ok = isinstance(a, str) and a.startswith("/dev/fd/") and a[8:].isdigit()
        E.check(ok, "C26 a sub-command is replaced by a /dev/fd path", [a])
        fd = int(a[8:])
        E.check(fd in st["pass"] and fd in st["live"], "C26 the main process inherits the descriptor", [a, st["pass"]])
        live, pipe, end = st["live"][fd]
        E.check(live and pipe is not None, "C26 the descriptor is an open pipe", [a])
        E.check(end == ("w" if writable else "r"), "C26 the main process gets the right end", [shape, pos, end])
        E.check(id(pipe) not in used, "C26 every substitution has a pipe of its own", [shape])
        used.add(id(pipe))
        name = names[0] if writable else names[-1]
        same = sum(x[2] is names for x in subs)
        q = [x for x in W.procs if x.name == name]
        if q:
            E.cover("sub")
            ts = [x.target("stdin" if writable else "stdout") for x in q]
            ts = [t for t in ts if t is not None and t.pipe is pipe and t.end == ("r" if writable else "w")]
            E.check(len(ts) == 1 or (not ts and len(q) < same), "C26 the sub-command is connected to the other end",
                    [shape, pos, names])
            users = [(x.name, s) for x in W.procs for s in ("stdin", "stdout", "stderr")
                     if x.target(s) is not None and x.target(s).pipe is pipe]
            E.check(len(users) == len(ts), "C26 nothing else is connected to the pipe", [users])
        if len(q) < same:
            E.check(bool(fired) or kind != "ok", "C26 every sub-command is started", [shape, names, kind])
    keep = [(f.fd, f.end) for f in W.fds.values() if f.open and f.pipe is not None and id(f.pipe) in used]
    E.check(not keep, "C26 the calling process keeps no end of the pipes open", [shape, keep])
    if "early" in probe and not fired and not preempt:
        E.check(not probe["early"], "C26 the calling process holds no end of the pipes while the command runs",
                [shape, probe["early"]])
    E.check(info.get("close_fds") is True, "C26 other descriptors are closed in the process", [info.get("close_fds")])
    want = len(subs) + (more is not None)
    E.check(len(set(st["pass"])) == len(st["pass"]) == want, "C26 exactly the pipes (and pass_fds) are inherited", [st["pass"]])
    if more is not None:
        E.check(more in st["pass"], "C26 pass_fds are still inherited")
    codes = st.get("codes", {})
    subfail = [x for x, c in codes.items() if c and x is not p]
    if fired:
        E.check(kind not in ("ok", "HANG"), "C26 a failed launch is raised", [shape, fired])
        E.check(kind == fired[1], "C26 the launch failure is raised", [shape, fired, kind])
    elif not subfail:
        E.check(kind == "ok", "C26 the run succeeds if every sub-command does", [shape, kind, repr(out["exc"])])
        E.check(len(W.procs) == n_all, "C26 every sub-command is started once", [shape, order])
        E.check(out["value"].exit_code == codes[p], "C26 the result is the main command's", [shape])
    else:
        # a sub-command exited with status 1, or was stopped before it could
        ended = [x for x in subfail if x.status == 1]
        if ended:
            E.cover("sub-failed")
            E.check(kind == "ResultError", "C26 the failure of a sub-command is raised", [shape, kind])
            if kind == "ResultError":
                E.check(out["exc"].result.exit_code == 1, "C26 the error is the failed sub-command's", [shape])
