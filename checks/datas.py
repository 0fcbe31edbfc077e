"""Data: C10 standard input, C11 captured output, C12 error limit, C27 lines."""

import asyncio
import errno
import logging
import termios

from symx.world import World, default_attrs

from .lifecycle import execute

BIG = 40000          # longest chunk: more than two reads of 16 KiB


def second(W):
    "The other command of the pipeline ends (it may not have started yet)."
    if len(W.procs) > 1:
        W.procs[1].exit(0)
    else:
        W.loop.after(1, lambda: second(W), "second")


def cat(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


class Sink(logging.Logger):
    "A logger that keeps its messages."

    def __init__(self):
        super().__init__("sx")
        self.msgs = []

    def isEnabledFor(self, level):
        return True

    def _log(self, level, msg, args, **kw):
        self.msgs.append((level, msg % args if args else msg))


def user_writer(W, slow=False):
    "A StreamWriter of the user's, and the pipe behind it."
    from symx.world import FakeFile, Pipe
    p = Pipe()
    fd = W.new_fd("pipe", "user", pipe=p, end="w")
    p.readers = p.writers = 1
    if slow:
        # room for some bytes only, until the reader has had the time
        room = {"n": W.E.int("room", 0, 1000)}

        def roomy():
            room["n"] = None

        def accept(data):
            r = room["n"]
            if r is None:
                return 1 if data is None else W.E.len(data)
            if not W.E.decide(r > 0):
                return 0
            if data is None:
                return 1
            ln = W.E.len(data)
            k = ln if W.E.decide(ln <= r) else r
            room["n"] = r - k
            return k
        p.accept = accept
        W.loop.after(5, roomy, "room")

    async def make():
        rd = _sxreader() if W.E.symbolic else asyncio.StreamReader()
        tr, pr = await W.loop.connect_write_pipe(lambda: asyncio.StreamReaderProtocol(rd),
                                                 FakeFile(W, fd, "wb"))
        return asyncio.StreamWriter(tr, pr, None, W.loop)
    return p, make


def feeder(E, W, p, chunks, stream, tag, then=None):
    """The process writes its chunks in order, each at once or a moment later."""
    todo = list(chunks)

    def step():
        while todo:
            p.write(todo.pop(0), stream)
            if todo and E.decide(E.bool(f"{tag}later")):
                W.loop.after(1, step, "write")
                return
        if then is not None:
            then()
    step()


def mkchunks(E, n, tag, text=0, encoding="utf-8", hi=BIG, fill=0):
    """n chunks of symbolic length; or, for text, `text` characters in UTF-8 cut into
    at most n pieces anywhere."""
    if not text:
        cs = [E.bytes(f"{tag}{i}", 1, hi) for i in range(n)]
        return cs, cat(cs)
    s = E.chars(f"{tag}c", text, hi=255 if encoding == "latin-1" else 0x10FFFF)
    b = s.encode(encoding)
    out = pieces(E, b, n, tag)
    if fill:
        # plain text before, so that the reads of the library end inside the symbolic part
        k = fill - 2 + E.choice(f"{tag}fill", 5)
        out[0] = b"a" * k + out[0]
        s = "a" * k + s
    return out, s


def pieces(E, b, n, tag):
    "Cut a byte string of known length into at most n non-empty pieces."
    out = []
    while len(out) < n - 1 and len(b) > 1:
        k = 1 + E.choice(f"{tag}cut", len(b))
        if k >= len(b):
            break
        out.append(b[:k])
        b = b[k:]
    if len(b):
        out.append(b)
    return out


def output(E, target="buffer", n=2, text=0, stream="stdout", merged=False, both=False,
           pty=False, slow=False, pipe=False, mode="await", encoding="utf-8", fill=0, broken=None):
    "C11: what the process writes arrives in the target."
    from shellous import sh

    W = World(E)
    W.symdata = True
    chunks, want = mkchunks(E, n, "o", text, encoding, fill=fill)
    other = [E.bytes("x0", 1, BIG)] if both else []
    oname = "stderr" if stream == "stdout" else "stdout"
    state = {"writers": 1 + bool(other)}

    def on_spawn(p):
        if pipe and p.idx == 0:
            p.exit_after(0, 0)
            return

        def done():
            state["writers"] -= 1
            if not state["writers"]:
                if broken == "read":
                    # reading the rest of the output fails
                    getattr(p, "stdout" if merged else stream).error = OSError(errno.ENOMEM, "ENOMEM")
                    W.loop.after(2, lambda: p.exit(0), "exit")
                elif slow:
                    p.exit_after(E.choice("linger", 2), 0)
                else:
                    p.exit(0)
        feeder(E, W, p, chunks, stream, "o", done)
        if other:
            feeder(E, W, p, other, oname, "x", done)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    cmd = sh("/sx/prog").set(pty=pty, encoding=encoding, error_limit=None)
    if pipe:
        cmd = sh("/sx/first").set(encoding=encoding) | cmd
    side = {}
    extra = {}

    async def run():
        c = cmd
        if target == "bytearray":
            t = E.bytearray()
        elif target == "bytesio":
            t = E.bytesio()
        elif target == "stringio":
            t = E.stringio()
        elif target == "logger":
            t = Sink()
        elif target == "writer":
            side["pipe"], make = user_writer(W, slow)
            t = await make()
            if broken == "dest":
                # whoever reads the user's stream goes away
                def leave():
                    side["pipe"].readers = 0
                    E.cover("left")
                W.loop.after(E.choice("leave", 4), leave, "leave")
        else:
            t = None
        side["target"] = t
        if both:
            o = extra["t"] = E.bytearray()
            c = c.stderr(o) if stream == "stdout" else c.stdout(o)
        elif stream == "stderr" and not merged and target != "buffer":
            c = c.stdout(sh.DEVNULL)
        if merged:
            c = c.stderr(sh.STDOUT)
        if t is not None:
            c = c.stdout(t) if stream == "stdout" or merged else c.stderr(t)
        if mode == "with":
            async with c as r:
                pass
            return r.result()
        r = await c.result
        if target == "writer":
            side["got"] = cat(side["pipe"].written)
        return r

    out = execute(E, W, run, None)
    kind = out["kind"]
    E.obs("kind", kind)
    if broken:
        E.cover("done")
        E.check(kind != "HANG", "C11 the run ends", out.get("hang"))
        if broken == "read":
            E.check(kind != "ok", "C11 output that could not be read is not passed over in silence", kind)
            return
        if kind != "ok":
            E.cover("broken")
            return
    E.check(kind == "ok", "C11 the run ends normally", [out.get("hang"), repr(out["exc"])])
    r = out["value"]
    E.cover("done")
    if target == "buffer":
        got = r.output_bytes if stream == "stdout" or merged else r.error_bytes
    elif target == "bytearray":
        got = side["target"]
    elif target in ("bytesio", "stringio"):
        got = side["target"].getvalue()
    elif target == "writer":
        got = side["got"]
        E.check(side["pipe"].writers == 0, "C11 the stream writer is closed after the last byte")
    elif target == "logger":
        check_logger(E, side["target"], want)
        got = None
    if got is not None:
        E.obs("len", E.len(got))
        if text and target != "stringio":
            want = want.encode(encoding)
        E.check(E.same(got, want), "C11 the target has exactly the output",
                [target, stream, "lengths", got, want])
        if text and target == "buffer" and (stream == "stdout" or merged):
            E.check(E.same(r.output, want.decode(encoding)), "C11 the result text is the decoded output")
    if both:
        E.check(E.same(extra["t"], cat(other)), "C11 the other stream's target has exactly its output")


def check_logger(E, log, want):
    "One message per line (trailing white space is not part of the message)."
    lines = []
    rest = want
    while len(rest):
        i = rest.find("\n")
        if i < 0:
            lines.append(rest)
            break
        lines.append(rest[:i])
        rest = rest[i + 1:]
    E.check(len(log.msgs) == len(lines), "C11 one message per line", [log.msgs, lines])
    for (lv, m), ln in zip(log.msgs, lines):
        E.check(E.same(m.rstrip(), ln.rstrip()), "C11 a message is the text of its line", [m, ln])
    if len(lines) > 1:
        E.cover("lines")


# --- C12 -----------------------------------------------------------------------------
def errlimit(E, n=2, limit="sym", fail=False, default=False, pipe=False, out=False):
    from shellous import sh
    from shellous.result import ResultError

    W = World(E)
    W.symdata = True
    lim = None if limit is None else E.int("limit", 0, 50000)
    chunks, want = mkchunks(E, n, "e", hi=300000)
    code = 1 if fail else 0
    st = {}

    def on_spawn(p):
        if pipe and p.idx == 0:
            p.exit_after(0, 0)
            return
        if out:
            p.write(b"out", "stdout")

        def drained():
            # the process blocks until somebody took all of it
            if not p.stderr.chunks:
                st["drained"] = True
                p.exit(code)

        def done():
            p.stderr.on_read = drained
            if not p.stderr.chunks:
                drained()
        feeder(E, W, p, chunks, "stderr", "e", done)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    cmd = sh("/sx/prog")
    if not default:
        cmd = cmd.set(error_limit=lim)
    else:
        lim = 1024
    if pipe:
        cmd = sh("/sx/first") | cmd
    if not fail:
        cmd = cmd.result

    async def run():
        return await cmd
    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == ("ResultError" if fail else "ok"),
            "C12 the process is never blocked", [o.get("hang"), repr(o["exc"])])
    r = o["exc"].result if fail else o["value"]
    got = r.error_bytes
    E.obs("len", E.len(got))
    E.cover("done")
    if lim is None:
        exp = want
    elif E.decide(E.len(want) > lim):
        E.cover("limited")
        exp = want[:lim]
    else:
        E.cover("within")
        exp = want
    E.check(E.same(got, exp), "C12 the stored bytes are the first error_limit bytes", [got, exp])
    E.check(st.get("drained", False), "C12 standard error is read to its end")
    if out:
        E.check(r.output_bytes == b"out", "C12 output is complete", r)


# --- C10 -----------------------------------------------------------------------------
def stdin(E, kind="bytes", n=1, text=0, reads="all", pty=False, hi=150000, encoding="utf-8",
          pipe=False, pos=False, ncap=2, raw=False):
    "What is attached to standard input reaches the process, then end of file."
    from shellous import sh

    W = World(E)
    W.symdata = True
    st = {"eof": False, "eofs": 0, "closed": False}
    if raw:
        def attrs():
            a = default_attrs()
            a[3] &= ~termios.ICANON
            a[6][termios.VEOF] = 1      # VMIN, in this mode
            return a
        W.tty_attrs = attrs
    if text:
        s = E.chars("c", text, hi=255 if encoding == "latin-1" else 0x10FFFF)
        want = s.encode(encoding)
    elif kind == "reader":
        rchunks = [E.bytes(f"r{i}", 1, hi) for i in range(n)]
        want = cat(rchunks)
    else:
        want = E.bytes("d", 0 if kind != "empty" else 0, hi)
    cap = [E.int(f"cap{i}", 0, 65536) for i in range(ncap)] if reads != "plenty" else []

    def on_spawn(p):
        if pipe and p.idx == 1:
            return                      # ends with the first
        pin = p.sink("stdin")
        st["pipe"] = pin
        st["proc"] = p

        def eof():
            # a process that reads to the end of its input
            if st["eof"] or not p.alive:
                return
            st["eof"] = True
            p.exit(0)
            if pipe:
                second(W)

        def watch():
            if pin.writers <= 0 and not pty:
                eof()
            elif pty and st.get("tty_eof"):
                eof()
            elif p.alive:
                W.loop.after(1, watch, "watch")
        # capacity: each step the process takes what is there and the pipe has room again
        room = {"n": 0, "i": 0}

        def refill():
            if st["closed"]:
                return
            room["i"] += 1
            if room["i"] > len(cap):
                room["n"] = None       # unlimited from now on
                return
            room["n"] = cap[room["i"] - 1]
            W.loop.after(2, refill, "drain")

        def accept(data):
            r = room["n"]
            if r is None:
                return 1 if data is None else E.len(data)
            if data is None:
                return 1 if E.decide(r > 0) else 0
            if not E.decide(r > 0):
                return 0
            ln = E.len(data)
            k = ln if E.decide(ln <= r) else r
            room["n"] = r - k
            return k
        pin.accept = accept
        refill()
        if reads == "early":
            def stop():
                if pty:
                    # a terminal stays open; nobody takes anything from it any more
                    room["n"] = E.int("left", 0, 65536)
                    st["closed"] = True
                elif p.alive and (pin, "r") in p.ends:
                    p.close_end(pin, "r")
                    st["closed"] = True
            when = E.choice("stop", 4)
            if when == 0:
                stop()
            else:
                W.loop.after(when, stop, "stop reading")

            def finish():
                st["eof"] = st["eof"] or pin.writers <= 0
                if pty:
                    p.write(b"answer")
                p.exit(0)
                if pipe:
                    second(W)
            if not E.decide(E.bool("exits")):
                W.loop.after(20, finish, "finish late")
            else:
                W.loop.after(when + E.choice("after", 2), finish, "finish")
        elif not pty:
            W.loop.after(1, watch, "watch")
        if pty and reads != "early":
            def written():
                got = cat(pin.written)
                total = want_tty()
                if E.decide(E.len(got) >= E.len(total)):
                    if not st.get("tty_eof") and p.alive:
                        def answer():
                            p.write(b"answer")
                            p.exit(0)
                        W.loop.after(1, answer, "answer")
                    st["tty_eof"] = True
            pin.on_write = written
            written()
    W.on_spawn = on_spawn

    def want_tty():
        if raw:
            return want
        if not E.decide(E.len(want) > 0):
            return b"\x04"
        if E.decide(want.endswith(b"\n")):
            E.cover("line-end")
            return want + b"\x04"
        E.cover("no-line-end")
        return want + b"\x04\x04"

    W.on_kill = lambda p, sig: p.exit(-sig)
    cmd = sh("/sx/prog").set(pty=pty, encoding=encoding)
    if pipe:
        cmd = cmd | sh("/sx/last")

    async def run():
        if kind == "bytes":
            src = want
        elif kind == "bytearray":
            src = E.bytearray(want)
        elif kind == "bytesio":
            src = E.bytesio(want, E.int("pos", 0, 10) if pos else 0)
        elif kind == "str":
            src = s
        elif kind == "stringio":
            src = E.stringio(s, E.choice("pos", text + 1) if pos else 0)
        elif kind == "reader":
            src = _sxreader() if E.symbolic else asyncio.StreamReader()
            todo = list(rchunks)

            def feed():
                while todo:
                    src.feed_data(todo.pop(0))
                    if E.decide(E.bool("later")):
                        W.loop.after(1, feed, "feed")
                        return
                src.feed_eof()
            feed()
        return await cmd.stdin(src).result

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.cover("done")
    pin = st["pipe"]
    got = cat(pin.written)
    E.obs("len", E.len(got))
    if reads == "early":
        if st["closed"]:
            E.cover("stopped")
        E.check(o["kind"] in ("ok", "BrokenPipeError", "ConnectionResetError"),
                "C10 a process that stops reading does not upset the run", [o.get("hang"), repr(o["exc"])])
        if pty:
            total = want_tty() if raw or E.decide(E.len(want) > 0) else b"\x04\x04"
            E.check(E.prefix_of(got, total), "C10 only the input is written to the terminal", [got, want])
            E.check(o["kind"] != "ok" or o["value"].output_bytes == b"answer",
                    "C10 the output of a process that stops reading arrives", o["value"])
            E.check(W.fds[W.ttys_parent()].open is False, "C10 the terminal is closed in the end")
            return
        E.check(E.prefix_of(got, want), "C10 only the input is written", [got, want])
        E.check(pin.writers == 0, "C10 end of file is signalled even so")
        if E.decide(E.len(got) == E.len(want)):
            E.check(o["kind"] == "ok", "C10 no error if all was written", repr(o["exc"]))
        elif kind != "reader":
            E.check(o["kind"] != "ok", "C10 unwritten input is reported", [got, want])
        return
    E.check(o["kind"] == "ok", "C10 the run ends normally", [o.get("hang"), repr(o["exc"])])
    if pty:
        E.check(o["value"].output_bytes == b"answer",
                "C10 what the process writes after its input still arrives", o["value"])
        if raw:
            E.cover("raw")
        elif not E.decide(E.len(want) > 0):
            E.check(got == b"\x04" or got == b"\x04\x04", "C10 empty input ends at once", got)
            return
        E.check(E.same(got, want_tty()), "C10 the terminal gets the input and its end-of-file characters",
                [got, want])
        return
    E.check(E.same(got, want), "C10 exactly the input is written", [got, want])
    E.check(st["eof"], "C10 end of file is signalled")


def _sxreader():
    from symx.sxaio import SXStreamReader
    return SXStreamReader()


# --- C27 -----------------------------------------------------------------------------
def lines(E, n=4, k=3, mode="cmd", stop=False, chars=0, encoding="utf-8"):
    from shellous import sh

    W = World(E)
    W.symdata = True
    if chars:
        s = E.chars("c", chars, hi=255 if encoding == "latin-1" else 0x10FFFF)
        b = s.encode(encoding)
    else:
        s = E.chars("c", n, lo=1, hi=0x7F)
        b = s.encode("utf-8")
    chunks = pieces(E, b, k, "l")
    stream = "stderr" if mode in ("stderr", "with-stderr") else "stdout"

    def on_spawn(p):
        if mode in ("pipe", "with-pipe") and p.idx == 0:
            p.exit_after(0, 0)
            return
        feeder(E, W, p, chunks, stream, "l", None if stop else lambda: p.exit_after(E.choice("exit", 2), 0))
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    c = sh("/sx/prog")
    if encoding != "utf-8":
        c = c.set(encoding=encoding)
    if mode in ("pipe", "with-pipe"):
        c = sh("/sx/first") | c
    if mode == "stderr":
        c = c.stdout(sh.DEVNULL).stderr(sh.STDOUT)
    got = []

    async def run():
        if mode in ("with", "with-pipe", "with-stderr"):
            cc = c.stdout(sh.CAPTURE) if mode != "with-stderr" else \
                c.stdout(sh.DEVNULL).stderr(sh.CAPTURE)
            async with cc as r:
                async for ln in r:
                    got.append(ln)
                    if stop:
                        break
        else:
            it = c.__aiter__()
            async for ln in it:
                got.append(ln)
                if stop:
                    break
            await it.aclose()

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.obs("lines", list(got))
    want = split_lines(E, s)
    if stop:
        if o["kind"] == "HANG" and not got:
            E.abort("no line ends and the process goes on")
        # waiting for the process is up to the caller inside `async with`
        if mode in ("with", "with-pipe", "with-stderr"):
            return
        E.cover("stopped")
        E.check(o["kind"] == "ok", "C27 leaving the loop early ends the run", [o.get("hang"), repr(o["exc"])])
        E.check(all(not p.alive and p.reaped for p in W.procs), "C27 leaving the loop early stops the process")
        E.check(len(got) == 1, "C27 one line was yielded", got)
        E.check(E.same(got[0], want[0]), "C27 the first line", [got, want])
        return
    E.check(o["kind"] == "ok", "C27 iteration ends normally", [o.get("hang"), repr(o["exc"])])
    E.check(len(got) == len(want), "C27 every line is yielded once", [got, want])
    for g, w in zip(got, want):
        E.check(E.same(g, w), "C27 a line is yielded as it was written", [g, w])
    if len(want) > 1:
        E.cover("lines")
    E.cover("done")


WRITES = (b"a\n", b"b", b"\n", b"c\nd", b"e\nf\n")


def timely(E, k=3, mode="cmd", pty=False):
    "When each line is handed over: the process writes at symbolic instants."
    from shellous import sh

    W = World(E)
    plan = [WRITES[E.choice(f"w{i}", len(WRITES))] for i in range(k)]
    gaps = [E.real(f"gap{i}", 0, 10) for i in range(k + 1)]
    stream = "stderr" if mode in ("stderr", "with-stderr") else "stdout"
    done = []      # (instant, line) as completed by the process
    buf = [b""]

    def complete(final=False):
        while b"\n" in buf[0]:
            i = buf[0].index(b"\n") + 1
            done.append((W.loop._now, buf[0][:i]))
            buf[0] = buf[0][i:]
        if final and buf[0]:
            done.append((W.loop._now, buf[0]))

    def on_spawn(p):
        if mode in ("pipe", "with-pipe") and p.idx == 0:
            p.exit_after(0, 0)
            return

        def step(i=0):
            if i == k:
                complete(True)
                p.exit(0)
                return
            p.write(plan[i], stream)
            buf[0] += plan[i]
            complete()
            W.loop.after(gaps[i + 1], lambda: step(i + 1), "write")
        W.loop.after(gaps[0], step, "write")
    W.on_spawn = on_spawn
    c = sh("/sx/prog")
    if pty:
        c = c.set(pty=True)
    if mode in ("pipe", "with-pipe"):
        c = sh("/sx/first") | c
    if mode == "stderr":
        c = c.stdout(sh.DEVNULL).stderr(sh.STDOUT)
    got = []

    async def run():
        if mode.startswith("with"):
            cc = c.stdout(sh.CAPTURE) if mode != "with-stderr" else \
                c.stdout(sh.DEVNULL).stderr(sh.CAPTURE)
            async with cc as r:
                async for ln in r:
                    got.append((W.loop._now, ln.encode()))
        else:
            async for ln in c:
                got.append((W.loop._now, ln.encode()))

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.obs("lines", [x for _, x in got])
    E.check(o["kind"] == "ok", "C27 iteration ends normally", [o.get("hang"), repr(o["exc"])])
    E.check([x for _, x in got] == [x for _, x in done], "C27 every line is yielded once", [got, done])
    for (t, x), (w, _) in zip(got, done):
        E.check(t == w, "C27 a line is yielded as soon as it is complete", [x])
    if len(done) > 1:
        E.cover("lines")
    E.cover("done")


def split_lines(E, s):
    out = []
    while len(s):
        i = s.find("\n")
        if i < 0:
            return out + [s]
        out.append(s[:i + 1])
        s = s[i + 1:]
    return out


def preflight(E):
    "What iteration captures by itself, and what it rejects."
    from shellous import sh

    W = World(E)
    pipe = E.choice("pipe", 2) == 1
    outs = [("default", None), ("devnull", sh.DEVNULL), ("capture", sh.CAPTURE)]
    errs = [("default", None), ("stdout", sh.STDOUT), ("capture", sh.CAPTURE), ("devnull", sh.DEVNULL)]
    oi, ei = E.choice("out", len(outs)), E.choice("err", len(errs))
    c = sh("/sx/prog")
    if pipe:
        c = sh("/sx/first") | c
    if outs[oi][1] is not None:
        c = c.stdout(outs[oi][1])
    if errs[ei][1] is not None:
        c = c.stderr(errs[ei][1])
    on, en = outs[oi][0], errs[ei][0]
    merged = en == "stdout" and on != "devnull"
    errsonly = en == "stdout" and on == "devnull"

    def on_spawn(p):
        if pipe and p.idx == 0:
            p.exit_after(0, 0)
            return
        p.write(b"out\n", "stdout")
        p.write(b"err\n", "stderr")
        p.exit_after(1, 0)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    got = []

    async def run():
        async for ln in c:
            got.append(ln)
    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    if on in ("default", "capture") and en == "capture":
        E.cover("both")
        E.check(o["kind"] == "RuntimeError" and not W.procs, "C27 capturing both is rejected", repr(o["exc"]))
        return
    E.check(o["kind"] == "ok", "C27 iteration ends normally", [o.get("hang"), repr(o["exc"])])
    want = []
    if on != "devnull":
        want.append("out\n")
    if merged or errsonly or en == "capture":
        want.append("err\n")
    E.check(got == want, "C27 iteration yields the captured stream", [on, en, got, want])
    E.cover("yielded")
