"""Prompt sessions: C19 conservation, C20 matching, C21 sending."""

import asyncio
import re

from symx import core
from symx.values import is_sym
from symx.world import World

from .datas import BIG, cat, feeder, pieces
from .lifecycle import execute

LIT = ["ab", ".", "a|b", "a*", "(b", "[a]", "$", "\\n", "^a", "aa", "é.", "{1}", "a b#", "b ", "\n", "\ta"]
LISTS = [["a", "b"], ["ab", "a"], [".", "aa"], ["b", "a|"], ["(", ")*"], ["ab"], ["aba", "b"], ["a ", "b\n"]]
RES = ["a|bc", "[ab]c", "a+b", "(a)(b)?", "a$", "\\Aa", "x?y", "a.", "[^a]b", "\\d\\d"]


def norm_nl(E, s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


class Talk:
    """A session and what was seen of it.

    `full` is the text the process will ever write; `seen` what calls returned.
    """

    def __init__(self, E, W, cli, full):
        self.E, self.W, self.cli, self.full = E, W, cli, full
        self.seen = ""
        self.waiting = None

    def conserved(self, where):
        t = self.seen + self.cli.pending
        self.E.check(len(t) <= len(self.full) and self.E.same(self.full[:len(t)], t),
                     "C19 returned and pending text is the beginning of the output", [where, t, self.full])


def research(pat, s):
    from symx import text
    return text.search(pat, s) if is_sym(s) else pat.search(s)


def occurs(E, prompt, s):
    "Start of the leftmost occurrence of a literal prompt or list, or None."
    ps = [prompt] if isinstance(prompt, str) else prompt
    for i in range(max(0, len(s) - 20) if len(s) > 300 else 0, len(s) + 1):
        for p in ps:
            if i + len(p) <= len(s) and E.decide(s[i:i + len(p)] == p):
                return i
    return None


def session(E, ops="ea", n=3, k=3, prompt="lit", nl=False, encoding="utf-8", pty=False, eof="exit",
            default_timeout=False, raw=False, fill=0, lo=0, hi=0x10FFFF, later=True, pick=None, long=0, err=False, pipe=False):
    """ops: e expect, d expect the default, n expect without any pattern, t expect with a timeout,
    c expect under cancellation, p read_pending, a read_all, A read_all under cancellation,
    T read_all with a timeout, m command, M command that allows EOF, w wait a moment, s send a lot of text,
    S the same with a timeout, C the same under cancellation

    long: the prompt is a text of this length, somewhere in the (ASCII) output

    eof: exit (the process exits after its output), shut (it closes its stdout first), no (it waits for
    the end of the session)"""
    from shellous import sh

    W = World(E)
    W.symdata = True
    if raw:
        b = E.ubytes("b", n)
        full = b.decode(*encoding.split())
    else:
        full = E.chars("c", n, lo=lo, hi=min(hi, 255) if encoding == "latin-1" else hi)
        b = full.encode(encoding.split()[0])
    if long:
        # a long prompt among the symbolic text
        P = "".join(chr(97 + i * 7 % 26) for i in range(long - 1)) + ">"
        full = full[:1] + P + full[1:]
        b = b[:1] + P.encode() + b[1:]
    if fill:
        f = fill - 2 + E.choice("fill", 4)
        full = "-" * f + full
        b = b"-" * f + b
        at = f + E.choice("cut", len(b) - f)
        chunks = [x for x in (b[:at], b[at:]) if len(x)]
    else:
        chunks = pieces(E, b, k, "o")
    st = {"fed": 0, "times": []}
    if not nl and not raw and not fill:
        st["ends"] = [len(full[:i].encode(encoding)) for i in range(len(full) + 1)]
        st["sizes"] = [sum(len(c) for c in chunks[:i + 1]) for i in range(len(chunks))]
    if nl:
        full = norm_nl(E, full)
    group = {"lit": LIT, "list": LISTS, "re": RES}[prompt]
    if long:
        group = [P]
    if pick is not None:
        group = [group[i] for i in pick]

    def choose(tag):
        p = group[E.choice(tag, len(group))]
        return re.compile(p) if prompt == "re" else p

    def on_spawn(p):
        if p.name == "/sx/head":
            p.exit_after(E.choice("head", 2), 0)
            return

        def finish():
            st["written"] = True
            if eof == "shut":
                p.close_end(p.stdout, "w")
                if st.get("closing"):
                    p.exit_after(4, 0)
            elif eof == "exit" or st.get("closing"):
                p.exit_after(E.choice("exit", 2), 0)

        st["finish"] = finish
        if set(ops) & set("sSC"):
            pin = p.sink("stdin")
            opens = E.choice("opens", 3)
            pin.accept = lambda data: 0 if W.loop._now < opens else 1 if data is None else len(data)
            W.loop.after(opens, lambda: None, "opens")
        if err:
            p.write(err, "stderr")
        feeder_t(E, W, p, chunks, st, finish)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    if err:
        err = (b"err", b"\xff", "\u20ac".encode()[:2])[E.choice("err", 3)]
    default = None
    if "d" in ops:
        default = choose("default")
    elif set(ops) & set("entcmMq") and E.decide(E.bool("has-default")):
        # it must not matter
        default = re.compile(group[-1]) if prompt == "re" else group[-1]
    dt = E.real("dt", 0, 6) if default_timeout else None
    if dt is not None:
        E.assume(dt > 0)
    cmd = sh("/sx/prog").set(pty=pty, encoding=encoding)
    if pipe:
        cmd = sh("/sx/head") | cmd
    res = {}

    async def run():
        async with cmd.prompt(default, timeout=dt, normalize_newlines=nl) as cli:
            T = Talk(E, W, cli, full)
            res["talk"] = T
            for i, op in enumerate(ops):
                await step(E, W, cli, T, st, op, i, choose, default, dt)
                T.conserved(op)
            st["closing"] = True
            if eof != "exit" and st.get("written"):
                st["finish"]()
            while True:
                try:
                    T.seen = T.seen + await cli.read_all(timeout=100)
                    break
                except asyncio.TimeoutError:
                    T.conserved("read_all")
            E.check(cli.at_eof and cli.pending == "", "C19 nothing is pending after read_all")
        res["result"] = cli.result

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    if o["kind"] == "HANG" and res["talk"].waiting:
        op, limit = res["talk"].waiting
        E.check(limit is None or op not in "edtmMq", "C20 expect ends when its timeout expires", [op, o.get("hang")])
    E.check(o["kind"] in ("ok", "HANG"), "C20 nothing but the documented exceptions is raised", repr(o["exc"]))
    E.check(o["kind"] == "ok", "C19 the session ends normally", [o.get("hang"), repr(o["exc"])])
    T = res["talk"]
    E.obs("len", len(T.seen))
    E.check(T.seen == full, "C19 all output was returned once, in order", [T.seen, full])
    if err:
        E.check(res["result"].error_bytes == err, "C19 standard error is kept apart", res["result"].error_bytes)
    E.cover("done")


def feeder_t(E, W, p, chunks, st, then):
    todo = list(chunks)
    st["end"] = None

    def step():
        while todo:
            p.write(todo.pop(0), "stdout")
            st["fed"] += 1
            st["times"].append(W.loop._now)
            if todo and E.decide(E.bool("later")):
                W.loop.after(1, step, "write")
                return
        then()
    step()


async def step(E, W, cli, T, st, op, i, choose, default, dt):
    tag = f"{op}{i}"
    if op == "p":
        before = cli.pending
        got = cli.read_pending()
        E.check(got == before, "C19 read_pending returns what was pending", [got, before])
        E.check(cli.pending == "", "C19 read_pending empties the buffer")
        T.seen = T.seen + got
        return
    if op == "w":
        await asyncio.sleep(1)
        return
    if op == "n":
        if default is None:
            try:
                await cli.expect()
            except TypeError:
                E.cover("no-pattern")
            except core.PathAbort:
                raise
            except Exception as ex:
                E.check(False, "C20 TypeError without a pattern", repr(ex))
            else:
                E.check(False, "C20 TypeError without a pattern")
            return
        op = "d"
    prompt = default if op == "d" else choose(f"p{i}") if op in "etcmMq" else None
    tmo = None
    if op in "tTSq":
        tmo = E.real(f"timeout{i}", 0, 4)
        E.assume(tmo > 0)
    limit = tmo if tmo is not None else dt
    start = W.loop._now
    before = cli.pending
    ended_before = cli.at_eof

    async def act():
        if op == "d":
            return await cli.expect()
        if op in "aAT":
            return await cli.read_all(timeout=tmo)
        if op in "sSC":
            return await cli.send("x" * 200000, timeout=tmo)
        if op in "mMq":
            return await cli.command("x", prompt=prompt, timeout=tmo, allow_eof=op == "M")
        return await cli.expect(prompt, timeout=tmo)

    t = asyncio.ensure_future(act())
    fired = []
    if op in "cAC":
        def cancel():
            if not t.done():
                t.cancel()
                fired.append(1)
        W.loop.at_step(E.int(f"cancel{i}", 1, 80), cancel)
    T.waiting = (op, limit)
    await asyncio.wait([t])
    T.waiting = None
    if fired:
        E.check(t.cancelled(), f"{'C19' if op == 'A' else 'C21' if op == 'C' else 'C20'} a cancelled call raises CancelledError",
                [op, t.cancelled() or t.exception() or t.result()])
    if limit is not None and op in "edtq" and not fired:
        E.check(W.loop._now <= start + limit, "C20 expect waits no longer than its timeout", [op, W.loop._now, start, limit])
    if t.cancelled():
        E.cover("cancelled")
        E.check(bool(fired), "C19 CancelledError only if the call was cancelled")
        return
    if fired and t.exception() is None:
        E.cover("cancelled-late")
    ex = t.exception()
    if ex is not None:
        E.cover(type(ex).__name__)
        if op in "sSC" and not isinstance(ex, asyncio.TimeoutError):
            E.check(False, "C19 send fails", repr(ex))
        if isinstance(ex, asyncio.TimeoutError):
            E.check(limit is not None, "C20 TimeoutError only with a timeout")
            if limit is not None:
                E.check(W.loop._now >= start + limit, "C20 TimeoutError only when the timeout expired",
                        [W.loop._now, start, limit])
                if prompt is not None and not isinstance(prompt, re.Pattern):
                    E.check(occurs(E, prompt, cli.pending) is None, "C20 no match is pending after a timeout",
                            [prompt, cli.pending])
        elif isinstance(ex, EOFError):
            E.check(op in "edtcmMq", "C20 EOFError from expect only", op)
            E.check(op != "M" or ended_before, "C20 command that allows EOF raises EOFError only after it", op)
            E.check(T.seen + cli.pending == T.full, "C20 EOFError only at the end of the output", [T.seen, cli.pending])
            if op in "mMq" and ended_before:
                E.check(T.cli.pending == before, "C19 command at EOF takes nothing", op)
                return
            if prompt is not None and not isinstance(prompt, re.Pattern):
                E.check(op in "mMq" or occurs(E, prompt, cli.pending) is None, "C20 EOFError only without a match",
                        [prompt, cli.pending])
            elif prompt is not None:
                E.check(op in "mMq" or research(prompt, cli.pending) is None, "C20 EOFError only without a match",
                        [prompt, cli.pending])
        else:
            import traceback
            E.check(False, "C20 an unexpected exception", [op, repr(ex), traceback.format_tb(ex.__traceback__)[-2:]])
        return
    E.cover("returned")
    if op in "sSC":
        E.cover("sent")
        if W.loop._now > start:
            E.cover("sent-later")
        return
    if op in "aAT":
        T.seen = T.seen + t.result()
        E.check(cli.pending == "", "C19 read_all empties the buffer")
        return
    if op == "M":
        # which of the two is told by the end of the output
        T.seen = T.seen + t.result()
        if isinstance(prompt, str):
            rest = T.full[len(T.seen):]
            if cli.at_eof and cli.pending == "" and E.decide(T.seen == T.full):
                E.cover("took-all")
                E.check(occurs(E, prompt, t.result()) is None, "C20 the text ends at the leftmost occurrence",
                        [prompt, t.result()])
            else:
                E.check(len(rest) >= len(prompt) and rest[:len(prompt)] == prompt,
                        "C20 command's text ends before the prompt", [prompt, t.result(), rest])
                T.seen = T.seen + prompt
                E.cover("matched")
        else:
            E.abort("the matched text is not reported")
        return
    if op in "mq":
        # the prompt is a literal known to have matched right after the answer
        if isinstance(prompt, str):
            T.seen = T.seen + t.result() + prompt
        else:
            E.abort("the matched text is not reported")
        return
    text, m = t.result()
    T.seen = T.seen + text + m.group(0)
    avail = text + m.group(0) + cli.pending
    if isinstance(prompt, re.Pattern):
        f = research(prompt, avail)
        E.check(f is not None and f.start() == len(text), "C20 the text ends at the leftmost match", [prompt, text, m])
        if f is not None:
            E.check(f.group(0) == m.group(0), "C20 the match is the leftmost match", [prompt, f, m])
    else:
        ps = [prompt] if isinstance(prompt, str) else prompt
        hit = [p for p in ps if len(p) == len(m.group(0)) and E.decide(m.group(0) == p)]
        E.check(bool(hit), "C20 a string prompt matches itself literally", [ps, m])
        E.check(occurs(E, prompt, avail) == len(text), "C20 the text ends at the leftmost occurrence",
                [prompt, text, avail])
    # it came back at the very read that completed the match
    if st.get("ends") and not isinstance(prompt, re.Pattern):
        need = st["ends"][len(T.seen)]
        j = next(j for j, n in enumerate(st["sizes"]) if n >= need)
        E.check(j < len(st["times"]), "C20 (internal) the text was written")
        when = st["times"][j]
        when = when if E.decide(when > start) else start
        E.check(W.loop._now == when, "C20 expect returns at the first read with a match",
                [W.loop._now, start, st["times"], j])


# --- C21 -----------------------------------------------------------------------------
ENDS = ["\n", None, "\r\n", "", "é", "default"]


def send(E, kind="bytes", wait="none", timeout=None, cancel=False, times=1, outs=3, hi=200000, text=2,
         dies=False, pipe_cap=True, encoding="utf-8", concrete_end=True):
    """wait: none (input is read at once), slow (at a symbolic instant), output (only once all of
    its output was taken), never"""
    from shellous import sh

    W = World(E)
    W.symdata = True
    st = {"open": wait == "none", "room": 0, "dead": False}
    total = b""
    outputs = [b"o%d" % i * 70000 for i in range(outs)] if wait == "output" else ["hello".encode(encoding)]
    full = cat(outputs).decode(encoding)

    def on_spawn(p):
        pin = p.sink("stdin")
        st["pin"], st["p"] = pin, p
        st["room"] = E.int("cap", 0, 65536) if pipe_cap else 0
        todo = st["todo"] = list(outputs)

        def accept(data):
            if st["open"]:
                return 1 if data is None else E.len(data)
            r = st["room"]
            if not E.decide(r > 0):
                return 0
            if data is None:
                return 1
            ln = E.len(data)
            k = ln if E.decide(ln <= r) else r
            st["room"] = r - k
            return k
        pin.accept = accept

        def emit():
            if p.stdout.chunks:
                return
            if todo:
                p.write(todo.pop(0), "stdout")
            elif wait == "output":
                st["open"] = True
        p.stdout.on_read = emit
        W.loop.after(1 + E.choice("starts", 2), emit, "output")
        if wait == "slow":
            d = E.real("opens", 0, 10)
            st["opens"] = d
            W.loop.after(d, lambda: st.__setitem__("open", True), "opens")
        if dies:
            def die():
                st["dead"] = True
                p.close_end(pin, "r")
            W.loop.after(E.choice("dies", 4), die, "stops reading")
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    T = None
    if timeout:
        T = E.real("timeout", 0, 8)
        E.assume(T > 0)
    data = []
    for i in range(times):
        if kind == "bytes":
            b = E.bytes(f"t{i}", 0, hi)
            data.append((b, b))
        else:
            s = E.chars(f"t{i}", text, hi=255 if encoding == "latin-1" else 0x10FFFF)
            data.append((s, s.encode(encoding)))
    res = {"talk": None}
    cmd = sh("/sx/prog").set(encoding=encoding)

    async def one(cli, i):
        nonlocal total
        x, b = data[i]
        end = ENDS[E.choice(f"end{i}", len(ENDS))]
        kw = {} if end == "default" else {"end": end}
        tail = {"default": "\n", None: ""}.get(end, end)
        if isinstance(x, str):
            b, tail = (x + tail).encode(encoding), b""
        else:
            tail = tail.encode(encoding)
        if timeout == "explicit":
            kw["timeout"] = T
        start = W.loop._now

        async def act():
            nonlocal total
            total = total + (b + tail)
            await cli.send(x, **kw)
        t = asyncio.ensure_future(act())
        fired = []
        if cancel:
            def stop():
                if not t.done():
                    t.cancel()
                    fired.append(1)
            W.loop.at_step(E.int(f"cancel{i}", 1, 80), stop)
        await asyncio.wait([t])
        got = cat(st["pin"].written)
        left = E.len(total) - E.len(got)
        if t.cancelled():
            E.cover("cancelled")
            E.check(bool(fired), "C21 CancelledError only if the call was cancelled")
        elif t.exception() is None:
            E.cover("returned")
            E.check(left <= 65536, "C21 send returns when the process has accepted its text",
                    [E.len(total), E.len(got)])
        elif isinstance(t.exception(), asyncio.TimeoutError):
            E.cover("TimeoutError")
            E.check(T is not None, "C21 TimeoutError only with a timeout")
            if T is not None:
                E.check(W.loop._now == start + T, "C21 TimeoutError when the timeout expires", [W.loop._now, start, T])
        elif isinstance(t.exception(), (BrokenPipeError, ConnectionResetError)):
            E.cover("broken")
            E.check(st["dead"], "C21 a broken pipe only if the process stopped reading")
        else:
            E.check(False, "C21 an unexpected exception", repr(t.exception()))
        E.check(E.prefix_of(got, total), "C21 the text is written in order, once", [got, total])

    async def run():
        async with cmd.prompt(timeout=T if timeout == "default" else None) as cli:
            await asyncio.sleep(E.choice("late", 4))
            for i in range(times):
                await one(cli, i)
            st["open"] = True
            watch()
            got = await cli.read_all(timeout=100)
            E.check(got == full, "C21 what was read while sending is still available", [len(got), len(full)])

    def watch():
        # the process ends once it has read everything
        p = st["p"]
        if not p.alive:
            return
        if dies or E.decide(E.len(cat(st["pin"].written)) >= E.len(total)):
            if not p.stdout.chunks and not st["todo"]:
                p.exit(0)
                return
        W.loop.after(1, watch, "watch")

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.cover("done")
    if dies:
        E.check(o["kind"] in ("ok", "BrokenPipeError", "ConnectionResetError"), "C21 the session ends",
                [o.get("hang"), repr(o["exc"])])
        return
    E.check(o["kind"] == "ok", "C21 the session ends normally", [o.get("hang"), repr(o["exc"])])
    got = cat(st["pin"].written)
    E.obs("len", E.len(got))
    E.check(E.same(got, total), "C21 exactly the text and its line ending are written, once", [got, total])


SECRET = "s3cr3t-Zq"


class Records:
    "Collects everything that is logged while active, with prompt logging on."

    def __init__(self):
        import logging
        self.texts = []
        outer = self

        class H(logging.Handler):
            def emit(self, r):
                outer.texts.append(r.getMessage())
        self.h = H(1)

    def __enter__(self):
        import logging
        import shellous.prompt as m
        self.m, self.was = m, getattr(m, "LOG_PROMPT", None)
        if self.was is not None:
            m.LOG_PROMPT = True
        self.lg = logging.getLogger("shellous")
        self.level, self.dis = self.lg.level, logging.root.manager.disable
        logging.disable(0)
        self.lg.addHandler(self.h)
        self.lg.setLevel(1)
        self.prop, self.lg.propagate = self.lg.propagate, False
        return self

    def __exit__(self, *a):
        import logging
        if self.was is not None:
            self.m.LOG_PROMPT = self.was
        self.lg.removeHandler(self.h)
        self.lg.setLevel(self.level)
        self.lg.propagate = self.prop
        logging.disable(self.dis)


def noecho(E, cmdmode=False, again=False):
    "send(no_echo=True): nothing before echo is off, nothing secret in the log."
    import termios
    from shellous import sh

    W = World(E)
    W.symdata = True
    st = {"off": None}
    kind = E.choice("kind", 3)          # str, bytes, long
    secret = [SECRET, SECRET.encode(), SECRET * 300][kind]
    if cmdmode and kind == 1:
        E.abort("command takes text")

    def on_spawn(p):
        st["p"] = p
        pin = st["pin"] = p.sink("stdin")

        def off():
            st["off"] = W.loop._now
            a = list(p.tty.attrs)
            a[3] = a[3] & ~termios.ECHO
            p.tty.attrs = a

        def on():
            a = list(p.tty.attrs)
            a[3] = a[3] | termios.ECHO
            p.tty.attrs = a
        if not E.decide(E.bool("never")):
            d = E.real("off", 0, 40)
            W.loop.after(d, off, "echo off")
            if again:
                e = E.real("on", 0, 40)
                E.assume(e > d)
                W.loop.after(e, on, "echo on")

        def wrote():
            st.setdefault("first", W.loop._now)
            st.setdefault("echo", bool(p.tty.attrs[3] & termios.ECHO))
            if cmdmode:
                p.write(b"ok> ", "stdout")
        pin.on_write = wrote
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    r = Records()
    res = {}

    async def run():
        async with sh("/sx/prog").set(pty=True).prompt("ok> ", timeout=100) as cli:
            try:
                if cmdmode:
                    res["answer"] = await cli.command(secret, no_echo=True)
                else:
                    await cli.send(secret, no_echo=True)
                res["kind"] = "ok"
            except RuntimeError:
                res["kind"] = "RuntimeError"
            st["at"] = W.loop._now
            res["echo"] = cli.echo
            res["tty"] = bool(st["p"].tty.attrs[3] & termios.ECHO)
            res["written"] = cat(st["pin"].written)
            st["pin"].on_write = None
            st["p"].exit(0)
            await asyncio.sleep(0)

    with r:
        o = execute(E, W, run, None)
    E.obs("kind", [o["kind"], res.get("kind")])
    E.check(o["kind"] == "ok", "C21 the session ends normally", [o.get("hang"), repr(o["exc"])])
    E.check(res["echo"] == res["tty"], "C21 echo tells the state of the terminal")
    raw = secret if isinstance(secret, bytes) else secret.encode()
    if res["kind"] == "ok":
        E.cover("sent")
        E.check(not st["echo"], "C21 no_echo writes nothing while echo is on")
        E.check(res["written"] == raw + b"\n", "C21 no_echo writes the text once", res["written"])
        if cmdmode:
            E.check(res["answer"] == "", "C21 the answer of a command")
    else:
        E.cover("gave-up")
        E.check(res["written"] == b"", "C21 no_echo writes nothing while echo is on")
        E.check(st["at"] >= 30, "C21 no_echo waits for echo to be turned off", st["at"])
    # the text as such, and in any piece of some length
    E.check(not any(SECRET in t for t in r.texts), "C21 no_echo text is never logged")
    if any("send" in t for t in r.texts):
        E.cover("logged")


def closing(E, how="end", sends=1, pipe=False, pty=False, hi=200000):
    "The process of a session ends when its input does."
    from shellous import sh

    W = World(E)
    W.symdata = True
    st = {"eof": None}
    data = [E.bytes(f"d{i}", 1, hi) for i in range(sends)]

    def on_spawn(p):
        if pipe and p.name != "/sx/prog":
            # the others end with their input, too
            W.loop.after(1, lambda: wait(p), "wait")
            return
        pin = p.sink("stdin")
        st["pin"] = pin

        def watch():
            if p.alive and (pin.writers <= 0 or pty and st.get("eot")):
                st["eof"] = True
                p.exit(0)
            elif p.alive:
                W.loop.after(1, watch, "watch")
        W.loop.after(1, watch, "watch")

    def wait(p):
        if not p.alive:
            return
        if st["eof"]:
            p.exit(0)
        else:
            W.loop.after(1, lambda: wait(p), "wait")
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    cmd = sh("/sx/prog")
    if pipe:
        cmd = cmd | sh("/sx/last")
    ended = []

    async def run():
        async with cmd.prompt("x") as cli:
            for d in data:
                await cli.send(d, end="")
            E.check(st["pin"].writers > 0, "C10 the input of a session stays open until it is closed")
            if how == "close":
                cli.close()
                if E.decide(E.bool("twice")):
                    cli.close()
                rest = await cli.read_all()
                ended.append(st["eof"])
                E.check(rest == "", "C10 (internal) no output", rest)
            try:
                cli.result
            except RuntimeError:
                E.cover("running")
            else:
                E.check(False, "C10 (internal) no result before the end")
        return cli.result

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == "ok", "C10 closing a session ends its input", [o.get("hang"), repr(o["exc"])])
    got = cat(st["pin"].written)
    E.obs("len", E.len(got))
    E.check(E.same(got, cat(data)), "C10 exactly the text sent is written", [got, data])
    E.check(st["eof"], "C10 end of file is signalled")
    E.check(not any(p.signals for p in W.procs), "C10 a session that is closed is not signalled")
    E.cover("done")
