"""C29 terminal settings: echo, end-of-file character, modes and size."""

import asyncio
import io
import termios

from symx.world import World

from .datas import _sxreader
from .lifecycle import execute

ECHO, ICANON, ISIG, OPOST = termios.ECHO, termios.ICANON, termios.ISIG, termios.OPOST
NAMES = ("iflag", "oflag", "cflag", "lflag", "ispeed", "ospeed")


def sym_attrs(E, tag="", canon=None, eof=None):
    "Any terminal attributes."
    a = [E.bv(f"{n}{tag}", 32) for n in NAMES]
    if canon is True:
        E.assume((a[3] & ICANON) != 0)
    elif canon is False:
        E.assume((a[3] & ICANON) == 0)
    cc = [E.ubytes(f"cc{tag}", 1) for _ in range(32)]
    if eof is not None:
        cc[termios.VEOF] = eof
    if not E.decide((a[3] & ICANON) != 0):
        # tcgetattr gives numbers for these two then
        cc[termios.VMIN] = 3
        cc[termios.VTIME] = 5
    a.append(cc)
    return a


def copy(a):
    return a[:6] + [list(a[6])]


def put_echo(lflag, v):
    return lflag | ECHO if v else lflag & (0xFFFFFFFF ^ ECHO)


def same_cc(E, a, b):
    ok = [E.same(x, y) if isinstance(x, bytes) and isinstance(y, bytes) else
          not isinstance(x, bytes) and not isinstance(y, bytes) and x == y for x, y in zip(a, b)]
    return E.And(len(a) == len(b), *ok)


def unchanged(E, a, b, but=(3,)):
    for i, n in enumerate(NAMES):
        if i not in but:
            E.check(b[i] == a[i], f"C29 {n} stays as it was")
    E.check(same_cc(E, a[6], b[6]), "C29 the control characters stay as they were")


def start(E, W, attrs):
    W.symdata = True
    W.tty_attrs = lambda: copy(attrs)
    st = {}

    def on_spawn(p):
        st["p"] = p
        st["tty"] = p.tty
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: p.exit(-sig)
    return st


def lflags(E, st):
    return st["tty"].attrs


def echo(E, ops=2):
    "Prompt.echo: read, set, and changes made by the process itself."
    from shellous import sh

    W = World(E)
    a0 = sym_attrs(E)
    st = start(E, W, a0)

    async def run():
        async with sh("/sx/prog").set(pty=True).prompt("x") as cli:
            tty = st["tty"]
            E.check(tty.attrs[3] == a0[3], "C29 the terminal is left alone unless told")
            for i in range(ops):
                before = copy(tty.attrs)
                kind = E.choice("op", 3)
                if kind == 0:
                    v = E.decide(E.bool("value"))
                    cli.echo = v
                    E.check(tty.attrs[3] == put_echo(before[3], v), "C29 setting echo changes the echo flag only",
                            [i, v])
                    unchanged(E, before, tty.attrs)
                    E.check(cli.echo == v, "C29 echo reads back the value set", [i, v])
                    E.cover("set" if v else "clear")
                elif kind == 1:
                    e = cli.echo
                    E.check(E.Not((before[3] & ECHO) != 0) if not e else (before[3] & ECHO) != 0,
                            "C29 echo tells the state of the terminal", [i, e])
                    E.check(tty.attrs[3] == before[3], "C29 reading echo changes nothing")
                    unchanged(E, before, tty.attrs)
                else:
                    tty.attrs = sym_attrs(E, "p", canon=bool(E.decide((before[3] & ICANON) != 0)))
                    E.cover("process")
            st["p"].exit(0)

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == "ok", "C29 the session ends normally", [o.get("hang"), repr(o["exc"])])


def noterm(E):
    "Prompt.echo without a terminal."
    from shellous import sh

    W = World(E)
    W.symdata = True
    kind = E.choice("kind", 3)
    procs = []
    W.on_spawn = procs.append
    W.on_kill = lambda p, sig: p.exit(-sig)
    cmd = sh("/sx/prog") if kind < 2 else sh("/sx/prog") | sh("/sx/prog2")
    if kind == 1:
        cmd = cmd.stderr(sh.INHERIT)

    async def run():
        async with cmd.prompt("x") as cli:
            for i in range(2):
                if E.decide(E.bool("reads")):
                    E.check(cli.echo is False, "C29 without a terminal echo is off")
                    E.cover("reads")
                    continue
                try:
                    cli.echo = E.decide(E.bool("value"))
                except RuntimeError:
                    E.cover("refused")
                else:
                    E.check(False, "C29 without a terminal echo cannot be set", kind)
            for p in procs:
                p.exit(0)

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == "ok", "C29 the session ends normally", [o.get("hang"), repr(o["exc"])])


def adapter(E, mode="cooked", echo=True, args="sym", bare=False):
    "pty=cooked/raw/cbreak: mode, echo and size."
    import shellous
    from shellous import sh

    W = World(E)
    old = (E.bv("rows0", 16), E.bv("cols0", 16))
    W.tty_size = old
    # cooked() asserts that the terminal is in canonical mode with ^D, as a new one is.
    a0 = sym_attrs(E, canon=True, eof=b"\x04") if mode == "cooked" else sym_attrs(E)
    st = start(E, W, a0)
    rows = cols = 0
    kw = {}
    which = E.choice("given", 4)
    if which & 1:
        rows = kw["rows"] = E.bv("rows", 16)
    if which & 2:
        cols = kw["cols"] = E.bv("cols", 16)
    if mode == "cooked" and (not echo or E.decide(E.bool("say"))):
        kw["echo"] = echo
    fn = getattr(shellous, mode)
    if E.decide(E.bool("positional")) and which == 3:
        r, c = kw.pop("rows"), kw.pop("cols")
        pty = fn(r, c, **kw)
    else:
        pty = fn(**kw)
    cmd = sh("/sx/prog").set(pty=pty)
    again = E.decide(E.bool("again"))

    async def one():
        async with cmd.stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run:
            st.setdefault("ttys", []).append(st["tty"])
            st["p"].exit(0)

    async def run():
        await one()
        if again:
            W.tty_attrs = lambda: copy(a0)
            await one()

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == "ok", "C29 the command runs", [o.get("hang"), repr(o["exc"])])
    asked = E.decide(E.Or(rows != 0, cols != 0))
    E.cover("size" if asked else "no-size")
    for t in st["ttys"]:
        r, c = t.winsize
        if asked:
            E.check(E.And(r == rows, c == cols), "C29 the size asked for is set")
        else:
            E.check(E.And(r == old[0], c == old[1], t.resized == 0), "C29 the size is left alone")
        b = t.attrs
        if mode == "cooked":
            E.check(b[3] == (a0[3] if echo else put_echo(a0[3], False)), "C29 cooked changes echo only, if asked")
            unchanged(E, a0, b)
        else:
            E.check((b[3] & (ICANON | ECHO)) == 0, f"C29 {mode} turns off canonical mode and echo")
            if mode == "raw":
                E.check(E.And((b[3] & ISIG) == 0, (b[1] & OPOST) == 0), "C29 raw turns off signals and output processing")
            else:
                E.check(E.And((b[3] & ISIG) == (a0[3] & ISIG), b[1] == a0[1]),
                        "C29 cbreak leaves signals and output processing alone")
            E.check(E.And(b[4] == a0[4], b[5] == a0[5]), "C29 the speed stays as it was")
            ok = [E.same(x, y) for i, (x, y) in enumerate(zip(a0[6], b[6]))
                  if i not in (termios.VMIN, termios.VTIME)]
            E.check(E.And(*ok), "C29 the control characters stay as they were")


def eofchar(E, source="bytes", n=2, adapt=True):
    "What the terminal is sent at the end of the input."
    from shellous import sh

    W = World(E)
    a0 = sym_attrs(E)
    st = start(E, W, a0)
    now = [a0]

    def set_up(fd):
        "The user's own adapter."
        a = sym_attrs(E, "u")
        a[4:6] = a0[4:6]
        now[0] = a
        termios.tcsetattr(fd, termios.TCSANOW, copy(a))

    pty = set_up if adapt and E.decide(E.bool("adapter")) else True
    ln = E.choice("len", n + 1)
    data = E.ubytes("data", ln)

    def written():
        d = b""
        for x in W.ttys[next(iter(W.ttys))].inp.written:
            d = d + x
        return d

    cmd = sh("/sx/prog").set(pty=pty)
    done = {}

    async def run():
        if source == "prompt":
            async with cmd.prompt("x") as cli:
                tty = st["tty"]
                if ln:
                    await cli.send(data, end=None)
                cli.close()
                await asyncio.sleep(1)
                done["w"] = written()
                done["eio"] = None
                st["p"].exit(0)
                cli.close = lambda: None
            return
        if source == "reader":
            src = _sxreader() if E.symbolic else asyncio.StreamReader()
            if ln:
                src.feed_data(data)
            src.feed_eof()
        elif source == "bytesio":
            src = E.bytesio(data)
        else:
            src = data

        async with cmd.stdin(src).stdout(sh.DEVNULL) as r:
            await asyncio.sleep(1)
            done["w"] = written()
            st["p"].exit(0)

    o = execute(E, W, run, None)
    E.obs("kind", o["kind"])
    E.check(o["kind"] == "ok", "C29 the command runs", [o.get("hang"), repr(o["exc"])])
    a = now[0]
    w = done["w"]
    eof = a[6][termios.VEOF]
    canon = E.decide((a[3] & ICANON) != 0)
    disabled = E.decide(E.same(eof, b"\x00"))      # the terminal has no such character
    if canon and not disabled:
        E.cover("canonical")
        E.check(E.Or(E.same(w, data + eof), E.same(w, data + eof + eof)),
                "C29 the terminal's own end-of-file character ends the input", [ln])
    else:
        E.cover("disabled" if canon else "raw")
        E.check(E.same(w, data), "C29 no end-of-file character unless the terminal has one in use", [ln, canon])
