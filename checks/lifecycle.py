"""Lifecycle of commands and pipelines: launch, run, stop, clean up.

One harness drives the library through its public API on the fake system of
`symx.world`; every instant, fault, exit and reaction to a signal is a solver
variable.  `judge*` states the properties; the label of every assertion starts
with the id of the property it belongs to.
"""

import asyncio
import io
import logging
import signal
from fractions import Fraction
from pathlib import Path

from symx import core
from symx.loop import Hang, add
from symx.world import World, use


class Boom(Exception):
    pass


class Launch(OSError):
    pass


EXC = {"OSError": lambda: OSError(24, "injected"),
       "FileNotFoundError": lambda: FileNotFoundError(2, "injected"),
       "PermissionError": lambda: PermissionError(13, "injected"),
       "RuntimeError": lambda: RuntimeError("injected"),
       "BlockingIOError": lambda: BlockingIOError(11, "injected")}


def attach_behaviour(E, W, *, exits="sym", term="sym", kill="sym", code=0, never=True,
                     unkillable=False, max_exit=40, sub="sym", gap=False, orphan=False, graceful=False):
    """Give every process of W a symbolic life.

    exits: "sym" (symbolic instant, possibly never), "never", "now", or a number.
    sub: "sym", or "simple" for processes after the first: they exit after one
    second or never, and obey or ignore a signal at once.
    gap: a process closes its descriptors up to 50 ms before its exit is known, as the kernel does.
    graceful: a process that obeys a signal may do so with a status of 0 or 1.
    orphan: a process leaves a child of its own behind, which keeps its pipes open for a while or for good.
    """

    def leave(p, d, status):
        if gap and E.decide(E.bool(f"gap{p.idx}")):
            g = E.real(f"gaptime{p.idx}", 0, Fraction(1, 20))

            def ends():
                for pipe, end in list(p.ends):
                    p.close_end(pipe, end)
            W.loop.after(d, ends, f"closes{p.idx}")
            d = add(d, g)
        p.exit_after(d, status)

    def get_code(p):
        return code(p) if callable(code) else code

    def release(p):
        p.orphan = False
        if not p.alive:
            p.let_go()

    def simple(p):
        return sub == "simple" and p.idx > 0

    def on_spawn(p):
        i = p.idx
        if orphan and i == 0 and E.decide(E.bool("orphan")):
            p.orphan = True
            E.cover("orphan")
            if not E.decide(E.bool("stays")):
                W.loop.after(E.real("orphan_time", 0, max_exit), lambda: release(p), "orphan")
        if simple(p):
            if exits == "sym":
                if E.decide(E.bool(f"never{i}")):
                    return
                leave(p, 1, get_code(p))
                return
        if exits == "sym":
            if never and E.decide(E.bool(f"never{i}")):
                return
            leave(p, E.real(f"exit{i}", 0, max_exit), get_code(p))
        elif exits == "now":
            p.exit(get_code(p))
        elif exits == "never":
            return
        else:
            leave(p, exits, get_code(p))

    def on_kill(p, sig):
        i = p.idx
        if sig == 9:
            if unkillable:
                return
            if kill == "sym" and not simple(p):
                d = E.real(f"killdelay{i}", 0, Fraction(29, 10))
            else:
                d = 0 if kill == "sym" else kill
            leave(p, d, -9)
            return
        n = sum(1 for s in p.signals if s[2] != 9)
        if term == "sym":
            if E.decide(E.bool(f"ignore{i}_{n}")):
                return
            d = 0 if simple(p) else E.real(f"termdelay{i}_{n}", 0, 20)
        elif term == "ignore":
            return
        else:
            d = term
        leave(p, d, [-sig, 0, 1][E.choice(f"polite{i}_{n}", 3)] if graceful else -sig)

    W.on_spawn = on_spawn
    W.on_kill = on_kill


class Cancels:
    "Cancellations of the main task at symbolic callback boundaries."

    def __init__(self, E, W, n, lo=1, hi=500, gap=0):
        self.E, self.W = E, W
        self.fired = []
        self.done = False
        prev = None
        for i in range(n):
            c = E.int(f"cancel{i}", lo, hi)
            if prev is not None:
                E.assume(c >= prev + gap)
            prev = c
            W.loop.at_step(c, lambda i=i: self.fire(i))

    def fire(self, i):
        if self.done:
            return
        m = self.W.loop.main
        if not m.done():
            m.cancel()
            self.fired.append((self.W.loop._now, self.W.loop._ncb))
            self.W.log("cancel", i)

    def stop(self):
        self.done = True
        self.W.loop._at_step.clear()


def execute(E, W, coro_fn, cancels=None, linger=1000):
    """Run `coro_fn()` as the main task; returns outcome dict.

    Snapshots the world in the very step in which the run returns.
    """
    out = {"kind": None, "value": None, "exc": None, "late_cancel": False, "open": []}

    def snap():
        out["time"] = W.loop._now
        out["ncb"] = W.loop._ncb
        out["unreaped"] = W.unreaped()
        out["nevents"] = len(W.events)

    async def main():
        W.loop.main = asyncio.current_task()
        try:
            out["value"] = await coro_fn()
            out["kind"] = "ok"
        except core.PathAbort:
            raise
        except asyncio.CancelledError as ex:
            out["kind"] = "CancelledError"
            out["exc"] = ex
        except BaseException as ex:
            out["kind"] = type(ex).__name__
            out["exc"] = ex
        if E.dead:
            raise core.PathAbort("dead")
        snap()
        if cancels is not None:
            cancels.stop()
        if linger:
            m = asyncio.current_task()
            while m.cancelling():
                m.uncancel()
            try:
                # let callbacks that are already scheduled run
                for _ in range(12):
                    await asyncio.sleep(0)
            except asyncio.CancelledError:
                out["late_cancel"] = True
            out["open"] = [i for i in W.fds.values() if i.open]
            try:
                await asyncio.sleep(linger)
            except asyncio.CancelledError:
                out["late_cancel"] = True

    with use(W):
        try:
            t = W.loop.drive(main())
            t.result()
        except Hang as ex:
            out["hang"] = str(ex)
            if out["kind"] is None:
                out["kind"] = "HANG"
                snap()
    return out


def sym_fault(E, W, kinds, hi=8, ops=None):
    """One fallible operation of the system fails: which one is symbolic.

    kinds: list of exception names; ops: restrict to these operations.
    """
    k = E.int("fault", 0, hi)
    state = {"fired": None, "n": 0}

    def flt(op, i, total=0, **_):
        if ops is not None and op not in ops:
            return None
        n = state["n"]
        state["n"] += 1
        if state["fired"] is None and E.decide(k == n):
            name = kinds[E.choice("faultkind", len(kinds))]
            state["fired"] = (op, name)
            ex = EXC[name]()
            ex.__cause__ = KeyError("its cause")
            return ex
        return None

    W.fault = flt
    return state


def build(E, W, sh, config):
    "Build the command for a configuration; returns (command, info)."
    cmd = sh("/sx/prog", "arg")
    info = {"handed": [], "kept": []}
    if config == "plain":
        pass
    elif config == "input":
        cmd = cmd.stdin(b"hello\n")
    elif config == "paths":
        cmd = cmd.stdin(Path("/sx/in")).stdout(Path("/sx/out")).stderr(Path("/sx/err"), append=True)
    elif config == "closefd":
        a, b, c, d = (W.user_fd() for _ in range(4))
        cmd = cmd.stdin(a, close=True).stdout(b, close=True).stderr(c, close=True).set(
            pass_fds=[d], pass_fds_close=True)
        info["handed"] = [a, b, c, d]
    elif config == "iterfd":
        a, b = W.user_fd(), W.user_fd()
        cmd = cmd.set(pass_fds=iter([a, b]), pass_fds_close=True)
        info["handed"] = [a, b]
    elif config == "keepfd":
        a, b, c, d = (W.user_fd() for _ in range(4))
        cmd = cmd.stdin(a).stdout(b).stderr(c).set(pass_fds=[d])
        info["kept"] = [a, b, c, d]
    elif config == "filefd":
        f, g, h = W.user_file("rb"), W.user_file("wb"), W.user_file("wb")
        cmd = cmd.stdin(f, close=True).stdout(g, close=True).stderr(h)
        info["handed"] = [f._fd, g._fd]
        info["kept"] = [h._fd]
    elif config in ("stuck", "ptystuck"):
        # input that the process never takes all of
        info["stuck"] = True
        cmd = cmd.set(pty=config == "ptystuck").stdin(b"hello\n")
    elif config == "pty":
        cmd = cmd.set(pty=True)
    elif config == "ptyfile":
        cmd = cmd.set(pty=True).stderr(Path("/sx/err"))
    elif config == "ptyraise":
        def boom(fd):
            raise Boom("pty function") from KeyError("its cause")
        cmd = cmd.set(pty=boom).stderr(Path("/sx/err"))
        info["setup_error"] = "Boom"
    elif config == "procsub":
        cmd = sh("/sx/prog", sh("/sx/sub1"), "x")
    elif config == "procsub2":
        cmd = sh("/sx/prog", sh("/sx/sub1"), sh("/sx/sub2").writable)
    elif config == "procsubpipe":
        cmd = sh("/sx/prog", (sh("/sx/sub1") | sh("/sx/sub2")).writable, sh("/sx/sub3") | sh("/sx/sub4"))
    elif config == "capture":
        cmd = cmd.stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    elif config == "mixed":
        a = W.user_fd()
        cmd = sh("/sx/prog", sh("/sx/sub1")).stdin(Path("/sx/in")).stdout(a, close=True).set(pty=True)
        info["handed"] = [a]
    elif config == "notfound":
        a, b = W.user_fd(), W.user_fd()
        cmd = sh("sx-no-such-program", sh("/sx/sub1"), sh("/sx/sub2").writable).stdin(
            Path("/sx/in")).stdout(a, close=True).set(pty=True, pass_fds=[b], pass_fds_close=True)
        info["handed"] = [a, b]
        info["setup_error"] = "FileNotFoundError"
    elif config in ("badtext", "badtext-pty", "closedtext"):
        # fails after the launch, when the input is set up
        f = io.StringIO("\udc80")
        if config == "closedtext":
            f.close()
        cmd = cmd.set(encoding="utf-8").stdin(f)
        cmd = cmd.set(pty=True).stderr(Path("/sx/err")) if config == "badtext-pty" else cmd.stderr(sh.BUFFER)
        info["late_error"] = "UnicodeEncodeError" if config != "closedtext" else "ValueError"
    elif config in ("badout", "badout2", "badout-pty"):
        # output that cannot be decoded, or written where it should go
        gone = info["gone"] = io.BytesIO()
        cmd = cmd.set(pty=config == "badout-pty", encoding="utf-8")
        if config == "badout2":
            cmd = cmd.stdin(b"hello\n").stdout(io.StringIO()).stderr(gone)
            info["speaks_on"] = ("stdout", "stderr")
        else:
            cmd = cmd.stdout(logging.getLogger("sx") if config == "badout" else gone)
        info["out_error"] = True
    elif config == "orphan":
        cmd = cmd.stdin(b"hello\n")
    elif config == "lowfd":
        cmd = cmd.stdin(W.user_fd(num=0), close=True).stdout(W.user_fd(num=1), close=True).stderr(
            W.user_fd(num=2), close=True)
        info["handed"] = [0, 1, 2]
    elif config == "pathfile":
        # what comes after the path is handed over as well, if the path cannot be opened
        f, g, d = W.user_file("wb"), W.user_file("wb"), W.user_fd()
        cmd = cmd.stdin(Path("/sx/in")).stdout(f, close=True).stderr(g, close=True).set(
            pass_fds=(d,), pass_fds_close=True)
        info["handed"] = [f._fd, g._fd, d]
    elif config == "pathfd":
        a, b, c = (W.user_fd() for _ in range(3))
        cmd = cmd.stdin(a, close=True).stdout(Path("/sx/out")).stderr(b, close=True).set(pass_fds=[b, c],
                                                                                         pass_fds_close=True)
        info["handed"] = [a, b, c]
    elif config == "capture2":
        # rejected: it takes `async with`
        a, f = W.user_fd(), W.user_file("rb")
        cmd = cmd.stdin(f, close=True).stdout(sh.CAPTURE).stderr(sh.CAPTURE).set(pass_fds=[a], pass_fds_close=True)
        info["handed"] = [a, f._fd]
        info["setup_error"] = "ValueError"
    elif config == "badredir":
        a = W.user_fd()
        cmd = sh("/sx/prog", sh("/sx/sub1")).stdin(a, close=True).stdout(Path("/sx/out")).stderr(1 + 2j)
        info["handed"] = [a]
        info["setup_error"] = "TypeError"
    else:
        raise ValueError(config)
    return cmd, info


def mode_coro(E, W, cmd, mode, probe):
    "Coroutine function that runs the command in the given way."

    async def body(run):
        probe["entered"] = True
        d = E.real("body", 0, 30)
        await asyncio.sleep(d)

    async def f_await():
        return await cmd

    async def f_with():
        async with cmd as run:
            await body(run)
        return run.result()

    async def f_raise():
        async with cmd as run:
            await body(run)
            probe["raised"] = True
            raise Boom("body")
        return run.result()

    def poke(run, i=0):
        import signal as sg
        what = ("usr1", "cancel")[E.choice(f"poke{i}" if i else "poke", 2)]
        p = W.procs[0]
        W.log("poke", p.idx, what)
        known = run.returncode is not None
        n = len([e for e in W.events if e[2] == "send"])
        if what == "usr1":
            run.send_signal(sg.SIGUSR1)
            want = 10
        else:
            run.cancel()
            want = probe["csig"]
        sent = [e[4] for e in W.events if e[2] == "send"][n:]
        E.check(sent == ([] if known else [want]), "C02 a signal sent by the user is sent once", [sent, what, known])
        probe.setdefault("pokes", []).append(what)
        E.cover(f"poke:{what}")

    async def f_poke():
        async with cmd as run:
            await body(run)
            poke(run)
            await asyncio.sleep(E.real("body2", 0, 10))
        return run.result()

    async def f_pokeraise():
        async with cmd as run:
            await body(run)
            poke(run)
            await asyncio.sleep(E.real("body2", 0, 10))
            probe["raised"] = True
            raise Boom("body")
        return run.result()

    async def f_poke2():
        async with cmd as run:
            await body(run)
            poke(run)
            poke(run, 1)
        return run.result()

    async def f_now():
        async with cmd as run:
            probe["entered"] = True
        return run.result()

    async def f_raisenow():
        async with cmd as run:
            probe["entered"] = True
            probe["raised"] = True
            raise Boom("body")

    async def f_iter():
        async for line in cmd:
            pass

    async def f_prompt():
        async with cmd.prompt() as cli:
            await body(cli)

    return {"await": f_await, "with": f_with, "raise": f_raise, "iter": f_iter, "now": f_now,
            "raisenow": f_raisenow, "prompt": f_prompt, "poke": f_poke, "poke2": f_poke2, "pokeraise": f_pokeraise}[mode]


def auditor(W, calls):
    def cb(phase, inf):
        calls.append((phase, inf["failure"], inf["signal"], len(W.events), inf["runner"].name))
        W.log("audit", phase, inf["signal"], inf["runner"].name)
    return cb


def stick(E, W, name):
    "The process never takes all of its input."
    spawned = W.on_spawn

    def on_spawn(p):
        if p.name == name:
            room = [E.choice("room", 2) * 3]

            def accept(data):
                n = room[0]
                if data is not None:
                    n = min(n, len(data))
                    room[0] -= n
                return n
            p.sink("stdin").accept = accept
        spawned(p)
    W.on_spawn = on_spawn


def garble(E, W, name, streams, gone):
    "The process writes what is no text, at some time of its own or when it is asked to stop."
    spawned, killed = W.on_spawn, W.on_kill
    polite = E.decide(E.bool("last_words"))

    def speak(p):
        if p.alive:
            gone.close()
            for stream in streams:
                p.write(b"\xff\xfe\n", stream)
            E.cover("garbled")

    def on_spawn(p):
        if p.name == name and not polite:
            W.loop.after(E.real("speaks", 0, 20), lambda: speak(p), "speaks")
        spawned(p)

    def on_kill(p, sig):
        if p.name == name and polite and sig != 9:
            E.cover("last-words")
            speak(p)
        killed(p, sig)
    W.on_spawn, W.on_kill = on_spawn, on_kill


def lifecycle(E, config="plain", mode="await", cancels=1, timeout=False, exits="sym",
              term="sym", kill="sym", fault=None, preempt=0, merge=0, cancel_signal="SIGTERM",
              audit=True, code=0, csteps=500, ct="sym", unkillable=False, never=True, sub="simple",
              launch=False, gap=False, orphan=False, graceful=False):
    from shellous import sh

    W = World(E, preempt, merge)
    if code == "sym":
        def code(p):
            return E.choice(f"code{p.idx}", 2)
    elif code == "sub":
        def code(p):
            return E.choice(f"code{p.idx}", 2) if p.idx > 0 else 0
    attach_behaviour(E, W, exits=exits, term=term, kill=kill, code=code, never=never,
                     unkillable=unkillable, sub=sub, gap=gap, orphan=orphan, graceful=graceful)
    if launch:
        W.launch_delay = lambda: E.real("launch", 0, 5)
    cmd, info = build(E, W, sh, config)
    if info.get("stuck"):
        stick(E, W, "/sx/prog")
    if info.get("out_error"):
        garble(E, W, "/sx/prog", info.get("speaks_on", ("stdout",)), info["gone"])
    probe = {}
    T = None
    if timeout:
        T = E.real("timeout", 0, 30)
        cmd = cmd.set(timeout=T)
    CT = 3
    if ct == "sym":
        CT = E.real("cancel_timeout", Fraction(1, 10), 10)
        cmd = cmd.set(cancel_timeout=CT)
    csig = getattr(signal, cancel_signal) if cancel_signal is not None else None
    cmd = cmd.set(cancel_signal=csig)
    probe["csig"] = 9 if csig is None else int(csig)
    calls = []
    if audit:
        cmd = cmd.set(audit_callback=auditor(W, calls))
    flt = sym_fault(E, W, fault) if fault else {"fired": None}

    C = Cancels(E, W, cancels, hi=csteps) if cancels else None
    W.loop.main = None
    out = execute(E, W, mode_coro(E, W, cmd, mode, probe), C)
    judge(E, W, out, C, info, calls, T, CT, csig, probe, mode, audit, flt,
          exact=(preempt == 0 and merge == 0), unkillable=unkillable)
    return out


def judge_end(E, W, out, unkillable, pid="C01"):
    "Termination and reaping; returns False if there is nothing more to say."
    kind = out["kind"]
    E.check(kind != "HANG", f"{pid} run finishes", out.get("hang"))
    if kind == "HANG":
        return False
    if unkillable:
        if out["unreaped"]:
            E.check(kind == "RuntimeError", f"{pid} survivor of SIGKILL is reported", kind)
            E.cover("survivor")
    else:
        E.check(not out["unreaped"], f"{pid} every child exited and reaped before return",
                f"outcome={kind} unreaped={out['unreaped']}")
    return True


def judge_fds(E, W, out, info, started, pid="C08"):
    lib = [i for i in W.fds.values() if i.owner == "lib"]
    opened = {i.fd for i in out["open"]}
    if lib:
        E.cover("fds")
    E.check(not [i for i in lib if i.fd in opened], f"{pid} every descriptor opened is closed",
            [i for i in lib if i.fd in opened])
    E.check(not [b for b in W.bad if b[0] in ("double-close", "close-unknown")],
            f"{pid} no descriptor is closed twice", W.bad)
    E.check(not [b for b in W.bad if b[0] in ("closed-at-launch", "file-closed-at-launch")],
            f"{pid} descriptors stay open until launch", W.bad)
    if started:
        for fd in info["handed"]:
            E.check(W.fds[fd].closes == 1, f"{pid} handed-over descriptor closed exactly once",
                    [W.fds[fd], out["kind"]])
    for fd in info["kept"]:
        E.check(W.fds[fd].closes == 0, f"{pid} descriptor not handed over is left alone", W.fds[fd])
    if W.procs:
        asy = [i for i in W.fds.values() if i.owner == "asyncio" and i.fd in opened]
        E.check(not asy, f"{pid} every pipe to the process is closed", asy)


def judge_audit(E, W, out, calls, name, ncancel, entered, failed, raised, kind):
    "C04 for one run of the command called `name`."
    mine = [c for c in calls if c[4] == name]
    phases = [c[0] for c in mine]
    spawned = [p for p in W.procs if p.name == name]
    if not phases:
        E.check(not spawned, "C04 every run is announced with start", phases)
        E.check(ncancel > 0, "C04 every run is announced with start", phases)
        return
    E.check(phases[0] == "start" and phases.count("start") == 1, "C04 one start, first", phases)
    E.check(phases[-1] == "stop" and phases.count("stop") == 1, "C04 one stop, last", phases)
    if spawned:
        first = [k for k, e in enumerate(W.events) if e[2] == "spawn" and e[3] == spawned[0].idx][0]
        E.check(mine[0][3] <= first, "C04 start precedes the launch", mine)
    E.check(mine[-1][3] <= out["nevents"], "C04 stop before the run returns")
    if spawned and kind != "HANG":
        # the stop event is reported after the process is gone
        k = [i for i, e in enumerate(W.events) if e[2] == "exit" and e[3] == spawned[0].idx]
        E.check(not k or k[0] < mine[-1][3], "C04 stop is the last event of the run", mine)
    idx = {p.idx for p in spawned}
    names = [c[2] for c in mine if c[0] == "signal"]
    sends = [signal.Signals(e[4]).name for e in W.events if e[2] == "send" and e[3] in idx]
    E.check(names == sends, "C04 each signal is announced once, in order", [names, sends])
    stopc = mine[-1]
    if failed:
        E.cover("launch-failed")
        E.check(stopc[1] == kind, "C04 stop names the launch failure", [stopc[1], kind])
    elif entered:
        E.cover("stopped-normally")
        E.check(stopc[1] == "", "C04 no failure name when launched", [stopc[1], kind])


def judge_signals(E, W, p, csig, CT, C, disturbed, exact, other=False, late=False):
    """C02 for one process. `disturbed`: something asked for it to be stopped.

    late: the launch failed after the process had started; its streams and the process itself are then
    waited for one after the other.
    """
    sig0 = 9 if csig is None else int(csig)
    # a signal that the user sends is no part of the stop
    user = {k + 1 for k, e in enumerate(W.events) if e[2] == "poke" and e[3] == p.idx}
    user |= {k + 1 for k in user if W.events[k][2] != "send" and k + 1 < len(W.events)
             and W.events[k][2] == "audit"}
    sends = [(e[0], e[1], e[4], e[5]) for k, e in enumerate(W.events) if e[2] == "send" and e[3] == p.idx
             and k not in user]
    raw = list(p.signals) if not user else list(sends)
    E.check(not any(s[3] for s in sends), "C02 no signal once the exit is known", sends)
    if not disturbed:
        E.check(not raw and not sends, "C02 a command that is not stopped is not signalled", raw)
    if sends:
        E.cover("signalled")
        E.check(sends[0][2] == sig0, "C02 first signal is the cancel signal", sends)
        kills = sends[1:]
        E.check(all(s[2] == 9 for s in kills), "C02 later signals are SIGKILL", sends)
        if kills:
            E.cover("killed")
            if exact:
                # `between`: the wait was interrupted by a further cancellation
                between = [c for c in (C.fired if C else []) if c[1] >= sends[0][1]]
                E.check(E.Or(bool(between), other, kills[0][0] >= add(sends[0][0], CT)),
                        "C02 SIGKILL only after the cancel timeout", sends)
        if exact and not kills and not other:
            limit = add(CT, CT) if late else CT
            E.check(E.Or(not p.alive and p.exit_time <= add(sends[0][0], limit), sig0 == 9),
                    "C02 SIGKILL is sent when the cancel timeout has passed", sends)
        if raw and raw[-1][2] == 9 and not any(s[2] == 9 for s in sends):
            E.check(False, "C02 SIGKILL sent behind the runner's back", raw)
    elif raw:
        E.check(False, "C02 first signal is the cancel signal", raw)


def judge(E, W, out, C, info, calls, T, CT, csig, probe, mode, audit, flt, exact, unkillable=False):
    kind = out["kind"]
    ncancel = len(C.fired) if C else 0
    fault = flt["fired"]
    raised = probe.get("raised", False)
    main = [p for p in W.procs if p.name == "/sx/prog"]
    subs = [p for p in W.procs if p.name != "/sx/prog"]
    # A sub-command that fails stops the main command as well.
    subfail = any(not p.alive and (p.status != 0) for p in subs)
    if kind == "HANG" and not ncancel and not raised and not fault and not subfail and any(
            (p.alive and not p.signals) or p.orphan for p in W.procs):
        E.abort("process runs forever and nobody stops it")
    E.cover(f"outcome:{kind}")
    if ncancel:
        E.cover(f"cancelled:{ncancel}")
    if W.procs:
        E.cover("launched")
    if fault:
        E.cover(f"fault:{fault[0]}")
    E.obs("kind", kind)
    E.obs("time", out["time"])
    E.obs("signals", [[s[0], s[2]] for p in W.procs for s in p.signals])
    E.obs("audit", [c[:3] for c in calls])

    if not judge_end(E, W, out, unkillable):
        return
    timed_out = kind == "TimeoutError"
    disturbed = ncancel > 0 or raised or fault or subfail or timed_out or bool(unkillable) \
        or (mode == "iter" and kind not in ("ok", "ResultError")) or bool(info.get("late_error") or info.get("out_error"))
    # ---- C02
    for p in main:
        judge_signals(E, W, p, csig, CT, C, disturbed, exact, other=bool(fault or subs or info.get("out_error")),
                      late=bool(info.get("late_error")))
    # ---- C03
    if kind == "CancelledError":
        E.check(ncancel > 0, "C03 CancelledError only if the caller was cancelled")
    if T is not None and main and not fault and not subs:
        p = main[0]
        t0 = [e[0] for e in W.events if e[2] == "launched"]
        t0 = t0[0] if t0 else None
        if timed_out:
            E.check(t0 is not None, "C03 TimeoutError only after the launch")
            E.check(out["time"] >= add(t0, T), "C03 TimeoutError only after the timeout")
            if exact and not p.signals:
                # its output may have been open for longer
                E.check(p.orphan or (p.let_go_time is not None and p.let_go_time >= add(t0, T)),
                        "C03 TimeoutError although the command completed in time")
            if exact and p.signals:
                E.check(E.Or(p.signals[0][0] >= add(t0, T), ncancel > 0, raised),
                        "C03 command stopped before its timeout")
        if kind in ("ok", "ResultError") and mode == "await" and exact:
            E.check(p.exit_time <= add(t0, T), "C03 normal result although the timeout expired")
            if E.decide(p.exit_time > t0):
                # (if its end is known at once, asyncio does not wait for the output to be closed)
                E.check(not p.orphan and p.let_go_time <= add(t0, T), "C03 normal result although the timeout expired")
    if T is None:
        E.check(not timed_out or bool(fault), "C03 TimeoutError without a timeout")
    quiet = not fault and not info.get("setup_error") and not unkillable and not (info.get("late_error") or info.get("out_error"))
    if info.get("stuck") and kind in ("BrokenPipeError", "ConnectionResetError"):
        # unread input is an error of its own, unless something else ends the run
        E.check(not raised and not any(p.signals for p in main),
                "C03 unread input does not hide why the run was stopped", [kind, raised])
        quiet = False
    if ncancel == 0 and T is None and quiet and not raised:
        E.check(kind in ("ok", "ResultError"), "C03 unexpected exception", repr(out["exc"]))
    if ncancel > 0 and quiet and not raised:
        # A failing sub-command may be reported before the cancellation arrives.
        E.check(kind in ("CancelledError", "TimeoutError") or (subfail and kind == "ResultError"),
                "C03 a cancelled run raises CancelledError", repr(out["exc"]))
        if T is None:
            E.check(not timed_out, "C03 a cancelled run raises CancelledError", kind)
        elif timed_out and exact and main and not subs:
            t0 = [e[0] for e in W.events if e[2] == "launched"]
            E.check(C.fired[0][0] >= add(t0[0], T) if t0 else False,
                    "C03 a run that is cancelled before its timeout raises CancelledError")
    if ncancel == 0 and raised and quiet and T is None:
        E.check(kind == "Boom", "C03 exception of the body is passed on", kind)
    E.check(not out["late_cancel"], "C03 caller is not cancelled after the run ended")
    if info.get("setup_error") and not ncancel:
        E.check(kind == info["setup_error"] or bool(fault), "C03 setup error is raised", repr(out["exc"]))
        E.check(not W.procs, "C03 setup error starts no process")
    if info.get("late_error") and not ncancel and not fault:
        E.check(kind == info["late_error"], "C03 setup error is raised", repr(out["exc"]))
    # ---- C04
    if audit:
        entered = (kind in ("ok", "ResultError", "TimeoutError", "BrokenPipeError") and not unkillable and not fault
                   and not info.get("setup_error")) or raised or probe.get("entered")
        failed = not entered and not main and kind != "ok"
        judge_audit(E, W, out, calls, calls[0][4] if calls else "/sx/prog", ncancel, entered,
                    failed, raised, kind)
    # ---- C08
    judge_fds(E, W, out, info, started=bool(calls) or bool(W.events)
              or (bool(info.get("setup_error")) and kind == info["setup_error"]))


# ---------------------------------------------------------------------------
def pipeline(E, n=2, mode="await", cancels=0, exits="sym", term="sym", fault=None, sub="sym",
             code="sym", never=True, csteps=600, redir=None, missing=None, audit=True,
             preempt=0, merge=0, ct=3, io=False, graceful=False, orphan=False):
    """A pipeline of n commands /sx/p0 | /sx/p1 | ...

    missing: index of a command whose program does not exist ("sym": any).
    """
    from shellous import sh

    W = World(E, preempt, merge)
    fcode = code
    if code == "sym":
        def fcode(p):
            return E.choice(f"code{p.idx}", 2)
    attach_behaviour(E, W, exits=exits, term=term, kill=0, code=fcode, never=never, sub=sub, graceful=graceful, orphan=orphan)
    if io:
        spawn0 = W.on_spawn

        def on_spawn(p):
            p.write(b"out of " + p.name.encode(), "stdout")
            p.write(b"err of " + p.name.encode(), "stderr")
            spawn0(p)
        W.on_spawn = on_spawn
    calls = []
    cmds = []
    miss = None
    if missing == "sym":
        miss = E.choice("missing", n)
    elif missing is not None:
        miss = missing
    for i in range(n):
        c = sh("sx-no-such-program" if i == miss else f"/sx/p{i}")
        c = c.set(cancel_timeout=ct, alt_name=f"/sx/p{i}")
        if audit:
            c = c.set(audit_callback=auditor(W, calls))
        cmds.append(c)
    pipe = cmds[0]
    for c in cmds[1:]:
        pipe = pipe | c
    info = {"handed": [], "kept": []}
    if redir == "fds":
        a, b = W.user_fd(), W.user_fd()
        pipe = pipe.stdin(a, close=True).stdout(b, close=True)
        info["handed"] = [a, b]
    elif redir == "low":
        # a parent without standard streams: the pipes get their numbers
        W.low = [[0, 1], [1, 2], [0, 2], [1, 0], [2, 1], [2, 0]][E.choice("low", 6)]
    elif redir == "stuck":
        pipe = b"hello\n" | pipe
        info["stuck"] = True
        stick(E, W, "/sx/p0")
    elif redir == "paths":
        pipe = Path("/sx/in") | pipe | Path("/sx/out")
    flt = sym_fault(E, W, fault) if fault else {"fired": None}
    probe = {}
    C = Cancels(E, W, cancels, hi=csteps) if cancels else None
    W.loop.main = None
    out = execute(E, W, mode_coro(E, W, pipe, mode, probe), C)
    judge_pipe(E, W, out, C, info, calls, probe, flt, miss, n, mode, audit, ct,
               exact=preempt == 0 and merge == 0, io=io)


def judge_pipe(E, W, out, C, info, calls, probe, flt, miss, n, mode, audit, CT, exact, io=False):
    kind = out["kind"]
    ncancel = len(C.fired) if C else 0
    fault = flt["fired"]
    raised = probe.get("raised", False)
    failed = [p for p in W.procs if not p.alive and p.status != 0]
    own = [p for p in failed if not p.signals]
    if kind == "HANG" and not ncancel and not raised and not fault and miss is None \
            and (not failed or mode == "iter") \
            and any(p.alive and not p.signals for p in W.procs):
        E.abort("process runs forever and nobody stops it")
    E.cover(f"outcome:{kind}")
    if ncancel:
        E.cover(f"cancelled:{ncancel}")
    if fault:
        E.cover(f"fault:{fault[0]}")
    if any(p.signals for p in W.procs):
        E.cover("stopped")
    E.obs("kind", kind)
    E.obs("time", out["time"])
    E.obs("signals", [[p.name, s[0], s[2]] for p in W.procs for s in p.signals])
    E.check(kind != "HANG", "C07 pipeline finishes", [out.get("hang"), [p.alive for p in W.procs]])
    if kind == "HANG":
        return
    E.check(not out["unreaped"], "C07 every child exited and reaped before the pipeline ends",
            [kind, out["unreaped"]])
    bad = fault is not None or miss is not None
    unread = False
    if info.get("stuck") and kind in ("BrokenPipeError", "ConnectionResetError"):
        # unread input is an error of its own, unless something else ends the command
        unread = True
        E.cover("unread")
        E.check(any(p.name == "/sx/p0" and not p.signals and not p.alive for p in W.procs),
                "C07 unread input does not hide why the pipeline was stopped", [kind, own])
    # Iterating over the lines of a pipeline does not ask for its result.
    examined = mode != "iter"
    if ncancel == 0 and not raised and not bad and not unread:
        if own and not examined:
            E.check(kind == "ok", "C07 iteration ends when the pipeline failed", [kind, repr(out["exc"])])
        elif own:
            E.check(kind == "ResultError", "C07 failure of a command is raised", [kind, repr(out["exc"])])
            # C06: the first command (left to right) that failed on its own
            first = min(own, key=lambda p: p.name)
            if kind == "ResultError":
                r = out["exc"].result
                E.check(r.exit_code == first.status, "C06 status of the first command that failed", r)
                if io:
                    E.check(r.error_bytes == b"err of " + first.name.encode(),
                            "C06 error text of the first command that failed", r)
                    last = b"out of " + f"/sx/p{n - 1}".encode()
                    E.check(r.output_bytes in (b"", last), "C06 output comes from the last command", r)
        elif failed:
            E.check(False, "C07 commands stopped although nothing failed", [kind, failed])
        else:
            E.check(kind == "ok", "C07 successful pipeline returns", [kind, repr(out["exc"])])
            E.cover("all-ok")
            if io and out["value"] is not None:
                v = out["value"]
                v = v if isinstance(v, str) else v.output
                E.check(v == f"out of /sx/p{n - 1}", "C06 output comes from the last command", v)
    if ncancel > 0 and not bad and not raised and not unread:
        E.check(kind in ("CancelledError", "ResultError") and (kind == "CancelledError" or own),
                "C07 cancellation is raised", [kind, repr(out["exc"])])
    if kind == "CancelledError":
        E.check(ncancel > 0, "C07 CancelledError only if cancelled")
    if miss is not None and not fault and ncancel == 0 and not raised:
        E.check(kind == "FileNotFoundError" or (not examined and kind == "ok" and 0 < miss < n - 1), "C07 launch failure is raised", [kind, repr(out["exc"])])
    if fault and ncancel == 0 and not raised and miss is None:
        E.check(kind == fault[1], "C07 launch failure is raised", [kind, fault, repr(out["exc"])])
    if raised and ncancel == 0 and not bad and not unread:
        E.check(kind == "Boom", "C07 exception of the body is raised", kind)
    E.check(not out["late_cancel"], "C07 caller is not cancelled after the pipeline ended")
    # C09
    pipes = [i for i in W.fds.values() if i.owner == "lib" and i.kind == "pipe"]
    if pipes:
        E.cover("pipes")
    opened = {i.fd for i in out["open"]}
    E.check(not [i for i in pipes if i.fd in opened], "C09 every pipe descriptor is closed",
            [i for i in pipes if i.fd in opened])
    E.check(not [b for b in W.bad if b[0] in ("double-close", "close-unknown")],
            "C09 no pipe descriptor is closed twice", W.bad)
    E.check(not [b for b in W.bad if b[0] in ("closed-at-launch", "file-closed-at-launch")],
            "C09 pipe descriptors stay open until launch", W.bad)
    for a, b in zip(W.spawns, W.spawns[1:]):
        pass
    by = {s["proc"].name: s for s in W.spawns}
    for i in range(n - 1):
        a, b = by.get(f"/sx/p{i}"), by.get(f"/sx/p{i + 1}")
        if a and b:
            fa, fb = W.fds.get(a["stdout"]), W.fds.get(b["stdin"])
            E.check(fa is not None and fb is not None and fa.pipe is fb.pipe and fa.end == "w"
                    and fb.end == "r", "C09 neighbours are joined by one pipe", [a, b])
    # C08 for descriptors handed to the pipeline (if its pipes could be made)
    if not (fault and fault[0] == "pipe"):
        judge_fds(E, W, out, info, started=bool(calls), pid="C08")
    if audit:
        for i in range(n):
            name = f"/sx/p{i}"
            mine = [c for c in calls if c[4] == name]
            if not mine:
                continue
            phases = [c[0] for c in mine]
            E.check(phases[0] == "start" and phases.count("start") == 1, "C04 one start, first", phases)
            E.check(phases[-1] == "stop" and phases.count("stop") == 1, "C04 one stop, last", phases)
    for p in W.procs:
        judge_signals(E, W, p, signal.SIGTERM, CT, C,
                      disturbed=ncancel or raised or bad or failed or unread, exact=False)
