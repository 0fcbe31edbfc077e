"""C05 exit status, C06 pipeline status, C24 wait status."""

import asyncio
import signal

from symx import core
from symx.world import World, use

from .base import private
from .lifecycle import Boom, Cancels, attach_behaviour, execute

NAMED = {int(s) for s in signal.Signals}


def status(E, codes="none", mode="await", lo=-64, hi=255, sigs=False, pty=False):
    "A command that ends by itself with a symbolic status."
    from shellous import sh

    W = World(E)
    st = E.int("status", lo, hi)

    def on_spawn(p):
        p.write(b"the output", "stdout")
        if not pty:
            p.write(b"the error", "stderr")
        p.exit_after(1, st)
    W.on_spawn = on_spawn
    W.on_kill = lambda p, sig: None
    cmd = sh("/sx/prog").set(pty=pty)
    if codes == "none":
        allowed = st == 0
    elif codes == "empty":
        cmd = cmd.set(exit_codes=set())
        allowed = st == 0
    elif codes == "set":
        cmd = cmd.set(exit_codes={0, 3, -15})
        allowed = E.Or(st == 0, st == 3, st == -15)
    elif codes == "nozero":
        cmd = cmd.set(exit_codes=[1, 2])
        allowed = E.Or(st == 1, st == 2)
    elif codes == "range":
        a = E.choice("lo", 3)
        b = 5 + E.choice("hi", 3)
        cmd = cmd.set(exit_codes=range(a, b))
        allowed = E.And(st >= a, st < b)
    elif codes == "sym":
        a, b = E.int("a", -64, 255), E.int("b", -64, 255)
        cmd = cmd.set(exit_codes=(a, b))
        allowed = E.Or(st == a, st == b)
    elif codes == "result":
        if E.choice("after", 2):
            cmd = cmd.set(exit_codes=[{3}, (), [1, 2]][E.choice("earlier", 3)])
        cmd = cmd.result
        allowed = True
    elif codes == "result-then":
        cmd = cmd.result.set(exit_codes={0, 3})
        allowed = E.Or(st == 0, st == 3)
    probe = {}

    async def run():
        if mode == "await":
            return await cmd
        if mode == "with":
            async with cmd as r:
                probe["run"] = r
            return r.result()
        if mode == "nocheck":
            async with cmd as r:
                probe["run"] = r
            return r.result(check=False)
        async for _ in cmd:
            pass
        return None

    out = execute(E, W, run, None, linger=0)
    kind = out["kind"]
    E.obs("kind", kind)
    E.cover(f"outcome:{kind}")
    if mode == "nocheck":
        allowed = True
    E.check(kind in ("ok", "ResultError"), "C05 result or error", repr(out["exc"]))
    if kind == "ok":
        E.check(allowed, "C05 returns only if the status is allowed", [codes])
        res = out["value"]
        if codes.startswith("result") or mode in ("with", "nocheck"):
            res = out["value"]
        else:
            E.check(isinstance(res, str) and res == "the output", "C05 the output is returned", res)
            return
    else:
        E.check(E.Not(allowed), "C05 raises only if the status is not allowed", [codes])
        ex = out["exc"]
        res = ex.result
        if mode == "with":
            E.check(ex.result == probe["run"].result(check=False), "C05 the error carries the result")
    E.obs("code", res.exit_code)
    E.check(res.exit_code == st, "C05 the result has the exit status", res)
    E.check(res.output_bytes == b"the output", "C05 the result has the output", res)
    if not pty:
        E.check(res.error_bytes == b"the error", "C05 the result has the error output", res)
    E.check(res.cancelled is False, "C05 the result is not cancelled", res)
    truth = type(res).__bool__(res)
    E.check(E.Or(E.And(truth, st == 0), E.And(E.Not(truth), E.Not(st == 0))),
            "C05 truth of a result is a zero status")
    if sigs:
        try:
            s = res.exit_signal
        except ValueError:
            E.check(E.And(st < 0, *[E.Not(st == -n) for n in NAMED]),
                    "C05 exit signal of a status that names no signal", res)
            E.cover("unnamed")
        else:
            if s is None:
                E.check(st >= 0, "C05 exit signal iff negative status")
                E.cover("no-signal")
            else:
                E.check(st == -int(s), "C05 exit signal is the signal number", [s])
                E.cover("signal")


SIGS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGUSR1, signal.SIGKILL]


def lost(E, how="send", lose=True, own=False, race=False):
    """A command we signalled: its status is -N, even if the system lost it.

    own: the process handles the signal and exits by itself with any status.
    race: the process has just exited by itself (not with 0), and nobody knows it yet,
    when it is signalled: its status is its own."""
    from shellous import sh

    W = World(E)
    killed = {}
    csig = [signal.SIGTERM, signal.SIGINT, None][E.choice("csig", 3)]
    obeys = True if how == "send" else E.decide(E.bool("obeys"))

    def on_kill(p, sig):
        if sig != 9 and not obeys:
            return
        if how == "two" and len(p.signals) < 2:
            return
        if own and sig != 9:
            st = killed["st"] = E.int("status", 0, 254)
            p.exit(st)
            return
        killed["sig"] = sig
        if lose:
            p.lost = True
        p.exit(-sig)
    W.on_kill = on_kill
    cmd = sh("/sx/prog").set(cancel_signal=csig, cancel_timeout=2)
    if how == "timeout":
        cmd = cmd.set(timeout=3)
    probe = {}

    async def run():
        async with cmd as r:
            probe["run"] = r
            await asyncio.sleep(1)
            if race:
                st = killed["st"] = E.int("status", 1, 254)
                W.procs[0].exit(st)
            if how == "send":
                r.send_signal(SIGS[E.choice("sig", len(SIGS))])
            elif how == "cancel":
                r.cancel()
                if not obeys:
                    raise Boom()
            elif how == "raise":
                raise Boom()
            elif how == "two":
                r.send_signal([signal.SIGUSR1, signal.SIGUSR2][E.choice("sig1", 2)])
                await asyncio.sleep(1)
                r.send_signal(SIGS[E.choice("sig", len(SIGS))])
                if lose:
                    await asyncio.sleep(1)
                if not obeys:
                    raise Boom()
            elif how == "kill2":
                r.send_signal(signal.SIGUSR1 if not obeys else SIGS[E.choice("sig", len(SIGS))])
                if not obeys:
                    raise Boom()
            if how == "caller":
                await asyncio.sleep(100)

    C = None
    if how == "caller":
        C = Cancels(E, W, 1, hi=60)
    out = execute(E, W, run, C, linger=0)
    kind = out["kind"]
    E.obs("kind", kind)
    E.cover(f"outcome:{kind}")
    if kind == "HANG" and not any(p.signals for p in W.procs):
        E.abort("nothing ends the process")
    E.check(kind != "HANG", "C05 run finishes", out.get("hang"))
    r = probe.get("run")
    if r is None or r.returncode is None:
        return
    res = r.result(check=False)
    if "st" in killed:
        E.cover("handled")
        E.obs("code", res.exit_code)
        E.check(res.exit_code == killed["st"], "C05 a process that handles the signal has its own status",
                [killed, res, csig])
        return
    if "sig" not in killed:
        return
    E.obs("code", res.exit_code)
    E.cover("signalled")
    if killed["sig"] == 9 and W.procs[0].signals[0][2] != 9:
        E.cover("killed")
    E.check(res.exit_code == -killed["sig"], "C05 a process killed by signal N has status -N",
            [killed, res, csig])
    E.check(res.exit_signal == killed["sig"], "C05 exit signal is the signal number", [killed, res])


# --- C06 -------------------------------------------------------------------------
class Other(Exception):
    pass


def aggregate(E, n=3, others=False):
    from shellous.result import Result, ResultError

    items = []
    info = []
    for i in range(n):
        kinds = ["result", "error", "runtime"][: 3 if others else 2]
        k = kinds[E.choice(f"kind{i}", len(kinds))]
        if k == "runtime":
            ex = [Other, FileNotFoundError, asyncio.TimeoutError][E.choice(f"exc{i}", 3)](i)
            items.append(ex)
            info.append((k, ex, None, None))
            continue
        code = E.int(f"code{i}", -64, 255)
        canc = E.decide(E.bool(f"cancelled{i}"))
        r = Result(exit_code=code, output_bytes=b"out%d" % i, error_bytes=b"err%d" % i,
                   cancelled=canc, encoding=f"enc{i}")
        items.append(r if k == "result" else ResultError(r))
        info.append((k, r, code, canc))
    flag = E.decide(E.bool("cancelled"))
    try:
        res = private(E, "result", "convert_result_list", items, flag)
        raised = None
    except Exception as ex:
        res, raised = None, ex
    bad = [x for x in info if x[0] == "runtime"]
    if bad:
        E.cover("other")
        E.check(raised is bad[0][1], "C06 the first exception that is no status is raised", repr(raised))
        return
    E.check(raised is None, "C06 a result is made", repr(raised))
    E.obs("code", res.exit_code)
    E.check(res.output_bytes == b"out%d" % (n - 1) and res.encoding == f"enc{n - 1}",
            "C06 output and encoding come from the last command", res)
    E.check(res.cancelled is flag, "C06 cancelled flag", res)
    idx = [i for i in range(n) if res.error_bytes == b"err%d" % i]
    E.check(len(idx) == 1, "C06 the error text comes from one command", res)
    j = idx[0]
    E.check(res.exit_code == info[j][2], "C06 status and error text come from the same command", res)
    # the first command that failed on its own
    for i in range(n):
        if not info[i][3] and E.decide(E.Not(info[i][2] == 0)):
            E.cover("failed")
            E.check(j == i, "C06 status of the first command that failed", [j, i])
            return
    if any(not x[3] for x in info):
        E.cover("none-failed")
        E.check(res.exit_code == 0 and not info[j][3], "C06 status 0 if no command failed", res)
    else:
        E.cover("all-cancelled")


# --- C24 -------------------------------------------------------------------------
def waitstatus(E, block=False):

    W = World(E)
    with use(W):
        p = _spawn(W)
        what = ["running", "exited", "signalled", "gone"][E.choice("what", 4)]
        if block and what == "running":
            E.abort("would block")
        code = sig = None
        if what in ("exited", "signalled"):
            raw = E.bv("wstatus", 16)
            if what == "exited":
                E.assume((raw & 0x7F) == 0)
                E.assume((raw & 0x80) == 0)
            else:
                low = raw & 0x7F
                E.assume(E.Not(low == 0))
                E.assume(E.Not(low == 0x7F))
                E.assume((raw & 0xFF00) == 0)      # core flag (0x80) is free
            p.raw = raw
            p.exit(0)
        elif what == "gone":
            p.reaped = True
        r = private(E, "util", "wait_pid", p.pid, block=block)
        E.cover(what)
        E.obs("r", r)
        if what == "running":
            E.check(r is None, "C24 nothing while still running", r)
        elif what == "gone":
            E.check(r == 255, "C24 255 if the status is no longer available", r)
        elif what == "exited":
            E.check(r == ((raw >> 8) & 0xFF), "C24 exit code", r)
        else:
            E.check(-r == (raw & 0x7F), "C24 minus the signal number", r)


def _spawn(W):
    class P:
        pass
    return W.spawn(P(), ["/sx/prog"], 0, 1, 2, {})


class _Transport:
    "Records every write of the return code."

    def __init__(self):
        self.writes = []
        self._proc = self
        self._rc = None

    @property
    def _returncode(self):
        return self._rc

    @_returncode.setter
    def _returncode(self, v):
        self.writes.append(("transport", v))
        self._rc = v

    @property
    def returncode(self):
        return self._rc2 if hasattr(self, "_rc2") else None

    @returncode.setter
    def returncode(self, v):
        self.writes.append(("popen", v))
        self._rc2 = v


class _Process:
    def __init__(self, pid, tr):
        self.pid = pid
        self._transport = tr

    @property
    def returncode(self):
        return self._transport._rc


def poll(E, n=4):
    "poll_wait_pid called n times while the process may exit in between."

    W = World(E)
    with use(W):
        p = _spawn(W)
        tr = _Transport()
        proc = _Process(p.pid, tr)
        known = None
        st = E.int("status", -64, 255)
        if E.decide(E.bool("already")):
            tr._rc = known = E.int("known", -64, 255)
            E.cover("already")
        calls = {"n": 0}
        real = W.waitpid

        def counted(pid, options=0):
            calls["n"] += 1
            return real(pid, options)
        W.waitpid = counted
        gone = False
        for i in range(n):
            ev = E.choice(f"event{i}", 3)
            if ev == 1 and p.alive:
                p.exit(st)
            elif ev == 2 and p.alive:
                p.exit(st)
                p.lost = True
                gone = True
            before = calls["n"]
            r = private(E, "util", "poll_wait_pid", proc)
            if known is not None:
                E.check(r is True, "C24 a known status stays known", r)
                E.check(calls["n"] == before, "C24 a known status is not asked for again")
                E.check(proc.returncode == known, "C24 a known status never changes", proc.returncode)
            elif p.alive:
                E.check(r is False, "C24 polling a running process", r)
                E.check(proc.returncode is None, "C24 nothing recorded while running", proc.returncode)
                E.cover("running")
            else:
                E.check(r is True, "C24 polling an exited process", r)
                want = 255 if gone else st
                E.check(proc.returncode == want, "C24 polling records the status", proc.returncode)
                E.check([w[0] for w in tr.writes] in (["transport", "popen"], ["popen", "transport"])
                        and tr.writes[0][1] is tr.writes[1][1],
                        "C24 the status is recorded exactly once", [w[0] for w in tr.writes])
                known = proc.returncode
                E.cover("recorded")
        E.obs("rc", proc.returncode)
