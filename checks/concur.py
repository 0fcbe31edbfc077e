"""C33 several runs of one command or pipeline do not affect each other."""

import asyncio
import contextvars
from fractions import Fraction
from io import BytesIO, StringIO

from symx.loop import add
from symx.world import World

from .lifecycle import execute

RUN = contextvars.ContextVar("run", default=None)
DATA = b"in-1\nin-2\n"


class Stop(Exception):
    "Raised by the body of a run."


def _source(kind):
    if kind == "bytes":
        return DATA
    if kind == "str":
        return DATA.decode()
    if kind == "bytearray":
        return bytearray(DATA)
    raise AssertionError(kind)


def runs(E, n=2, modes=("await",), shape="cmd", stop=None, source=None, seq=False, buffer=False, codes=(0, 3),
         derived=None, same_mode=False, fixed=(), early=True):
    """n runs of one object, each in a task of its own (seq: one after the other).

    modes: how a run is carried out (symbolic choice); shape: command, pipeline, command with a process
    substitution; stop: how one of the runs ends before its time ("cancel", "timeout", "raise", "fault") or None;
    source: standard input; buffer: the error stream is buffered; derived: the second run uses an object
    derived from the first ("set", "args", "env", "stdin").
    """
    from shellous import sh

    W = World(E)
    R = [dict(procs=[], audit=[], kind=None, start=None, end=None, value=None, exc=None) for _ in range(n)]
    mode = []
    for i in range(n):
        k = fixed[i] if i < len(fixed) else (
            modes[0] if same_mode and i else modes[E.choice(f"mode{i}", len(modes))])
        mode.append(k)
    code = [codes[E.choice(f"code{i}", len(codes))] for i in range(n)]
    life = [E.real(f"life{i}", 0, 10) for i in range(n)]
    gap = [0 if i == 0 else E.real(f"gap{i}", 0, 10) for i in range(n)]
    chatty = [early and E.decide(E.bool(f"early{i}")) for i in range(n)]   # output long before the end
    limit = E.real("limit", 0, 10) if stop == "timeout" else None
    victim = E.choice("victim", n) if stop in ("cancel", "raise", "fault") else None
    body = E.real("body", 0, 10) if stop == "raise" else None
    state = dict(cancelled=False)

    def text(i):
        return b"out-%d\n" % i

    def on_spawn(p):
        i = RUN.get()
        E.check(i is not None, "C33 every process belongs to one run", [p.name])
        r = R[i]
        k = len(r["procs"])
        r["procs"].append(p)
        p.run = i
        if p.name == "/sx/last" or (shape != "pipe" and p.name == "/sx/prog"):
            def say(p=p, i=i):
                p.write(text(i))
                if buffer:
                    p.write(b"err-%d\n" % i, "stderr")
            if chatty[i]:
                say()

            def end(p=p, i=i):
                if not chatty[i]:
                    say()
                p.exit(code[i])
            p.end_ev = W.loop.after(life[i], end, f"end{i}")
        else:
            p.exit_after(life[i], 0)
        p.part = k

    def on_kill(p, sig):
        ev = getattr(p, "end_ev", None)
        if ev is not None:
            ev.cancel()
        p.exit_after(0, -sig)
    W.on_spawn = on_spawn
    W.on_kill = on_kill
    if stop == "fault":
        # one fallible operation of one run fails
        at = E.int("fault", 0, 8)
        seen = dict(n=0)

        def fault(op, k, **_):
            if RUN.get() != victim or state["cancelled"]:
                return None
            m = seen["n"]
            seen["n"] += 1
            if E.decide(at == m):
                state["cancelled"] = True
                return FileNotFoundError(2, "injected")
            return None
        W.fault = fault

    def audit(phase, info):
        i = RUN.get()
        if i is not None:
            R[i]["audit"].append((phase, info["runner"].name, info["runner"].pid))

    args = [sh("/sx/sub")] if shape == "sub" else []
    cmd = sh("/sx/prog", *args).set(audit_callback=audit)
    if limit is not None:
        cmd = cmd.set(timeout=limit)
    if source is not None:
        cmd = cmd.stdin(_source(source))
    if buffer:
        cmd = cmd.stderr(sh.BUFFER)
    if shape == "pty":
        cmd = cmd.set(pty=True)
    if shape == "pipe":
        last = sh("/sx/last").set(audit_callback=audit)
        if limit is not None:
            last = last.set(timeout=limit)
        if buffer:
            last = last.stderr(sh.BUFFER)
        obj = cmd | last
    elif shape == "ctx":
        ctx = sh.set(audit_callback=audit)
        if limit is not None:
            ctx = ctx.set(timeout=limit)
        obj = ctx
    else:
        obj = cmd
    objs = [obj] * n
    if shape == "ctx":
        objs = [ctx("/sx/prog", f"a{i}") for i in range(n)]
        if source is not None:
            objs = [o.stdin(_source(source)) for o in objs]
    if derived == "set":
        objs[-1] = obj.set(alt_name="other", exit_codes={0})
    elif derived == "args":
        objs[-1] = obj("more")
    elif derived == "env":
        objs[-1] = obj.env(EXTRA="1")
    elif derived == "stdin":
        objs[-1] = obj.stdin(b"other\n")

    async def one(i):
        r = R[i]
        c = objs[i]
        m = mode[i]
        if m == "await":
            return await c
        if m == "result":
            return await c.result
        if m == "coro":
            return await c.coro()
        if m == "iter":
            lines = []
            async for line in c:
                lines.append(line)
            return "".join(lines)
        if m == "with":
            async with c as run:
                r["run"] = run
                r["pid"] = run.pid if shape != "pipe" else None
                if i == victim and stop == "raise":
                    await asyncio.sleep(body)
                    raise Stop(i)
            res = run.result(check=False)
            return res
        if m == "prompt":
            async with c.prompt() as cli:
                out = await cli.read_all()
            return out
        raise AssertionError(m)

    async def task(i):
        RUN.set(i)
        r = R[i]
        r["task"] = asyncio.current_task()
        if i and not seq:
            await asyncio.sleep(gap[i])
        r["start"] = W.loop._now
        r["step"] = W.loop._ncb
        try:
            r["value"] = await one(i)
            r["kind"] = "ok"
        except (asyncio.CancelledError, Exception) as ex:
            r["kind"] = type(ex).__name__
            r["exc"] = ex
        r["end"] = W.loop._now
        r["left"] = [p.pid for p in r["procs"] if p.alive or not p.reaped]
        return i

    if stop == "cancel":
        c = E.int("cancel", 1, 250)

        def strike():
            r = R[victim]
            t = r.get("task")
            if t is not None and r["start"] is not None and r["kind"] is None:
                state["cancelled"] = True
                state["when"] = W.loop._now
                t.cancel()
        W.loop.at_step(c, strike)

    async def main():
        if seq:
            for i in range(n):
                await asyncio.create_task(task(i))
        else:
            ts = [asyncio.create_task(task(i)) for i in range(n)]
            await asyncio.wait(ts)

    out = execute(E, W, main, None, linger=1)
    E.obs("kinds", [out["kind"]] + [r["kind"] for r in R])
    E.check(out["kind"] == "ok", "C33 every run ends", [out["kind"], [r["kind"] for r in R]])
    nproc = {"cmd": 1, "pty": 1, "ctx": 1, "pipe": 2, "sub": 2}[shape]
    pids = [p.pid for r in R for p in r["procs"]]
    E.check(len(pids) == len(set(pids)), "C33 every process belongs to one run", [pids])
    for i, r in enumerate(R):
        hit = state["cancelled"] and i == victim
        own = [p for p in r["procs"] if p.name != "/sx/sub"]
        names = [p.name for p in r["procs"]]
        E.check(not r["left"], "C33 a run leaves none of its processes behind", [i, r["left"]])
        for p in r["procs"]:
            if p.signals and not hit:
                ok = (stop == "timeout" and E.decide(add(r["start"], limit) <= p.signals[0][0])) or \
                     (stop == "raise" and i == victim) or p.name == "/sx/sub" or \
                     (mode[i] == "iter" and code[i]) 
                E.check(ok, "C33 a run's processes are signalled only on its own account", [i, p.name, mode])
        # every callback of the run names its own processes
        for ph, nm, pid in r["audit"]:
            E.check(pid is None or any(p.pid == pid for p in r["procs"]),
                    "C33 the audit callback of a run names its own process", [i, ph, nm, pid])
        if hit:
            E.cover("hit")
            continue
        if stop == "raise" and i == victim and mode[i] == "with":
            E.check(r["kind"] == "Stop" and r["exc"].args == (i,), "C33 a run ends with its own outcome",
                    [i, r["kind"]])
            E.cover("hit")
            continue
        E.check(len(r["procs"]) == nproc, "C33 a run starts its own processes", [i, names])
        fin = add(r["start"], life[i])
        if stop == "timeout":
            late = add(r["start"], limit)
            if E.decide(fin > late):
                E.cover("hit")
                # a pipeline reports the command that was stopped
                mine = r["kind"] == "TimeoutError" or (
                    shape == "pipe" and r["kind"] == "ResultError" and r["exc"].result.exit_code == -15)
                E.check(mine, "C33 a run ends with its own outcome", [i, mode[i], r["kind"]])
                E.check(r["end"] == late, "C33 a run ends at its own time", [i, mode[i]])
                continue
            if E.decide(fin == late):
                continue
        E.cover("own")
        E.check(r["end"] == fin, "C33 a run ends at its own time", [i, mode[i], r["kind"]])
        want = text(i).decode()
        m = mode[i]
        if m in ("await", "coro"):
            if code[i]:
                E.check(r["kind"] == "ResultError", "C33 a run ends with its own outcome", [i, m, r["kind"]])
                res = r["exc"].result
                E.check(res.exit_code == code[i] and res.output == want, "C33 a run ends with its own outcome",
                        [i, m, res.exit_code, res.output])
                if buffer and shape == "cmd":
                    E.check(res.error_bytes == b"err-%d\n" % i, "C33 a run ends with its own outcome",
                            [i, res.error_bytes])
            else:
                E.check(r["kind"] == "ok" and r["value"] == want, "C33 a run ends with its own outcome",
                        [i, m, r["kind"], r["value"]])
        elif m == "result":
            res = r["value"]
            E.check(r["kind"] == "ok" and res.exit_code == code[i] and res.output == want and not res.cancelled,
                    "C33 a run ends with its own outcome", [i, m, r["kind"], res])
            if buffer and shape == "cmd":
                E.check(res.error_bytes == b"err-%d\n" % i, "C33 a run ends with its own outcome",
                        [i, res.error_bytes])
        elif m in ("iter", "prompt"):
            E.check(r["kind"] == "ok" and r["value"] == want, "C33 a run ends with its own outcome",
                    [i, m, r["kind"], r["value"]])
        else:
            E.check(r["kind"] == "ok" and r["value"].exit_code == code[i], "C33 a run ends with its own outcome",
                    [i, m, r["kind"], r["value"]])
            if shape != "pipe":
                E.check(r["pid"] == own[0].pid, "C33 a run ends with its own outcome", [i, r["pid"]])
        if shape == "pipe":
            a = [p for p in own if p.name == "/sx/prog"][0]
            b = [p for p in own if p.name == "/sx/last"][0]
            E.check(a.sink("stdout") is not None and a.sink("stdout") is b.sink("stdin"),
                    "C33 the commands of a run are connected to each other", [i])
        elif shape == "sub":
            a = [p for p in own if p.name == "/sx/prog"][0]
            b = [p for p in r["procs"] if p.name == "/sx/sub"][0]
            fds = a.info.get("pass_fds") or ()
            E.check(any(W.fds[fd].pipe is b.sink("stdout") for fd in fds if fd in W.fds),
                    "C33 the commands of a run are connected to each other", [i])
        p = own[0]
        if source is not None and shape != "pty":
            data = b"other\n" if derived == "stdin" and i == n - 1 else DATA
            s = p.sink("stdin")
            got = b"".join(bytes(x) for x in s.written) if s is not None else None
            E.check(got == data, "C33 every run is given the whole input", [i, got])
        if derived and i == n - 1:
            E.cover("derived")
        more = derived == "args" and i == n - 1
        E.check(("more" in p.info["args"]) is more, "C33 a run starts its own processes", [i, p.info["args"]])
        env = p.info.get("env") or {}
        E.check(("EXTRA" in env) is (derived == "env" and i == n - 1), "C33 a run starts its own processes", [i])
    for i, r in enumerate(R):
        for j in range(i):
            q = R[j]
            if not seq and r["start"] is not None and q["start"] is not None and r["procs"] and q["procs"] \
                    and E.decide(E.And(q["start"] < r["end"], r["start"] < q["end"])):
                E.cover("overlap")
    left = [repr(x) for x in out["open"] if x.owner != "user"]
    E.check(not left, "C33 no descriptor is left open", left)
    bad = [x for x in W.bad]
    E.check(not bad, "C33 no descriptor is used after it was closed", bad)
