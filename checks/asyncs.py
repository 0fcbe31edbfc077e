"""C22 harvest, C30 uninterrupted, C25 re-entrant contexts."""

import asyncio
from fractions import Fraction

from symx.loop import add
from symx.world import World

from .lifecycle import Cancels, attach_behaviour, execute, sym_fault


class Err(Exception):
    def __init__(self, i):
        super().__init__(i)
        self.i = i


class Stop(Exception):
    "Raised while handling cancellation."


FAIL_KINDS = {"Err": Err, "RuntimeError": RuntimeError, "AssertionError": AssertionError}


def harvest(E, fn="harvest", n=2, timeout=False, cancels=0, kinds=("return", "fail"), on_cancel=("obey",),
            cancel_finish=False, cancel_timeout=None, as_=("coro",), fail="Err", stubborn=10, csteps=60,
            max_delay=40, gap=0):
    """harvest*/ over n members.

    kinds: how a member ends by itself; on_cancel: how it reacts to cancellation;
    as_: what is passed (coroutine, task or future).
    """
    from shellous import harvest as H

    W = World(E)
    mem = [dict(state="new", cancelled=0, started=False) for _ in range(n)]
    T = E.real("timeout", 0, 30) if timeout else None
    kw = {}
    if T is not None:
        kw["timeout"] = T
    if cancel_timeout is not None:
        kw["cancel_timeout"] = cancel_timeout
    if cancel_finish:
        kw["cancel_finish"] = True
    plan = []
    for i in range(n):
        k = kinds[E.choice(f"kind{i}", len(kinds))]
        d = 0 if k in ("now", "failnow") else E.real(f"delay{i}", 0, max_delay)
        plan.append((k, d))

    async def member(i):
        m = mem[i]
        m["started"] = True
        k, d = plan[i]
        try:
            try:
                if k not in ("now", "failnow"):
                    await asyncio.sleep(d)
                if k == "selfcancel":
                    raise asyncio.CancelledError()
                if k in ("fail", "failnow"):
                    m["state"] = "failed"
                    m["when"] = W.loop._now
                    m["exc"] = FAIL_KINDS[fail](i)
                    raise m["exc"]
                m["state"] = "returned"
                m["when"] = W.loop._now
                return ["value", i]
            except asyncio.CancelledError:
                if k == "selfcancel" and m["cancelled"] == 0 and asyncio.current_task().cancelling() == 0:
                    m["state"] = "self-cancelled"
                    m["when"] = W.loop._now
                    raise
                m["cancelled"] += 1
                react = on_cancel[E.choice(f"react{i}", len(on_cancel))]
                m["react"] = react
                if react == "slow" or react == "swallow":
                    try:
                        await asyncio.sleep(E.real(f"cleanup{i}", 0, stubborn))
                    except asyncio.CancelledError:
                        pass
                if react == "swallow":
                    m["state"] = "returned"
                    return ["value", i]
                if react == "raise":
                    m["exc"] = Stop(i)
                    raise m["exc"] from None
                raise
        finally:
            m["end"] = W.loop._now
            m["done"] = True

    objs = []
    state = {}

    async def run():
        loop = W.loop
        for i in range(n):
            form = as_[E.choice(f"form{i}", len(as_))]
            c = member(i)
            if form == "coro" and fn != "harvest_wait":
                objs.append(c)
            else:
                t = loop.create_task(c)
                objs.append(t)
        try:
            return await getattr(H, fn)(*([objs] if fn == "harvest_wait" else objs), **kw)
        finally:
            state["alldone"] = [m.get("done", False) or not m["started"] for m in mem]
            state["end"] = loop._now
            state["pending"] = [t for t in loop._all if not t.done() and t is not loop.main]

    C = Cancels(E, W, cancels, hi=csteps, gap=gap) if cancels else None
    out = execute(E, W, run, C, linger=0)
    judge_harvest(E, W, out, C, mem, plan, state, fn, T, cancel_finish, n, fail, stubborn)


def judge_harvest(E, W, out, C, mem, plan, state, fn, T, cancel_finish, n, fail, stubborn):
    kind = out["kind"]
    ncancel = len(C.fired) if C else 0
    E.obs("kind", kind)
    E.obs("states", [m["state"] for m in mem])
    E.cover(f"outcome:{kind}")
    if ncancel:
        E.cover(f"cancelled:{ncancel}")
    if kind == "HANG":
        E.check(False, "C22 harvest finishes", out.get("hang"))
        return
    if not state:
        # cancelled before the harvest began
        return
    own = [m["exc"] for m in mem if m.get("exc") is not None]
    gave_up = kind == "RuntimeError" and fail != "RuntimeError"
    if stubborn > 15 and gave_up:
        # a member refused to end within the cancel timeout: reported
        E.cover("gave-up")
        return
    E.check(not state["pending"], "C22 every awaitable is done when the harvest ends",
            [kind, state["pending"]])
    failed = [i for i, m in enumerate(mem) if m["state"] == "failed"]
    other = [i for i, m in enumerate(mem) if m["state"] != "failed" and m["cancelled"] == 0
             and m["state"] != "self-cancelled"]
    special = fail in ("RuntimeError", "AssertionError")
    if fn == "harvest_results":
        if kind == "ok":
            canc, res = out["value"]
            if ncancel == 0:
                E.check(canc is False, "C22 cancelled flag only when the caller was cancelled")
            else:
                E.check(canc is True, "C22 cancelled flag set when cancelled", res)
            E.check(len(res) == n, "C22 one entry per awaitable", res)
            for i, (m, r) in enumerate(zip(mem, res)):
                if m.get("exc") is not None:
                    E.check(r is m["exc"], "C22 failures in place", [i, r])
                elif m["state"] == "returned":
                    E.check(r == ["value", i], "C22 results in order", [i, r])
                else:
                    E.check(isinstance(r, asyncio.CancelledError), "C22 cancellations in place", [i, r])
        elif kind == "TimeoutError":
            pass
        else:
            E.check(special and bool(failed), "C22 results are returned", kind)
    else:
        if kind in ("Err", "Stop", "RuntimeError", "AssertionError"):
            E.check(fn == "harvest" and any(out["exc"] is x for x in own),
                    "C22 only an exception of a member is raised", repr(out["exc"]))
        if kind == "CancelledError":
            E.check(ncancel > 0, "C22 CancelledError only if the caller was cancelled")
        if failed and ncancel == 0 and T is None and fn == "harvest":
            E.check(kind not in ("ok", "CancelledError", "TimeoutError"), "C22 the failure is raised", kind)
        if ncancel:
            E.check(kind == "CancelledError", "C22 CancelledError when the caller is cancelled", kind)
    if kind == "TimeoutError":
        E.check(T is not None, "C22 TimeoutError only with a time limit")
        if T is not None and ncancel == 0:
            E.check(state["end"] >= T, "C22 TimeoutError only after the time limit")
            for i in failed:
                E.check(mem[i]["when"] >= T, "C22 a failure before the limit is not a timeout")
    elif T is not None and ncancel == 0:
        # it ended otherwise: everything finished, or something failed, in time
        if failed:
            E.check(E.Or(*[mem[i]["when"] <= T for i in failed]), "C22 TimeoutError when the limit passes", kind)
        else:
            for m in mem:
                if m["cancelled"] == 0 and "end" in m:
                    E.check(m["end"] <= T, "C22 TimeoutError when the limit passes", kind)
            E.check(all(m["cancelled"] == 0 for m in mem), "C22 nobody is cancelled without a reason", kind)
    if failed and ncancel == 0:
        first = mem[failed[0]]["when"]
        for i in failed[1:]:
            w = mem[i]["when"]
            if E.decide(w < first):
                first = w
        if T is not None:
            # only a failure before the limit ends it
            E.check(kind != "TimeoutError" or first >= T, "C22 the failure comes first", kind)
        for m in mem:
            if m["state"] in ("returned", "new") and m["cancelled"] == 0 and m["started"] and "end" in m:
                E.check(m["end"] <= first, "C22 the others are cancelled when one fails",
                        [x["state"] for x in mem])
        E.cover("failed")
    if ncancel == 0 and not failed and T is None:
        E.check(kind == "ok", "C22 harvest returns when everything finished", [kind, repr(out["exc"])])
        E.check(all(m["cancelled"] == 0 for m in mem), "C22 nobody is cancelled without a reason", kind)
        E.cover("all-returned")
    if cancel_finish and ncancel and not failed and T is None:
        E.check(all(m["cancelled"] == 0 for m in mem), "C22 cancel_finish lets the members finish",
                [m["state"] for m in mem])
        E.cover("finished")
    if ncancel and not cancel_finish:
        E.cover("cancelled")


# --- C30 ---------------------------------------------------------------------------
def shielded(E, cancels=1, kinds=("return", "fail", "now", "failnow", "callback"), csteps=40, nested=False):
    from shellous import util

    W = World(E)
    k = kinds[E.choice("kind", len(kinds))]
    st = {"done": False, "when": None, "cancelled": 0, "started": False}
    d = E.real("delay", 0, 10)
    d2 = E.real("delay2", 0, 10)

    async def step():
        st["started"] = True
        try:
            if k not in ("now", "failnow"):
                await asyncio.sleep(d)
                await asyncio.sleep(0)
                await asyncio.sleep(d2)
        except asyncio.CancelledError:
            st["cancelled"] += 1
            raise
        st["done"] = True
        st["when"] = W.loop._now
        if k in ("fail", "failnow"):
            st["exc"] = Err(0)
            raise st["exc"]
        st["value"] = object()
        return st["value"]

    async def run():
        st["called"] = True
        try:
            if nested:
                async def outer():
                    return await util.uninterrupted(step())
                return await util.uninterrupted(outer())
            return await util.uninterrupted(step())
        finally:
            st["after"] = st["done"]

    C = Cancels(E, W, cancels, lo=1, hi=csteps) if cancels else None
    out = execute(E, W, run, C, linger=0)
    kind = out["kind"]
    ncancel = len(C.fired) if C else 0
    E.obs("kind", kind)
    E.obs("done", st["done"])
    E.cover(f"outcome:{kind}")
    if not st.get("called"):
        return
    if ncancel:
        E.cover(f"cancelled:{ncancel}")
    E.check(kind != "HANG", "C30 the step's caller is resumed", out.get("hang"))
    E.check(st["started"] and st["done"], "C30 the step runs to completion", [kind, st])
    E.check(st["after"], "C30 its effects are complete before control returns", kind)
    E.check(st["cancelled"] == 0, "C30 the step is not cancelled", kind)
    if ncancel == 0:
        if k.startswith("fail"):
            E.check(out["exc"] is st["exc"], "C30 its own exception is passed on", repr(out["exc"]))
        else:
            E.check(kind == "ok" and out["value"] is st["value"], "C30 its own result is passed on", kind)
    else:
        ok = kind == "CancelledError" or (k.startswith("fail") and out["exc"] is st["exc"])
        E.check(ok, "C30 the cancellation is reported", kind)


# --- C25 -----------------------------------------------------------------------------
def contexts(E, tasks=2, depth=2, child=True, owners=2, pipe=False, raises=False, bad=False, fails=0,
             inside=False):
    """`tasks` tasks enter and leave the same commands at symbolic instants; one of the first `fails`
    launches may fail. inside: the tasks are created inside a block of their parent."""
    from shellous import sh

    W = World(E)
    attach_behaviour(E, W, exits="now", term=0, kill=0, code=0)
    calls = []

    def audit(phase, inf):
        calls.append((phase, inf["runner"]))
    cmds = []
    for i in range(owners):
        c = sh("/sx/p").set(audit_callback=audit)
        if pipe and i == 0:
            c = c | sh("/sx/q")
        cmds.append(c)
    log = []
    ntask = [0]
    flt = sym_fault(E, W, ["OSError"], fails, ops=["spawn"]) if fails else {"fired": None}

    def entered(run):
        # The pid identifies the run, for commands and pipelines alike.
        return run.pid

    def stops():
        return [r.pid for ph, r in calls if ph == "stop"]

    async def use_(tid, level):
        c = cmds[E.choice(f"owner{tid}_{level}", owners)]
        before = run = None
        try:
            async with c as run:
                me = entered(run)
                log.append(("enter", tid, me))
                if E.decide(E.bool(f"wait{tid}_{level}")):
                    await asyncio.sleep(E.real(f"hold{tid}_{level}", 0, 5))
                sub = None
                if child and level == 0 and tid == 0:
                    if E.decide(E.bool("child")):
                        ntask[0] += 1
                        sub = asyncio.create_task(use_(10 + tid, depth - 1))
                if level + 1 < depth and E.decide(E.bool(f"deeper{tid}_{level}")):
                    await use_(tid, level + 1)
                    E.cover("nested")
                if sub is not None and E.decide(E.bool("join")):
                    await sub
                    E.cover("child")
                    sub = None
                if raises and E.decide(E.bool(f"raise{tid}_{level}")):
                    raise Err(tid)
                before = set(stops()) if not pipe else set()
                E.check(me not in before, "C25 a run is not finished before its own exit", [me, log])
        except Err:
            E.cover("raised")
        except OSError:
            E.check(bool(flt["fired"]) and run is None, "C25 only a failed entry raises", [tid, level, log])
            E.cover("entry-failed")
            return
        mine = stops()
        E.check(mine.count(me) == 1, "C25 every exit finishes its own run", [tid, level, me, mine])
        r = run.result(check=False)
        E.check(r is not None, "C25 the run has a result after its exit")
        if sub is not None:
            await sub

    async def run():
        if not inside:
            return await body()
        name = ["job", None][E.choice("name", 2)]
        async with cmds[-1] as r:
            E.cover("inside")
            await body(name)
            E.check(r.pid not in stops(), "C25 a run is not finished before its own exit", log)
        E.check(stops().count(r.pid) == 1, "C25 every exit finishes its own run", log)
        return True

    async def body(name=None):
        ts = []
        for t in range(tasks):
            ts.append(asyncio.create_task(use_(t, 0), name=name))
            if E.decide(E.bool(f"gap{t}")):
                await asyncio.sleep(E.real(f"start{t}", 0, 5))
        for t in ts:
            await t
        if bad:
            for c in cmds:
                try:
                    await c.__aexit__(None, None, None)
                except RuntimeError:
                    E.cover("unbalanced")
                else:
                    E.check(False, "C25 leaving a block that was not entered is an error")
        return True

    out = execute(E, W, run, None, linger=0)
    E.obs("kind", out["kind"])
    E.obs("log", [[a, b] for a, b, _ in log])
    E.check(out["kind"] == "ok", "C25 the program runs", repr(out["exc"]))
    ent = [x[2] for x in log]
    E.check(sorted(ent) == sorted(set(ent)), "C25 every entry starts a run of its own", ent)
    E.check(not out["unreaped"], "C25 nothing is left running", out["unreaped"])
    E.cover("ran")


def unentered(E):
    "Leaving a block is an error unless this task entered it."
    from shellous import sh

    W = World(E)
    attach_behaviour(E, W, exits="now")
    c = sh("/sx/p")
    d = sh("/sx/p")      # equal, but another object
    how = ["never", "twice", "other", "othertask"][E.choice("how", 4)]
    st = {}

    async def leave():
        try:
            await (d if how == "other" else c).__aexit__(None, None, None)
        except RuntimeError as ex:
            st["error"] = ex

    async def run():
        if how == "twice":
            async with c:
                pass
            await leave()
        elif how == "other":
            async with c:
                await leave()
        elif how == "othertask":
            async with c:
                await asyncio.create_task(leave())
        else:
            await leave()
        return True

    out = execute(E, W, run, None, linger=0)
    E.obs("kind", out["kind"])
    E.cover(how)
    E.check(out["kind"] == "ok", "C25 the matching exit is not disturbed", repr(out["exc"]))
    E.check("error" in st, "C25 leaving a block that was not entered is an error", how)
