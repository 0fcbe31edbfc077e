"""Threads under a symbolic scheduler.

Every thread of the code under test is a real thread, but only the one that
holds the baton runs.  At a switch point - before each statement of the traced
modules and in each operation of the fake system - the engine decides whether
the baton moves on; a move away from a thread that could go on counts against a
bound on preemptions, other moves are free.  The decisions are solver variables
as any other input, so schedules are explored as paths are.
"""

import _thread
import ast
import sys
import threading
import types

from . import core

_Thread = threading.Thread


class Deadlock(Exception):
    pass


class T:
    def __init__(self, name):
        self.name = name
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = "ready"
        self.cond = None
        self.error = None
        self.real = None


_stmts = {}


def _shared(st):
    "Can this statement (without the statements in it) touch what other threads see?"
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
        f = st.value.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "LOGGER":
            return False
    todo = [st]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Attribute, ast.Call, ast.Subscript, ast.Global, ast.Nonlocal,
                          ast.With, ast.AsyncWith, ast.Await, ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(c for c in ast.iter_child_nodes(n)
                    if not isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case)))
    return False


def stmt_map(filename):
    "line -> first line of the innermost statement that starts or continues there."
    if filename not in _stmts:
        m = {}
        with open(filename) as f:
            tree = ast.parse(f.read())

        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.stmt):
                    end = ch.end_lineno
                    body = getattr(ch, "body", None)
                    if isinstance(body, list) and body:
                        end = max(ch.lineno, body[0].lineno - 1)
                    for ln in range(ch.lineno, end + 1):
                        m[ln] = ch.lineno if _shared(ch) else None
                visit(ch)
        visit(tree)
        _stmts[filename] = m
    return _stmts[filename]


class Sched:
    def __init__(self, E, preempt=2, files=()):
        self.E = E
        self.left = preempt
        self.files = set(files)
        self.main = T("main")
        self.cur = self.main
        self.threads = [self.main]
        self.killed = False
        self.on_idle = None          # callable() -> True if it changed something
        self.frames = {}
        self.npoints = 0
        self.fresh = None            # the thread that has done nothing since its last switch point

    # -- switching ---------------------------------------------------------------
    def runnable(self, t):
        return t.state == "ready" or t.state == "blocked" and t.cond()

    def _others(self):
        return [t for t in self.threads if t is not self.cur and self.runnable(t)]

    def _to(self, t):
        me = self.cur
        if t is me:
            return
        self.cur = t
        t.gate.release()
        if me.state != "done":
            me.gate.acquire()
            if me is self.main and me.error is not None:
                raise me.error
            if self.killed or self.E.dead:
                raise core.PathAbort("dead")

    def op(self):
        "A switch point, unless there was one since this thread's last step."
        fresh, self.fresh = self.fresh, None
        if fresh is not self.cur:
            self.point()
            self.fresh = None

    def point(self):
        "The running thread may be preempted here."
        if self.killed or self.E.dead:
            raise core.PathAbort("dead")
        self.npoints += 1
        self.fresh = self.cur
        if self.left <= 0:
            return
        o = self._others()
        if o:
            k = self.E.choice("switch", 1 + len(o))
            if k:
                self.left -= 1
                self._to(o[k - 1])

    def block(self, cond):
        "Wait until cond()."
        me = self.cur
        if self.killed or self.E.dead:
            raise core.PathAbort("dead")
        while not cond():
            me.state, me.cond = "blocked", cond
            self._next()
            me.state, me.cond = "ready", None

    def _next(self):
        "Give the baton to some other thread that can go on."
        while True:
            o = self._others()
            if o:
                self._to(o[self.E.choice("next", len(o))])
                return
            if self.cur.state == "blocked" and self.cur.cond():
                return
            if self.on_idle is None or not self.on_idle():
                raise Deadlock("deadlock: " + ", ".join(f"{t.name} {t.state}" for t in self.threads))

    # -- threads -------------------------------------------------------------------
    def spawn(self, t, fn):
        def body():
            t.gate.acquire()
            try:
                if not self.killed and not self.E.dead:
                    sys.settrace(self.trace)
                    fn()
            except core.PathAbort:
                self.killed = True
            except Deadlock as ex:
                self.main.error = ex
                self.killed = True
            except BaseException as ex:  # the thread dies
                t.error = ex
            finally:
                sys.settrace(None)
                t.state = "done"
                self._leave()
        self.threads.append(t)
        t.real = _Thread(target=body, daemon=True)
        t.real.start()
        self.point()

    def _leave(self):
        "The current thread is over."
        try:
            if self.killed or self.E.dead:
                raise core.PathAbort("dead")
            o = self._others()
            while not o:
                if self.on_idle is None or not self.on_idle():
                    raise Deadlock("deadlock at the end of a thread")
                o = self._others()
            self._to(o[self.E.choice("next", len(o))])
        except BaseException as ex:  # noqa
            self.killed = True
            if not isinstance(ex, core.PathAbort):
                self.main.error = ex
            if not self.main.state == "done":
                self.cur = self.main
                self.main.gate.release()

    def finish(self):
        "End of the path: let every thread unwind."
        self.main.state = "ended"
        self.killed = True
        for t in self.threads:
            if t is self.main:
                continue
            while t.state != "done":
                self.cur = t
                t.gate.release()
                self.main.gate.acquire()
            t.real.join()

    # -- tracing -----------------------------------------------------------------------
    def trace(self, frame, event, arg):
        code = frame.f_code
        if code.co_filename not in self.files or code.co_name.startswith("<"):
            return None
        m = stmt_map(code.co_filename)
        last = None

        def line(fr, ev, a):
            nonlocal last
            if ev == "line":
                s = m.get(fr.f_lineno)
                if s is not None and s != last:
                    last = s
                    self.point()
            return line
        return line


def fakes(S):
    "Replacements for the classes of `threading`."

    class Thread:
        _n = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            Thread._n += 1
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.name = name or f"Thread-{Thread._n}"
            self.daemon = daemon
            self.t = None

        def run(self):
            if self.target is not None:
                self.target(*self.args, **self.kwargs)

        def start(self):
            if self.t is not None:
                raise RuntimeError("threads can only be started once")
            self.t = T(self.name)
            S.spawn(self.t, self.run)

        def join(self, timeout=None):
            if self.t is None:
                raise RuntimeError("cannot join thread before it is started")
            if S.cur is self.t:
                raise RuntimeError("cannot join current thread")
            if timeout is None:
                S.block(lambda: self.t.state == "done")
            else:
                S.point()

        def is_alive(self):
            return self.t is not None and self.t.state != "done"

        ident = property(lambda self: id(self.t) if self.t else None)

    class Lock:
        reentrant = False

        def __init__(self):
            self.owner = None
            self.n = 0

        def _free(self):
            return self.owner is None or self.reentrant and self.owner is S.cur

        def acquire(self, blocking=True, timeout=-1):
            S.op()
            me = S.cur
            free = lambda: self.owner is None or self.reentrant and self.owner is me
            if not free():
                if not blocking:
                    return False
                S.block(free)
            self.owner = me
            self.n += 1
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.n -= 1
            if not self.n:
                self.owner = None

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Event:
        def __init__(self):
            self.flag = False

        def set(self):
            S.op()
            self.flag = True

        def clear(self):
            self.flag = False

        def is_set(self):
            S.point()
            return self.flag

        def wait(self, timeout=None):
            if timeout is None:
                S.block(lambda: self.flag)
            else:
                S.point()
            return self.flag

    return {"Thread": Thread, "Lock": Lock, "RLock": RLock, "Event": Event}


class Proxy(types.ModuleType):
    "A module with some names replaced."

    def __init__(self, mod, names):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__.update(names)

    def __getattr__(self, n):
        return getattr(self._mod, n)


class installed:
    "Put the fakes into the namespaces of the modules under test."

    def __init__(self, S, modules):
        self.S, self.modules = S, modules

    def __enter__(self):
        fk = fakes(self.S)
        real = {id(getattr(threading, n)): v for n, v in fk.items()}
        real[id(threading)] = Proxy(threading, fk)
        self.saved = []
        for m in self.modules:
            for k, v in list(vars(m).items()):
                r = real.get(id(v))
                if r is not None:
                    self.saved.append((m, k, v))
                    setattr(m, k, r)
        return self.S

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
