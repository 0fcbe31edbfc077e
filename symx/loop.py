"""A symbolic event loop.

Real asyncio tasks, futures, streams and transports run on it.  Time is a z3
Real (a Fraction in replay).  External happenings (process output, exits,
cancellations) are events at symbolic instants; when nothing is ready the loop
moves to the earliest pending timer/event, which the solver decides.  Events
may also overtake ready callbacks (bounded `preempt`) or be seen in the same
poll as the next one (bounded `merge`), as in a real loop whose callbacks take
time.
"""

import asyncio
import math
import sys
from asyncio import base_events, events, tasks, futures
from fractions import Fraction

import z3

from . import core
from .values import SymReal, SymInt, is_sym, real_val


class Hang(Exception):
    "The main task waits for something that can never happen."


class _Counter:
    n = 0


class SymTask(tasks._CTask):
    def __init__(self, *a, **k):
        _Counter.n += 1
        self._sx_hash = _Counter.n
        super().__init__(*a, **k)

    def __hash__(self):
        return self._sx_hash


class SymFuture(futures._CFuture):
    def __init__(self, *a, **k):
        _Counter.n += 1
        self._sx_hash = _Counter.n
        super().__init__(*a, **k)

    def __hash__(self):
        return self._sx_hash


class SymTimerHandle(events.TimerHandle):
    __slots__ = ("_sx_hash",)

    def __hash__(self):
        return self._sx_hash

    def __eq__(self, o):
        return self is o


class Ev:
    __slots__ = ("when", "fn", "name", "cancelled")

    def __init__(self, when, fn, name):
        self.when = when
        self.fn = fn
        self.name = name
        self.cancelled = False

    def cancel(self):
        self.cancelled = True


def num(x):
    "Exact number for time arithmetic (SymReal on a symbolic path, else Fraction)."
    if type(x) is SymReal:
        return x
    if type(x) is SymInt:
        return SymReal(z3.ToReal(x.t))
    e = core.CUR
    if e is not None and e.symbolic:
        return SymReal(real_val(x))
    return Fraction(x)


def add(a, b):
    a, b = num(a), num(b)
    r = a + b
    if type(r) is SymReal:
        r = SymReal(z3.simplify(r.t))
    return r


class _Math:
    "asyncio.tasks uses math.isnan() on delays."

    def __getattr__(self, name):
        return getattr(math, name)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)


tasks.math = _Math()


MAX_CALLBACKS = 6000


class SymLoop(base_events.BaseEventLoop):
    def __init__(self, E, preempt=0, merge=0):
        self._sx_e = E
        super().__init__()
        _Counter.n = 0
        self._now = num(0)
        self._timers = []
        self._events = []
        self._readers = {}
        self._writers = {}
        self._preempt = preempt
        self._merge = merge
        self._ncb = 0
        self._at_step = []      # [(SymInt step, fn)]
        self._all = []          # all tasks created
        self.exceptions = []    # contexts given to the exception handler
        self.pollers = []       # extra poll functions -> list of (cb, args)
        self.trace = []
        self.set_task_factory(self._sx_task_factory)
        self.set_exception_handler(self._sx_exc)
        self._debug = False
        self.watch = {}

    # -- asyncio plumbing ----------------------------------------------------
    def _sx_exc(self, loop, context):
        ex = context.get("exception")
        if not isinstance(ex, core.PathAbort):
            self.exceptions.append(context)

    def _sx_task_factory(self, loop, coro, **kw):
        t = SymTask(coro, loop=loop, **kw)
        self._all.append(t)
        return t

    def create_future(self):
        return SymFuture(loop=self)

    def get_debug(self):
        return False

    def set_debug(self, v):
        pass

    def time(self):
        return self._now

    def call_later(self, delay, callback, *args, context=None):
        if delay is None:
            raise TypeError("delay must not be None")
        return self.call_at(add(self._now, delay), callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        t = SymTimerHandle(when, callback, args, self, context)
        _Counter.n += 1
        t._sx_hash = _Counter.n
        t._scheduled = True
        self._timers.append(t)
        return t

    def _timer_handle_cancelled(self, handle):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        self._check_closed()
        return self._call_soon(callback, args, context)

    def _write_to_self(self):
        pass

    def is_running(self):
        return True

    def _add_reader(self, fd, callback, *args):
        h = events.Handle(callback, args, self, None)
        old = self._readers.get(fd)
        if old:
            old.cancel()
        self._readers[fd] = h
        return h

    add_reader = _add_reader

    def _remove_reader(self, fd):
        h = self._readers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    remove_reader = _remove_reader

    def _add_writer(self, fd, callback, *args):
        h = events.Handle(callback, args, self, None)
        old = self._writers.get(fd)
        if old:
            old.cancel()
        self._writers[fd] = h
        return h

    add_writer = _add_writer

    def _remove_writer(self, fd):
        h = self._writers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    remove_writer = _remove_writer

    # -- symbolic scheduling --------------------------------------------------
    def at(self, when, fn, name=""):
        ev = Ev(num(when), fn, name)
        self._events.append(ev)
        return ev

    def after(self, delay, fn, name=""):
        return self.at(add(self._now, delay), fn, name)

    def at_step(self, step, fn):
        "Run `fn` just before step number `step` (symbolic): a callback, or an idle moment."
        self._at_step.append((step, fn))

    def _pending(self):
        self._timers = [t for t in self._timers if not t._cancelled]
        self._events = [e for e in self._events if not e.cancelled]
        return self._events + self._timers

    def _min(self, items):
        E = self._sx_e
        best = items[0]
        bw = _when(best)
        for it in items[1:]:
            w = _when(it)
            if E.decide(w < bw):
                best, bw = it, w
        return best

    def _fire(self, it):
        E = self._sx_e
        w = _when(it)
        if not (w is self._now):
            # time never goes backwards
            if E.decide(w > self._now):
                self._now = w
        if isinstance(it, Ev):
            self._events.remove(it)
            self.trace.append(it.name)
            it.fn()
            return None
        self._timers.remove(it)
        it._scheduled = False
        return it

    def _advance(self):
        "Nothing is ready: move to the next event or timer."
        E = self._sx_e
        items = self._pending()
        if not items:
            return False
        timers = []
        t = self._fire(self._min(items))
        if t is not None:
            timers.append(t)
        while self._merge > 0:
            items = self._pending()
            if not items:
                break
            if not E.decide(E.bool("merge")):
                break
            self._merge -= 1
            t = self._fire(self._min(items))
            if t is not None:
                timers.append(t)
        self._poll()
        self._ready.extend(timers)
        return True

    def _poll(self):
        W = core_world()
        if W is not None:
            for fd, h in list(self._readers.items()):
                if not h._cancelled and W.readable(fd):
                    self._ready.append(h)
            for fd, h in list(self._writers.items()):
                if not h._cancelled and W.writable(fd):
                    self._ready.append(h)
            W.poll(self)

    def _steps(self):
        E = self._sx_e
        for i, (step, fn) in enumerate(self._at_step):
            if E.decide(step == self._ncb):
                del self._at_step[i]
                fn()
                break

    def _turn(self):
        E = self._sx_e
        timers = []
        if self._ready:
            if self._preempt > 0:
                items = self._pending()
                if items and E.decide(E.bool("preempt")):
                    self._preempt -= 1
                    t = self._fire(self._min(items))
                    if t is not None:
                        timers.append(t)
            self._poll()
            self._ready.extend(timers)
        else:
            self._poll()
            if not self._ready:
                # an idle moment counts as a step of its own
                self._steps()
                self._ncb += 1
                if not self._ready and not self._advance():
                    return False
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self._steps()
            self._ncb += 1
            h._run()
            if E.dead:
                raise core.PathAbort("dead")
        if self._ncb > MAX_CALLBACKS:
            raise Hang("no progress: callback bound reached")
        return True

    def drive(self, coro, drain=True):
        "Run `coro` to completion; returns the finished task."
        prev = events._get_running_loop()
        old_hooks = sys.get_asyncgen_hooks()
        events._set_running_loop(self)
        sys.set_asyncgen_hooks(firstiter=self._asyncgen_firstiter_hook,
                               finalizer=self._asyncgen_finalizer_hook)
        try:
            main = self.create_task(coro) if not isinstance(coro, SymTask) else coro
            main._sx_main = True
            self.main = main
            while not main.done():
                if not self._turn():
                    raise Hang("deadlock")
            if self._sx_e.dead:
                raise core.PathAbort("dead")
            if not main.cancelled() and isinstance(main.exception(), core.PathAbort):
                raise main.exception()
            return main
        finally:
            sys.set_asyncgen_hooks(*old_hooks)
            events._set_running_loop(prev)

    def dispose(self):
        for t in self._all:
            if not t.done():
                t._log_destroy_pending = False
            elif not t.cancelled():
                t._log_traceback = False
        self._ready.clear()
        self._timers.clear()
        self._events.clear()
        self._readers.clear()
        self._writers.clear()
        self._at_step.clear()
        self._closed = True


def _when(it):
    return it.when if isinstance(it, Ev) else num(it._when)


def core_world():
    from . import world
    return world.CUR
