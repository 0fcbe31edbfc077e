"""Path explorer: symbolic execution of native Python by re-execution.

Symbolic values (`symx.values`) ask the current engine to `decide` a z3 term
whenever Python needs a concrete truth value.  A path is the list of answers;
the explorer re-runs the harness with a prefix of answers and flips the last
one that has a satisfiable alternative, until no alternative is left.
"""

import io
import os
import signal
import time
import traceback
import zlib
from fractions import Fraction

import z3

CUR = None  # current engine (symbolic or concrete)
SPREAD = int(os.environ.get('VERIF_SPREAD', 96))
LOG_ERRORS = []  # records that could not be formatted (C32)
LABELS = None  # prefixes of the assertions to decide (None: all)

QUERY_TIMEOUT_MS = 20000


class PathAbort(BaseException):
    "The current path is over (infeasible, truncated, or tainted)."


class Unsupported(Exception):
    "An operation on a symbolic value that the engine has no model for."


def cur():
    return CUR


def set_cur(e):
    global CUR
    CUR = e


def to_py(v):
    "Convert a z3 value to a Python value."
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(10)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise TypeError(f"cannot convert {v!r}")


def is_value(t):
    return (z3.is_true(t) or z3.is_false(t) or z3.is_int_value(t)
            or z3.is_bv_value(t) or z3.is_rational_value(t))


class Stats:
    FIELDS = ("paths", "aborted", "truncated", "tainted", "decisions", "forks",
              "queries", "solver_s", "checks", "unknown", "max_depth")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            if f == "max_depth":
                self.max_depth = max(self.max_depth, o["max_depth"])
            else:
                setattr(self, f, getattr(self, f) + o[f])

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class EngineBase:
    "Interface shared by the symbolic engine and the concrete replay engine."

    symbolic = False

    def __init__(self):
        self.dead = False
        self.taint = None
        self.violations = []
        self.covers = set()
        self.observed = []
        self._names = {}
        self._inputs = []

    def _fresh(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return f"{name}#{n}" if n else name

    def cover(self, label):
        if not self.dead:
            self.covers.add(label)

    def obs(self, key, value):
        if not self.dead:
            self.observed.append((key, value))

    # Logic helpers that work on both Python bools and symbolic ones.
    def And(self, *xs):
        from . import values
        return values.s_and(*xs)

    def Or(self, *xs):
        from . import values
        return values.s_or(*xs)

    def Not(self, x):
        from . import values
        return values.s_not(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)


class SymEngine(EngineBase):
    symbolic = True

    def __init__(self):
        super().__init__()
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_TIMEOUT_MS)
        self.nscopes = 0
        self.stats = Stats()
        self.max_decisions = 2000
        self.trail = []
        self.prefix = []
        self.retained = -1
        self.model = None

    # -- path control ------------------------------------------------------
    def start(self, prefix, retained):
        self.prefix = prefix
        self.retained = retained
        self.pref = (0, 0, 0)
        self.trail = []  # entries: [kind, value, answer, alt]
        self.model = None
        self.dead = False
        self.taint = None
        self.violations = []
        self.covers = set()
        self.observed = []
        self._names = {}
        self._inputs = []

    def abort(self, why="abort"):
        self.dead = True
        raise PathAbort(why)

    def _check(self, *extra):
        t0 = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                self.abort("infeasible")
            self.model = m  # None when unknown
        return self.model

    def decide_term(self, t, kind="b", value=None):
        "Answer the Boolean term `t`, forking if both answers are possible."
        if self.dead:
            raise PathAbort("dead")
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.trail)
        self.stats.decisions += 1
        if i < len(self.prefix):
            ent = self.prefix[i]
            if ent[0] != kind:
                raise RuntimeError(f"nondeterministic replay at {i}: {ent} vs {kind} {t}")
            ans = ent[2]
            if i >= self.retained:
                self.solver.push()
                self.nscopes += 1
                self.solver.add(t if ans else z3.Not(t))
            self.trail.append([kind, ent[1], ans, ent[3]])
            return ans
        if i >= self.max_decisions:
            self.stats.truncated += 1
            self.abort("max decisions")
        m = self._ensure_model()
        if m is not None:
            ans = z3.is_true(m.eval(t, model_completion=True))
            r, m2 = self._check(z3.Not(t) if ans else t)
            alt = r != z3.unsat
            if m2 is not None and kind == "b" and i < self.pref[1] and self._turn(i) != ans:
                ans, m = not ans, m2
        else:
            r, m = self._check(t)
            if r == z3.unsat:
                ans, alt = False, False
                m = None
            else:
                ans = True
                r2, _ = self._check(z3.Not(t))
                alt = r2 != z3.unsat
        if alt:
            self.stats.forks += 1
        self.solver.push()
        self.nscopes += 1
        self.solver.add(t if ans else z3.Not(t))
        self.model = m
        self.trail.append([kind, value, ans, alt])
        return ans

    def _turn(self, i):
        "Which side to take first at open decision `i` (the other one is explored later)."
        mode = self.pref[0]
        if mode == 3:
            return bool(zlib.crc32(b"%d %d" % (self.pref[2], i)) >> 7 & 1)
        return mode == 2

    def decide(self, c):
        if c is True or c is False:
            return c
        return self.decide_term(c.t)

    def assume(self, c):
        if self.dead:
            raise PathAbort("dead")
        if c is True:
            return
        if c is False:
            self.abort("assume")
        t = c.t
        if len(self.trail) <= self.retained and self.retained >= 0:
            return
        self.solver.add(t)
        if len(self.trail) < len(self.prefix):
            self.model = None
            return
        if self.model is not None and z3.is_true(self.model.eval(t, model_completion=True)):
            return
        self.model = None
        self._ensure_model()

    def concretize(self, t):
        "Pick a value for term `t` (exploring every feasible one)."
        t = z3.simplify(t)
        if is_value(t):
            return to_py(t)
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                if self.dead:
                    raise PathAbort("dead")
                v = self.prefix[i][1]
            else:
                if self.dead:
                    raise PathAbort("dead")
                m = self._ensure_model()
                if m is None:
                    self.tainted("concretize: unknown")
                v = to_py(m.eval(t, model_completion=True))
            if z3.is_bool(t):
                zv = z3.BoolVal(v)
            elif z3.is_bv(t):
                zv = z3.BitVecVal(v, t.size())
            elif z3.is_real(t):
                zv = z3.RealVal(v)
            else:
                zv = z3.IntVal(v)
            eq = z3.simplify(t == zv)
            if z3.is_true(eq):
                return v
            if self.decide_term(t == zv, "v", v):
                return v

    def tainted(self, why):
        "Give up on this path: an operation has no symbolic model."
        if not self.dead:
            self.taint = why
        self.dead = True
        raise PathAbort(f"unsupported: {why}")

    # -- inputs --------------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        from . import values
        n = self._fresh(name)
        t = z3.Int(n)
        self._inputs.append((n, "int", t))
        v = values.SymInt(t)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bv(self, name, bits):
        from . import values
        n = self._fresh(name)
        t = z3.BitVec(n, bits)
        self._inputs.append((n, "bv", t))
        return values.SymBV(t)

    def real(self, name, lo=None, hi=None):
        from . import values
        n = self._fresh(name)
        t = z3.Real(n)
        self._inputs.append((n, "real", t))
        v = values.SymReal(t)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        from . import values
        n = self._fresh(name)
        t = z3.Bool(n)
        self._inputs.append((n, "bool", t))
        return values.SymBool(t)

    def choice(self, name, n):
        "Symbolic index in range(n), decided now."
        if n <= 1:
            return 0
        v = self.int(name, 0, n - 1)
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.decide(v <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def bytes(self, name, lo=0, hi=None):
        "A byte string of symbolic length and content."
        from . import data, values
        n = self._fresh(name)
        f = z3.Function(n, z3.IntSort(), z3.BitVecSort(8))
        if lo == hi:
            self._inputs.append((n, "bytes", (f, z3.IntVal(lo))))
            return data.SymBytes([("s", f, 0, lo)]) if lo else b""
        ln = z3.Int(n + ".len")
        self._inputs.append((n, "bytes", (f, ln)))
        length = values.SymInt(ln)
        self.assume(length >= lo)
        if hi is not None:
            self.assume(length <= hi)
        return data.SymBytes([("s", f, 0, ln)])

    def ubytes(self, name, n):
        "Exactly n symbolic bytes."
        from . import data
        out = []
        for _ in range(n):
            k = self._fresh(name)
            t = z3.BitVec(k, 8)
            self._inputs.append((k, "bv", t))
            out.append(t)
        return data.mkbytes([("u", tuple(out))])

    def chars(self, name, n, alphabet=None, lo=0, hi=0x10FFFF):
        "A text of exactly `n` symbolic characters (over `alphabet`, if given)."
        from . import text
        out = []
        for _ in range(n):
            k = self._fresh(name)
            t = z3.BitVec(k, text.W)
            self._inputs.append((k, "bv", t))
            if alphabet is not None:
                self.assume(values_or([t == ord(c) for c in alphabet]))
            else:
                from .values import SymBool
                self.assume(SymBool(z3.And(
                    z3.UGE(t, z3.BitVecVal(lo, text.W)), z3.ULE(t, z3.BitVecVal(hi, text.W)),
                    z3.Or(z3.ULT(t, z3.BitVecVal(0xD800, text.W)),
                          z3.UGT(t, z3.BitVecVal(0xDFFF, text.W))))))
            out.append(t)
        return text.mkstr(out)

    def same(self, a, b):
        "Formula: equal byte strings or texts (for assertions only)."
        from . import data, text
        if isinstance(a, str) and isinstance(b, str):
            return text.same(a, b)
        return data.same(a, b)

    def prefix_of(self, a, b):
        from . import data
        return data.prefix_of(a, b)

    def bytearray(self, x=b""):
        from . import data
        return data.SymByteArray(data.segs_of(x))

    def bytesio(self, x=b"", pos=0):
        from . import data
        return data.SymBytesIO(x, pos)

    def stringio(self, x="", pos=0):
        from . import text
        return text.SymStringIO(x, pos)

    def len(self, x):
        "Length without choosing one."
        return x.sx_len() if hasattr(type(x), "sx_len") else len(x)

    # -- assertions ------------------------------------------------------------
    def check(self, c, label, info=None):
        if self.dead or LABELS is not None and not label.startswith(LABELS):
            return
        self.stats.checks += 1
        if c is True:
            return
        in_prefix = len(self.trail) < len(self.prefix)
        if in_prefix and c is not False:
            # Already discharged on the path that created this prefix; the
            # violating side was reported there and the assertion assumed.
            self.assume(c)
            return
        if c is False:
            if not in_prefix:
                r, m = self._check()
                if r == z3.sat:
                    self._violation(label, m, info)
                    self.abort("violation")
                if r == z3.unsat:
                    self.abort("infeasible")
                self.tainted("check: unknown")
            self.abort("violation (already reported)")
        t = c.t
        r, m = self._check(z3.Not(t))
        if r == z3.sat:
            self._violation(label, m, info)
        self.assume(c)

    def _violation(self, label, model, info):
        self.violations.append({
            "label": label,
            "info": info if isinstance(info, (str, type(None))) else str(info),
            "inputs": self.assignment(model),
        })

    def assignment(self, model):
        out = {}
        for n, kind, t in self._inputs:
            if kind == "bytes":
                f, ln = t
                length = to_py(model.eval(ln, model_completion=True))
                out[n] = {"bytes": func_to_hex(model, f, length)}
            else:
                v = to_py(model.eval(t, model_completion=True))
                if isinstance(v, Fraction):
                    v = {"frac": [v.numerator, v.denominator]}
                out[n] = v
        return out

    def path_model(self):
        r, m = self._check()
        return m

    def eval_obs(self, model):
        from . import values
        return [[k, values.eval_value(v, model)] for k, v in self.observed]


def values_or(terms):
    from . import values
    return values.SymBool(z3.Or(*terms))


def func_to_hex(model, f, length):
    interp = model[f]
    if interp is None:
        return "61" * length
    try:
        num = interp.num_entries()
    except z3.Z3Exception:
        # no interpretation: any will do
        return bytes([to_py(model.eval(f(z3.IntVal(0)), model_completion=True))] * length).hex()
    try:
        dflt = interp.else_value().as_long()
    except (AttributeError, z3.Z3Exception):
        dflt = None
    if dflt is None:
        return bytes(to_py(model.eval(f(z3.IntVal(i)), model_completion=True))
                     for i in range(length)).hex()
    buf = bytearray([dflt]) * length
    for k in range(num):
        e = interp.entry(k)
        idx = e.arg_value(0).as_long()
        if 0 <= idx < length:
            buf[idx] = e.value().as_long()
    return bytes(buf).hex()


class ConcreteEngine(EngineBase):
    "Re-runs a harness with the solver's values on the plain code."

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.missing = []

    def _get(self, name, default):
        n = self._fresh(name)
        if n not in self.inputs:
            self.missing.append(n)
            return default
        v = self.inputs[n]
        if isinstance(v, dict) and "frac" in v:
            return Fraction(*v["frac"])
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    bv = int

    def real(self, name, lo=None, hi=None):
        return Fraction(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return self._get(name, False)

    def choice(self, name, n):
        if n <= 1:
            return 0
        return self._get(name, 0)

    def bytes(self, name, lo=0, hi=None):
        n = self._fresh(name)
        if n not in self.inputs:
            self.missing.append(n)
            return b"a" * lo
        return bytes.fromhex(self.inputs[n]["bytes"])

    def ubytes(self, name, n):
        return bytes(self._get(name, 97) for _ in range(n))

    def chars(self, name, n, alphabet=None, lo=0, hi=0x10FFFF):
        return "".join(chr(self._get(name, ord(alphabet[0]) if alphabet else max(lo, 97)))
                       for _ in range(n))

    def same(self, a, b):
        return type(a) is type(b) and a == b or bytes(a) == bytes(b) \
            if not isinstance(a, str) else a == b

    def prefix_of(self, a, b):
        return bytes(b).startswith(bytes(a))

    def bytearray(self, x=b""):
        return bytearray(x)

    def bytesio(self, x=b"", pos=0):
        b = io.BytesIO(x)
        b.seek(pos)
        return b

    def stringio(self, x="", pos=0):
        b = io.StringIO(x, newline="\n")
        b.seek(pos)
        return b

    def len(self, x):
        return len(x)

    def decide(self, c):
        return bool(c)

    def concretize(self, v):
        return v

    def assume(self, c):
        if not c:
            self.dead = True
            raise PathAbort("assumption not met in replay")

    def abort(self, why="abort"):
        self.dead = True
        raise PathAbort(why)

    def check(self, c, label, info=None):
        if self.dead:
            return
        if not c:
            self.violations.append({"label": label,
                                    "info": info if isinstance(info, (str, type(None))) else str(info)})


CRASH = "exception in the run: "
STUCK = "* the library does not return"
PATIENCE = (25, 10)     # seconds of processor time for a path / for a run on the plain code


def _stuck(*_):
    eng = CUR
    if eng is not None:
        # an endless loop that never gives control back to the event loop
        eng.stuck = True
        eng.dead = True
        raise PathAbort("stuck")


def _alarm(on, eng):
    try:
        if on:
            signal.signal(signal.SIGVTALRM, _stuck)
        t = PATIENCE[not getattr(eng, "symbolic", False)] if on else 0
        signal.setitimer(signal.ITIMER_VIRTUAL, t, 0.5 if on else 0)
    except ValueError:
        pass        # not in the main thread

# ---------------------------------------------------------------------------
def run_path(eng, harness, args):
    "Run one path. Returns status string."
    set_cur(eng)
    LOG_ERRORS.clear()
    eng.stuck = False
    _alarm(True, eng)
    try:
        harness(eng, **args)
        if LOG_ERRORS:
            eng.check(False, "C32 every record can be logged", LOG_ERRORS[0])
        status = "ok" if not eng.dead else "aborted"
    except PathAbort:
        status = "aborted"
    except Exception as ex:  # noqa
        if not getattr(eng, "symbolic", False):
            raise
        # The harness itself failed: decide it by running a model of this path on the plain code.
        eng.taint = f"{CRASH}{type(ex).__name__}: {ex}"
        eng.crash_tb = traceback.format_exc()
        status = "tainted"
    finally:
        _alarm(False, eng)
        set_cur(None)
    if eng.stuck:
        v = {"label": STUCK, "info": "endless loop"}
        if getattr(eng, "symbolic", False):
            m = eng.path_model()
            v["inputs"] = eng.assignment(m) if m is not None else {}
        eng.violations.append(v)
        status = "aborted"
    if eng.taint:
        status = "tainted"
    return status


def explore(harness, args, prefix=(), max_paths=None, deadline=None, sample_every=0,
            path_cleanup=None, max_decisions=2000):
    """Explore the subtree below `prefix` depth-first.

    Returns dict with stats, violations, covers, samples, pending prefixes.
    """
    eng = SymEngine()
    eng.max_decisions = max_decisions
    prefix = [list(p) for p in prefix]
    base = len(prefix)
    cur_prefix, retained = prefix, -1
    seed = zlib.crc32(repr([(e[1], e[2]) for e in prefix]).encode())
    st = eng.stats
    violations, covers, samples, taints = [], set(), [], {}
    pending = []
    n = 0
    while True:
        eng.start(cur_prefix, retained)
        # Vary which side of an open decision comes first: that of the solver's model, or one
        # answer throughout, or either, for a varying number of decisions.
        seed = zlib.crc32(b"%d %d" % (n, seed))
        eng.pref = (seed >> 4 & 3, len(cur_prefix) + 1 + (seed >> 8) % SPREAD, seed)
        status = run_path(eng, harness, args)
        n += 1
        covers |= eng.covers
        st.max_depth = max(st.max_depth, len(eng.trail))
        for v in eng.violations:
            violations.append(v)
        if status == "ok":
            st.paths += 1
            if sample_every and (st.paths - 1) % sample_every == 0:
                m = eng.path_model()
                if m is not None:
                    samples.append({"inputs": eng.assignment(m), "obs": eng.eval_obs(m)})
        elif status == "tainted":
            st.tainted += 1
            taints[eng.taint] = taints.get(eng.taint, 0) + 1
            try:
                m = eng.path_model()
            except z3.Z3Exception:
                m = None
            crash = eng.taint.startswith(CRASH)
            if m is not None and (len(samples) < 50 or crash and taints[eng.taint] < 4):
                samples.append({"inputs": eng.assignment(m), "obs": None, "tainted": eng.taint,
                                "tb": eng.crash_tb if crash else None})
        else:
            st.aborted += 1
        if path_cleanup:
            path_cleanup()
        # Backtrack.
        trail = eng.trail
        i = len(trail) - 1
        while i >= base and not trail[i][3]:
            i -= 1
        if i < base:
            break
        new_prefix = trail[:i] + [[trail[i][0], trail[i][1], not trail[i][2], False]]
        if (max_paths and n >= max_paths) or eng.stuck or (deadline and time.time() > deadline):
            # Hand the rest of the subtree back as independent prefixes.
            pending.append([e[:3] + [False] for e in new_prefix])
            for j in range(base, i):
                if trail[j][3]:
                    pending.append([e[:3] + [False] for e in trail[:j]]
                                   + [[trail[j][0], trail[j][1], not trail[j][2], False]])
            break
        while eng.nscopes > i:
            eng.solver.pop()
            eng.nscopes -= 1
        cur_prefix, retained = new_prefix, i
    return {"stats": st.dict(), "violations": violations, "covers": sorted(covers),
            "samples": samples, "taints": taints, "pending": pending, "runs": n}


def values_is_sym(x):
    from . import values
    return values.is_sym(x)
