"""Symbolic scalars: SymBool, SymInt, SymReal, SymBV.

They look like bool/int/float to shellous (`__class__`), build z3 terms when
operated on, and ask the engine to decide when Python needs a truth value.
"""

from fractions import Fraction

import z3

from . import core


def _eng():
    e = core.cur()
    if e is None or not e.symbolic:
        raise RuntimeError("symbolic value used outside of a path")
    return e


def real_val(x):
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return z3.RealVal(int(x))


_tt = type  # the real `type`


class Sym:
    "Base class of every symbolic value."
    __slots__ = ()


def is_sym(x):
    return issubclass(_tt(x), Sym)


class SymBool(Sym):
    __slots__ = ("t",)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _eng().decide_term(self.t)

    def __eq__(self, o):
        if _tt(o) is SymBool:
            return SymBool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else s_not(self)
        if o == 1:
            return self
        if o == 0:
            return s_not(self)
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(_eng().concretize(self.t))

    def __index__(self):
        return int(_eng().concretize(self.t))

    __int__ = __index__

    def __and__(self, o):
        return s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    def __xor__(self, o):
        return self != o

    def as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    # bool arithmetic: behave as 0/1
    def __add__(self, o):
        return self.as_int() + o

    def __lt__(self, o):
        return self.as_int() < (o.as_int() if _tt(o) is SymBool else int(o) if isinstance(o, bool) else o)

    def __le__(self, o):
        return self.as_int() <= (o.as_int() if _tt(o) is SymBool else int(o) if isinstance(o, bool) else o)

    def __gt__(self, o):
        return self.as_int() > (o.as_int() if _tt(o) is SymBool else int(o) if isinstance(o, bool) else o)

    def __ge__(self, o):
        return self.as_int() >= (o.as_int() if _tt(o) is SymBool else int(o) if isinstance(o, bool) else o)

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return "<SymBool>"

    def __format__(self, spec):
        return "<SymBool>"


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    "z3 Bool term of a Python bool / SymBool."
    if _tt(x) is SymBool:
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def s_and(*xs):
    out = []
    for x in xs:
        if _tt(x) is SymBool:
            out.append(x.t)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def s_or(*xs):
    out = []
    for x in xs:
        if _tt(x) is SymBool:
            out.append(x.t)
        elif x:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def s_not(x):
    if _tt(x) is SymBool:
        return SymBool(z3.Not(x.t))
    return not x


class SymNum(Sym):
    __slots__ = ()

    def __bool__(self):
        return _eng().decide_term(self.t != 0)

    def __pos__(self):
        return self

    def __repr__(self):
        return f"<{_tt(self).__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _num(a, b):
    "Coerce operand b for arithmetic with a. Returns (ta, tb, cls) or None."
    tb = _tt(b)
    if tb is SymBool:
        b = b.as_int()
        tb = SymInt
    if tb is SymBV:
        b = b.as_int()
        tb = SymInt
    if tb is SymInt:
        if _tt(a) is SymReal:
            return a.t, z3.ToReal(b.t), SymReal
        return a.t, b.t, SymInt
    if tb is SymReal:
        if _tt(a) is SymInt:
            return z3.ToReal(a.t), b.t, SymReal
        return a.t, b.t, SymReal
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, int):
        b = int(b)
        if _tt(a) is SymReal:
            return a.t, z3.RealVal(b), SymReal
        return a.t, z3.IntVal(b), SymInt
    if isinstance(b, (float, Fraction)):
        if isinstance(b, float) and (b != b or b in (float("inf"), float("-inf"))):
            return None
        ta = a.t if _tt(a) is SymReal else z3.ToReal(a.t)
        return ta, real_val(b), SymReal
    return None


def _arith(name, fn, rev=False):
    def op(self, o):
        r = _num(self, o)
        if r is None:
            return NotImplemented
        a, b, cls = r
        return cls(fn(b, a) if rev else fn(a, b))
    op.__name__ = name
    return op


def _cmp(name, fn):
    def op(self, o):
        r = _num(self, o)
        if r is None:
            if isinstance(o, float):
                if o == float("inf"):
                    return name in ("__lt__", "__le__", "__ne__")
                if o == float("-inf"):
                    return name in ("__gt__", "__ge__", "__ne__")
            return NotImplemented
        a, b, _ = r
        return mkbool(fn(a, b))
    op.__name__ = name
    return op


class SymInt(SymNum):
    __slots__ = ("t",)
    __class__ = property(lambda self: int)

    def __init__(self, t):
        self.t = t

    __add__ = _arith("__add__", lambda a, b: a + b)
    __radd__ = _arith("__radd__", lambda a, b: a + b, True)
    __sub__ = _arith("__sub__", lambda a, b: a - b)
    __rsub__ = _arith("__rsub__", lambda a, b: a - b, True)
    __mul__ = _arith("__mul__", lambda a, b: a * b)
    __rmul__ = _arith("__rmul__", lambda a, b: a * b, True)
    __lt__ = _cmp("__lt__", lambda a, b: a < b)
    __le__ = _cmp("__le__", lambda a, b: a <= b)
    __gt__ = _cmp("__gt__", lambda a, b: a > b)
    __ge__ = _cmp("__ge__", lambda a, b: a >= b)
    __eq__ = _cmp("__eq__", lambda a, b: a == b)
    __ne__ = _cmp("__ne__", lambda a, b: a != b)

    def __neg__(self):
        return SymInt(-self.t)

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        if isinstance(o, int) and not is_sym(o) and o > 0:
            return SymInt(self.t / z3.IntVal(o))
        return core.cur().concretize(self.t) // o

    def __mod__(self, o):
        if isinstance(o, int) and not is_sym(o) and o > 0:
            return SymInt(self.t % z3.IntVal(o))
        return core.cur().concretize(self.t) % o

    def __hash__(self):
        return hash(_eng().concretize(self.t))

    def __index__(self):
        return _eng().concretize(self.t)

    __int__ = __index__

    def __and__(self, o):
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __lshift__(self, o):
        return self.__index__() << o

    def __invert__(self):
        return SymInt(-self.t - 1)

    def __float__(self):
        return float(self.__index__())

    def conjugate(self):
        return self

    real = property(lambda self: self)


class SymReal(SymNum):
    __slots__ = ("t",)
    __class__ = property(lambda self: float)

    def __init__(self, t):
        self.t = t

    __add__ = _arith("__add__", lambda a, b: a + b)
    __radd__ = _arith("__radd__", lambda a, b: a + b, True)
    __sub__ = _arith("__sub__", lambda a, b: a - b)
    __rsub__ = _arith("__rsub__", lambda a, b: a - b, True)
    __mul__ = _arith("__mul__", lambda a, b: a * b)
    __rmul__ = _arith("__rmul__", lambda a, b: a * b, True)
    __truediv__ = _arith("__truediv__", lambda a, b: a / b)
    __lt__ = _cmp("__lt__", lambda a, b: a < b)
    __le__ = _cmp("__le__", lambda a, b: a <= b)
    __gt__ = _cmp("__gt__", lambda a, b: a > b)
    __ge__ = _cmp("__ge__", lambda a, b: a >= b)
    __eq__ = _cmp("__eq__", lambda a, b: a == b)
    __ne__ = _cmp("__ne__", lambda a, b: a != b)

    def __neg__(self):
        return SymReal(-self.t)

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t))

    def __hash__(self):
        # One bucket for all of them: a dictionary compares them, which the solver decides. (A concrete
        # number of equal value is in another bucket.)
        return 271828

    def __float__(self):
        _eng().tainted("float() of SymReal")


class SymBV(Sym):
    "Fixed-width non-negative machine word that looks like an int."
    __slots__ = ("t",)
    __class__ = property(lambda self: int)

    def __init__(self, t):
        self.t = t

    def _co(self, o):
        if _tt(o) is SymBV:
            return o.t
        if isinstance(o, int) and not is_sym(o):
            return z3.BitVecVal(int(o), self.t.size())
        return None

    def _bit(self, o, fn):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return SymBV(z3.simplify(fn(self.t, c)))

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __rshift__(self, o):
        return self._bit(o, lambda a, b: z3.LShR(a, b))

    def __eq__(self, o):
        if _tt(o) is SymInt:
            return self.as_int() == o
        if isinstance(o, int) and not is_sym(o) and not 0 <= o < (1 << self.t.size()):
            return False
        c = self._co(o)
        if c is None:
            return False
        return mkbool(self.t == c)

    def __ne__(self, o):
        return s_not(self == o)

    def __bool__(self):
        return _eng().decide_term(self.t != 0)

    def __hash__(self):
        return hash(_eng().concretize(self.t))

    def __index__(self):
        return _eng().concretize(self.t)

    __int__ = __index__

    def as_int(self):
        return SymInt(z3.BV2Int(self.t))

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __invert__(self):
        # Python: ~x is negative; only meaningful under `&`.
        return SymBV(~self.t)

    def __repr__(self):
        return "<SymBV>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymBV>"


def eval_value(v, model):
    "Value of `v` under a z3 model, normalised like `replay.norm`."
    t = _tt(v)
    if issubclass(t, Sym):
        if hasattr(t, "sx_eval"):
            return v.sx_eval(model)
        r = core.to_py(model.eval(v.t, model_completion=True))
        return eval_value(r, model)
    if isinstance(v, (list, tuple)):
        return [eval_value(x, model) for x in v]
    if isinstance(v, dict):
        return {str(k): eval_value(x, model) for k, x in v.items()}
    from .replay import norm
    return norm(v)
