"""Symbolic byte strings: SymBytes, SymByteArray, SymBytesIO.

A byte string is a rope of segments

    ("u", (b0, b1, ...))        bytes given one by one (ints or 8-bit terms)
    ("s", fn, off, n)           n bytes fn(off), fn(off+1), ... of a source

where `fn` is an uninterpreted function Int -> BV8 and `off`, `n` are symbolic
integers, so one rope stands for every content and every length.
"""

import builtins
import io
import re
import struct

import z3

from . import core
from .instr import HOOKS, METHOD_HOOKS, hook
from .values import Sym, SymBool, SymBV, SymInt, is_sym, mkbool

ACTIVE = False      # constructors of bytearray/BytesIO/... give symbolic ones


def _eng():
    e = core.cur()
    if e is None or not e.symbolic:
        raise RuntimeError("symbolic value used outside of a path")
    return e


def _it(x):
    "z3 Int term (or python int) of an integer."
    if type(x) is SymInt:
        return x.t
    if is_sym(x):
        return x.as_int().t
    return int(x)


def _mk(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def _dec(c):
    if isinstance(c, bool):
        return c
    if type(c) is SymBool:
        return _eng().decide_term(c.t)
    c = z3.simplify(c)
    return _eng().decide_term(c)


def seg_len(s):
    return len(s[1]) if s[0] == "u" else s[3]


def rope_len(segs):
    n = 0
    for s in segs:
        n = n + seg_len(s)
    return n if isinstance(n, int) else z3.simplify(n)


def _norm(segs):
    out = []
    for s in segs:
        if s[0] == "u":
            if not s[1]:
                continue
            if out and out[-1][0] == "u":
                out[-1] = ("u", out[-1][1] + s[1])
                continue
        elif isinstance(s[3], int) and s[3] == 0:
            continue
        elif out and out[-1][0] == "s" and out[-1][1] is s[1]:
            p = out[-1]
            e = p[2] + p[3]
            same = e == s[2] if isinstance(e, int) and isinstance(s[2], int) \
                else z3.is_true(z3.simplify(e == s[2]))
            if same:
                n = p[3] + s[3]
                out[-1] = ("s", p[1], p[2], n if isinstance(n, int) else z3.simplify(n))
                continue
        out.append(s)
    return out


def cut(segs, i):
    "Split a rope at index i (int or term)."
    rem = i
    for k, s in enumerate(segs):
        if isinstance(rem, int) and rem <= 0:
            return segs[:k], segs[k:]
        n = seg_len(s)
        if isinstance(rem, int) and isinstance(n, int):
            ge = rem >= n
        else:
            ge = _dec(rem >= n)
        if ge:
            rem = rem - n
            if not isinstance(rem, int):
                rem = z3.simplify(rem)
            continue
        if s[0] == "u":
            r = rem if isinstance(rem, int) else _eng().concretize(rem)
            return (segs[:k] + ([("u", s[1][:r])] if r else []),
                    [("u", s[1][r:])] + segs[k + 1:])
        left = ("s", s[1], s[2], rem)
        right = ("s", s[1], s[2] + rem, n - rem)
        return segs[:k] + [left], [right] + segs[k + 1:]
    return segs, []


def at(segs, k):
    "Term for the byte at index term k (anything outside)."
    if not segs:
        return z3.BitVecVal(0, 8)
    out = None
    end = rope_len(segs)
    for s in reversed(segs):
        n = seg_len(s)
        start = end - n
        if s[0] == "u":
            t = None
            for j, b in reversed(list(enumerate(s[1]))):
                bt = z3.BitVecVal(b, 8) if isinstance(b, int) else b
                t = bt if t is None else z3.If(k == start + j, bt, t)
        else:
            t = s[1](s[2] + (k - start))
        out = t if out is None else z3.If(k < end, t, out)
        end = start
    return out


def units(x, why="bytes"):
    "The bytes one by one (taints if the length is symbolic)."
    if not is_sym(x):
        return tuple(x)
    out = []
    for s in x.segs:
        if s[0] == "u":
            out.extend(s[1])
            continue
        n = s[3] if isinstance(s[3], int) else z3.simplify(s[3])
        if not isinstance(n, int):
            if not z3.is_int_value(n):
                _eng().tainted(f"{why} of a byte string of symbolic length")
            n = n.as_long()
        if n > 64:
            _eng().tainted(f"{why} of a long symbolic byte string")
        off = s[2] if not isinstance(s[2], int) else z3.IntVal(s[2])
        out.extend(z3.simplify(s[1](off + i)) for i in range(n))
    return tuple(out)


def is_units(x):
    return not is_sym(x) or all(s[0] == "u" for s in x.segs)


def segs_of(x):
    if isinstance(x, (SymBytes, SymByteArray)) and is_sym(x):
        return list(x.segs)
    if is_sym(x) and type(x) is SymBytesIO:
        return list(x.segs)
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = builtins.bytes(x)
        return [("u", tuple(b))] if b else []
    raise TypeError(f"a bytes-like object is required, not {type(x).__name__!r}")


def mkbytes(segs):
    "SymBytes, or plain bytes if every byte is known."
    segs = _norm(segs)
    if not segs:
        return b""
    if len(segs) == 1 and segs[0][0] == "u":
        us = segs[0][1]
        try:
            return builtins.bytes(us)
        except TypeError:
            pass
        out = []
        for u in us:
            if not isinstance(u, int):
                u = z3.simplify(u)
                if not z3.is_bv_value(u):
                    break
                u = u.as_long()
            out.append(u)
        else:
            return builtins.bytes(out)
    return SymBytes(segs)


def same(a, b):
    "Formula: the two byte strings are equal (skolemised: only for assertions)."
    if not is_sym(a) and not is_sym(b):
        return builtins.bytes(a) == builtins.bytes(b)
    sa, sb = _norm(segs_of(a)), _norm(segs_of(b))
    la, lb = rope_len(sa), rope_len(sb)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        if all(s[0] == "u" for s in sa + sb):
            return _ueq(units(SymBytes(sa)), units(SymBytes(sb)))
    k = z3.Int(_eng()._fresh("!k"))
    return mkbool(z3.And(la == lb, z3.Implies(z3.And(k >= 0, k < la), at(sa, k) == at(sb, k))))


def _ueq(ua, ub):
    ts = []
    for x, y in zip(ua, ub):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        ts.append((z3.BitVecVal(x, 8) if isinstance(x, int) else x)
                  == (z3.BitVecVal(y, 8) if isinstance(y, int) else y))
    return mkbool(z3.And(*ts)) if ts else True


def prefix_of(a, b):
    "Formula: a is a prefix of b (skolemised)."
    if not is_sym(a) and not is_sym(b):
        return builtins.bytes(b).startswith(builtins.bytes(a))
    sa, sb = segs_of(a), segs_of(b)
    la, lb = rope_len(sa), rope_len(sb)
    k = z3.Int(_eng()._fresh("!k"))
    return mkbool(z3.And(la <= lb, z3.Implies(z3.And(k >= 0, k < la), at(sa, k) == at(sb, k))))


class _Base(Sym):
    __slots__ = ()

    def sx_len(self):
        return _mk(rope_len(self.segs))

    def __len__(self):
        n = self.sx_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        n = rope_len(self.segs)
        return n != 0 if isinstance(n, int) else _dec(n != 0)

    def _slice(self, i):
        segs = _norm(self.segs)
        if i.step is not None and i.step != 1:
            _eng().tainted("slice with a step")
        n = rope_len(segs)
        a, b = i.start, i.stop
        a = 0 if a is None else _it(a)
        b = None if b is None else _it(b)

        def fix(x):
            if isinstance(x, int):
                neg = x < 0
            else:
                neg = _dec(x < 0)
            if neg:
                x = n + x
                if (x < 0 if isinstance(x, int) else _dec(x < 0)):
                    x = 0
            return x
        a = fix(a)
        if b is not None:
            b = fix(b)
            left, right = cut(segs, b)
        else:
            left, right = segs, []
        if isinstance(a, int) and a == 0:
            return [], left, right
        if b is not None and not (isinstance(a, int) and isinstance(b, int)):
            if _dec(a >= b):
                x, y = cut(segs, a)
                return x, [], y
        elif b is not None and a >= b:
            x, y = cut(segs, a)
            return x, [], y
        x, y = cut(left, a)
        return x, y, right

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._make(self._slice(i)[1])
        n = rope_len(self.segs)
        i = _it(i)
        if (i < 0 if isinstance(i, int) else _dec(i < 0)):
            i = n + i
        if isinstance(i, int) and isinstance(n, int):
            bad = not 0 <= i < n
        else:
            bad = not _dec(z3.And(z3.IntVal(0) <= i, i < n))
        if bad:
            raise IndexError("index out of range")
        t = z3.simplify(at(self.segs, i if not isinstance(i, int) else z3.IntVal(i)))
        return t.as_long() if z3.is_bv_value(t) else SymBV(t)

    def __iter__(self):
        for u in units(self, "iteration"):
            yield u if isinstance(u, int) else SymBV(u)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        sa, sb = _norm(self.segs), _norm(segs_of(o))
        la, lb = rope_len(sa), rope_len(sb)
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        if not sa or not sb:
            n = lb if not sa else la
            return n == 0 if isinstance(n, int) else mkbool(n == 0)
        for n in (la, lb):
            if isinstance(n, int) and n <= 256:
                return mkbool(z3.And(la == lb, *[at(sa, z3.IntVal(i)) == at(sb, z3.IntVal(i))
                                                 for i in range(n)]))
        _eng().tainted("equality of long symbolic byte strings")

    def __ne__(self, o):
        from .values import s_not
        return s_not(self == o)

    def __hash__(self):
        _eng().tainted("hash of symbolic bytes")

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return self._make(list(self.segs) + segs_of(o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return mkbytes(segs_of(o) + list(self.segs))

    def _affix(self, x, end):
        x = builtins.bytes(x) if not is_sym(x) else x
        m = len(x)
        if m == 0:
            return True
        segs = _norm(self.segs)
        n = rope_len(segs)
        if isinstance(n, int) and n < m:
            return False
        ts = [n >= m]
        for j, u in enumerate(units(x)):
            k = (n - m + j) if end else j
            t = at(segs, k if not isinstance(k, int) else z3.IntVal(k))
            ts.append(t == (z3.BitVecVal(u, 8) if isinstance(u, int) else u))
        ts = [t for t in ts if t is not True]
        return mkbool(z3.And(*ts))

    def endswith(self, x, *rest):
        if rest:
            _eng().tainted("endswith range")
        if isinstance(x, tuple):
            from .values import s_or
            return s_or(*[self._affix(y, True) for y in x])
        return self._affix(x, True)

    def startswith(self, x, start=0, *rest):
        if rest:
            _eng().tainted("startswith range")
        if start:
            return SymBytes(list(self.segs))[start:].startswith(x) \
                if is_sym(self) else False
        if isinstance(x, tuple):
            from .values import s_or
            return s_or(*[self._affix(y, False) for y in x])
        return self._affix(x, False)

    def find(self, sub, start=0, end=None):
        us = units(self, "find")
        if isinstance(sub, int):
            sub = builtins.bytes([sub])
        sb = units(sub)
        start = start if isinstance(start, int) else start.__index__()
        hi = len(us) if end is None else min(end, len(us))
        for i in range(max(start, 0), hi - len(sb) + 1):
            if _dec(_tr(_ueq(us[i:i + len(sb)], sb))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rfind(self, sub, start=0, end=None):
        us = units(self, "rfind")
        if isinstance(sub, int):
            sub = builtins.bytes([sub])
        sb = units(sub)
        hi = len(us) if end is None else min(end, len(us))
        for i in range(hi - len(sb), max(start, 0) - 1, -1):
            if _dec(_tr(_ueq(us[i:i + len(sb)], sb))):
                return i
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, *a):
        n, i = 0, a[0] if a else 0
        m = 1 if isinstance(sub, int) else max(len(sub), 1)
        while True:
            i = self.find(sub, i, *a[1:])
            if i < 0:
                return n
            n, i = n + 1, i + m

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._make([]), self._make([])
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._make([]), self._make([]), self
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            _eng().tainted("split on whitespace")
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            _eng().tainted("split on whitespace")
        out, rest = [], self
        while maxsplit != 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
            maxsplit -= 1
        return [rest] + out

    def removeprefix(self, x):
        return self[len(x):] if self.startswith(x) else self[:]

    def removesuffix(self, x):
        return self[:-len(x)] if len(x) and self.endswith(x) else self[:]

    def __mul__(self, n):
        if not isinstance(n, int) or is_sym(n):
            _eng().tainted("repetition of bytes")
        return self._make(list(self.segs) * max(n, 0))

    __rmul__ = __mul__

    def _cmp(self, *a):
        _eng().tainted("order of symbolic bytes")

    __lt__ = __le__ = __gt__ = __ge__ = __mod__ = _cmp

    def __getattr__(self, name):
        if hasattr(bytearray, name) and not name.startswith("__"):
            def f(*a, **k):
                _eng().tainted(f"bytes.{name}")
            return f
        raise AttributeError(name)

    def sx_contains(self, sub):
        return self.find(sub) >= 0

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def replace(self, a, b, count=-1):
        from .text import replace_units
        return self._make([("u", tuple(replace_units(units(self), units(a), units(b), count, _ueq)))])

    def splitlines(self, keepends=False):
        out, cur = [], []
        us = units(self, "splitlines")
        i = 0
        while i < len(us):
            u = us[i]
            if _dec(_tr(_ueq((u,), (13,)))):
                end = [u]
                if i + 1 < len(us) and _dec(_tr(_ueq((us[i + 1],), (10,)))):
                    end.append(us[i + 1])
                    i += 1
            elif _dec(_tr(_ueq((u,), (10,)))):
                end = [u]
            else:
                end = None
                cur.append(u)
            if end is not None:
                out.append(cur + (end if keepends else []))
                cur = []
            i += 1
        if cur:
            out.append(cur)
        return [self._make([("u", tuple(c))]) for c in out]

    def _strip(self, chars, left, right):
        us = list(units(self, "strip"))
        chars = b" \t\n\r\x0b\f" if chars is None else chars

        def isws(u):
            if isinstance(u, int):
                return u in chars
            return _dec(z3.Or(*[u == c for c in chars]))
        while right and us and isws(us[-1]):
            us.pop()
        while left and us and isws(us[0]):
            us.pop(0)
        return self._make([("u", tuple(us))])

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def decode(self, encoding="utf-8", errors="strict"):
        from .text import decode
        return decode(self, encoding, errors)

    def sx_eval(self, model):
        from .replay import norm
        out = bytearray()
        for s in self.segs:
            if s[0] == "u":
                for u in s[1]:
                    out.append(u if isinstance(u, int)
                               else model.eval(u, model_completion=True).as_long())
            else:
                off = model.eval(z3.IntVal(0) + s[2], model_completion=True).as_long()
                n = model.eval(z3.IntVal(0) + s[3], model_completion=True).as_long()
                # memoised: most of a source has its default value
                seen = {}
                for i in range(n):
                    if i < 64 or i >= n - 64:
                        seen[i] = model.eval(s[1](z3.IntVal(off + i)), model_completion=True).as_long()
                if n > 128:
                    return ["long", rope_len_eval(self.segs, model)]
                out.extend(seen[i] for i in range(n))
        return norm(builtins.bytes(out))

    def __repr__(self):
        return f"<{type(self).__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def rope_len_eval(segs, model):
    n = rope_len(segs)
    return n if isinstance(n, int) else model.eval(n, model_completion=True).as_long()


def _tr(c):
    return c if isinstance(c, bool) else c.t


class SymBytes(_Base):
    __slots__ = ("segs",)
    __class__ = property(lambda self: bytes)

    def __init__(self, segs):
        self.segs = segs

    def _make(self, segs):
        return mkbytes(segs)


class SymByteArray(_Base):
    __slots__ = ("segs",)
    __class__ = property(lambda self: bytearray)

    def __init__(self, segs=()):
        self.segs = list(segs)

    def _make(self, segs):
        return SymByteArray(_norm(segs))

    def extend(self, x):
        self.segs = _norm(self.segs + segs_of(x))

    def append(self, u):
        self.segs = _norm(self.segs + [("u", (u.t if is_sym(u) else u,))])

    def __iadd__(self, x):
        self.extend(x)
        return self

    def clear(self):
        self.segs = []

    def copy(self):
        return SymByteArray(self.segs)

    def __delitem__(self, i):
        if not isinstance(i, slice):
            i = slice(i, i + 1)
        a, _, b = self._slice(i)
        self.segs = _norm(a + b)

    def __setitem__(self, i, v):
        if not isinstance(i, slice):
            _eng().tainted("bytearray item assignment")
        a, _, b = self._slice(i)
        self.segs = _norm(a + segs_of(v) + b)


_ZERO = lambda t: z3.BitVecVal(0, 8)


class SymBytesIO(Sym):
    __slots__ = ("segs", "pos", "closed")
    __class__ = property(lambda self: io.BytesIO)

    def __init__(self, initial=b"", pos=0):
        self.segs = _norm(segs_of(initial))
        self.pos = _it(pos)
        self.closed = False

    def write(self, x):
        s = segs_of(x)
        n = rope_len(s)
        if (n == 0 if isinstance(n, int) else _dec(n == 0)):
            return 0
        segs = list(self.segs)
        size = rope_len(segs)
        gap = self.pos - size
        if (gap > 0 if isinstance(gap, int) else _dec(gap > 0)):
            segs = segs + [("s", _ZERO, 0, gap)]
            left, right = segs, []
        else:
            left, rest = cut(segs, self.pos)
            right = cut(rest, n)[1]
        self.segs = _norm(left + s + right)
        self.pos = self.pos + n
        return _mk(n)

    def getvalue(self):
        return mkbytes(self.segs)

    def getbuffer(self):
        return mkbytes(self.segs)

    def read(self, n=-1):
        x = cut(self.segs, self.pos)[1]
        if n is not None and (n >= 0):
            x = cut(x, _it(n))[0]
        self.pos = self.pos + rope_len(x)
        return mkbytes(x)

    def seekable(self):
        return True

    def readable(self):
        return True

    writable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def tell(self):
        return _mk(self.pos)

    def seek(self, off, whence=0):
        off = _it(off)
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self.pos + off
        else:
            self.pos = rope_len(self.segs) + off
        if (self.pos < 0 if isinstance(self.pos, int) else _dec(self.pos < 0)):
            self.pos = 0
        return _mk(self.pos)

    def truncate(self, size=None):
        size = self.pos if size is None else _it(size)
        self.segs = cut(self.segs, size)[0]
        return _mk(size)

    def __iter__(self):
        _eng().tainted("iteration over BytesIO")

    def __repr__(self):
        return "<SymBytesIO>"

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


# --- hooks -------------------------------------------------------------------------
@hook(builtins.bytes)
def _bytes(f, a, k):
    if len(a) == 1 and is_sym(a[0]) and not k:
        x = a[0]
        if isinstance(x, (bytes, bytearray)):
            return mkbytes(segs_of(x))
        if isinstance(x, int):
            _eng().tainted("bytes(int)")
    if len(a) == 1 and type(a[0]) in (list, tuple) and any(is_sym(u) for u in a[0]):
        return mkbytes([("u", tuple(u.t if type(u) is SymBV else _int2bv(u) for u in a[0]))])
    if a and is_sym(a[0]) and isinstance(a[0], str):
        return a[0].encode(*a[1:])
    return f(*a, **k)


def _int2bv(u):
    if is_sym(u):
        return z3.Int2BV(_it(u), 8)
    return u


@hook(builtins.bytearray)
def _bytearray(f, a, k):
    if not ACTIVE and not (a and is_sym(a[0])):
        return f(*a, **k)
    if not a:
        return SymByteArray()
    if isinstance(a[0], (bytes, bytearray)):
        return SymByteArray(segs_of(a[0]))
    return f(*a, **k)


@hook(builtins.memoryview)
def _memoryview(f, a, k):
    if is_sym(a[0]):
        return mkbytes(segs_of(a[0]))
    return f(*a, **k)


@hook(io.BytesIO)
def _bytesio(f, a, k):
    if not ACTIVE and not (a and is_sym(a[0])):
        return f(*a, **k)
    return SymBytesIO(*(a or [b""]))


def _join(f, s, a, k):
    parts = list(a[0])
    if any(is_sym(p) for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(segs_of(s))
            out.extend(segs_of(p))
        return mkbytes(out)
    return f(parts)


METHOD_HOOKS[(bytes, "join")] = _join


def _sx_startswith(name):
    def h(f, s, a, k):
        if a and is_sym(a[0]):
            return getattr(SymBytes(segs_of(s)), name)(*a, **k)
        return f(*a, **k)
    return h


for _n in ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "partition", "rpartition", "split",
           "rsplit", "replace", "removeprefix", "removesuffix"):
    METHOD_HOOKS[(bytes, _n)] = _sx_startswith(_n)


_SIZES = {"B": 1, "H": 2, "I": 4, "Q": 8, "b": 1, "h": 2, "i": 4, "q": 8}


def _word_bits(x, bits, signed):
    "Integer x as `bits` bits; struct.error if it does not fit."
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if type(x) is SymBV:
        n = x.t.size()
        if n > bits or signed and n == bits:
            if not _dec(x.as_int() <= hi):
                raise struct.error("argument out of range")
        return z3.ZeroExt(bits - n, x.t) if n < bits else z3.Extract(bits - 1, 0, x.t)
    if type(x) is SymBool:
        x = x.as_int()
    if not (_dec(x >= lo) and _dec(x <= hi)):
        raise struct.error("argument out of range")
    return z3.Int2BV(x.t, bits)


def pack(fmt, *args):
    "struct.pack of machine integers, some of which are symbolic."
    if not any(is_sym(a) for a in args):
        return struct.pack(fmt, *args)
    order, codes = ("@", fmt) if fmt[:1] not in "@=<>!" else (fmt[0], fmt[1:])
    codes = re.sub(r"(\d+)([a-zA-Z])", lambda m: m[2] * int(m[1]), codes.replace(" ", ""))
    if len(codes) != len(args) or any(c not in _SIZES for c in codes) or len(set(codes)) != 1:
        _eng().tainted(f"struct.pack({fmt!r})")
    out = []
    for c, a in zip(codes, args):
        n = _SIZES[c]
        if not is_sym(a):
            out.extend(struct.pack(order + c, a))
            continue
        w = _word_bits(a, 8 * n, c.islower())
        us = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, w)) for i in range(n)]
        out.extend(us[::-1] if order in ">!" else us)
    return mkbytes([("u", tuple(out))])


hook(struct.pack)(lambda f, a, k: pack(*a))
