"""Symbolic text: SymStr (concrete length, symbolic characters), codecs,
StringIO, and a symbolic matcher for regular expressions."""

import builtins
import codecs
import io
import re

import z3

from . import core
from . import data as D
from . import instr
from .instr import METHOD_HOOKS, hook
from .values import Sym, SymBool, SymBV, SymInt, is_sym, mkbool, s_not

W = 21      # bits of a character


def _eng():
    return D._eng()


def _cv(c):
    return z3.BitVecVal(c, W) if isinstance(c, int) else c


def ceq(a, b):
    "Characters equal: bool or z3 term."
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.simplify(_cv(a) == _cv(b))


def dec(c):
    return D._dec(c)


def _ceqs(xs, ys):
    ts = []
    for x, y in zip(xs, ys):
        t = ceq(x, y)
        if t is False or (not isinstance(t, bool) and z3.is_false(t)):
            return False
        if t is not True:
            ts.append(t)
    return mkbool(z3.And(*ts)) if ts else True


def cin(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.simplify(z3.And(z3.ULE(z3.BitVecVal(lo, W), c), z3.ULE(c, z3.BitVecVal(hi, W))))


def chars_of(x):
    if is_sym(x):
        return x.cs
    return tuple(map(ord, x))


def mkstr(cs):
    try:
        return "".join(map(chr, cs))
    except TypeError:
        pass
    out = []
    for c in cs:
        if not isinstance(c, int):
            c = z3.simplify(c)
            if z3.is_bv_value(c):
                c = c.as_long()
        out.append(c)
    if all(isinstance(c, int) for c in out):
        return "".join(map(chr, out))
    return SymStr(tuple(out))


def replace_units(us, a, b, count, eq):
    out, i = [], 0
    n = len(a)
    if n == 0:
        _eng().tainted("replace of nothing")
    while i < len(us):
        if count != 0 and i + n <= len(us):
            c = eq(us[i:i + n], a)
            if dec(D._tr(c)):
                out.extend(b)
                i += n
                count -= 1
                continue
        out.append(us[i])
        i += 1
    return out


WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B),
      0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
LB = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]


def _isin(c, cps):
    if isinstance(c, int):
        return c in cps
    return dec(z3.simplify(z3.Or(*[c == x for x in cps])))


class SymStr(Sym):
    __slots__ = ("cs",)
    __class__ = property(lambda self: str)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        oc = chars_of(o)
        if len(oc) != len(self.cs):
            return False
        return _ceqs(self.cs, oc)

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        _eng().tainted("hash of symbolic text")

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.cs + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.cs)

    def find(self, sub, start=0, end=None):
        sb = chars_of(sub)
        start, end = slice(start, end).indices(len(self.cs))[:2]
        for i in range(start, end - len(sb) + 1):
            if dec(D._tr(_ceqs(self.cs[i:i + len(sb)], sb))):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sb = chars_of(sub)
        start, end = slice(start, end).indices(len(self.cs))[:2]
        for i in range(end - len(sb), start - 1, -1):
            if dec(D._tr(_ceqs(self.cs[i:i + len(sb)], sb))):
                return i
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    sx_contains = __contains__

    def startswith(self, x, *a):
        if a:
            return SymStr(chars_of(self[slice(*a) if len(a) > 1 else slice(a[0], None)])).startswith(x)
        if isinstance(x, tuple):
            return any(dec(D._tr(self.startswith(y))) for y in x)
        xs = chars_of(x)
        if len(xs) > len(self.cs):
            return False
        return _ceqs(self.cs[:len(xs)], xs)

    def endswith(self, x, *a):
        if a:
            return SymStr(chars_of(self[slice(*a) if len(a) > 1 else slice(a[0], None)])).endswith(x)
        if isinstance(x, tuple):
            return any(dec(D._tr(self.endswith(y))) for y in x)
        xs = chars_of(x)
        if len(xs) > len(self.cs):
            return False
        return _ceqs(self.cs[len(self.cs) - len(xs):], xs)

    def removeprefix(self, x):
        return self[len(x):] if dec(D._tr(self.startswith(x))) else self

    def removesuffix(self, x):
        return self[:-len(x)] if len(x) and dec(D._tr(self.endswith(x))) else self

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            _eng().tainted("split on whitespace")
        out, rest = [], self
        while maxsplit != 0:
            a, s, b = rest.rpartition(sep) if is_sym(rest) else builtins.str(rest).rpartition(sep)
            if not s:
                break
            out.insert(0, b)
            rest = a
            maxsplit -= 1
        return [rest] + out

    def isascii(self):
        return all(c < 128 if isinstance(c, int) else dec(cin(c, 0, 127)) for c in self.cs)

    def __mul__(self, n):
        if not isinstance(n, int) or is_sym(n):
            _eng().tainted("repetition of text")
        return mkstr(self.cs * max(n, 0))

    __rmul__ = __mul__

    def _cmp(self, *a):
        _eng().tainted("order of symbolic text")

    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __getattr__(self, name):
        if hasattr(builtins.str, name) and not name.startswith("__"):
            def f(*a, **k):
                _eng().tainted(f"str.{name}")
            return f
        raise AttributeError(name)

    def count(self, sub):
        n = i = 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n, i = n + 1, i + max(len(sub), 1)

    def replace(self, a, b, count=-1):
        return mkstr(replace_units(self.cs, chars_of(a), chars_of(b), count, _ceqs))

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            _eng().tainted("split on whitespace")
        out, rest = [], self
        while maxsplit != 0:
            a, s, b = rest.partition(sep) if is_sym(rest) else builtins.str(rest).partition(sep)
            if not s:
                break
            out.append(a)
            rest = b
            maxsplit -= 1
        return out + [rest]

    def splitlines(self, keepends=False):
        out, cur, i, cs = [], [], 0, self.cs
        while i < len(cs):
            if _isin(cs[i], [13]):
                end = [cs[i]]
                if i + 1 < len(cs) and _isin(cs[i + 1], [10]):
                    end.append(cs[i + 1])
                    i += 1
            elif _isin(cs[i], LB):
                end = [cs[i]]
            else:
                end = None
                cur.append(cs[i])
            if end is not None:
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def _strip(self, chars, left, right):
        cs = list(self.cs)
        ws = WS if chars is None else [ord(c) for c in chars]
        while right and cs and _isin(cs[-1], ws):
            cs.pop()
        while left and cs and _isin(cs[0], ws):
            cs.pop(0)
        return mkstr(cs)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def isspace(self):
        return bool(self.cs) and all(_isin(c, WS) for c in self.cs)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def join(self, it):
        out = []
        for i, p in enumerate(it):
            if i:
                out.extend(self.cs)
            out.extend(chars_of(p))
        return mkstr(out)

    def sx_eval(self, model):
        return "".join(chr(c if isinstance(c, int)
                           else model.eval(c, model_completion=True).as_long()) for c in self.cs)

    def __repr__(self):
        return "<SymStr>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymStr>"

    def __mod__(self, o):
        _eng().tainted("% formatting")


def same(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return a == b if is_sym(a) else b == a


# --- codecs ---------------------------------------------------------------------
def _enc_name(e):
    return codecs.lookup(e).name


def _bv8(t):
    return z3.simplify(z3.Extract(7, 0, t))


def encode(s, encoding="utf-8", errors="strict"):
    name = _enc_name(encoding)
    out = []
    bom = MARK.get(name)
    for c in s.cs:
        if isinstance(c, int):
            b = chr(c).encode(encoding, errors)
            out.extend(b[len(bom):] if bom else b)
            continue
        if name == "utf-8":
            if dec(cin(c, 0xD800, 0xDFFF)):
                raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
            if dec(cin(c, 0, 0x7F)):
                out.append(_bv8(c))
            elif dec(cin(c, 0, 0x7FF)):
                out += [_bv8(0xC0 | z3.LShR(c, 6)), _bv8(0x80 | (c & 0x3F))]
            elif dec(cin(c, 0, 0xFFFF)):
                out += [_bv8(0xE0 | z3.LShR(c, 12)), _bv8(0x80 | (z3.LShR(c, 6) & 0x3F)),
                        _bv8(0x80 | (c & 0x3F))]
            else:
                out += [_bv8(0xF0 | z3.LShR(c, 18)), _bv8(0x80 | (z3.LShR(c, 12) & 0x3F)),
                        _bv8(0x80 | (z3.LShR(c, 6) & 0x3F)), _bv8(0x80 | (c & 0x3F))]
        elif name in ("iso8859-1", "ascii"):
            if not dec(cin(c, 0, 0xFF if name == "iso8859-1" else 0x7F)):
                if errors == "replace":
                    out.append(63)
                    continue
                raise UnicodeEncodeError(name, "\u1234", 0, 1, "ordinal not in range")
            out.append(_bv8(c))
        elif name in WIDE:
            if dec(cin(c, 0xD800, 0xDFFF)):
                raise UnicodeEncodeError(name, "\ud800", 0, 1, "surrogates not allowed")
            size, order = WIDE[name]
            if size == 4:
                out += _wide(z3.ZeroExt(32 - W, c), 4, order)
            elif dec(cin(c, 0, 0xFFFF)):
                out += _wide(z3.Extract(15, 0, c), 2, order)
            else:
                d = c - 0x10000
                out += _wide(z3.Extract(15, 0, 0xD800 | z3.LShR(d, 10)), 2, order)
                out += _wide(z3.Extract(15, 0, 0xDC00 | (d & 0x3FF)), 2, order)
        else:
            _eng().tainted(f"encoding {name}")
    if bom:
        out = list(bom) + out
    return D.mkbytes([("u", tuple(out))])


# name -> bytes of a unit, byte order; utf-16 and utf-32 have the machine's order and a mark
WIDE = {"utf-16": (2, "little"), "utf-16-le": (2, "little"), "utf-16-be": (2, "big"),
        "utf-32": (4, "little"), "utf-32-le": (4, "little"), "utf-32-be": (4, "big")}
MARK = {"utf-16": codecs.BOM_UTF16_LE, "utf-32": codecs.BOM_UTF32_LE}


def _wide(t, size, order):
    us = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(size)]
    return us if order == "little" else us[::-1]


def wide_decode(us, name, errors, final, incremental=False):
    "CPython's UTF-16 and UTF-32 decoders. Returns (chars, consumed, name for the rest)."
    size, order = WIDE[name]
    i = 0
    if name in MARK:
        if len(us) < size:
            if us and final:
                raise UnicodeDecodeError(name, b"\xff", 0, 1, "truncated data")
            return [], 0, name
        mark = MARK[name]
        i = size
        if dec(D._tr(D._ueq(us[:size], tuple(mark)))):
            name += "-le"
        elif dec(D._tr(D._ueq(us[:size], tuple(mark[::-1])))):
            name, order = name + "-be", "big"
        elif incremental:
            raise UnicodeError(f"{name} stream does not start with BOM")
        else:
            name, i = name + "-le", 0

    def unit(i):
        part = us[i:i + size]
        if order == "little":
            part = part[::-1]
        ts = [z3.BitVecVal(u, 8) if isinstance(u, int) else u for u in part]
        t = z3.simplify(z3.Concat(*ts))
        return t

    def bad(why):
        if errors != "strict":
            _eng().tainted(f"{name} error with {errors}")
        raise UnicodeDecodeError(name, b"\xff", 0, 1, why)

    out = []
    while True:
        if i + size > len(us):
            if i < len(us) and final:
                bad("truncated data")
            break
        t = unit(i)
        if size == 4:
            if dec(z3.simplify(z3.UGT(t, 0x10FFFF))) or dec(z3.simplify(z3.And(z3.UGE(t, 0xD800), z3.ULE(t, 0xDFFF)))):
                bad("code point not in range(0x110000)")
            v = z3.simplify(z3.Extract(W - 1, 0, t))
            n = 4
        elif not dec(z3.simplify(z3.And(z3.UGE(t, 0xD800), z3.ULE(t, 0xDFFF)))):
            v, n = z3.simplify(z3.ZeroExt(W - 16, t)), 2
        else:
            if dec(z3.simplify(z3.UGE(t, 0xDC00))):
                bad("illegal encoding")
            if i + 4 > len(us):
                if final:
                    bad("unexpected end of data")
                break
            lo = unit(i + 2)
            if not dec(z3.simplify(z3.And(z3.UGE(lo, 0xDC00), z3.ULE(lo, 0xDFFF)))):
                bad("illegal UTF-16 surrogate")
            v = z3.simplify(0x10000 + (z3.ZeroExt(W - 16, t & 0x3FF) << 10 | z3.ZeroExt(W - 16, lo & 0x3FF)))
            n = 4
        out.append(v.as_long() if z3.is_bv_value(v) else v)
        i += n
    return out, i, name


def _z21(b):
    return z3.ZeroExt(W - 8, b) if not isinstance(b, int) else z3.BitVecVal(b, W)


def _brange(b, lo, hi):
    if isinstance(b, int):
        return lo <= b <= hi
    return dec(z3.simplify(z3.And(z3.ULE(z3.BitVecVal(lo, 8), b), z3.ULE(b, z3.BitVecVal(hi, 8)))))


def utf8_decode(us, errors, final):
    "CPython's UTF-8 decoder. Returns (chars, consumed)."
    out, i, n = [], 0, len(us)

    def bad(start, end, why):
        if errors == "replace":
            out.append(0xFFFD)
            return end
        if errors == "ignore":
            return end
        if errors == "surrogateescape":
            for u in us[start:end]:
                out.append(u + 0xDC00 if isinstance(u, int) else z3.simplify(_z21(u) + 0xDC00))
            return end
        if errors != "strict":
            _eng().tainted(f"error handler {errors}")
        raise UnicodeDecodeError("utf-8", b"\xff" * max(n, 1), start, end, why)

    while i < n:
        b = us[i]
        if _brange(b, 0, 0x7F):
            out.append(b if isinstance(b, int) else z3.simplify(_z21(b)))
            i += 1
            continue
        if _brange(b, 0xC2, 0xDF):
            need, lo, hi = 1, 0x80, 0xBF
        elif _brange(b, 0xE0, 0xEF):
            need, lo, hi = 2, 0x80, 0xBF
            if _brange(b, 0xE0, 0xE0):
                lo = 0xA0
            elif _brange(b, 0xED, 0xED):
                hi = 0x9F
        elif _brange(b, 0xF0, 0xF4):
            need, lo, hi = 3, 0x80, 0xBF
            if _brange(b, 0xF0, 0xF0):
                lo = 0x90
            elif _brange(b, 0xF4, 0xF4):
                hi = 0x8F
        else:
            i = bad(i, i + 1, "invalid start byte")
            continue
        ok = True
        for j in range(1, need + 1):
            if i + j >= n:
                if not final:
                    return out, i
                i = bad(i, n, "unexpected end of data")
                ok = False
                break
            if not _brange(us[i + j], lo if j == 1 else 0x80, hi if j == 1 else 0xBF):
                i = bad(i, i + j, "invalid continuation byte")
                ok = False
                break
        if not ok:
            continue
        v = _z21(b) & {1: 0x1F, 2: 0x0F, 3: 0x07}[need]
        for j in range(1, need + 1):
            v = (v << 6) | (_z21(us[i + j]) & 0x3F)
        v = z3.simplify(v)
        out.append(v.as_long() if z3.is_bv_value(v) else v)
        i += need + 1
    return out, i


def _raw_decode(us, name, errors, final):
    if name == "utf-8":
        try:
            b = builtins.bytes(us)
        except TypeError:
            return utf8_decode(us, errors, final)
        t, n = codecs.utf_8_decode(b, errors, final)
        return chars_of(t), n
    if name in ("iso8859-1", "ascii"):
        out = []
        for u in us:
            if name == "ascii" and not _brange(u, 0, 0x7F):
                if errors == "replace":
                    out.append(0xFFFD)
                    continue
                if errors == "ignore":
                    continue
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            out.append(u if isinstance(u, int) else z3.simplify(_z21(u)))
        return out, len(us)
    if name in WIDE:
        return wide_decode(us, name, errors, final)[:2]
    _eng().tainted(f"decoding {name}")


def decode(b, encoding="utf-8", errors="strict"):
    cs, _ = _raw_decode(D.units(b, "decode"), _enc_name(encoding), errors, True)
    return mkstr(cs)


class SymIncrementalDecoder(codecs.IncrementalDecoder):
    def __init__(self, name, errors="strict"):
        super().__init__(errors)
        self.name = self.now = name
        self.buf = ()

    def decode(self, input, final=False):
        us = self.buf + tuple(D.units(input, "decode"))
        if self.now in WIDE:
            cs, n, self.now = wide_decode(us, self.now, self.errors, bool(final), True)
        else:
            cs, n = _raw_decode(us, self.now, self.errors, bool(final))
        self.buf = us[n:]
        return mkstr(cs)

    def reset(self):
        self.buf = ()
        self.now = self.name

    def getstate(self):
        _eng().tainted("getstate of a symbolic decoder")


@hook(codecs.getincrementaldecoder)
def _getincdec(f, a, k):
    if not D.ACTIVE:
        return f(*a, **k)
    name = _enc_name(a[0])
    real = f(*a, **k)
    if name not in ("utf-8", "iso8859-1", "ascii") and name not in WIDE:
        return real
    return lambda *b: SymIncrementalDecoder(name, *b)


@hook(io.IncrementalNewlineDecoder)
def _incnl(f, a, k):
    if not D.ACTIVE:
        return f(*a, **k)
    import _pyio
    return _pyio.IncrementalNewlineDecoder(*a, **k)


@hook(builtins.str)
def _str(f, a, k):
    if a and is_sym(a[0]):
        if isinstance(a[0], str):
            return a[0]
        if isinstance(a[0], (bytes, bytearray)) and len(a) > 1:
            return a[0].decode(*a[1:])
        if len(a) == 1 and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
            return OpaqueStr(a[0])
        if len(a) == 1 and isinstance(a[0], bool):
            return "True" if a[0] else "False"
    if a and type(a[0]) is OpaqueStr:
        return a[0]
    return f(*a, **k)


@hook(instr.sx_fstr)
def _fstr(f, parts, k):
    if any(type(p[0]) is SymStr and p[1] in (-1, 115) and not p[2] for p in parts):
        out = []
        for v, conv, spec in parts:
            if type(v) is SymStr and conv in (-1, 115) and not spec:
                out.extend(v.cs)
            else:
                if is_sym(v) and type(v) is not SymStr:
                    _eng().tainted("f-string of a symbolic value")
                out.extend(chars_of(f((v, conv, spec))))
        return mkstr(out)
    if len(parts) == 1 and parts[0][1] in (-1, 115) and not parts[0][2] and is_sym(parts[0][0]):
        return _str(builtins.str, (parts[0][0],), {})
    return f(*parts)


def _percent(f, a, k):
    x, y = a
    ys = y if type(y) is tuple else (y,)
    if isinstance(x, str) and not is_sym(x) and any(type(v) is SymStr for v in ys):
        bits = re.split("(%[sr%])", x)
        if any("%" in b for b in bits[::2]) or sum(b != "%%" for b in bits[1::2]) != len(ys):
            _eng().tainted("% formatting")
        out, ys = [], list(ys)
        for b in bits:
            if b == "%%":
                out.append(37)
            elif b in ("%s", "%r"):
                v = ys.pop(0)
                out.extend(v.cs if type(v) is SymStr and b == "%s" else map(ord, b % (v,)))
            else:
                out.extend(map(ord, b))
        return mkstr(out)
    if isinstance(x, (bytes, bytearray)) and (is_sym(x) or any(is_sym(v) for v in ys)):
        _eng().tainted("% formatting of bytes")
    return f(x, y)


hook(instr.sx_percent)(_percent)


class OpaqueStr(Sym):
    "str(x) of a symbolic number: only ever passed around and compared."
    __slots__ = ("of",)
    __class__ = property(lambda self: str)

    def __init__(self, of):
        self.of = of

    def __eq__(self, o):
        if type(o) is OpaqueStr:
            return self.of == o.of
        if isinstance(o, str) and isinstance(self.of, int):
            try:
                n = int(o)
            except ValueError:
                return False
            return self.of == n if str(n) == o else False
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def _value(self):
        return builtins.str(self.of.__index__())

    def __hash__(self):
        return hash(self._value())

    def __len__(self):
        return len(self._value())

    def __bool__(self):
        return True

    def __getattr__(self, name):
        return getattr(self._value(), name)

    def __add__(self, o):
        return self._value() + o

    def __radd__(self, o):
        return o + self._value()

    def __str__(self):
        return "<OpaqueStr>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<OpaqueStr>"

    def sx_eval(self, model):
        from .values import eval_value
        return str(eval_value(self.of, model))


def _strjoin(f, s, a, k):
    parts = list(a[0])
    if any(is_sym(p) for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(chars_of(s))
            out.extend(chars_of(p))
        return mkstr(out)
    return f(parts)


METHOD_HOOKS[(str, "join")] = _strjoin


def _str_method(name):
    def h(f, s, a, k):
        if a and is_sym(a[0]):
            return getattr(SymStr(chars_of(s)), name)(*a, **k)
        return f(*a, **k)
    return h


for _n in ("startswith", "endswith", "find", "partition", "rfind", "index", "rindex", "rpartition", "split", "rsplit",
           "count", "replace", "removeprefix", "removesuffix"):
    METHOD_HOOKS[(str, _n)] = _str_method(_n)


# --- StringIO -----------------------------------------------------------------------
class SymStringIO(Sym):
    __slots__ = ("cs", "pos", "closed")
    __class__ = property(lambda self: io.StringIO)

    def __init__(self, initial="", pos=0):
        self.cs = list(chars_of(initial))
        self.pos = pos
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(f"string argument expected, got {type(s).__name__!r}")
        if not len(s):
            return 0
        if self.pos > len(self.cs):
            self.cs += [0] * (self.pos - len(self.cs))
        c = chars_of(s)
        self.cs[self.pos:self.pos + len(c)] = c
        self.pos += len(c)
        return len(c)

    def getvalue(self):
        return mkstr(self.cs)

    def read(self, n=-1):
        x = self.cs[self.pos:] if n is None or n < 0 else self.cs[self.pos:self.pos + n]
        self.pos += len(x)
        return mkstr(x)

    def seekable(self):
        return True

    readable = writable = seekable

    def flush(self):
        pass

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence and off:
            raise OSError("Can't do nonzero cur-relative seeks")
        if whence == 2:
            self.pos = len(self.cs)
        elif whence == 0:
            self.pos = off
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.cs[size:]
        return size

    def close(self):
        self.closed = True

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return "<SymStringIO>"


@hook(io.StringIO)
def _stringio(f, a, k):
    if not D.ACTIVE and not (a and is_sym(a[0])):
        return f(*a, **k)
    return SymStringIO(*(a or [""]))


# --- regular expressions ----------------------------------------------------------
_P = re._parser
_C = re._constants


class SymMatch(Sym):
    __slots__ = ("re", "string", "spans", "pos", "endpos", "lastindex")
    __class__ = property(lambda self: re.Match)

    def __init__(self, pat, string, spans):
        self.re, self.string, self.spans = pat, string, spans
        self.pos, self.endpos = 0, len(string)
        self.lastindex = None

    def _g(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self.spans.get(g, (-1, -1))

    def span(self, g=0):
        return self._g(g)

    def start(self, g=0):
        return self._g(g)[0]

    def end(self, g=0):
        return self._g(g)[1]

    def group(self, *gs):
        r = []
        for g in gs or (0,):
            a, b = self._g(g)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self.group(i) if self._g(i)[0] >= 0 else default
                     for i in range(1, self.re.groups + 1))

    def __bool__(self):
        return True

    def __repr__(self):
        return f"<SymMatch {self.spans.get(0)}>"


_LOWER = {}
_RANGES = {}


def _fold(v, bytes_=False):
    "Characters that match literal `v` when case is ignored (as CPython's sre does it)."
    import _sre
    if bytes_:
        return {x for x in (v, *chr(v).swapcase().encode("latin-1", "replace")[:1]) if v < 128} | {v}
    if not _LOWER:
        for c in range(0x110000):
            lo = _sre.unicode_tolower(c)
            if lo != c:
                _LOWER.setdefault(lo, [lo]).append(c)
    lo = _sre.unicode_tolower(v)
    eq = {lo}
    for grp in _casefix():
        if lo in grp:
            eq |= set(grp)
    return {c for x in eq for c in _LOWER.get(x, [x])}


def _casefix():
    from re import _casefix as cf
    return [(k, *v) for k, v in cf._EXTRA_CASES.items()]


def _ranges(cat):
    "Exact code point ranges of a Unicode category class."
    if cat not in _RANGES:
        pat = re.compile({_C.CATEGORY_DIGIT: r"\d+", _C.CATEGORY_SPACE: r"\s+", _C.CATEGORY_WORD: r"\w+"}[cat])
        allc = "".join(map(chr, range(0x110000)))
        _RANGES[cat] = [(m.start(), m.end() - 1) for m in pat.finditer(allc)]
    return _RANGES[cat]


class _Matcher:
    def __init__(self, pat, cs):
        self.bytes = isinstance(pat.pattern, bytes)
        self.tree = _P.parse(pat.pattern, pat.flags & ~re.UNICODE)
        self.flags = pat.flags
        self.cs = cs

    def run(self, i):
        for j, g in self.seq(list(self.tree), 0, i, {}):
            return j, g
        return None

    def seq(self, items, k, i, g):
        if k == len(items):
            yield i, g
            return
        for j, g2 in self.one(items[k], i, g):
            yield from self.seq(items, k + 1, j, g2)

    def char(self, i):
        return self.cs[i]

    def one(self, item, i, g):
        op, av = item
        cs = self.cs
        if op is _C.LITERAL:
            if i < len(cs) and self._lit(cs[i], av):
                yield i + 1, g
        elif op is _C.NOT_LITERAL:
            if i < len(cs) and not self._lit(cs[i], av):
                yield i + 1, g
        elif op is _C.ANY:
            if i < len(cs) and (self.flags & re.DOTALL or not self._lit(cs[i], 10)):
                yield i + 1, g
        elif op is _C.IN:
            if i < len(cs) and self._in(cs[i], av):
                yield i + 1, g
        elif op is _C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, i, g)
        elif op is _C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                _eng().tainted("inline flags")
            for j, g2 in self.seq(list(p), 0, i, g):
                if gid is not None:
                    g2 = {**g2, gid: (i, j)}
                yield j, g2
        elif op in (_C.MAX_REPEAT, _C.MIN_REPEAT):
            lo, hi, p = av
            hi = 1 << 30 if hi is _C.MAXREPEAT else hi
            yield from self.rep(list(p), lo, hi, op is _C.MAX_REPEAT, i, g, 0)
        elif op is _C.AT:
            if self._at(av, i):
                yield i, g
        else:
            _eng().tainted(f"regular expression {op}")

    def rep(self, p, lo, hi, greedy, i, g, n):
        def more():
            if n < hi:
                for j, g2 in self.seq(p, 0, i, g):
                    if j == i and n >= lo:
                        continue
                    yield from self.rep(p, lo, hi, greedy, j, g2, n + 1)
        if greedy:
            yield from more()
            if n >= lo:
                yield i, g
        else:
            if n >= lo:
                yield i, g
            yield from more()

    def _lit(self, c, v):
        return dec(self._lits(c, v))

    def _lits(self, c, v):
        if not self.flags & re.IGNORECASE:
            return ceq(c, v)
        f = _fold(v, self.bytes)
        if isinstance(c, int):
            return c in f
        return z3.simplify(z3.Or(*[z3.BoolVal(t) if isinstance(t, bool) else t for t in (ceq(c, x) for x in sorted(f))]))

    def _in(self, c, av):
        neg = False
        hit = False
        ts = []
        for op, v in av:
            if op is _C.NEGATE:
                neg = True
            elif op is _C.LITERAL:
                ts.append(self._lits(c, v))
            elif op is _C.RANGE and self.flags & re.IGNORECASE:
                if v[1] - v[0] > 200:
                    _eng().tainted("IGNORECASE of a wide range")
                    ts.append(cin(c, *v))
                else:
                    ts.extend(self._lits(c, x) for x in range(v[0], v[1] + 1))
            elif op is _C.RANGE:
                ts.append(cin(c, *v))
            elif op is _C.CATEGORY:
                ts.append(self._cat(c, v))
            else:
                _eng().tainted(f"regular expression set {op}")
        if any(t is True for t in ts):
            hit = True
        else:
            ts = [t for t in ts if t is not False]
            hit = dec(z3.simplify(z3.Or(*ts))) if ts else False
        return hit != neg

    def _cat(self, c, v):
        neg = v in (_C.CATEGORY_NOT_DIGIT, _C.CATEGORY_NOT_SPACE, _C.CATEGORY_NOT_WORD)
        v = {_C.CATEGORY_NOT_DIGIT: _C.CATEGORY_DIGIT, _C.CATEGORY_NOT_SPACE: _C.CATEGORY_SPACE,
             _C.CATEGORY_NOT_WORD: _C.CATEGORY_WORD}.get(v, v)
        ascii_ = {_C.CATEGORY_DIGIT: [(48, 57)], _C.CATEGORY_SPACE: [(9, 13), (28, 32)],
                  _C.CATEGORY_WORD: [(48, 57), (65, 90), (97, 122), (95, 95)]}
        if self.bytes or self.flags & re.ASCII:
            rs = ascii_[v]
            if v is _C.CATEGORY_SPACE:
                rs = [(9, 13), (32, 32)]
        elif isinstance(c, int) or dec(cin(c, 0, 127)):
            rs = ascii_[v] if not isinstance(c, int) or c < 128 else _ranges(v)
        else:
            rs = _ranges(v)
        ts = [cin(c, *r) for r in rs]
        if isinstance(c, int):
            return any(ts) != neg
        t = z3.Or(*ts)
        return z3.simplify(z3.Not(t) if neg else t)

    def _at(self, av, i):
        n = len(self.cs)
        if av is _C.AT_BEGINNING_STRING:
            return i == 0
        if av is _C.AT_BEGINNING:
            if i == 0:
                return True
            return bool(self.flags & re.MULTILINE) and dec(ceq(self.cs[i - 1], 10))
        if av is _C.AT_END_STRING:
            return i == n
        if av is _C.AT_END:
            if i == n:
                return True
            if self.flags & re.MULTILINE:
                return dec(ceq(self.cs[i], 10))
            return i == n - 1 and dec(ceq(self.cs[i], 10))
        _eng().tainted(f"regular expression {av}")


def _first(items):
    "Characters a match may start with, or None if unknown."
    items = list(items)
    if not items:
        return None
    op, av = items[0]
    name = str(op)
    if name == "LITERAL":
        return {av}
    if name == "SUBPATTERN":
        return _first(av[-1])
    if name == "BRANCH":
        out = set()
        for alt in av[1]:
            f = _first(alt)
            if f is None:
                return None
            out |= f
        return out
    if name == "IN" and all(str(o) == "LITERAL" for o, _ in av):
        return {v for _, v in av}
    return None


def search(pat, s, starts=None, full=False):
    cs = chars_of(s)
    m = _Matcher(pat, cs)
    first = None if pat.flags & re.IGNORECASE else _first(m.tree)
    for i in (range(len(cs) + 1) if starts is None else starts):
        if first is not None and i < len(cs) and type(cs[i]) is int and cs[i] not in first:
            continue
        if full:
            for j, g in m.seq(list(m.tree), 0, i, {}):
                if j == len(cs):
                    return SymMatch(pat, s, {**g, 0: (i, j)})
            continue
        r = m.run(i)
        if r is not None:
            return SymMatch(pat, s, {**r[1], 0: (i, r[0])})
    return None


def _re_search(f, s, a, k):
    if is_sym(a[0]):
        lo = a[1] if len(a) > 1 else 0
        if len(a) > 2 or k:
            _eng().tainted("search with an end")
        return search(s, a[0], range(lo, len(a[0]) + 1))
    return f(*a, **k)


def _re_match(f, s, a, k):
    return search(s, a[0], (0,)) if is_sym(a[0]) else f(*a, **k)


def _re_full(f, s, a, k):
    return search(s, a[0], (0,), True) if is_sym(a[0]) else f(*a, **k)


METHOD_HOOKS[(re.Pattern, "search")] = _re_search
METHOD_HOOKS[(re.Pattern, "match")] = _re_match
METHOD_HOOKS[(re.Pattern, "fullmatch")] = _re_full
