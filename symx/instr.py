"""Import `shellous` from the repository's current source, instrumented.

The AST is rewritten only where CPython would otherwise run C code that cannot
see symbolic values: calls go through `__sx_call__`, and `in`, `not in`, `is`,
`is not` comparisons go through hooks.  Statements, control flow, exceptions,
coroutines and classes are executed natively by CPython.
"""

import ast
import builtins
import importlib.abc
import importlib.util
import io
import os
import sys
import re
import types

from . import core
from .values import Sym, SymBool, SymInt, SymBV, SymReal, is_sym, s_not, s_or

REPO = os.environ.get("VERIF_REPO", "/repo")

_SKIP = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__sx_call__"}


class _Rewriter(ast.NodeTransformer):
    def _annot(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name("__sx_call__", ast.Load()),
                     args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        name = {ast.In: "__sx_in__", ast.NotIn: "__sx_not_in__",
                ast.Is: "__sx_is__", ast.IsNot: "__sx_is_not__"}.get(type(op))
        if name is None:
            return node
        if name.startswith("__sx_is") and isinstance(node.comparators[0], ast.Constant) \
                and node.comparators[0].value is None:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(name, ast.Load()),
                     args=[node.left, node.comparators[0]], keywords=[]), node)


    def visit_JoinedStr(self, node):
        if not any(isinstance(v, ast.FormattedValue) for v in node.values):
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                e = [self.visit(v.value), ast.Constant(v.conversion), self.visit(v.format_spec) if v.format_spec
                     else ast.Constant("")]
            else:
                e = [v, ast.Constant(-1), ast.Constant("")]
            parts.append(ast.Tuple(e, ast.Load()))
        return ast.copy_location(
            ast.Call(func=ast.Name("__sx_call__", ast.Load()),
                     args=[ast.Name("__sx_fstr__", ast.Load())] + parts, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Mod):
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name("__sx_call__", ast.Load()),
                     args=[ast.Name("__sx_percent__", ast.Load()), node.left, node.right], keywords=[]), node)


def sx_fstr(*parts):
    out = []
    for v, conv, spec in parts:
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec))
    return "".join(out)


def sx_percent(a, b):
    return a % b


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = _Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# --- hooks --------------------------------------------------------------------
HOOKS = {}          # id(callable) -> (callable, hook)
METHOD_HOOKS = {}   # (type, method name) -> hook(self, *args, **kw)

_Builtin = types.BuiltinFunctionType
_Method = type(re.compile("").search)       # C methods that know their defining class


def hook(fn):
    def deco(h):
        HOOKS[id(fn)] = (fn, h)
        return h
    return deco


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        h = HOOKS.get(id(f))
        if h is not None and core.CUR is not None and core.CUR.symbolic:
            return h[1](f, a, k)
        return f(*a, **k)
    if core.CUR is None or not core.CUR.symbolic:
        return f(*a, **k)
    h = HOOKS.get(id(f))
    if h is not None:
        return h[1](f, a, k)
    if t is _Builtin or t is _Method:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            mh = METHOD_HOOKS.get((type(s), f.__name__))
            if mh is not None:
                return mh(f, s, a, k)
            if k or a:
                for x in a:
                    if is_sym(x):
                        return _default_method(f, s, a, k)
    elif t is type:
        for x in a:
            if is_sym(x):
                # Construction of an unmodelled C type from a symbolic value.
                break
    return f(*a, **k)


_OK_METHODS = {
    (list, "append"), (list, "extend"), (list, "insert"), (set, "add"), (dict, "get"),
    (dict, "setdefault"), (dict, "pop"), (dict, "update"), (list, "remove"),
    (list, "index"), (list, "count"),
}


def _default_method(f, s, a, k):
    ts = type(s)
    if (ts, f.__name__) in _OK_METHODS or ts.__module__.startswith("_asyncio") \
            or ts.__module__ in ("_collections", "collections", "_contextvars", "contextvars"):
        return f(*a, **k)
    if ts in (bytes, str, bytearray, int, float, io.BytesIO, io.StringIO):
        core.cur().tainted(f"{ts.__name__}.{f.__name__} with a symbolic argument")
    return f(*a, **k)


@hook(builtins.len)
def _len(f, a, k):
    x = a[0]
    if hasattr(type(x), "sx_len"):
        return x.sx_len()
    return f(*a, **k)


@hook(builtins.bool)
def _bool(f, a, k):
    if a and is_sym(a[0]):
        if type(a[0]) is SymBool:
            return a[0]
        return bool(a[0])
    return f(*a, **k)


@hook(builtins.int)
def _int(f, a, k):
    if len(a) == 1 and not k:
        if type(a[0]) is SymInt:
            return a[0]
        if type(a[0]) is SymBool:
            return a[0].as_int()
        if type(a[0]) is SymBV:
            return a[0]
        if type(a[0]) is SymReal:
            core.cur().tainted("int(SymReal)")
    return f(*a, **k)


@hook(builtins.float)
def _float(f, a, k):
    if len(a) == 1 and type(a[0]) is SymReal:
        return a[0]
    return f(*a, **k)


@hook(builtins.type)
def _type(f, a, k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return f(*a, **k)


@hook(builtins.callable)
def _callable(f, a, k):
    if is_sym(a[0]):
        return False
    return f(*a, **k)


def sx_in(x, c):
    if core.CUR is None or not core.CUR.symbolic:
        return x in c
    tc = type(c)
    if is_sym(x):
        if tc is range:
            r = (x >= c.start) & (x < c.stop) if c.step == 1 else None
            if r is None:
                return s_or(*[x == v for v in c])
            return r
        if tc in (set, frozenset, list, tuple, dict):
            return s_or(*[x == v for v in c])
    if is_sym(c) and hasattr(tc, "sx_contains"):
        return c.sx_contains(x)
    return x in c


def sx_not_in(x, c):
    return s_not(sx_in(x, c))


def sx_is(a, b):
    if is_sym(a) or is_sym(b):
        if type(a) is SymBool and (b is True or b is False):
            return a == b
        if type(b) is SymBool and (a is True or a is False):
            return b == a
    return a is b


def sx_is_not(a, b):
    return s_not(sx_is(a, b))


_NS = {"__sx_call__": sx_call, "__sx_in__": sx_in, "__sx_not_in__": sx_not_in,
       "__sx_is__": sx_is, "__sx_is_not__": sx_is_not, "__sx_fstr__": sx_fstr, "__sx_percent__": sx_percent}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with io.open(path, "rb") as f:
            src = f.read()
        SOURCES[fullname] = path
        return compile(rewrite(src, path), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(_NS)
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "shellous" and not name.startswith("shellous."):
            return None
        parts = name.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))


SOURCES = {}


def install(instrument=True):
    "Make `import shellous` load from REPO (instrumented or plain)."
    sys.dont_write_bytecode = True
    # The library evaluates this variable at import time; it is off but for C32.
    os.environ.pop("SHELLOUS_TRACE", None)
    if os.environ.get("VERIF_TRACE"):
        os.environ["SHELLOUS_TRACE"] = "all"
    os.environ.pop("SHELLOUS_DEBUG", None)
    for m in [m for m in sys.modules if m == "shellous" or m.startswith("shellous.")]:
        del sys.modules[m]
    if instrument:
        from . import text  # noqa: F401  (registers its hooks)
        sys.meta_path.insert(0, _Finder())
    else:
        sys.path.insert(0, REPO)
    import shellous
    f = os.path.realpath(shellous.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return shellous


# --- which functions were executed -------------------------------------------
class FnTrace:
    "Records which shellous functions ran (first entry only; sys.monitoring)."

    def __init__(self):
        self.seen = set()
        self.tool = 3
        mon = sys.monitoring
        mon.use_tool_id(self.tool, "symx")
        root = os.path.join(REPO, "shellous") + os.sep

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(f"{os.path.basename(fn)[:-3]}.{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
