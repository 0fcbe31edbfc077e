"""C15 arguments, C16 immutability, C17 environment, C18 composition."""

import collections
import dataclasses
import enum
import io
import os
import signal
import types
from ipaddress import ip_network
from pathlib import Path, PurePosixPath

from symx import core
from symx.values import is_sym
from symx.world import World

from .lifecycle import execute


# --- C15 --------------------------------------------------------------------------------
class Thing:
    "Any object: its str() is the argument."

    def __str__(self):
        return "thing"


class IterThing(Thing):
    "An iterable that is no sequence."

    def __iter__(self):
        return iter(("a", "b"))


class PathThing:
    def __fspath__(self):
        return "/sx/pathlike"


class Color(enum.Enum):
    RED = 1


class StrSub(str):
    pass


class ListSub(list):
    pass


Named = collections.namedtuple("Named", "a b")

KEEP = ("str", "text", "bytes", "path", "pathlike", "command", "pipeline", "strsub", "empty")
CONV = ("int", "bool", "float", "bytearray", "memoryview", "viewpart", "viewstep", "viewwide", "stringio", "bytesio", "thing", "iterthing", "enum", "ipnet",
        "complex", "deque")
BAD = ("dict", "set", "frozenset", "generator", "range", "none", "ellipsis", "mappingproxy", "dictkeys")
LEAVES = KEEP + CONV + BAD
BOXES = ("list", "tuple", "reversed", "enumerate", "zip", "listsub", "named")
SMALL = ("text", "int", "bytesio", "none")
PLAIN = tuple(k for k in LEAVES if k not in ("command", "pipeline"))
TINY = ("str", "none")
EXTRAS = ("list", "tuple", "reversed", "named")


def leaf(E, sh, kind, tag):
    "(value, expected) where expected is a list of arguments, or None if it is rejected."
    if kind == "str":
        v = f"s{tag}"
        return v, [v]
    if kind == "empty":
        return "", [""]
    if kind == "text":
        v = E.chars(f"t{tag}", 2)
        return v, [v]
    if kind == "strsub":
        v = StrSub("sub")
        return v, [v]
    if kind == "bytes":
        v = E.bytes(f"b{tag}", 0, 1000)
        return v, [v]
    if kind == "path":
        v = PurePosixPath("/sx/p") if tag.endswith("0") else Path("/sx/p")
        return v, [v]
    if kind == "pathlike":
        v = PathThing()
        return v, [v]
    if kind == "command":
        v = sh("/sx/sub", "x")
        return v, [v]
    if kind == "pipeline":
        v = sh("/sx/sub1") | sh("/sx/sub2")
        return v, [v]
    if kind == "int":
        v = E.int(f"i{tag}", -10**6, 10**6)
        return v, [("str", v)]
    if kind == "bool":
        v = tag.endswith("0")
        return v, [str(v)]
    if kind == "float":
        return 1.5, ["1.5"]
    if kind == "complex":
        return 1j, ["1j"]
    if kind == "bytearray":
        b = E.bytes(f"b{tag}", 0, 1000)
        return E.bytearray(b), [b]
    if kind == "memoryview":
        return memoryview(b"view"), [b"view"]
    if kind == "viewpart":
        return memoryview(bytearray(b"re-view-ed"))[3:7], [b"view"]
    if kind == "viewstep":
        return memoryview(b"v.i.e.w")[::2], [b"view"]
    if kind == "viewwide":
        return memoryview(b"view").cast("H"), [b"view"]
    if kind == "stringio":
        s = io.StringIO("text")
        s.read(2)
        return s, ["text"]
    if kind == "bytesio":
        b = E.bytes(f"b{tag}", 0, 1000)
        return E.bytesio(b), [b]
    if kind == "thing":
        return Thing(), ["thing"]
    if kind == "iterthing":
        return IterThing(), ["thing"]
    if kind == "enum":
        return Color.RED, ["Color.RED"]
    if kind == "ipnet":
        return ip_network("10.0.0.0/30"), ["10.0.0.0/30"]
    if kind == "deque":
        v = collections.deque([1, 2])
        return v, [str(v)]
    return {
        "dict": {"a": 1}, "set": {1}, "frozenset": frozenset(), "generator": (x for x in (1,)), "range": range(3),
        "none": None, "ellipsis": ..., "mappingproxy": types.MappingProxyType({}), "dictkeys": {"a": 1}.keys(),
    }[kind], None


def box(E, sh, kind, items, tag):
    "A sequence of (value, expected) pairs."
    vals = [v for v, _ in items]
    exps = [e for _, e in items]
    if kind == "list":
        v = list(vals)
    elif kind == "listsub":
        v = ListSub(vals)
    elif kind == "tuple":
        v = tuple(vals)
    elif kind == "named":
        vals = (vals + ["x", "y"])[:2]
        exps = (exps + [["x"], ["y"]])[:2]
        v = Named(*vals)
    elif kind == "reversed":
        v = reversed(tuple(vals))     # an argument type the tests document
        exps = exps[::-1]
    elif kind == "enumerate":
        v = enumerate(vals)
        exps = [y for n, e in enumerate(exps) for y in ([str(n)], e)]
    elif kind == "zip":
        v = zip(vals, ["z"] * len(vals))
        exps = [y for e in exps for y in (e, ["z"])]
    if any(e is None for e in exps):
        return v, None
    return v, [x for e in exps for x in e]


def tree(E, sh, depth, width, kinds, boxes, tag):
    if depth > 0:
        k = E.choice(f"node{tag}", len(kinds) + len(boxes))
        if k >= len(kinds):
            b = boxes[k - len(kinds)]
            n = E.choice(f"width{tag}", width + 1)
            items = [tree(E, sh, depth - 1, width, kinds, boxes, f"{tag}{i}") for i in range(n)]
            E.cover(f"box:{b}")
            return box(E, sh, b, items, tag)
    else:
        k = E.choice(f"leaf{tag}", len(kinds))
    E.cover(f"leaf:{kinds[k]}")
    return leaf(E, sh, kinds[k], tag)


def arg_eq(E, got, want):
    if type(want) is tuple and want and want[0] == "str":
        v = want[1]
        if is_sym(v):
            return isinstance(got, str) and got == v_str(v)
        return got == str(v)
    if is_sym(want) or is_sym(got):
        if not (isinstance(got, (bytes, str)) and not isinstance(got, bytearray)):
            return False
        if isinstance(want, str) != isinstance(got, str):
            return False
        return E.same(got, want)
    if got is want:
        return True
    return type(got) is type(want) and not isinstance(want, (os.PathLike,)) and got == want


def v_str(v):
    from symx.text import OpaqueStr
    return OpaqueStr(v)


def check_args(E, got, want, info):
    E.check(type(got) is tuple, "C15 the arguments are a tuple", info)
    E.check(len(got) == len(want), "C15 the arguments are the flattening of what was given", info)
    for i, (g, w) in enumerate(zip(got, want)):
        E.check(arg_eq(E, g, w), "C15 each argument is kept or converted as documented", [info, i, g, w])


HOOKS = ("same", "list", "text", "none", "nested", "int")


def args(E, n=2, depth=0, width=2, kinds=LEAVES, boxes=BOXES, hook=False, how="ctx", run=False):
    """`n` arguments, each a symbolic tree.

    how: "ctx" all in one call of a context, "call" added to a command, "split" one call each.
    """
    from shellous import sh

    W = World(E)
    kinds = globals()[kinds] if isinstance(kinds, str) else tuple(kinds)
    boxes = globals()[boxes] if isinstance(boxes, str) else tuple(boxes)
    ctx = sh
    calls = []
    hooked = {}

    def coerce_arg(x):
        calls.append(x)
        h = hooked.get(len(calls) - 1)
        if h is None:
            return x
        return h
    if hook:
        ctx = sh.set(coerce_arg=coerce_arg)
    items = [tree(E, sh, depth, width, kinds, boxes, str(i)) for i in range(n)]
    values = [v for v, _ in items]
    expect = [e for _, e in items]
    off = 0 if how == "all" else 1       # the program name goes through the hook as well
    if hook:
        for i in range(n):
            h = HOOKS[E.choice(f"hook{i}", len(HOOKS))]
            if h == "same":
                continue
            hooked[i + off] = {"list": ["h1", 2], "text": "hooked", "none": (None, 1), "nested": ("x", [{"y": 1}["y"], ["z"]]),
                               "int": 7}[h]
            expect[i] = {"list": ["h1", "2"], "text": ["hooked"], "none": None, "nested": ["x", "1", "z"],
                         "int": ["7"]}[h]
            E.cover("hooked")
    bad = next((i for i, e in enumerate(expect) if e is None), None)
    prog = "/sx/prog"
    try:
        if how == "ctx":
            cmd = ctx(prog, *values)
        elif how == "call":
            cmd = ctx(prog)(*values)
        elif how == "split":
            cmd = ctx(prog)
            for v in values:
                before = cmd.args
                new = cmd(v)
                E.check(cmd.args is before, "C15 adding arguments leaves the command as it was")
                cmd = new
        elif how == "all":
            cmd = ctx(*values)
    except TypeError as ex:
        E.cover("rejected")
        E.obs("error", "TypeError")
        E.check(bad is not None, "C15 supported arguments are accepted", [values, repr(ex)])
        return
    except ValueError as ex:
        E.check(how == "all" and bad is None and not sum(expect, []), "C15 only an empty command is refused", repr(ex))
        return
    E.check(bad is None, "C15 unsupported arguments are rejected with TypeError", [values])
    E.cover("accepted")
    want = [x for e in expect for x in e]
    if how != "all":
        want = [prog] + want
    E.obs("n", len(cmd.args))
    check_args(E, cmd.args, want, [values])
    if hook:
        mine = calls[off:]
        E.check(len(mine) == n and all(a is b for a, b in zip(mine, values)),
                "C15 the hook is applied exactly once to each top-level argument, in order", [calls])
    if run:
        W.on_spawn = lambda p: p.exit(0)

        async def go():
            return await cmd
        out = execute(E, W, go, None, linger=0)
        E.check(out["kind"] == "ok", "C15 the command runs", repr(out["exc"]))
        argv = W.spawns[0]["args"]
        check_args(E, tuple(argv), want, [values])


# --- C16 --------------------------------------------------------------------------------
SETTABLE = ("path", "inherit_env", "encoding", "_return_result", "_catch_cancelled_error", "exit_codes", "timeout",
            "cancel_timeout", "cancel_signal", "alt_name", "pass_fds", "pass_fds_close", "_writable",
            "_start_new_session", "_preexec_fn", "pty", "close_fds", "audit_callback", "coerce_arg", "error_limit")
FLAGS = ("inherit_env", "_return_result", "_catch_cancelled_error", "pass_fds_close", "_writable", "_start_new_session",
         "close_fds")
NUMS = ("timeout", "cancel_timeout", "error_limit")
OTHER_MODS = ("env", "env2", "setenv", "clearenv", "noenv", "stdin", "stdout", "stderr", "result", "call", "writable",
              "bad-none", "bad-name", "bad-encoding", "bad-stdout", "set2", "or", "ror", "rshift", "nothing")
FEW = ("env", "setenv", "clearenv", "stdin", "stdout", "stderr", "result", "call", "writable", "set2")


def ident(a, b):
    return a is b


def value_for(E, name):
    if name in FLAGS:
        return E.bool("flag")
    if name == "timeout" or name == "cancel_timeout":
        return None if name == "timeout" and E.choice("isnone", 2) else E.real("num", 0, 1000)
    if name == "error_limit":
        return None if E.choice("isnone", 2) else E.int("num", 0, 10**6)
    return {
        "path": "/sx/bin", "encoding": "latin-1 replace", "exit_codes": {1, 2}, "cancel_signal": signal.SIGINT,
        "alt_name": "other", "pass_fds": (7, 8), "_preexec_fn": print, "pty": True, "audit_callback": lambda *a: None,
        "coerce_arg": lambda x: x,
    }[name]


def snapshot(obj):
    "Everything observable about a context, command or pipeline."
    from shellous import Command, Pipeline
    if isinstance(obj, Pipeline):
        return ("pipe", obj.commands, [snapshot(c) for c in obj.commands])
    o = obj.options
    fields = {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
    fields["env"] = None if o.env is None else dict(o.env)
    a = obj.args if isinstance(obj, Command) else None
    return ("cmd", a, fields)


def same_snapshot(E, a, b):
    "True, or what is different."
    if a[0] != b[0]:
        return "kind"
    if a[0] == "pipe":
        if len(a[1]) != len(b[1]):
            return "commands"
        for x, y in zip(a[2], b[2]):
            r = same_snapshot(E, x, y)
            if r is not True:
                return r
        return True
    if a[1] is not b[1] and not (a[1] is not None and b[1] is not None and len(a[1]) == len(b[1])
                                 and all(x is y or type(x) is type(y) is str and x == y for x, y in zip(a[1], b[1]))):
        return "args"
    if a[2].keys() != b[2].keys():
        return "fields"
    for k in a[2]:
        x, y = a[2][k], b[2][k]
        if k == "env":
            if (x is None) != (y is None) or x is not None and (list(x) != list(y) and set(x) != set(y)
                                                               or any(x[n] is not y[n] and x[n] != y[n] for n in x)):
                return k
        elif x is y:
            continue
        elif is_sym(x) or is_sym(y):
            if not (isinstance(x, bool) == isinstance(y, bool) and E.decide(x == y)):
                return k
        elif not (type(x) is type(y) and x == y):
            return k
    return True


class Model:
    "What an object should look like."

    def __init__(self, snap):
        self.snap = snap

    def upd(self, **kw):
        kind, a, f = self.snap
        f = dict(f)
        for k, v in kw.items():
            assert k in f, k
            f[k] = v
        return Model((kind, a, f))

    def args(self, more):
        kind, a, f = self.snap
        return Model((kind, (a or ()) + tuple(more), f))


def modify(E, sh, obj, model, mod, i):
    "Apply a modifier; returns (new object, model), or the exception's type name."
    from shellous import Command
    iscmd = isinstance(obj, Command)
    f = model.snap[2]
    n = f"{i}"
    if mod in SETTABLE:
        v = value_for(E, mod)
        return obj.set(**{mod: v}), model.upd(**{mod: v})
    if mod == "set2":
        a, b = E.int("code", 0, 100), E.bool("flag")
        return obj.set(error_limit=a, close_fds=b), model.upd(error_limit=a, close_fds=b)
    if mod == "nothing":
        return obj.set(), model
    if mod == "env":
        return obj.env(SXA=i), model.upd(env={**(f["env"] or {}), "SXA": n})
    if mod == "env2":
        return obj.env(SXB="b", SXC=i), model.upd(env={**(f["env"] or {}), "SXB": "b", "SXC": n})
    if mod == "setenv":
        d = {"SXD": i}
        r = obj.set(env=d)
        d["SXE"] = "later"
        d["SXD"] = "changed"
        return r, model.upd(env={"SXD": n})
    if mod == "clearenv":
        return obj.set(env={}), model.upd(env=None)
    if mod == "noenv":
        return obj.set(env=None), model.upd(env=None)
    if mod in ("stdin", "ror"):
        data = bytearray(b"in") if i % 2 else f"in{i}"
        if mod == "ror" and iscmd:
            return data | obj, model.upd(input=data, input_close=False)
        c = E.bool("close")
        return obj.stdin(data, close=c), model.upd(input=data, input_close=c)
    if mod in ("stdout", "or", "rshift"):
        t = Path(f"/sx/out{i}")
        if mod == "or" and iscmd:
            return obj | t, model.upd(output=t, output_append=False, output_close=False)
        if mod == "rshift" and iscmd:
            return obj >> t, model.upd(output=t, output_append=True, output_close=False)
        a, c = E.bool("append"), E.bool("close")
        return obj.stdout(t, append=a, close=c), model.upd(output=t, output_append=a, output_close=c)
    if mod == "stderr":
        t = [sh.STDOUT, Path(f"/sx/err{i}")][E.choice("errto", 2)]
        a, c = E.bool("append"), E.bool("close")
        return obj.stderr(t, append=a, close=c), model.upd(error=t, error_append=a, error_close=c)
    if mod == "result":
        return obj.result, model.upd(_return_result=True, exit_codes=range(-255, 256))
    if mod == "writable":
        if not iscmd:
            return obj.set(_writable=True), model.upd(_writable=True)
        return obj.writable, model.upd(_writable=True)
    if mod == "call":
        more = [f"a{i}", ["b", str(i)]]
        if not iscmd:
            more = ["/sx/prog"] + more
            m = Model((model.snap[0], (), f))
            return obj(*more), m.args(["/sx/prog", f"a{i}", "b", n])
        return obj(*more), model.args([f"a{i}", "b", n])
    try:
        if mod == "bad-none":
            getattr(obj, ("stdin", "stdout", "stderr")[E.choice("which", 3)])(None)
        elif mod == "bad-name":
            obj.set(no_such_option=1)
        elif mod == "bad-encoding":
            obj.set(encoding=("", None)[E.choice("which", 2)])
        elif mod == "bad-stdout":
            getattr(obj, ("stdin", "stdout")[E.choice("which", 2)])(sh.STDOUT)
    except (TypeError, ValueError) as ex:
        return type(ex).__name__
    return None


def immutable(E, start="command", steps=2, few=False, branch=True):
    "A history of modifiers, each applied to any object made so far."
    from shellous import sh

    mods = FEW if few else SETTABLE + OTHER_MODS
    if start == "context":
        obj = sh
    elif start == "context2":
        obj = sh.env(SXA="0").set(timeout=9).stderr(sh.INHERIT)
    else:
        obj = sh("/sx/prog", "a", ("b",)).env(SXZ="0").stdout(sh.CAPTURE)
    objs = [(obj, Model(snapshot(obj)))]
    trail = []
    for i in range(steps):
        src = E.choice("src", len(objs)) if branch else len(objs) - 1
        mod = mods[E.choice("mod", len(mods))]
        o, m = objs[src]
        trail.append((src, mod))
        r = modify(E, sh, o, m, mod, i)
        E.cover(f"mod:{mod}")
        if not isinstance(r, tuple):
            E.check(r == ("ValueError" if mod == "bad-stdout" else "TypeError"), "C16 an invalid update is refused", [trail, r])
        else:
            new, nm = r
            E.check(mod == "nothing" or new is not o, "C16 a modifier returns a new object", trail)
            E.check(type(new) is type(o) or mod == "call", "C16 a modifier keeps the kind of object", trail)
            objs.append((new, nm))
        for k, (x, xm) in enumerate(objs):
            d = same_snapshot(E, snapshot(x), xm.snap)
            what = "C16 only the named settings change" if k == len(objs) - 1 and isinstance(r, tuple) else \
                "C16 earlier objects never change"
            E.check(d is True, what, [trail, k, d])
    # no setting can be changed in place
    x = objs[-1][0]
    for o, name in ((x, "options"), (x.options, "timeout"), (x.options, "env")):
        try:
            setattr(o, name, None)
            ok = False
        except AttributeError:
            ok = True
        E.check(ok, "C16 objects cannot be changed in place", [name])
    E.obs("n", len(objs))


def pipe_mods(E, steps=2):
    "The same for pipelines: what each modifier does to each of the commands."
    from shellous import sh

    def mk(i):
        return sh(f"/sx/p{i}", str(i)).env(SXZ=i)
    pipe = mk(0) | mk(1) | mk(2)
    objs = [(pipe, [Model(snapshot(c)) for c in pipe.commands])]
    mods = ("stdin", "stdout", "stderr", "result", "writable", "or", "rshift", "ror", "addcmd", "addpipe", "call", "badcall")
    trail = []
    for i in range(steps):
        src = E.choice("src", len(objs))
        mod = mods[E.choice("mod", len(mods))]
        o, ms = objs[src]
        trail.append((src, mod))
        E.cover(f"mod:{mod}")
        new = None
        t = Path(f"/sx/t{i}")
        if mod == "stdin":
            c = E.bool("close")
            new = o.stdin(t, close=c)
            nm = [ms[0].upd(input=t, input_close=c)] + ms[1:]
        elif mod == "ror":
            new = t | o
            nm = [ms[0].upd(input=t, input_close=False)] + ms[1:]
        elif mod == "stdout":
            c, a = E.bool("close"), E.bool("append")
            new = o.stdout(t, append=a, close=c)
            nm = ms[:-1] + [ms[-1].upd(output=t, output_append=a, output_close=c)]
        elif mod == "or":
            new = o | t
            nm = ms[:-1] + [ms[-1].upd(output=t, output_append=False, output_close=False)]
        elif mod == "rshift":
            new = o >> t
            nm = ms[:-1] + [ms[-1].upd(output=t, output_append=True, output_close=False)]
        elif mod == "stderr":
            c, a = E.bool("close"), E.bool("append")
            new = o.stderr(t, append=a, close=c)
            nm = ms[:-1] + [ms[-1].upd(error=t, error_append=a, error_close=c)]
        elif mod == "result":
            new = o.result
            nm = ms[:-1] + [ms[-1].upd(_return_result=True, exit_codes=range(-255, 256))]
        elif mod == "writable":
            new = o.writable
            nm = ms[:-1] + [ms[-1].upd(_writable=True)]
        elif mod == "addcmd":
            c = mk(10 + i)
            new = o | c
            nm = ms + [Model(snapshot(c))]
        elif mod == "addpipe":
            p = mk(20 + i) | mk(30 + i)
            new = o | p
            nm = ms + [Model(snapshot(c)) for c in p.commands]
            objs.append((p, nm[-2:]))
        elif mod == "call":
            new = o()
            nm = ms
        elif mod == "badcall":
            try:
                o("arg")
                E.check(False, "C16 a pipeline takes no arguments", trail)
            except TypeError:
                pass
        if new is not None:
            E.check(type(new) is type(pipe), "C16 a modifier keeps the kind of object", trail)
            objs.append((new, nm))
        for k, (x, xs) in enumerate(objs):
            E.check(len(x.commands) == len(xs), "C16 a pipeline keeps its commands", [trail, k])
            for c, m in zip(x.commands, xs):
                d = same_snapshot(E, snapshot(c), m.snap)
                E.check(d is True, "C16 only the named settings change", [trail, k, d])
    try:
        pipe.commands = ()
        ok = False
    except AttributeError:
        ok = True
    E.check(ok, "C16 objects cannot be changed in place", "commands")


# --- C17 --------------------------------------------------------------------------------
NAMES = ("SXA", "SXB", "PATH")
VALUES = ("text", "int", "str", "path", "none", "bool", "float", "empty")


def environment(E, steps=3, start="command", values=VALUES, names=NAMES, few=False):
    "A history of env()/set(env=)/inherit_env; the process gets exactly the result."
    from shellous import sh

    W = World(E)
    W.on_spawn = lambda p: p.exit(0)
    obj = sh if start == "context" else sh("/sx/prog")
    mine, inherit = {}, True
    trail = []
    ops = ("env1", "env2", "set1", "set2", "clear", "none", "inherit")

    def val(tag):
        k = values[E.choice(f"val{tag}", len(values))]
        if k == "text":
            v = E.chars(f"v{tag}", 2)
            return v, v
        if k == "int":
            v = E.int(f"i{tag}", -10**6, 10**6)
            return v, ("str", v)
        return {"str": ("x=y", "x=y"), "path": (Path("/sx/p"), "/sx/p"), "none": (None, "None"), "bool": (True, "True"),
                "float": (2.5, "2.5"), "empty": ("", "")}[k]

    saved = {n: os.environ.get(n) for n in NAMES}
    try:
        for i in range(steps):
            op = ops[E.choice("op", len(ops))]
            trail.append(op)
            E.cover(f"op:{op}")
            if op in ("env1", "set1"):
                k = names[E.choice("name", len(names))]
                v, w = val(f"{i}")
                d, m = {k: v}, {k: w}
            elif op in ("env2", "set2"):
                a = E.choice("name", len(names))
                b = (a + 1) % len(names)
                v, w = val(f"{i}a")
                d, m = {names[a]: v, names[b]: f"n{i}"}, {names[a]: w, names[b]: f"n{i}"}
            if op.startswith("env"):
                obj = obj.env(**d)
                mine = {**mine, **m}
            elif op in ("set1", "set2"):
                obj = obj.set(env=d)
                mine = m
            elif op in ("clear", "none"):
                obj = obj.set(env={} if op == "clear" else None)
                mine = {}
            elif op == "inherit":
                inherit = bool(E.decide(E.bool("inherit")))
                obj = obj.set(inherit_env=inherit)
        # the environment at the time of the launch counts
        for n in NAMES[:2]:
            if E.decide(E.bool(f"parent{n}")):
                os.environ[n] = f"parent-{n}"
            else:
                os.environ.pop(n, None)
        parent = dict(os.environ)
        cmd = obj("/sx/prog") if start == "context" else obj

        async def go():
            return await cmd
        out = execute(E, W, go, None, linger=0)
        changed = {n: (parent.get(n), os.environ.get(n)) for n in set(parent) | set(os.environ)
                   if parent.get(n) != os.environ.get(n)}
    finally:
        for n, v in saved.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v
    E.check(out["kind"] == "ok", "C17 the command runs", [trail, repr(out["exc"])])
    E.check(not changed, "C17 the parent's environment is not changed", [trail, changed])
    env = W.spawns[0]["env"]
    E.check(env is None or isinstance(env, dict), "C17 the environment is a dict", [trail, type(env)])
    if env is None:
        env = parent
    want = {**(parent if inherit else {}), **mine}
    E.obs("n", len(env))
    E.cover("inherit" if inherit else "own")
    E.check(set(env) == set(want), "C17 the environment has exactly the expected variables",
            [trail, sorted(set(env) ^ set(want))])
    for k in want:
        E.check(type(k) is str and isinstance(env[k], str) and arg_eq(E, env[k], want[k]),
                "C17 each variable has its latest value as a string", [trail, k, env[k], want[k]])


def envhash(E, n=3, vals=2):
    "Two ways to build command environments: equal ones have equal hashes."
    from shellous import sh

    def build(tag):
        obj = sh("/sx/prog")
        d = {}
        for i in range(n):
            op = E.choice(f"{tag}op", 3)
            k = NAMES[E.choice(f"{tag}k", 3)]
            v = E.choice(f"{tag}v", vals)
            if op == 0:
                obj = obj.env(**{k: v})
                d[k] = str(v)
            elif op == 1:
                obj = obj.set(env={k: str(v), "SXB": "0"})
                d = {k: str(v), "SXB": "0"} if k != "SXB" else {"SXB": "0"}
            else:
                break
        return obj, d
    a, da = build("a")
    b, db = build("b")
    ea, eb = a.options.env, b.options.env
    if da:
        E.check(dict(ea) == da, "C17 the mapping has the variables that were set", [da, ea])
    E.obs("equal", da == db)
    same = (ea == eb)
    E.check(same == (da == db) or not da or not db, "C17 command environments compare by content", [da, db])
    if same and ea is not None and eb is not None:
        E.cover("equal")
        E.check(hash(ea) == hash(eb), "C17 equal command environments have equal hashes", [list(da), list(db)])
        if a == b:
            E.check(hash(a) == hash(b), "C17 equal commands have equal hashes", [list(da), list(db)])
    elif not same:
        E.cover("different")
        E.check(a != b, "C17 commands with different environments are different", [da, db])


# --- C18 --------------------------------------------------------------------------------
def flat_ref(E, sh, lo, hi, mkleaf, tag):
    "A random parenthesisation of leaves lo..hi-1: (object, models)."
    from shellous import Pipeline
    if hi - lo == 1:
        c = mkleaf(lo)
        if E.choice(f"single{tag}", 2):
            E.cover("single")
            return Pipeline.create(c), [c]
        return c, [c]
    k = lo + 1 + E.choice(f"cut{tag}", hi - lo - 1)
    a, xa = flat_ref(E, sh, lo, k, mkleaf, tag + "l")
    b, xb = flat_ref(E, sh, k, hi, mkleaf, tag + "r")
    return a | b, xa + xb


INS = ("none", "str", "bytes", "bytearray", "path", "fd", "io", "redirect", "reader", "bad")
OUTS = ("none", "path", "bytearray", "io", "fd", "logger", "redirect", "writer", "str", "bytes", "bad", "badobj")


def compose(E, n=3, where="outer", err=True, ins=INS, outs=OUTS):
    """n commands joined in every way, an input on the left, a target on the right.

    where: "outer" attaches them to the whole expression, "inner" to the first and last
    command before they are joined, "mid" to the left and right half before the last join ("left": the
    modifiers to the left half).
    """
    import asyncio
    import logging
    from shellous import Pipeline, sh

    base = [sh(f"/sx/p{i}", str(i)).env(SXZ=i) for i in range(n)]
    kin = ins[E.choice("in", len(ins))]
    kout = outs[E.choice("out", len(outs))]
    app = bool(E.choice("append", 2))
    errs = ((sh.INHERIT, {}), (Path("/sx/err"), dict(append=True)), (sh.DEVNULL, {}), (sh.STDOUT, {}),
            (1002, dict(close=True)), (sh.BUFFER, {}))
    kerr = E.choice("err", 1 + len(errs)) if err else 0
    last = E.choice("last", 3) if err else 0
    W = World(E)
    ins = {"none": None, "str": "text", "bytes": b"data", "bytearray": bytearray(b"x"), "path": Path("/sx/in"),
           "fd": 1000, "io": io.BytesIO(b"io"), "redirect": sh.DEVNULL, "bad": 1.5}
    outs = {"none": None, "path": Path("/sx/out"), "bytearray": bytearray(), "io": io.StringIO(), "fd": 1001,
            "logger": logging.getLogger("sx"), "redirect": sh.CAPTURE, "str": "name", "bytes": b"name", "bad": 1.5,
            "badobj": object()}
    with_loop(W, ins, outs)
    i, o = ins[kin], outs[kout]
    E.cover(f"in:{kin}")
    E.cover(f"out:{kout}")
    before = [snapshot(c) for c in base]

    def wrap_in(x):
        return x if kin == "none" else i | x

    def wrap_out(x):
        if kout == "none":
            return x
        return x >> o if app else x | o

    def mods(x):
        if kerr:
            v, kw = errs[kerr - 1]
            x = x.stderr(v, **kw)
        if last == 1:
            x = x.result
        elif last == 2:
            x = x.writable
        return x

    modded = n - 1
    bad_in = kin == "bad"
    bad_out = kout in ("str", "bytes", "bad", "badobj")
    try:
        if where == "outer":
            x, leaves = flat_ref(E, sh, 0, n, lambda k: base[k], "")
            x = wrap_in(x)
            x = wrap_out(x)
            x = mods(x)
        elif where == "mid":
            k = 1 + E.choice("mid", n - 1)
            a, la = flat_ref(E, sh, 0, k, lambda k: base[k], "a")
            b, lb = flat_ref(E, sh, k, n, lambda k: base[k], "b")
            x = wrap_in(a) | mods(wrap_out(b))
        elif where == "left":
            k = 1 + E.choice("mid", n - 1)
            modded = k - 1
            a, la = flat_ref(E, sh, 0, k, lambda k: base[k], "a")
            b, lb = flat_ref(E, sh, k, n, lambda k: base[k], "b")
            x = wrap_in(mods(a)) | wrap_out(b)
        elif where == "inner":
            def mkleaf(k):
                c = base[k]
                if k == 0:
                    c = wrap_in(c)
                if k == n - 1:
                    c = mods(wrap_out(c))
                return c
            x, leaves = flat_ref(E, sh, 0, n, mkleaf, "")
    except TypeError as ex:
        E.cover("rejected")
        E.obs("error", "TypeError")
        E.check(bad_in or bad_out, "C18 documented operands are accepted", [kin, kout, app, repr(ex)])
        return
    E.check(not bad_in, "C18 an unsupported input is rejected", [kin])
    E.check(not bad_out, "C18 redirecting to plain text or an unsupported object is rejected", [kout, app])
    E.cover("joined")
    cmds = list(x.commands) if isinstance(x, Pipeline) else [x]
    E.check(isinstance(x, Pipeline) or n == 1, "C18 joining commands yields a pipeline")
    E.check(len(cmds) == n, "C18 joining yields the flat sequence of commands", [len(cmds)])
    for k, c in enumerate(cmds):
        m = Model(before[k])
        if k == 0 and kin != "none":
            m = m.upd(input=i, input_close=False)
        if k == n - 1:
            if kout != "none":
                m = m.upd(output=o, output_append=app, output_close=False)
        if k == modded:
            if kerr:
                v, kw = errs[kerr - 1]
                m = m.upd(error=v, error_append=kw.get("append", False), error_close=kw.get("close", False))
            if last == 1:
                m = m.upd(_return_result=True, exit_codes=range(-255, 256))
            elif last == 2:
                m = m.upd(_writable=True)
        d = same_snapshot(E, snapshot(c), m.snap)
        E.check(d is True, "C18 the input goes to the first command, output and modifiers to the last, only",
                [k, d, kin, kout, app, kerr, last])
    E.check(len(x) == n and all(x[k] is cmds[k] for k in range(n)) if isinstance(x, Pipeline) else True,
            "C18 a pipeline can be indexed")
    E.check(not isinstance(x, Pipeline) or x.options is cmds[-1].options, "C18 a pipeline's options are the last command's")
    for c, s in zip(base, before):
        E.check(same_snapshot(E, snapshot(c), s) is True, "C18 joining does not change the commands")


def with_loop(W, ins, outs):
    "Stream objects need an event loop."
    import asyncio
    ins["reader"] = asyncio.StreamReader(loop=W.loop)

    class T(asyncio.Transport):
        pass
    outs["writer"] = asyncio.StreamWriter(T(), asyncio.streams.FlowControlMixin(W.loop), None, W.loop)
    W.loop.dispose()
