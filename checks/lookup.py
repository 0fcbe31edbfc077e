"""C28 program lookup."""

import errno
import os
import stat as stat_
from pathlib import Path, PurePosixPath

from symx.world import World

from .lifecycle import execute

DIRS = ("/sx/a", "/sx/b", "", ".", "rel", "/sx/a/")
STATES = ("absent", "exec", "plain", "dir", "denied")
ROOT = "/sx/"


class PathThing:
    def __init__(self, name):
        self.name = name

    def __fspath__(self):
        return self.name


class Files:
    "The files that a lookup may meet; the state of each is chosen when it is first looked at."

    def __init__(self, E, states=STATES):
        self.E = E
        self.states = states
        self.known = {}
        self.cwd = os.getcwd()
        self.real = {n: getattr(os, n) for n in ("stat", "lstat", "access")}

    def key(self, p):
        return os.path.normpath(os.path.join(self.cwd, os.fsdecode(p)))

    def state(self, p):
        k = self.key(p)
        if os.path.basename(os.fsdecode(p)) in ("", ".", ".."):
            return "dir"
        if k not in self.known:
            self.known[k] = self.states[self.E.choice(f"file{len(self.known)}", len(self.states))]
        return self.known[k]

    def mine(self, p):
        if isinstance(p, int):
            return False
        try:
            k = self.key(p)
        except (TypeError, ValueError):
            return False
        return k.startswith(ROOT) or not os.path.isabs(os.fsdecode(p)) or k.startswith(self.cwd + os.sep) \
            or set(os.fsdecode(p)) <= set("a./")

    def stat(self, p, *a, **k):
        if not self.mine(p):
            return self.real["stat"](p, *a, **k)
        s = self.state(p)
        if s in ("absent", "denied"):
            e = errno.ENOENT if s == "absent" else errno.EACCES
            raise OSError(e, os.strerror(e), p)
        mode = {"exec": stat_.S_IFREG | 0o755, "plain": stat_.S_IFREG | 0o644, "dir": stat_.S_IFDIR | 0o755}[s]
        return os.stat_result((mode, 1, 1, 1, 0, 0, 0, 0, 0, 0))

    def access(self, p, mode, *a, **k):
        if not self.mine(p):
            return self.real["access"](p, mode, *a, **k)
        s = self.state(p)
        return s in ("exec", "dir") or s == "plain" and not mode & os.X_OK

    def __enter__(self):
        os.stat, os.access = self.stat, self.access
        os.lstat = self.stat
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(os, n, f)

    def first(self, name, path):
        "The file that a search of `path` finds."
        if not path:
            return None
        for d in path.split(":"):
            c = os.path.join(d, name)
            if self.state(c) == "exec":
                return self.key(c)
        return None

    def launched(self, info, parent):
        "The file that the launch would execute."
        prog = info.get("executable")
        if prog is None:
            prog = info["args"][0]
        prog = os.fsdecode(prog)
        if os.path.dirname(prog):
            return self.key(prog)
        env = info.get("env")
        env = parent if env is None else env
        return self.first(prog, env.get("PATH", os.defpath))


def a_path(E, tag, n, dirs):
    return ":".join(dirs[E.choice(f"dir{tag}", len(dirs))] for _ in range(1 + E.choice(f"ndirs{tag}", n)))


KINDS = ("str", "bytes", "path", "pathlike")


def lookup(E, n=2, length=1, alphabet="a./", kinds=KINDS, dirs=DIRS, states=STATES, how="command", count=1, envs=True):
    from shellous import sh

    W = World(E)
    W.on_spawn = lambda p: p.exit(0)

    name = "".join(alphabet[E.choice("char", len(alphabet))] for _ in range(1 + E.choice("length", length)))
    kind = kinds[E.choice("kind", len(kinds))]
    arg = {"str": lambda: name, "bytes": lambda: os.fsencode(name), "path": lambda: Path(name),
           "pathlike": lambda: PathThing(name)}[kind]()
    name = os.fsdecode(arg)

    # the search path: not set, or set on the context or on the command
    def setting(tag, also=()):
        k = (("unset", "set", "empty") + also)[E.choice(f"path{tag}", 3 + len(also))]
        if k == "set":
            return k, a_path(E, tag, n, dirs)
        return k, "" if k == "empty" else None

    jobs = []
    ctx = sh
    base = None
    if how != "command":
        k, v = setting("ctx")
        if k != "unset":
            ctx, base = sh.set(path=v), v
    for i in range(count):
        cmd, path = ctx(arg, "x"), base
        if how == "command" or how == "both":
            k, v = setting(str(i), also=("none",) if how == "both" else ())
            if k != "unset":
                cmd, path = cmd.set(path=v), v
        if envs:
            e = ("same", "env", "only")[E.choice("env", 3)]
            if e != "same":
                cmd = cmd.env(PATH="/sx/b:")
            if e == "only":
                cmd = cmd.set(inherit_env=False)
        jobs.append((cmd, path))
    all_ = jobs[0][0]
    for c, _ in jobs[1:]:
        all_ = all_ | c

    own = ("unset", "empty", "set")[E.choice("parent", 3)]
    saved = os.environ.get("PATH")
    files = Files(E, states)
    try:
        if own == "unset":
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = a_path(E, "own", n, dirs) if own == "set" else ""
        parent = dict(os.environ)
        default = parent.get("PATH", os.confstr("CS_PATH"))

        async def go():
            return await all_
        with files:
            out = execute(E, W, go, None, linger=0)
            want = []
            for _, path in jobs:
                if os.path.dirname(name):
                    want.append(files.key(name))
                elif own == "unset" and path is None:
                    # the system's default path: real directories without such a program
                    want.append(None)
                else:
                    want.append(files.first(name, default if path is None else path))
            got = [files.launched(s, parent) for s in W.spawns]
            found = None
            if isinstance(name, str) and how != "command":
                found = ctx.find_command(name)
    finally:
        if saved is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = saved
    trail = [name, kind, [p for _, p in jobs], parent.get("PATH"), dict(files.known)]
    if None in want:
        E.cover("missing")
        E.check(out["kind"] == "FileNotFoundError",
                "C28 a program that is not found raises FileNotFoundError", [trail, repr(out["exc"])])
        if len(jobs) == 1:
            E.check(not W.spawns, "C28 nothing is started if the program is not found", [trail, W.spawns])
        for g in got:
            E.check(g is not None and g in want, "C28 the program started is the one found", [trail, got, want])
    else:
        E.cover("found")
        E.check(out["kind"] == "ok", "C28 the command runs", [trail, repr(out["exc"])])
        E.check(sorted(map(str, got)) == sorted(want), "C28 the program started is the one found", [trail, got, want])
    for s in W.spawns:
        E.check(list(s["args"][1:]) == ["x"], "C28 other arguments are as given", [trail, s["args"]])
        if os.path.dirname(name):
            E.cover("given")
            p = s.get("executable") or s["args"][0]
            E.check(os.fsencode(p) == os.fsencode(name), "C28 a name with a directory is used as given", [trail, p])
    if how != "command":
        with files:
            if os.path.dirname(name):
                w = files.key(name) if files.state(name) == "exec" else None
            elif base is None and own == "unset":
                w = None
            else:
                w = files.first(name, default if base is None else base)
        E.check((found is None) == (w is None) and (w is None or isinstance(found, PurePosixPath)
                                                    and files.key(found) == w),
                "C28 find_command returns what would be executed", [trail, found, w])
