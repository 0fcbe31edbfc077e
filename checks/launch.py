"""C31 launch options: what a process inherits from its parent."""

import asyncio
import fcntl
import os
import termios

from symx.world import World

from .lifecycle import execute

# Arguments of subprocess.Popen that change what the child gets, and their neutral values.
NEUTRAL = {"cwd": (None,), "user": (None,), "group": (None,), "extra_groups": (None,), "umask": (-1,),
           "process_group": (None, -1), "restore_signals": (True,), "shell": (False,), "executable": (None,),
           "creationflags": (0,), "startupinfo": (None,), "pipesize": (-1,)}


class Child:
    "Records what a preexec function does; nothing real is touched."

    def __init__(self, W):
        self.W, self.log, self.fds = W, [], {}

    def run(self, f):
        names = ("open", "close", "setsid", "login_tty", "dup2")
        real = {n: getattr(os, n) for n in names}
        real_ioctl = fcntl.ioctl

        def open_(path, flags, *a, **k):
            fd = 7_000_000 + len(self.fds)
            self.fds[fd] = True
            self.log.append(("open", os.fspath(path), flags))
            return fd

        def close(fd):
            if not self.fds.get(fd, False):
                raise OSError(9, "Bad file descriptor")
            self.fds[fd] = False

        def setsid():
            self.log.append(("setsid",))

        def login_tty(fd):
            self.log.extend([("setsid",), ("ctty", fd)])

        def ioctl(fd, req, *a):
            if req == termios.TIOCSCTTY:
                self.log.append(("ctty", fd))
            return 0
        try:
            os.open, os.close, os.setsid, os.login_tty = open_, close, setsid, login_tty
            os.dup2 = lambda a, b, inheritable=True: self.log.append(("dup2", a, b))
            fcntl.ioctl = ioctl
            f()
        finally:
            for n in names:
                setattr(os, n, real[n])
            fcntl.ioctl = real_ioctl


def launch(E, mode="await", runs=1, shape="cmd", context=False, again=False):
    from shellous import sh

    W = World(E)
    children = []
    hooks = []

    def on_spawn(p):
        f = p.info.get("preexec_fn")
        if f is not None:
            c = Child(W)
            children.append((p, c))
            c.run(f)
        p.write(b"x\n", "stdout") if shape != "pipe" else None
        p.exit_after(1, 0)
    W.on_spawn = on_spawn

    def hook():
        hooks.append(1)

    close_fds = E.decide(E.bool("close_fds"))
    given = E.decide(E.bool("given"))      # whether close_fds is set explicitly
    session = E.decide(E.bool("session"))
    pty = [False, True, "fn"][E.choice("pty", 3)]
    pre = not pty and E.decide(E.bool("preexec"))
    nfds = E.choice("nfds", 3)
    fds = [W.user_fd() for _ in range(nfds)]
    kind = E.choice("kind", 5) if nfds else 0
    opts = dict(_start_new_session=session)
    if given:
        opts["close_fds"] = close_fds
    else:
        close_fds = True
    if nfds:
        opts["pass_fds"] = [list, tuple, set, lambda x: dict.fromkeys(x), iter][kind](fds)
        E.cover(f"pass_fds:{nfds}")
    if pre:
        opts["_preexec_fn"] = hook
    seen = []

    def adapter(fd):
        seen.append(fd)
    if pty:
        opts["pty"] = adapter if pty == "fn" else True
    sub = shape == "procsub"
    if again:
        # set before, with other values
        E.cover("again")
        first = dict(opts)
        first["pass_fds"] = [W.user_fd()]
        first["close_fds"] = False
        first["_start_new_session"] = not session
        if "pass_fds" in opts and "close_fds" in opts:
            sh_ = sh.set(**first)
        else:
            again = False
            sh_ = sh
    else:
        sh_ = sh
    if context:
        ctx = sh_.set(**opts)
        cmd = ctx("/sx/prog", *([sh("/sx/sub")] if sub else []))
    else:
        cmd = sh_("/sx/prog", *([sh("/sx/sub")] if sub else [])).set(**opts)
    full = cmd
    if shape == "pipe":
        full = sh("/sx/first") | cmd | sh("/sx/last") if not pty else cmd | sh("/sx/last")

    async def once():
        if mode == "await":
            await full
        elif mode == "with":
            async with full as r:
                await asyncio.sleep(2)
        elif mode == "iter":
            async for _ in full:
                pass
        else:
            async with full.prompt() as cli:
                await cli.read_all()

    async def run():
        for _ in range(runs):
            await once()

    out = execute(E, W, run, None, linger=0)
    E.obs("kind", out["kind"])
    E.check(out["kind"] == "ok", "C31 the command runs", [shape, opts, repr(out["exc"])])
    mains = [p for p in W.procs if p.name == "/sx/prog"]
    E.check(len(mains) == runs, "C31 every run starts a process", [len(mains)])
    E.cover("ran")
    for p in W.procs:
        info = p.info
        for k, ok in NEUTRAL.items():
            E.check(info.get(k, ok[0]) in ok, "C31 nothing else is changed for the process", [p.name, k, info.get(k)])
        passed = list(info.get("pass_fds") or ())
        if p.name != "/sx/prog":
            E.check(passed == [], "C31 other commands do not inherit the descriptors", [p.name, passed])
            E.check(info.get("close_fds", True) is True, "C31 other descriptors are closed", [p.name])
            E.check(info.get("start_new_session", False) is False and info.get("preexec_fn") is None,
                    "C31 a new session only when asked for", [p.name])
            continue
        extra = 1 if sub else 0
        rest = [x for x in passed if x not in fds]
        E.check(sorted(x for x in passed if x in fds) == sorted(fds) and len(rest) == extra,
                "C31 exactly the descriptors of pass_fds are inherited", [passed, fds])
        if sub:
            E.cover("procsub")
            E.check(f"/dev/fd/{rest[0]}" in info["args"], "C31 exactly the descriptors of pass_fds are inherited",
                    [passed, fds])
        want = close_fds or bool(fds) or sub
        E.check(info.get("close_fds", True) is want, "C31 other descriptors are inherited only with close_fds=False",
                [info.get("close_fds"), close_fds])
        if not want:
            E.cover("close_fds=False")
        mine = [c for q, c in children if q is p]
        log = mine[0].log if mine else []
        sids = (1 if info.get("start_new_session") else 0) + log.count(("setsid",))
        E.check(sids == (1 if session or pty else 0), "C31 a new session exactly when asked for or on a terminal",
                [session, pty, sids])
        if pty:
            E.cover("pty")
            t = W.ttys[p.info["stdin"]] if isinstance(p.info["stdin"], int) and p.info["stdin"] in W.ttys else None
            E.check(t is not None, "C31 the process runs on the terminal", [info["stdin"]])
            name = f"/sx/tty{t.child}"
            took = [x for x in log if (x[0] == "open" and x[1] == name and not x[2] & os.O_NOCTTY)
                    or (x[0] == "ctty" and x[1] in (0, 1, 2, t.child))]
            E.check(bool(took), "C31 the terminal becomes the controlling terminal", [log])
            E.check(not any(mine[0].fds.values()), "C31 no other descriptor is left in the process", [log])
            if pty == "fn":
                E.check(t.child in seen and len(seen) == len(mains), "C31 the terminal function sees the terminal",
                        [seen])
        elif pre:
            E.cover("preexec")
            E.check(info.get("preexec_fn") is not None, "C31 the function runs in the process")
        else:
            E.check(info.get("preexec_fn") is None or not log, "C31 nothing else is changed for the process", [log])
    if pre:
        E.check(len(hooks) == runs, "C31 the function runs in the process", [len(hooks)])
    for fd in fds:
        E.check(W.fds[fd].open, "C31 descriptors not handed over stay open", [fd])
