from .base import Prop, S
from .p_lifecycle import ASSUME, OUT

X = "wiring:"


def r(name, quick=24000, thorough=100000, covers=("ran", "rejected"), tier="both", **args):
    return S(name, X + "redirect", args, quick, thorough, covers, tier)


def a(name, quick=1000, thorough=20000, covers=("append", "replace"), tier="both", **args):
    return S(name, X + "append", args, quick, thorough, covers, tier)


def p(name, quick=600, thorough=20000, covers=("outcome:ok", "sub"), tier="both", **args):
    return S(name, X + "procsub", args, quick, thorough, covers, tier)


def pl(name, quick=2000, thorough=20000, covers=("in:CAPTURE", "out:CAPTURE"), tier="both", **args):
    return S(name, X + "pipeline", args, quick, thorough, covers, tier)


FAULTS = ["spawn", "pipe"]

PROPS = [
    Prop("C13", [
        r("all"),
        r("all-await", mode="await", flags=False),
        r("all-context", how="context", flags=False),
        r("pty", pty="true"),
        r("pty-fn-await", pty="fn", mode="await", flags=False),
        r("pty-fn-context", pty="fn", how="context", flags=False),
        pl("pipeline2", n=2), pl("pipeline3", n=3), pl("pipeline3-await", n=3, mode="await"),
        pl("pipeline4", n=4, inner=False, tier="thorough"),
    ], bounds="The full product of 18 kinds of standard input, 17 kinds of standard output and 17 kinds of standard "
        "error, without and with a pty (flag or function), with symbolic close and append flags, as `await` and "
        "`async with`, set on a command or on a context; pipelines of 2-4 commands with 7 x 7 kinds at the ends and "
        "7 kinds of standard error on any one command.",
        outside="User-defined subclasses of the documented types; descriptors that are not open; BSD and Windows. "
        "With a pty, stdout=DEVNULL and no stderr redirection, where standard error goes is not documented and "
        "either reading is accepted.", assumptions=ASSUME),
    Prop("C14", [
        a(f"{t}-{f}", target=t, form=f, tier="both" if f in ("op", "stderr", "pipeop") else "thorough")
        for t in ("path", "bytearray", "bytesio", "stringio", "raw", "buffered", "random", "text", "fd")
        for f in ("op", "stderr", "stdout", "pipeop", "pipeout", "pipeerr")
    ] + [
        S("both", X + "append2", {}, 1200, 20000, ("FalseFalse", "FalseTrue", "TrueFalse", "TrueTrue")),
        S("both-pipe", X + "append2", {"pipe": True}, 1200, 20000, ("FalseFalse", "FalseTrue", "TrueFalse", "TrueTrue")),
    ], bounds="Prior contents of every length up to 30 000 bytes at every position (symbolic, also beyond the end) and "
        "outputs of up to two chunks of symbolic length and content, for paths, raw seekable files, bytearray and "
        "BytesIO; up to 3 arbitrary characters for StringIO; buffered, random-access and text files in three open "
        "modes with up to 3 old and 5 new bytes, with data read ahead or not yet flushed. A target on each of the two outputs.",
        outside="Targets that something else writes to at the same time.", assumptions=ASSUME),
    Prop("C26", [
        p("r", shape="r", code=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("w", shape="w", code=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("R", shape="R", code=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("W", shape="W", code=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("V", shape="V", code=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("r.w", shape="r.w", code=True, first=True, covers=("outcome:ok", "sub", "sub-failed")),
        p("rr", shape="rr", code=True), p("ww", shape=".ww", code=True),
        p("same", shape="r=", code=True), p("same-w", shape="w.="), p("same-R", shape="R=", quick=300),
        p("same-V", shape="rV=", quick=300), p("same-fault", shape="r==", fault=FAULTS),
        p("RW", shape="RW", quick=300), p("Vr", shape="V.r", quick=300), p("rWw", shape="rWw", quick=300),
        p("fault-r", shape="r", fault=FAULTS, covers=("fault:spawn", "fault:pipe", "main-not-launched")),
        p("fault-rw", shape="r.w", fault=FAULTS, covers=("fault:spawn", "fault:pipe", "main-not-launched")),
        p("fault-RW", shape="RW", fault=FAULTS, covers=("fault:spawn", "fault:pipe", "main-not-launched")),
        p("fault-Vrw", shape="Vrw", fault=FAULTS, covers=("fault:spawn", "fault:pipe", "main-not-launched")),
        p("resched-rw", shape="rw", code=True, preempt=1, exits=False),
    ], bounds="Up to three substitutions (commands, pipelines of two, readable, writable, writable at either end of a "
        "pipeline, the same object used again) among plain arguments; each process exits after a symbolic choice of instants with status 0 or "
        "1; any one launch or pipe() fails.", outside="Nested substitutions; cancellation during a substitution is "
        "explored by C01, C07 and C08.", assumptions=ASSUME),
]
