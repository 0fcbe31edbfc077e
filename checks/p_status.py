from .base import Prop, S
from .p_lifecycle import ASSUME, OUT, pc

X = "status:"


def st(name, quick=1000, thorough=20000, covers=(), tier="both", **args):
    return S(name, X + "status", args, quick, thorough, covers, tier)


BOTH = ("outcome:ok", "outcome:ResultError")

PROPS = [
    Prop("C05", [
        st("none", codes="none", covers=BOTH),
        st("none-with", codes="none", mode="with", covers=BOTH),
        st("none-nocheck", codes="none", mode="nocheck", sigs=True, covers=("signal", "no-signal", "unnamed")),
        st("empty", codes="empty", covers=BOTH),
        st("set", codes="set", covers=BOTH),
        st("set-with", codes="set", mode="with", covers=BOTH),
        st("nozero", codes="nozero", covers=BOTH),
        st("range", codes="range", covers=BOTH),
        st("symbolic-codes", codes="sym", covers=BOTH),
        st("symbolic-codes-with", codes="sym", mode="with", covers=BOTH),
        st("result", codes="result", lo=-255, covers=("outcome:ok",)),
        st("result-then", codes="result-then", lo=-255, covers=("outcome:ok", "outcome:ResultError")),
        st("pty", codes="none", pty=True, covers=BOTH),
    ] + [
        S(f"signal-{h}{'-lost' if lose else ''}", X + "lost", dict(how=h, lose=lose), 600, 10000,
          ("signalled",) + (("killed",) if h in ("cancel", "raise", "timeout", "caller") else ()))
        for h in ("send", "cancel", "raise", "timeout", "caller", "kill2", "two") for lose in (False, True)
    ] + [
        S(f"handled-{h}", X + "lost", dict(how=h, lose=False, own=True), 600, 10000, ("handled",))
        for h in ("send", "cancel", "raise", "timeout", "caller", "kill2")
    ] + [
        S(f"race-{h}", X + "lost", dict(how=h, lose=False, race=True), 600, 10000, ("handled",))
        for h in ("send", "cancel", "raise", "kill2")
    ], bounds="Every exit status -255..255 (symbolic) against every allowed set tried (none, empty, sets, lists, "
        "ranges with symbolic ends, two symbolic codes, `.result`); signalled commands: cancel signal "
        "TERM/INT/none, five other signals, obedience to the cancel signal, cancellation at any callback "
        "boundary, status reported or lost; processes that handle the signal and end with any status 0..254.",
        outside="A process that exits with status 0 at the instant it is signalled (the system may lose that status). "
        "A process that exits with a genuine status 255 after we signalled it (indistinguishable from a "
        "lost status). Containers with a __contains__ of their own.", assumptions=ASSUME),
    Prop("C06", [
        S("list1", X + "aggregate", dict(n=1, others=True), 500, 5000, ("other", "failed", "none-failed")),
        S("list2", X + "aggregate", dict(n=2, others=True), 1500, 20000, ("other", "failed", "none-failed")),
        S("list3", X + "aggregate", dict(n=3), 2500, 40000, ("failed", "none-failed")),
        S("list4", X + "aggregate", dict(n=4), 3000, 60000, ("failed", "none-failed")),
        S("list3-other", X + "aggregate", dict(n=3, others=True), 2500, 40000, ("other", "failed")),
        pc("pipe2", code="sym", io=True, covers=("outcome:ResultError", "outcome:ok")),
        pc("pipe3", n=3, code="sym", sub="simple", io=True, covers=("outcome:ResultError", "outcome:ok")),
        pc("with3", n=3, code="sym", sub="simple", io=True, mode="now", covers=("outcome:ResultError", "outcome:ok")),
    ], bounds="Result lists of 1-4 entries, each with a symbolic status (-64..255), a symbolic cancelled flag and "
        "every kind (result, error, other exception); real pipelines of 2-3 commands with symbolic exit "
        "instants, statuses and reactions to being stopped.", outside=OUT, assumptions=ASSUME),
    Prop("C24", [
        S("decode", X + "waitstatus", {}, 500, 5000, ("running", "exited", "signalled", "gone")),
        S("decode-block", X + "waitstatus", dict(block=True), 500, 5000, ("exited", "signalled", "gone")),
        S("poll", X + "poll", dict(n=4), 1500, 20000, ("running", "recorded", "already")),
    ], bounds="Every 16-bit wait status of an exited or killed process (symbolic); up to 4 polls with an exit or "
        "a lost status in between.", outside="Stopped and continued processes; os.waitstatus_to_exitcode itself is "
        "a C function: its Linux definition is modelled for symbolic words and the real one runs in replay.",
        assumptions=ASSUME),
]
