from .base import Prop, S
from .p_lifecycle import ASSUME


def la(name, quick=1500, thorough=20000, covers=("ran", "pass_fds:1", "pass_fds:2", "pty", "close_fds=False"), tier="both", **args):
    return S(name, "launch:launch", args, quick, thorough, covers, tier)


PROPS = [
    Prop("C31", [
        la("await"),
        la("with", mode="with"),
        la("iter", mode="iter"),
        la("prompt", mode="prompt"),
        la("again", runs=2),
        la("context", context=True),
        la("replaced", again=True, covers=("ran", "pass_fds:1", "pass_fds:2", "pty", "again")),
        la("replaced-context", again=True, context=True, covers=("ran", "pass_fds:1", "again")),
        la("pipe", shape="pipe"),
        la("pipe-again", shape="pipe", runs=2, mode="with"),
        la("procsub", shape="procsub", covers=("ran", "pass_fds:1", "pass_fds:2", "pty", "procsub")),
        la("procsub-again", shape="procsub", runs=2, covers=("ran", "pass_fds:1", "pass_fds:2", "pty", "procsub")),
    ], bounds="Every combination of close_fds (given or not), new session, a function to run in the child, no "
        "terminal, a terminal, a terminal function, 0-2 descriptors in five kinds of iterable; as await, async with, "
        "iteration and prompt; on a command, a context, in a pipeline of 2-3, with a process substitution; up to 2 runs.",
        outside="The kernel's own handling of close-on-exec; BSD and Windows.",
        assumptions=ASSUME),
]
