from .base import Prop, S
from .p_lifecycle import ASSUME

ALL = ("await", "result", "with", "iter", "prompt")


def ru(name, quick=600, thorough=15000, covers=("own", "overlap"), tier="both", **args):
    return S(name, "concur:runs", args, quick, thorough, covers, tier)


PROPS = [
    Prop("C33", [
        ru("modes", modes=ALL),
        ru("seq", seq=True, modes=ALL, covers=("own",)),
        ru("input", source="bytes", modes=("await", "result")),
        ru("input-seq", source="bytearray", seq=True, modes=("await", "iter"), covers=("own",)),
        ru("input-pipe", source="str", shape="pipe", modes=("await",)),
        ru("errors", buffer=True, modes=("await", "result")),
        ru("pipe", shape="pipe", modes=("await", "result", "with", "iter")),
        ru("pipe-seq", shape="pipe", modes=("await", "iter"), seq=True, covers=("own",)),
        ru("sub", shape="sub", modes=("await", "with")),
        ru("pty", shape="pty", modes=("await", "prompt")),
        ru("pty-seq", shape="pty", modes=("await", "with"), seq=True, covers=("own",)),
        ru("context", shape="ctx", source="bytes", modes=("await", "result")),
        ru("cancel", stop="cancel", modes=("await", "with"), codes=(0,), covers=("own", "hit", "overlap")),
        ru("cancel-pipe", stop="cancel", shape="pipe", codes=(0,), covers=("own", "hit", "overlap")),
        ru("cancel-seq", stop="cancel", seq=True, codes=(0,), covers=("own", "hit")),
        ru("timeout", stop="timeout", modes=("await", "with"), codes=(0,), covers=("own", "hit", "overlap")),
        ru("timeout-seq", stop="timeout", seq=True, modes=("await", "with"), codes=(0,), covers=("own", "hit")),
        ru("timeout-pipe", stop="timeout", shape="pipe", codes=(0,), covers=("own", "hit", "overlap")),
        ru("timeout-ctx", stop="timeout", shape="ctx", codes=(0,), covers=("own", "hit", "overlap")),
        ru("raise", stop="raise", modes=("with", "await"), covers=("own", "hit", "overlap")),
        ru("fault", stop="fault", modes=("await", "with"), codes=(0,), covers=("own", "hit", "overlap")),
        ru("fault-pipe", stop="fault", shape="pipe", codes=(0,), covers=("own", "hit", "overlap")),
        ru("fault-pty", stop="fault", shape="pty", codes=(0,), covers=("own", "hit", "overlap")),
        ru("fault-sub", stop="fault", shape="sub", seq=True, codes=(0,), covers=("own", "hit")),
        ru("derived-args", derived="args", modes=("await", "with"), covers=("own", "overlap", "derived")),
        ru("derived-set", derived="set", covers=("own", "overlap", "derived")),
        ru("derived-env", derived="env", covers=("own", "overlap", "derived")),
        ru("derived-stdin", derived="stdin", source="bytes", covers=("own", "overlap", "derived")),
        ru("three", n=3, modes=("await", "with"), early=False),
        ru("three-cancel", n=3, stop="cancel", codes=(0,), early=False, covers=("own", "hit"), tier="thorough"),
    ], bounds="Two runs (three in two scenarios) of one command, terminal command, context, command with a process "
        "substitution or pipeline of two, at the same time or one after the other, or of the object and one derived "
        "from it; as await, await .result, async with, iteration and prompt; symbolic: which mode each run uses, when "
        "it starts (0..10 s apart), when its process ends (0..10 s), its exit status, whether it writes at once or at "
        "the end, which run is cancelled (at any of the first 250 callbacks), fails to start (at any fallible "
        "operation), raises in its body, or runs into the common time limit (0..10 s).",
        outside="Runs that share a destination object (their output is interleaved by design); more than three runs.",
        assumptions=ASSUME),
]
