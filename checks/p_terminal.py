from .base import Prop, S
from .p_lifecycle import ASSUME


def te(name, fn, quick=4000, thorough=100000, covers=(), tier="both", **args):
    return S(name, f"terminal:{fn}", args, quick, thorough, covers, tier)


SIZE = ("size", "no-size")
EOF = ("canonical", "raw", "disabled")

PROPS = [
    Prop("C29", [
        te("echo", "echo", covers=("set", "clear", "process")),
        te("echo3", "echo", ops=3, covers=("set", "clear", "process"), tier="thorough"),
        te("no-terminal", "noterm", quick=300, covers=("reads", "refused")),
        te("cooked", "adapter", mode="cooked", covers=SIZE),
        te("cooked-no-echo", "adapter", mode="cooked", echo=False, covers=SIZE),
        te("raw", "adapter", mode="raw", covers=SIZE),
        te("cbreak", "adapter", mode="cbreak", covers=SIZE),
        te("eof-bytes", "eofchar", covers=EOF),
        te("eof-bytesio", "eofchar", source="bytesio", n=1, covers=EOF),
        te("eof-reader", "eofchar", source="reader", n=1, covers=EOF),
        te("eof-prompt", "eofchar", source="prompt", n=1, covers=EOF),
    ], bounds="All 32-bit flag words and speeds, all control-character tables, all 16-bit rows and columns (given or "
        "not, by name or position), sequences of up to 2 (3) operations that set or read echo or in which the process "
        "changes the attributes itself; inputs of up to 2 bytes from bytes, BytesIO, StreamReader and a prompt. Sessions without a terminal: a command and a pipeline.",
        outside="Rows and columns that are not 16-bit numbers; cooked() on a terminal that is not in canonical mode "
        "with ^D; attributes that the process changes after the launch, for the end-of-file character; failing ioctls.",
        assumptions=ASSUME + ("The terminal driver keeps the attributes it is given.",)),
]
