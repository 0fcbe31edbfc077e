from .base import Prop, S
from .p_lifecycle import ASSUME

X = "datas:"
DASSUME = tuple(ASSUME) + (
    "Byte strings are ropes: concrete pieces, pieces of symbolic length whose bytes are an uninterpreted function, "
    "and pieces of known length with symbolic bytes; text is a sequence of symbolic code points.",
    "asyncio's StreamReader and unix pipe transports run as instrumented copies of the standard library's source; "
    "the C codecs and re are replaced by symbolic models in the symbolic run and are the real ones in the replay.",
)


def o(name, quick=1200, thorough=40000, covers=("done",), tier="both", **args):
    return S(name, X + "output", args, quick, thorough, covers, tier)


def e(name, quick=1200, thorough=40000, covers=("limited", "within"), tier="both", **args):
    return S(name, X + "errlimit", args, quick, thorough, covers, tier)


def i(name, quick=1200, thorough=40000, covers=("done",), tier="both", **args):
    return S(name, X + "stdin", args, quick, thorough, covers, tier)


def ln(name, quick=1500, thorough=40000, covers=("done", "lines"), tier="both", **args):
    return S(name, X + "lines", args, quick, thorough, covers, tier)


PROPS = [
    Prop("C10", [
        i("bytes"), i("bytes-with-pos", kind="bytesio", pos=True), i("bytearray", kind="bytearray"),
        i("bytes-3-caps", ncap=4), i("pipeline", pipe=True),
        i("str", kind="str", text=2), i("str3", kind="str", text=3, tier="thorough"),
        i("str-latin1", kind="str", text=2, encoding="latin-1"),
        i("str-utf16", kind="str", text=2, encoding="utf-16"), i("stringio-utf16", kind="stringio", text=2, encoding="utf-16"),
        i("stringio", kind="stringio", text=2, pos=True),
        i("stringio3", kind="stringio", text=3, pos=True, tier="thorough"),
        i("reader1", kind="reader"), i("reader2", kind="reader", n=2),
        i("reader3", kind="reader", n=3, quick=200),
        i("pty", pty=True, covers=("done", "line-end", "no-line-end")),
        i("pty-bytesio", pty=True, kind="bytesio", covers=("done", "line-end", "no-line-end")),
        i("pty-str", pty=True, kind="str", text=2, covers=("done", "line-end", "no-line-end")),
        i("pty-reader2", pty=True, kind="reader", n=2, quick=600, covers=("done", "line-end", "no-line-end")),
        i("pty-raw", pty=True, raw=True, covers=("done", "raw")),
        i("pty-raw-str", pty=True, raw=True, kind="str", text=2, covers=("done", "raw")),
        i("pty-raw-reader2", pty=True, raw=True, kind="reader", n=2, quick=600, covers=("done", "raw")),
        i("pty-early", reads="early", pty=True, covers=("done", "stopped")),
        i("pty-early-raw", reads="early", pty=True, raw=True, covers=("done", "stopped")),
        i("pty-early-reader", reads="early", pty=True, raw=True, kind="reader", n=2, covers=("done", "stopped")),
        S("session-end", "prompts:closing", {}, 200, 3000, ("done", "running")),
        S("session-close", "prompts:closing", {"how": "close", "sends": 2}, 200, 3000, ("done", "running")),
        S("session-pipeline", "prompts:closing", {"pipe": True}, 200, 3000, ("done", "running")),
        S("session-pipeline-close", "prompts:closing", {"how": "close", "pipe": True}, 200, 3000, ("done", "running")),
        i("early", reads="early", covers=("done", "stopped")),
        i("early-pipeline", reads="early", pipe=True, covers=("done", "stopped")),
        i("early-str", reads="early", kind="str", text=2, covers=("done", "stopped"), tier="thorough"),
        i("early-reader", reads="early", kind="reader", n=2, covers=("done", "stopped")),
    ], bounds="Contents of every length up to 150 000 bytes (symbolic length, symbolic bytes), or up to 3 arbitrary "
        "characters; up to 3 chunks from a stream source, arriving at once or later; a pipe that takes a symbolic "
        "number of bytes (0..65536) at each of up to 4 instants before taking everything; the process stops reading "
        "at one of 4 instants and exits then, later or not for a long time; terminals in canonical and in raw mode.",
        outside="Encodings other than UTF-8, UTF-16 and latin-1. More than one end-of-file character for an empty input on "
        "a terminal (one or two are accepted).", assumptions=DASSUME),
    Prop("C11", [
        o("buffer"), o("buffer3", n=3), o("buffer-stderr", stream="stderr"), o("buffer-text", text=2, n=3),
        o("buffer-pty", pty=True), o("buffer-pipe", pipe=True), o("buffer-with", mode="with"),
        o("buffer-slow", slow=True), o("buffer-both", both=True),
        o("merged", merged=True), o("merged-text", merged=True, text=2, n=2),
        o("bytearray", target="bytearray"), o("bytearray3", target="bytearray", n=3),
        o("bytearray-stderr", target="bytearray", stream="stderr"),
        o("bytearray-both", target="bytearray", both=True),
        o("bytesio", target="bytesio"), o("bytesio3", target="bytesio", n=3, slow=True),
        o("bytesio-stderr", target="bytesio", stream="stderr"),
        o("bytesio-pty", target="bytesio", pty=True),
        o("stringio", target="stringio", text=2, n=3), o("stringio3", target="stringio", text=3, n=4, quick=600),
        o("stringio-latin1", target="stringio", text=2, n=2, encoding="latin-1"),
        o("stringio-utf16", target="stringio", text=2, n=3, encoding="utf-16"),
        o("stringio-utf32", target="stringio", text=2, n=3, encoding="utf-32-be"),
        o("text-utf16", text=2, n=2, encoding="utf-16"), o("text-latin1", text=2, n=2, encoding="latin-1"),
        o("stringio-stderr", target="stringio", text=2, n=3, stream="stderr"),
        o("stringio-pty", target="stringio", text=2, n=2, pty=True),
        o("logger", target="logger", text=2, n=3, covers=("done", "lines")),
        o("logger3", target="logger", text=3, n=3, quick=600, covers=("done", "lines")),
        o("logger-stderr", target="logger", text=2, n=3, stream="stderr", covers=("done", "lines")),
        o("writer", target="writer"), o("writer3", target="writer", n=3),
        o("stringio-8k", target="stringio", text=2, n=2, fill=8192), o("stringio-16k", target="stringio", text=2, n=2, fill=16384),
        o("logger-8k", target="logger", text=2, n=2, fill=8192, covers=("done", "lines")),
        o("writer-left", target="writer", broken="dest", covers=("done", "left", "broken")),
        o("writer-slow-left", target="writer", slow=True, broken="dest", quick=600, covers=("done", "left", "broken")),
    ] + [
        o(f"unreadable-{t}", target=t, text=2, broken="read", quick=300)
        for t in ("buffer", "bytearray", "bytesio", "stringio", "logger", "writer")
    ] + [
        o("unreadable-stderr", target="stringio", text=2, broken="read", stream="stderr", quick=300),
        o("writer-slow", target="writer", slow=True), o("writer-stderr", target="writer", stream="stderr"),
    ], bounds="Up to 3 writes by the process of symbolic length (1..40 000) and content, each right after the other "
        "or later, or 2-3 arbitrary characters whose encoding is cut anywhere into up to 4 writes (also just around the 8 KiB and 16 KiB marks, after plain text); reads take any "
        "amount the loop's 16 KiB reads allow; both streams at once; merged streams; pseudo-terminals; last command "
        "of a pipeline; a read error after the last write; the reader behind a StreamWriter target leaving at one of 4 "
        "instants.", outside="A log line of more than 64 KiB (asyncio's limit). Newline translation by the "
        "user's own StringIO. Other encodings than UTF-8, UTF-16, UTF-32 and latin-1.", assumptions=DASSUME),
    Prop("C12", [
        e("one", n=1), e("two"), e("three", 3500, n=3), e("none", limit=None, covers=("done",)),
        e("none3", n=3, limit=None, covers=("done",)),
        e("default", default=True), e("fail", fail=True), e("fail-none", fail=True, limit=None, covers=("done",)),
        e("pipeline", pipe=True), e("pipeline-fail", pipe=True, fail=True, default=True),
        e("with-output", out=True, n=2),
    ], bounds="Every limit 0..50 000 (symbolic), None and the default; up to 3 writes to standard error of symbolic "
        "length 1..300 000; zero and non-zero exit; alone or last in a pipeline; the process ends only once its "
        "standard error has been taken.", outside="Negative limits.", assumptions=DASSUME),
    Prop("C27", [
        ln("cmd", mode="cmd"), ln("cmd-long", n=6, k=3, quick=900), ln("chars", chars=2, k=4, covers=("done", "lines")),
        ln("chars3", chars=3, k=4, quick=800), ln("pipe", mode="pipe"), ln("stderr", mode="stderr"),
        ln("with", mode="with"), ln("with-pipe", mode="with-pipe"), ln("with-stderr", mode="with-stderr"),
        ln("break", stop=True, covers=("stopped",)), ln("break-pipe", mode="pipe", stop=True, covers=("stopped",)),
        ln("break-stderr", mode="stderr", stop=True, covers=("stopped",)),
    ] + [
        ln(f"latin-{m}", mode=m, chars=3, k=3, encoding="latin-1", quick=250)
        for m in ("cmd", "pipe", "stderr", "with", "with-pipe", "with-stderr")
    ] + [
        S(f"timely{'-' if m else ''}{m}", X + "timely", dict(mode=m or "cmd"), 300, 20000, ("done", "lines"))
        for m in ("", "pipe", "stderr", "with", "with-pipe", "with-stderr")
    ] + [
        S("timely-pty", X + "timely", dict(pty=True), 300, 20000, ("done", "lines")),
        S("preflight", X + "preflight", {}, 100, 1000, ("both", "yielded")),
    ], bounds="Outputs of up to 6 arbitrary ASCII characters or 3 arbitrary characters in UTF-8 or latin-1, cut anywhere into up "
        "to 4 writes, at once or later, in every form of iteration (command, pipeline, runner, merged standard error, "
        "standard error only) and leaving the loop after the first line; 3 writes of 5 kinds (whole lines and parts) at any instants.",
        outside="Lines of more than 64 KiB (asyncio raises). Encodings in which a newline is not the byte 0x0A.",
        assumptions=DASSUME),
]
