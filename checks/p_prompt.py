from .base import Prop, S
from .p_datas import DASSUME

X = "prompts:"
D = ("done",)


def s(name, quick=700, thorough=30000, covers=("done", "returned"), tier="both", **args):
    return S(name, X + "session", args, quick, thorough, covers, tier, max_decisions=4000)


def d(name, quick=700, thorough=30000, covers=("done", "returned"), tier="both", **args):
    return S(name, X + "send", args, quick, thorough, covers, tier, max_decisions=4000)


A = dict(hi=0x7F)
MATCH = [
    s("lit", ops="e", n=3, k=2), s("lit-ascii", ops="ee", n=4, k=2, **A),
    s("lit-one", ops="ee", n=4, k=3, pick=[0], **A), s("lit-dot", ops="ee", n=3, k=3, pick=[1, 2, 6], **A),
    s("list", ops="ee", n=3, k=2, prompt="list"), s("list-nested", ops="ee", n=4, k=3, prompt="list", pick=[1, 6], **A),
    s("regex", ops="ee", n=3, k=2, prompt="re", **A), s("regex4", ops="e", n=4, k=3, prompt="re", **A),
    s("default", ops="dn", n=3, k=2, **A),
    s("none", ops="n", n=1, k=1, covers=("done", "no-pattern")),
    s("timeout", ops="tt", n=3, k=2, pick=[0], covers=("returned", "TimeoutError", "EOFError"), **A),
    s("timeout-never", ops="tt", n=3, k=2, pick=[0], eof="no", covers=("returned", "TimeoutError"), **A),
    s("timeout-default", ops="ee", n=3, k=3, pick=[0, 9], default_timeout=True, eof="no",
      covers=("returned", "TimeoutError"), **A),
    s("timeout-both", ops="te", n=3, k=2, pick=[0], default_timeout=True, covers=("returned", "TimeoutError"), **A),
    s("timeout-default-regex", ops="d", n=3, k=3, default_timeout=True, prompt="re", eof="no",
      covers=("returned", "TimeoutError"), **A),
    s("command", ops="mm", n=3, k=2, default_timeout=True, pick=[0, 9], eof="no", covers=("returned", "TimeoutError"), **A),
    s("command-timeout", ops="qq", n=3, k=2, pick=[0, 9], eof="no", covers=("returned", "TimeoutError"), **A),
    s("command-timeout-both", ops="q", n=3, k=2, pick=[0], default_timeout=True, covers=("returned", "TimeoutError"), **A),
    s("pipeline", ops="et", n=3, k=2, pick=[0, 6], pipe=True, covers=("returned", "TimeoutError", "EOFError"), **A),
    s("pipeline-default", ops="de", n=3, k=2, pick=[0], pipe=True, default_timeout=True, eof="no", covers=("returned", "TimeoutError"), **A),
    s("command-eof", ops="MM", n=3, k=2, default_timeout=True, pick=[0, 1], covers=("returned", "took-all", "matched", "EOFError"), **A),
    s("cancel", ops="ce", n=2, k=2, pick=[0], covers=("done", "returned", "cancelled"), quick=900, **A),
    s("long-prompt", ops="e", n=2, k=3, long=90, quick=500, **A), s("longer-prompt", ops="t", n=2, k=2, long=250, quick=300, **A),
    s("bytes", ops="e", n=4, k=3, raw=True, encoding="utf-8 replace", pick=[0, 10]),
    s("long", ops="e", n=2, k=2, fill=16384, quick=300, **A),
]

CONS = [
    s("seq-1", ops="epea", n=4, k=3, pick=[0, 9], **A), s("seq-2", ops="pewe", n=3, k=3, pick=[0], **A),
    s("seq-3", ops="wepp", n=3, k=2, pick=[1, 2], **A), s("all", ops="a", n=3, k=3), s("all-pend", ops="pwpwp", n=3, k=4, covers=D),
    s("chars", ops="e", n=2, k=4), s("chars-3", ops="wpT", n=3, k=4, covers=D),
    s("cancel", ops="c", n=3, k=2, pick=[0], covers=("done", "cancelled"), quick=1200, **A),
    s("cancel-1", ops="c", n=2, k=1, pick=[0], covers=("done", "returned", "cancelled"), quick=1500, lo=97, hi=98),
    s("cancel-expect", ops="ce", n=3, k=2, pick=[0], covers=("done", "returned", "cancelled"), quick=1200, **A),
    s("cancel-twice", ops="cc", n=2, k=2, pick=[0], covers=("done", "cancelled"), quick=1200, **A),
    s("cancel-chars", ops="c", n=2, k=4, pick=[10], covers=("done", "cancelled"), quick=1200),
    s("cancel-all", ops="A", n=3, k=3, covers=("done", "returned", "cancelled")),
    s("timeout", ops="tp", n=3, k=2, pick=[0], covers=("returned", "TimeoutError"), **A),
    s("timeout-all", ops="TTa", n=3, k=3, covers=("returned", "TimeoutError"), **A),
    s("eof", ops="ea", n=3, k=3, pick=[0], covers=("returned", "EOFError"), **A),
    s("eof-twice", ops="eee", n=2, k=2, pick=[0], covers=("returned", "EOFError"), **A),
    s("newlines", ops="ea", n=4, k=3, nl=True, pick=[0, 7], **A), s("newlines-pend", ops="wpT", n=4, k=4, nl=True, covers=D, **A),
    s("newlines-cancel", ops="Aa", n=3, k=3, nl=True, covers=("cancelled",), **A),
    s("latin1", ops="ea", n=3, k=3, encoding="latin-1", pick=[0, 10]),
    s("utf16", ops="ea", n=2, k=4, encoding="utf-16", pick=[0, 10]), s("utf16le", ops="ea", n=2, k=3, encoding="utf-16-le", pick=[0, 10]),
    s("replace", ops="a", n=3, k=3, raw=True, encoding="utf-8 replace"),
    s("replace-4", ops="wpa", n=4, k=2, raw=True, encoding="utf-8 replace", tier="thorough"),
    s("pty", ops="ea", n=3, k=3, pty=True, pick=[0], **A), s("pipeline", ops="epa", n=3, k=3, pick=[0], pipe=True, **A), s("pipeline-newlines", ops="ea", n=3, k=3, nl=True, pick=[0, 7], pipe=True, **A),
    s("list", ops="eea", n=4, k=2, prompt="list", **A),
    s("regex", ops="eep", n=3, k=3, prompt="re", **A), s("command", ops="mpe", n=3, k=2, pick=[0], default_timeout=True, **A),
    s("long", ops="ea", n=2, k=2, fill=16384, quick=300, **A),
    s("stderr", ops="ea", n=2, k=2, pick=[0], err=True, covers=("done", "returned", "EOFError"), **A),
    s("send", quick=350, ops="sa", n=3, k=3, eof="shut", covers=("done", "returned", "sent", "sent-later")),
    s("send-replace", quick=400, ops="sa", n=2, k=1, raw=True, encoding="utf-8 replace", eof="shut", covers=("returned", "sent-later")),
    s("send-timeout", quick=350, ops="Sse", n=3, k=2, eof="shut", pick=[0], covers=("returned", "TimeoutError", "sent"), **A),
    s("send-cancel", quick=350, ops="Cpe", n=2, k=2, eof="shut", pick=[0], covers=("returned", "cancelled", "sent"), **A),
    s("send-newlines", quick=350, ops="se", n=3, k=3, nl=True, eof="shut", pick=[0], covers=("returned", "sent-later"), **A),
    s("send-open", ops="sts", n=3, k=3, eof="no", pick=[0], quick=300, covers=("returned", "sent"), **A),
]

PROPS = [
    Prop("C19", CONS, bounds="Outputs of up to 4 arbitrary characters (or bytes, or after 16 KiB of plain text), cut "
         "anywhere into up to 4 writes at once or later, ended at once, later or only when the session closes; up to 5 "
         "calls of every kind with literal, list and regular-expression prompts, newline translation, symbolic "
         "timeouts, cancellation at any of the first 80 callback boundaries.",
         outside="Undecodable output in a strict encoding (the error is raised). Encodings other than UTF-8, latin-1 "
         "and their error handlers. command() reports no match, so with a list or pattern its matched text is not "
         "checked.", assumptions=DASSUME, labels=("C19 ",)),
    Prop("C20", MATCH, bounds="Outputs of up to 4 arbitrary characters (or after 16 KiB of plain text) cut anywhere into "
         "up to 3 writes; 18 literal prompts (with every regular-expression metacharacter, blanks and newlines at the ends, 90 and 250 characters), 8 lists, 10 patterns, "
         "explicit and default symbolic timeouts, EOF at any time.",
         outside="The search itself for patterns is re's (modelled symbolically; the oracle for patterns is the same "
         "model on the whole text). Empty lists. timeout=0 means no timeout.", assumptions=DASSUME),
    Prop("C21", [
        d("free"), d("free-str", kind="str"), d("free-latin1", kind="str", encoding="latin-1"), d("free-utf16", kind="str", encoding="utf-16"),
        d("free-utf32", kind="str", encoding="utf-32-be"), d("free-3", times=3, quick=400),
        d("slow", wait="slow"), d("slow-2", wait="slow", times=2), d("slow-str", wait="slow", kind="str"),
        d("slow-timeout", wait="slow", timeout="explicit", covers=("returned", "TimeoutError")),
        d("slow-timeout-2", wait="slow", timeout="default", times=2, covers=("returned", "TimeoutError")),
        d("output", wait="output", quick=400), d("output-2", wait="output", times=2, quick=400),
        d("output-timeout", wait="output", timeout="default", quick=400, covers=("returned", "TimeoutError")),
        d("output-cancel", wait="output", cancel=True, quick=500, covers=("returned", "cancelled")),
        d("slow-cancel", wait="slow", cancel=True, covers=("returned", "cancelled")),
        d("never-timeout", wait="never", timeout="explicit", times=2, covers=("returned", "TimeoutError")),
        d("dies", wait="never", dies=True, covers=("returned", "broken")),
        d("dies-slow", wait="slow", dies=True, times=2, covers=("returned", "broken")),
        S("no-echo", X + "noecho", {}, 700, 5000, ("sent", "gave-up")),
        S("no-echo-command", X + "noecho", dict(cmdmode=True), 700, 5000, ("sent", "gave-up")),
        S("no-echo-again", X + "noecho", dict(again=True), 700, 8000, ("sent", "gave-up")),
    ], bounds="Up to 3 sends of any length up to 200 000 bytes or of 2 arbitrary characters, six line endings; the "
        "process takes a symbolic number of bytes (0..65536) and the rest at once, at a symbolic instant, after 420 000 "
        "bytes of its output were taken, or never; symbolic timeouts; cancellation at any of 80 callback boundaries; "
        "it stops reading at 4 instants; echo turned off (and on again) at symbolic instants up to 40 s.",
        outside="Text still in asyncio's write buffer (at most 64 KiB) counts as accepted. Logging other than the "
        "library's own.", assumptions=DASSUME),
]
