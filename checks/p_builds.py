from .base import Prop, S
from .p_lifecycle import ASSUME

X = "builds:"


def ar(name, quick=30000, thorough=100000, covers=("accepted", "rejected"), tier="both", **args):
    return S(name, X + "args", args, quick, thorough, covers, tier)


def im(name, quick=60000, thorough=200000, covers=(), tier="both", fn="immutable", **args):
    return S(name, X + fn, args, quick, thorough, covers, tier)


def en(name, quick=60000, thorough=200000, covers=("inherit", "own"), tier="both", fn="environment", **args):
    return S(name, X + fn, args, quick, thorough, covers, tier)


def co(name, quick=60000, thorough=200000, covers=("joined",), tier="both", **args):
    return S(name, X + "compose", args, quick, thorough, covers, tier)


PAIR = ["text", "int"]
END = dict(ins=["none", "str", "path", "reader"], outs=["none", "path", "bytearray", "str"])

PROPS = [
    Prop("C15", [
        ar("flat2"), ar("flat1-run", run=True, kinds="PLAIN"), ar("flat2-all", how="all"),
        ar("flat2-split", how="split"),
        ar("nested1", n=1, depth=1, quick=60000), ar("nested2", n=2, depth=1, kinds="TINY", quick=60000),
        ar("deep2", n=1, depth=2, kinds="TINY", boxes=["list", "tuple", "zip"], quick=60000),
        ar("deep3", n=1, depth=3, width=1, kinds="SMALL", boxes="BOXES", quick=60000),
        ar("hook1", n=1, depth=1, kinds="SMALL", hook=True, how="call"),
        ar("hook2", n=2, kinds="SMALL", hook=True),
        ar("hook2-split", n=2, kinds="SMALL", hook=True, how="split"),
        ar("hook2-all", n=2, kinds="SMALL", hook=True, how="all"),
        ar("flat3", n=3, tier="thorough"),
        ar("deep3w2", n=1, depth=3, kinds="TINY", boxes="EXTRAS", tier="thorough"),
        ar("run2", n=2, depth=1, width=1, run=True, kinds="SMALL", tier="thorough"),
    ], bounds="Every argument list of 2 arguments of 34 kinds (text, bytes and in-memory files with symbolic contents, "
        "integers with symbolic value), given in one call, to a context or one call each; every nesting of 7 kinds of "
        "sequence of up to 2 elements up to depth 2, and of width 1 up to depth 3; a coercion hook with 6 kinds of "
        "result; arguments as handed to the launch.",
        outside="User classes other than those listed; the value of str() of an integer is uninterpreted.",
        assumptions=ASSUME),
    Prop("C16", [
        im("context", start="context"), im("context2", start="context2"), im("command"),
        im("few3", steps=3, few=True), im("chain3", start="context2", steps=3, few=True, branch=False),
        im("pipeline", fn="pipe_mods"),
        im("pipeline3", fn="pipe_mods", steps=3, quick=60000),
        im("few4", steps=4, few=True, tier="thorough"), im("all3", steps=3, tier="thorough"),
    ], bounds="All histories of 2 modifiers out of 40 (every option of set(), env, redirections, |, >>, result, writable, "
        "calls, refused updates), each applied to any object made so far, on contexts and commands; of 3 out of 10; "
        "pipelines with 12 modifiers, 3 steps. Flags and numbers are symbolic.",
        outside="Changing objects from several threads; mutating an argument object itself.", assumptions=ASSUME),
    Prop("C17", [
        en("one", steps=1, quick=2000),
        en("two", steps=2, values=PAIR, quick=60000),
        en("two-context", steps=2, values=["str", "none"], start="context", quick=60000),
        en("three", steps=3, values=["str"], names=["SXA", "PATH"], quick=60000),
        en("hash2", fn="envhash", n=2, vals=1, covers=("equal", "different"), quick=60000),
        en("hash3", fn="envhash", n=3, vals=1, covers=("equal", "different"), quick=9000),
        en("all2", steps=2, tier="thorough"), en("hash3v", fn="envhash", n=3, tier="thorough", covers=("equal",)),
    ], bounds="Histories of up to 3 env(), set(env=), set(inherit_env=) calls with up to 2 variables each out of 3 "
        "names, text of 2 arbitrary characters, symbolic integers and 6 other kinds of value; every set of parent "
        "variables; pairs of histories of up to 3 steps for equality and hashing.",
        outside="Names and values the operating system refuses; Windows.", assumptions=ASSUME),
    Prop("C18", [
        co("n1", n=1, quick=60000), co("n2", n=2, err=False), co("n2-err", n=2, **END),
        co("n3", n=3, err=False, quick=60000, **END),
        co("n3-err", n=3, ins=["none", "path"], outs=["none", "bytearray"]),
        co("n3-mid", n=3, where="mid", err=False, quick=60000, **END),
        co("n2-mid", n=2, where="mid", ins=["none", "path"], outs=["none", "bytearray"]),
        co("n3-inner", n=3, where="inner", err=False, quick=60000, **END),
        co("n2-inner", n=2, where="inner", ins=["none", "path"], outs=["none", "bytearray"]),
        co("n2-left", n=2, where="left", ins=["none", "path"], outs=["none", "bytearray"]),
        co("n3-left", n=3, where="left", ins=["path"], outs=["none"]),
        co("n4", n=4, err=False, ins=["path"], outs=["bytearray"], quick=60000),
        co("all3", n=3, tier="thorough"), co("n5", n=5, err=False, ins=["path"], outs=["bytearray"], tier="thorough"),
    ], bounds="1-4 commands (5 in the thorough tier) joined in every parenthesisation, with any part possibly a "
        "pipeline of one; 10 kinds of input, 12 kinds of output with | or >>, stderr to six targets and result or "
        "writable, attached to the whole, to either half, or to the end commands before joining.",
        outside="Operands of user-defined types with their own | operator.", assumptions=ASSUME),
]
