from .base import Prop, S

A = "asyncs:"
ASSUME = ("asyncio of CPython 3.12 is executed as it is; only its selector and clock are replaced "
          "(symx/loop.py). Callbacks take no time.",)


def h(name, quick=1500, thorough=40000, covers=(), tier="both", **args):
    return S(name, A + "harvest", args, quick, thorough, covers, tier)


PROPS = [
    Prop("C22", [
        h("plain3", n=3, covers=("outcome:ok", "outcome:Err", "failed", "all-returned")),
        h("plain2-react", n=2, kinds=("return", "fail", "now", "failnow", "selfcancel"),
          on_cancel=("obey", "slow", "swallow", "raise"), as_=("coro", "task"),
          covers=("outcome:ok", "outcome:Err", "failed")),
        h("timeout2", n=2, timeout=True, on_cancel=("obey", "slow", "swallow", "raise"),
          covers=("outcome:TimeoutError", "outcome:ok", "outcome:Err")),
        h("timeout-self", n=3, timeout=True, kinds=("return", "selfcancel", "fail"), quick=2000,
          covers=("outcome:TimeoutError",)),
        h("wait-self", n=2, fn="harvest_wait", timeout=True, kinds=("return", "selfcancel"), covers=("outcome:TimeoutError", "outcome:ok")),
        h("results-self", n=2, fn="harvest_results", timeout=True, kinds=("return", "selfcancel", "fail"), covers=("outcome:TimeoutError",)),
        h("timeout3", n=3, timeout=True, covers=("outcome:TimeoutError",)),
        h("cancel2", n=2, cancels=1, on_cancel=("obey", "slow", "swallow", "raise"), covers=("outcome:CancelledError",)),
        h("cancel2x2", 2500, n=2, cancels=2, on_cancel=("slow",), stubborn=7, covers=("cancelled:2",)),
        h("cancel-timeout2", 2500, n=2, cancels=1, timeout=True, on_cancel=("obey", "slow")),
        h("cancel2x3", 3000, n=2, cancels=3, on_cancel=("slow",), stubborn=4, covers=("cancelled:3",), max_delay=5),
        h("cancel1x5", 3000, n=1, cancels=5, kinds=("return",), on_cancel=("slow",), stubborn=4, csteps=16, gap=2,
          covers=("cancelled:5",), max_delay=5),
        h("finish2", n=2, cancels=1, cancel_finish=True, max_delay=14, covers=("finished",), kinds=("return", "now")),
        h("stubborn", n=2, on_cancel=("slow",), stubborn=40, timeout=True, covers=("gave-up",)),
        h("results3", n=3, fn="harvest_results", kinds=("return", "fail", "selfcancel"),
          covers=("failed", "all-returned")),
        h("results2-c1", n=2, fn="harvest_results", cancels=1, on_cancel=("obey", "slow", "swallow", "raise"),
          covers=("cancelled",)),
        h("results2-timeout", n=2, fn="harvest_results", timeout=True, covers=("outcome:TimeoutError",)),
        h("results2-runtime", n=2, fn="harvest_results", fail="RuntimeError", covers=("outcome:RuntimeError",)),
        h("wait2", n=2, fn="harvest_wait", timeout=True, cancels=1, covers=("outcome:TimeoutError", "outcome:ok")),
        h("plain4", n=4, tier="thorough", on_cancel=("obey", "slow")),
    ], bounds="1-3 members (4 thorough); symbolic: when each ends, whether it returns, fails, cancels itself, "
       "how it reacts to cancellation (obeys, cleans up 0..10 s, swallows, raises), time limit 0..30 s, up to 3 (5 for a single member) "
       "cancellations of the caller at any callback boundary.",
       outside="Members that need longer than the cancel timeout to "
       "end are reported with RuntimeError (scenario stubborn).", assumptions=ASSUME),
    Prop("C30", [
        S("c0", A + "shielded", dict(cancels=0), 500, 5000, ("outcome:ok", "outcome:Err")),
        S("c1", A + "shielded", dict(cancels=1), 1500, 20000, ("outcome:CancelledError", "cancelled:1")),
        S("c2", A + "shielded", dict(cancels=2), 3000, 60000, ("outcome:CancelledError", "cancelled:2")),
        S("nested-c1", A + "shielded", dict(cancels=1, nested=True), 1500, 20000, ("outcome:CancelledError",)),
        S("nested-c2", A + "shielded", dict(cancels=2, nested=True), 2000, 60000, ("cancelled:2",)),
        S("c3", A + "shielded", dict(cancels=3), 3000, 60000, (), "thorough"),
    ], bounds="One shielded step with symbolic duration and outcome; up to 2 (3 thorough) cancellations of its "
       "caller, each at any callback boundary from after its start.", outside="", assumptions=ASSUME),
    Prop("C25", [
        S("tasks2", A + "contexts", dict(tasks=2, depth=2), 2500, 60000, ("ran", "nested", "child")),
        S("depth3", A + "contexts", dict(tasks=1, depth=3, owners=2, raises=True), 2000, 40000,
          ("ran", "nested", "raised")),
        S("same3", A + "contexts", dict(tasks=3, depth=1, owners=1), 1500, 30000, ("ran",)),
        S("nested-same", A + "contexts", dict(tasks=2, depth=3, owners=1, child=False), 1500, 40000,
          ("ran", "nested")),
        S("pipes", A + "contexts", dict(tasks=2, depth=2, owners=2, pipe=True), 1200, 30000,
          ("ran", "nested", "child")),
        S("failed-entry", A + "contexts", dict(tasks=1, depth=3, owners=2, child=False, fails=3), 1500, 20000,
          ("ran", "nested", "entry-failed")),
        S("failed-entry2", A + "contexts", dict(tasks=2, depth=2, owners=1, fails=4), 1500, 20000,
          ("ran", "nested", "entry-failed")),
        S("failed-pipes", A + "contexts", dict(tasks=1, depth=2, owners=1, pipe=True, child=False, fails=4, bad=True),
          800, 10000, ("ran", "nested", "entry-failed", "unbalanced")),
        S("inside", A + "contexts", dict(tasks=2, depth=2, owners=1, child=False, inside=True), 1500, 30000,
          ("ran", "nested", "inside")),
        S("unbalanced", A + "contexts", dict(tasks=1, depth=2, owners=2, bad=True, child=False), 500, 5000,
          ("unbalanced",)),
        S("unentered", A + "unentered", {}, 50, 50, ("never", "twice", "other", "othertask")),
    ], bounds="Up to 3 tasks plus a child task (or the child tasks of a block, with equal names or not), nesting up to 3, up to 2 commands or pipelines shared by all; "
       "symbolic: who enters which when (0..5 s apart), whether one of the first launches fails, how long each block lasts, whether the body raises.",
       outside="Entering in one task and leaving in another.", assumptions=ASSUME),
]
