"""C01-C04, C07-C09: the life of commands and pipelines."""

from .base import Prop, S

L = "lifecycle:lifecycle"
P = "lifecycle:pipeline"
F = ["OSError", "FileNotFoundError", "RuntimeError"]

ASSUME = (
    "The operating system is the model of symx/world.py: descriptors, pipes, ptys, files, spawn, "
    "waitpid and kill behave as POSIX says; descriptor numbers are never reused, so a second close shows.",
    "asyncio of CPython 3.12 is executed as it is (tasks, futures, streams, subprocess transports); "
    "only its selector, clock and child watcher are the model's (symx/loop.py).",
    "Callbacks take no time; a cancellation arrives between two callbacks of the loop.",
)

OUT = ("More cancellations, processes or faults than stated; real signals, real time and the kernel; "
       "uvloop, macOS/FreeBSD and other Python versions; user callbacks that raise.")


def sc(name, quick=1200, thorough=40000, covers=(), tier="both", **args):
    return S(name, L, args, quick, thorough, covers, tier)


def pc(name, quick=1200, thorough=40000, covers=(), tier="both", **args):
    return S(name, P, args, quick, thorough, covers, tier)


CONFIGS = ("plain input paths closefd iterfd keepfd filefd pty ptyfile ptyraise procsub procsub2 "
           "procsubpipe mixed notfound badredir lowfd pathfile pathfd stuck ptystuck").split()

B1 = ("One command (optionally with 1-4 process-substitution commands). Symbolic, over all values: the "
      "instant of up to 2 cancellations of the caller (any callback boundary, 1..500), the exit instant "
      "(0..40 s or never), whether a signal is obeyed and after which delay (0..20 s), how long SIGKILL "
      "takes (0..2.9 s), how long the launch takes (0..5 s), timeout (0..30 s), cancel timeout "
      "(0.1..10 s), how much of a large input the process reads (set-ups stuck, ptystuck), how long the body of `async with` runs (0..30 s), whether and for how long a child of the process keeps its pipes open, which operation of the system "
      "fails (pipe, open, openpty, tcgetattr, ttyname, fdopen, spawn). ")

PROPS = [
    Prop("C01", [
        sc("await-c1", covers=("cancelled:1", "killed", "outcome:CancelledError", "outcome:ok")),
        sc("await-launch-c1", launch=True, covers=("cancelled:1", "killed")),
        sc("await-c2", 3000, cancels=2, launch=True, covers=("cancelled:2", "killed")),
        sc("with-c1", mode="with", cancels=1, covers=("cancelled:1",)),
        sc("nosignal-c2", 1500, cancel_signal=None, cancels=2, covers=("cancelled:2", "killed")),
        sc("sigkill-raise-c1", 1500, cancel_signal="SIGKILL", mode="raise", covers=("outcome:Boom", "cancelled:1")),
        sc("raise-c1", 3000, mode="raise", cancels=1, covers=("outcome:Boom", "cancelled:1")),
        sc("raisenow-c1", mode="raisenow", cancels=1, covers=("outcome:Boom",)),
        sc("iter-c1", config="plain", mode="iter", cancels=1, covers=("cancelled:1",)),
        sc("prompt-c1", config="plain", mode="prompt", cancels=1, covers=("cancelled:1",)),
        sc("timeout", 1500, timeout=True, cancels=0, launch=True, covers=("outcome:TimeoutError", "killed")),
        sc("timeout-c1", 2500, timeout=True, cancels=1, covers=("outcome:TimeoutError", "cancelled:1")),
        sc("fault-spawn", cancels=1, fault=F, covers=("fault:spawn",)),
        sc("pty-c1", config="pty", cancels=1, covers=("cancelled:1",)),
        sc("pty-fault", config="ptyfile", cancels=0, fault=F, covers=("fault:fdopen", "fault:spawn")),
        sc("late", config="badtext", cancels=1, gap=True, covers=("cancelled:1", "killed")),
        sc("garbled", config="badout", cancels=0, covers=("garbled", "killed", "outcome:UnicodeDecodeError")),
        sc("garbled-c1", config="badout", cancels=1, covers=("garbled", "last-words", "cancelled:1")),
        sc("garbled-raise", config="badout2", mode="raise", cancels=0, covers=("garbled", "last-words")),
        sc("garbled-timeout", config="badout2", timeout=True, cancels=0, covers=("garbled", "last-words")),
        sc("garbled-pty", config="badout-pty", cancels=1, covers=("garbled", "cancelled:1")),
        sc("late-c0", config="badtext", cancels=0, gap=True, covers=("outcome:UnicodeEncodeError", "killed")),
        sc("await-gap", gap=True, covers=("cancelled:1", "killed")),
        sc("late-pty", config="badtext-pty", cancels=1, covers=("outcome:UnicodeEncodeError", "killed")),
        sc("late-closed", config="closedtext", cancels=0, covers=("outcome:ValueError", "killed")),
        sc("procsub-c1", 2500, config="procsub", cancels=1, covers=("cancelled:1", "killed")),
        sc("procsub2-fault", config="procsub2", cancels=0, fault=F, exits=1, code="sub",
           covers=("fault:spawn",)),
        sc("procsub2-code", 1500, config="procsub2", cancels=0, code="sub", term=0, kill=0,
           covers=("outcome:ResultError", "outcome:ok")),
        sc("mixed-c1", 2000, config="mixed", cancels=1, exits=5),
        sc("orphan-c1", orphan=True, covers=("orphan", "cancelled:1", "killed")),
        sc("orphan-raise", orphan=True, mode="raise", cancels=0, config="orphan", covers=("orphan", "outcome:Boom")),
        sc("orphan-pty-c1", orphan=True, config="pty", covers=("orphan", "cancelled:1")),
        sc("stuck-c1", config="stuck", covers=("cancelled:1", "killed", "outcome:CancelledError")),
        sc("ptystuck-c1", config="ptystuck", covers=("cancelled:1", "killed", "outcome:CancelledError")),
        sc("ptystuck-raise", config="ptystuck", mode="raise", cancels=0, covers=("outcome:Boom",)),
        sc("unkillable", unkillable=True, exits="never", term="ignore", cancels=1,
           covers=("survivor",)),
        sc("preempt-c1", 2000, preempt=2, cancels=1, tier="thorough"),
        sc("merge-timeout-c1", 2000, merge=2, preempt=1, timeout=True, cancels=1, tier="thorough"),
        sc("await-c3", 3000, cancels=3, tier="thorough"),
    ], bounds=B1, outside=OUT, assumptions=ASSUME),

    Prop("C02", [
        sc("await-c1", covers=("cancelled:1", "killed", "signalled")),
        sc("nosignal-c1", cancel_signal=None, covers=("cancelled:1", "signalled")),
        sc("sigint-c2", 2500, cancel_signal="SIGINT", cancels=2, covers=("cancelled:2", "killed")),
        sc("with-raise-c1", 3000, mode="raise", cancels=1, covers=("signalled", "killed")),
        sc("raisenow", mode="raisenow", cancels=0, covers=("signalled", "killed")),
        sc("poke", 1500, mode="poke", cancels=1, covers=("signalled", "killed", "poke:usr1", "poke:cancel")),
        sc("poke-raise", mode="pokeraise", cancels=0, covers=("signalled", "killed", "poke:usr1", "poke:cancel")),
        sc("poke-nosignal", mode="pokeraise", cancels=0, cancel_signal=None, covers=("signalled", "poke:usr1")),
        sc("late", config="badtext", cancels=1, gap=True, covers=("signalled", "killed")),
        sc("garbled-raise", config="badout2", mode="raise", cancels=0, covers=("garbled", "signalled")),
        sc("garbled-timeout-c1", config="badout", timeout=True, cancels=1, covers=("garbled", "signalled")),
        sc("timeout-gap", gap=True, timeout=True, cancels=0, covers=("killed",)),
        sc("timeout", 1500, timeout=True, cancels=0, cancel_signal="SIGHUP", covers=("killed",)),
        sc("timeout-c1", 2500, timeout=True, cancels=1, covers=("killed",)),
        sc("poke2", mode="poke2", cancels=0, covers=("poke:usr1", "poke:cancel")),
        sc("orphan-timeout-c1", orphan=True, timeout=True, covers=("orphan", "killed")),
        sc("stuck-c1", config="stuck", covers=("killed", "signalled")),
        sc("stuck-timeout", config="stuck", timeout=True, cancels=0, covers=("killed",)),
        sc("ptystuck-timeout", config="ptystuck", timeout=True, cancels=0, covers=("killed",)),
        sc("quiet", cancels=0, timeout=True, covers=("outcome:ok",)),
        sc("quiet-with", mode="with", cancels=0, covers=("outcome:ok",)),
        sc("quiet-pty", config="pty", cancels=0, covers=("outcome:ok",)),
        sc("pty-c1", config="pty", cancels=1, covers=("killed",)),
        sc("iter-c1", mode="iter", cancels=1, covers=("killed",)),
        sc("await-c3", 3000, cancels=3, tier="thorough"),
        sc("preempt-c1", 3000, preempt=2, cancels=1, tier="thorough"),
    ], bounds=B1, outside=OUT, assumptions=ASSUME),

    Prop("C03", [
        sc("timeout", 2500, timeout=True, cancels=0, launch=True,
           covers=("outcome:TimeoutError", "outcome:ok")),
        sc("timeout-code", 2500, timeout=True, cancels=0, code="sym",
           covers=("outcome:TimeoutError", "outcome:ResultError")),
        sc("timeout-c1", 3000, timeout=True, cancels=1, launch=True,
           covers=("outcome:TimeoutError", "outcome:CancelledError")),
        sc("timeout-c2", 2500, timeout=True, cancels=2, covers=("cancelled:2",)),
        sc("timeout-with", 2500, timeout=True, cancels=0, mode="with", covers=("outcome:ok",)),
        sc("timeout-with-c1", 2000, timeout=True, cancels=1, mode="with",
           covers=("outcome:TimeoutError", "outcome:CancelledError")),
        sc("timeout-raise", 2500, timeout=True, cancels=0, mode="raise", covers=("outcome:Boom",)),
        sc("timeout-pty", 2500, config="pty", timeout=True, cancels=0, launch=True,
           covers=("outcome:TimeoutError",)),
        sc("plain-c1", covers=("outcome:CancelledError", "outcome:ok")),
        sc("with-c1", mode="with", covers=("outcome:CancelledError", "outcome:ok")),
        sc("raise-c1", 2000, mode="raise", covers=("outcome:CancelledError", "outcome:Boom")),
        sc("iter-c1", mode="iter", covers=("outcome:CancelledError", "outcome:ok")),
        sc("iter-timeout-c1", 2000, mode="iter", timeout=True, cancels=1,
           covers=("outcome:CancelledError", "outcome:TimeoutError")),
        sc("iter-pty-c1", 1500, mode="iter", config="pty", cancels=1, covers=("outcome:CancelledError",)),
        sc("code", cancels=0, code="sym", covers=("outcome:ResultError", "outcome:ok")),
        sc("orphan-timeout", 1500, orphan=True, timeout=True, cancels=0, covers=("orphan", "outcome:TimeoutError", "outcome:ok")),
        sc("orphan-timeout-c1", orphan=True, timeout=True, cancels=1, covers=("orphan", "outcome:TimeoutError")),
        sc("orphan-timeout-now", 600, orphan=True, timeout=True, cancels=0, exits="now", covers=("orphan",)),
        sc("graceful-timeout", 1500, graceful=True, timeout=True, cancels=0, covers=("outcome:TimeoutError", "outcome:ok")),
        sc("graceful-timeout-c1", 1500, graceful=True, timeout=True, cancels=1,
           covers=("outcome:TimeoutError", "outcome:CancelledError")),
        sc("graceful-with-c1", graceful=True, mode="with", cancels=1, covers=("outcome:CancelledError",)),
        sc("graceful-iter", graceful=True, mode="iter", timeout=True, cancels=1, covers=("outcome:CancelledError", "outcome:TimeoutError")),
        sc("stuck", config="stuck", cancels=0, code="sym"),
        sc("stuck-c1", config="stuck", covers=("outcome:CancelledError",)),
        sc("stuck-timeout", 1500, config="stuck", timeout=True, cancels=0, covers=("outcome:TimeoutError",)),
        sc("stuck-timeout-c1", 1500, config="stuck", timeout=True, covers=("outcome:TimeoutError", "cancelled:1")),
        sc("stuck-raise-c1", 1500, config="stuck", mode="raise", covers=("outcome:Boom", "cancelled:1")),
        sc("orphan-stuck-c1", orphan=True, config="stuck", covers=("orphan", "outcome:CancelledError")),
        sc("orphan-stuck-timeout", orphan=True, config="stuck", timeout=True, cancels=0, covers=("orphan", "outcome:TimeoutError")),
        sc("orphan-late", orphan=True, config="badtext", covers=("orphan",)),
        sc("ptystuck-timeout", config="ptystuck", timeout=True, cancels=0, covers=("outcome:TimeoutError",)),
        sc("notfound-timeout", config="notfound", timeout=True, cancels=1),
        sc("timeout-preempt", 3000, timeout=True, cancels=1, preempt=2, merge=2, tier="thorough"),
    ], bounds=B1, outside=OUT, assumptions=ASSUME),

    Prop("C04", [
        sc("await-c1", covers=("stopped-normally", "cancelled:1", "launch-failed")),
        sc("await-c2", 2500, cancels=2, covers=("cancelled:2",)),
        sc("raise-c1", 2500, mode="raise", covers=("outcome:Boom",)),
        sc("timeout-launch-c1", 2500, timeout=True, launch=True, covers=("outcome:TimeoutError",)),
        sc("nosignal-c1", cancel_signal=None),
        sc("fault", cancels=1, fault=F, exits=1, covers=("launch-failed", "fault:spawn")),
        sc("pty-fault", config="ptyfile", cancels=0, fault=F, exits=1,
           covers=("launch-failed", "fault:openpty", "fault:fdopen", "fault:spawn")),
        sc("notfound", config="notfound", cancels=0, fault=F, covers=("launch-failed",)),
        sc("badredir", config="badredir", cancels=0, covers=("launch-failed",)),
        sc("late", config="badtext", cancels=0, covers=("signalled",)),
        sc("garbled", config="badout2", cancels=0, covers=("garbled", "signalled")),
        sc("garbled-timeout", config="badout", cancels=0, timeout=True, covers=("garbled", "last-words")),
        sc("poke", mode="pokeraise", cancels=0, covers=("poke:usr1", "poke:cancel")),
        sc("ptyraise", config="ptyraise", cancels=0, covers=("launch-failed",)),
        sc("unkillable", unkillable=True, exits="never", term="ignore", cancels=1, covers=("survivor",)),
        sc("procsub-c1", 2000, config="procsub", cancels=1, exits=5),
        pc("pipe2-c1", 2000, cancels=1, exits=5),
        pc("pipe3-missing", cancels=0, n=3, missing="sym", sub="simple"),
        sc("preempt-c1", 2000, preempt=2, tier="thorough"),
    ], bounds=B1 + "Pipelines of 2 and 3 commands.", outside=OUT, assumptions=ASSUME),

    Prop("C07", [
        pc("await2", covers=("all-ok", "outcome:ResultError", "stopped")),
        pc("await3", n=3, sub="simple", covers=("all-ok", "outcome:ResultError", "stopped")),
        pc("await2-c1", 2000, cancels=1, sub="simple", covers=("cancelled:1", "killed")),
        pc("with2-c1", 2000, cancels=1, mode="with", sub="simple", covers=("cancelled:1", "killed")),
        pc("raise2", mode="raise", sub="simple", covers=("outcome:Boom",)),
        pc("raise3-c1", 1500, n=3, cancels=1, mode="raise", sub="simple", exits="never",
           covers=("outcome:Boom",)),
        pc("await3-c1", 1500, n=3, cancels=1, sub="simple", exits="never", covers=("cancelled:1",)),
        pc("with3-c1", 1500, n=3, cancels=1, sub="simple", exits="never", mode="with",
           covers=("cancelled:1",)),
        pc("fault3", n=3, fault=F, exits="never", term=0, covers=("fault:pipe", "fault:spawn")),
        pc("with3-fault", n=3, fault=F, exits="never", term=0, mode="with",
           covers=("fault:pipe", "fault:spawn")),
        pc("missing3", n=3, missing="sym", sub="simple", covers=("outcome:FileNotFoundError",)),
        pc("with3-missing", n=3, missing="sym", sub="simple", mode="with",
           covers=("outcome:FileNotFoundError",)),
        pc("iter3-missing", n=3, missing="sym", sub="simple", mode="iter", exits=2,
           covers=("outcome:FileNotFoundError",)),
        pc("prompt2-missing", n=2, missing="sym", sub="simple", mode="prompt", exits=2,
           covers=("outcome:FileNotFoundError",)),
        pc("missing3-c1", 2500, n=3, cancels=1, missing="sym", exits="never", sub="simple"),
        pc("graceful3", 2000, n=3, sub="simple", graceful=True, covers=("outcome:ResultError", "stopped")),
        pc("graceful3-with-c1", 1500, n=3, cancels=1, mode="with", sub="simple", exits="never", graceful=True,
           covers=("cancelled:1",)),
        pc("stuck2", redir="stuck", covers=("unread", "outcome:ResultError")),
        pc("stuck2-c1", 1500, redir="stuck", cancels=1, exits="never", covers=("cancelled:1",)),
        pc("stuck2-raise", redir="stuck", mode="raise", exits="never", covers=("outcome:Boom",)),
        pc("iter2-c1", 1500, n=2, cancels=1, mode="iter", sub="simple", covers=("cancelled:1", "outcome:CancelledError")),
        pc("await2-c2", 3000, cancels=2, sub="simple", exits="never", covers=("cancelled:2",)),
        pc("await4", n=4, sub="simple", tier="thorough"),
        pc("await2-ct", 3000, cancels=1, ct=8, sub="simple", tier="thorough"),
        pc("preempt2-c1", 3000, cancels=1, sub="simple", preempt=2, tier="thorough"),
    ], bounds=(
        "Pipelines of 2 and 3 commands (4 in the thorough tier). Symbolic: instant of up to 2 "
        "cancellations (any callback boundary, 1..600), exit instant and status of every command (0..40 s "
        "or never; 0 or 1), obedience to signals (delay 0..20 s or ignored), which program is missing, "
        "which system operation fails, how long the body runs. Cancel timeout 3 s (8 s thorough)."),
        outside=OUT + " Cancel timeouts beyond 12 s (harvest gives up after 15 s).", assumptions=ASSUME),

    Prop("C08", [
        sc(f"{c}-c1", {"procsub": 1500, "procsub2": 1500, "procsubpipe": 1500}.get(c, 2200),
           config=c, cancels=1, **({"exits": 5} if c in ("mixed",) else {})) for c in CONFIGS
    ] + [
        sc(f"{c}-fault", config=c, cancels=0, exits=1, fault=F,
           covers={"paths": ("fault:open", "fault:spawn"), "procsub2": ("fault:pipe", "fault:spawn"),
                   "ptyfile": ("fault:openpty", "fault:fdopen", "fault:ttyname", "fault:tcgetattr"),
                   "pathfile": ("fault:open", "fault:spawn"), "pathfd": ("fault:open", "fault:spawn"),
                   "closefd": ("fault:spawn",), "filefd": ("fault:spawn",),
                   "mixed": ("fault:open", "fault:pipe", "fault:openpty")}.get(c, ())) for c in CONFIGS
    ] + [
        sc("orphan-c1", orphan=True, config="orphan", covers=("orphan", "cancelled:1")),
        sc("orphan-pty-c1", orphan=True, config="pty", covers=("orphan", "cancelled:1")),
        sc("orphan-stuck-c1", orphan=True, config="stuck", covers=("orphan", "cancelled:1")),
        sc("orphan-stuck-timeout", orphan=True, config="stuck", timeout=True, cancels=0, covers=("orphan", "outcome:TimeoutError")),
        sc("orphan-ptystuck-c1", orphan=True, config="ptystuck", covers=("orphan", "cancelled:1")),
        sc("orphan-pty-raise", orphan=True, config="pty", mode="raise", cancels=0, covers=("orphan", "outcome:Boom")),
        sc("garbled-pty", config="badout-pty", cancels=0, covers=("garbled",)),
        sc("garbled", config="badout2", cancels=0, covers=("garbled",)),
        sc("capture2", config="capture2", cancels=0, covers=("outcome:ValueError",)),
        sc("pathfile-with-fault", config="pathfile", mode="with", cancels=0, exits=1, fault=F, covers=("fault:open",)),
        sc("closefd-c2", 1500, config="closefd", cancels=2, exits=5),
        sc("pty-raise-c1", 1500, config="ptyfile", cancels=1, mode="raise", exits="never"),
        sc("capture-raise-c1", 1500, config="capture", cancels=1, mode="raise", exits="never"),
        pc("pipe2-fds-c1", 1500, redir="fds", cancels=1, exits=5, sub="simple"),
        pc("orphan2-c1", orphan=True, redir="stuck", cancels=1, sub="simple", covers=("orphan", "cancelled:1")),
        pc("orphan2-with-c1", orphan=True, mode="with", cancels=1, sub="simple", covers=("orphan", "cancelled:1")),
        pc("pipe3-fds-fault", n=3, redir="fds", fault=F, exits=1, term=0),
        pc("pipe3-fds-missing", n=3, redir="fds", missing="sym", exits=1, term=0),
        pc("pipe2-paths-fault", redir="paths", fault=F, exits=1, term=0),
    ], bounds=B1 + "20 redirection set-ups: file paths, descriptors and file objects with and without "
        "close, pass_fds, pty, process substitution, failing set-ups; pipelines of 2-3 commands given "
        "descriptors.", outside=OUT, assumptions=ASSUME),

    Prop("C09", [
        pc("await2", covers=("pipes", "outcome:ok", "outcome:ResultError")),
        pc("await3", n=3, sub="simple", covers=("pipes",)),
        pc("fault3", n=3, fault=F, exits=1, term=0, covers=("fault:pipe", "fault:spawn")),
        pc("low2", redir="low", sub="simple", exits=5, covers=("pipes",)),
        pc("low3-c1", 1500, n=3, redir="low", cancels=1, sub="simple", exits="never", covers=("cancelled:1",)),
        pc("low2-missing", redir="low", missing="sym", sub="simple", exits=1, covers=("outcome:FileNotFoundError",)),
        pc("fault4", n=4, fault=F, exits=1, term=0, covers=("fault:pipe", "fault:spawn")),
        pc("with3-fault", n=3, fault=F, exits=1, term=0, mode="with", covers=("fault:pipe", "fault:spawn")),
        pc("with3-paths-fault", n=3, fault=F, exits=1, term=0, mode="with", redir="paths",
           covers=("fault:pipe", "fault:spawn", "fault:open")),
        pc("missing3", n=3, missing="sym", sub="simple", covers=("outcome:FileNotFoundError",)),
        pc("missing3-c1", 1500, n=3, missing="sym", sub="simple", cancels=1, exits="never", term=0),
        pc("with3-missing", n=3, missing="sym", sub="simple", mode="with", exits=2),
        pc("await2-c1", 1500, cancels=1, sub="simple", covers=("cancelled:1",)),
        pc("await3-c1", 1500, n=3, cancels=1, sub="simple", exits="never", covers=("cancelled:1",)),
        pc("with3-c1", 1500, n=3, cancels=1, sub="simple", exits="never", mode="with",
           covers=("cancelled:1",)),
        pc("await2-c2", 1500, cancels=2, exits="never", term=0, covers=("cancelled:2",)),
        pc("fault3-c1", 1500, n=3, fault=F, cancels=1, exits="never", term=0),
    ], bounds="Pipelines of 2-4 commands; symbolic: the failing system operation, up to 2 cancellation "
        "instants (1..600), exits, statuses, obedience to signals, the missing program.",
        outside=OUT, assumptions=ASSUME),
]
