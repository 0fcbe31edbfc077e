from .base import Prop, S
from .p_lifecycle import ASSUME

ALL = ("register", "pidfd_open", "pipe", "epoll")


def wa(name, quick=4000, thorough=100000, covers=("reported",), tier="both", **args):
    return S(name, "watch:watch", args, quick, thorough, covers, tier)


PROPS = [
    Prop("C23", [
        wa("one", n=1, preempt=3),
        wa("two", n=2, preempt=1),
        wa("three", n=3, preempt=0),
        wa("bad", n=2, preempt=1, bad=True, quick=1200, covers=("reported", "bad-callback")),
        wa("bad-lost", n=1, preempt=2, bad=True, lost=True, covers=("reported", "bad-callback")),
        wa("early", n=1, preempt=2, early=True, covers=("reported", "early")),
        wa("early-two", n=2, preempt=1, early=True, covers=("reported", "early")),
        wa("again", n=1, preempt=1, again=True),
        wa("faults", n=1, preempt=1, faults=ALL, covers=("reported",) + tuple(f"fault:{f}" for f in ALL)),
        wa("faults-two", n=2, preempt=0, faults=ALL, covers=("reported",) + tuple(f"fault:{f}" for f in ALL)),
        wa("threads", n=2, preempt=1, adders=2, quick=2500),
        wa("thread-one", n=1, preempt=2, strategy="thread", bad=True, lost=True, early=True,
           covers=("reported", "bad-callback", "early")),
        wa("thread-two", n=2, preempt=1, strategy="thread"),
        wa("thread-again", n=1, preempt=1, strategy="thread", again=True),
        wa("one4", n=1, preempt=5, tier="thorough"),
        wa("two2", n=2, preempt=2, tier="thorough"),
        wa("three1", n=3, preempt=1, tier="thorough"),
        wa("bad2", n=2, preempt=2, bad=True, lost=True, tier="thorough"),
        wa("again2", n=2, preempt=1, again=True, tier="thorough"),
        wa("faults2", n=2, preempt=1, faults=ALL, tier="thorough"),
        wa("threads3", n=3, preempt=1, adders=2, tier="thorough"),
        wa("threads-early", n=2, preempt=2, adders=2, early=True, tier="thorough"),
        wa("thread-two2", n=2, preempt=2, strategy="thread", bad=True, lost=True, early=True, tier="thorough"),
    ], bounds="Up to three processes, registered from one or two (three) threads, exiting with any status at any time "
        "(before, during and after registration, alone and together, reported in any order); threads may be preempted "
        "before any statement of watcher.py and any operation of the system, at most 3 (5) times with one process, once "
        "(twice) with two, 0 (1) times with three, switches of a blocked or finished thread are free; one failing "
        "epoll_create, pipe, pidfd_open or epoll_ctl; a status that somebody else took; a callback whose loop is closed; "
        "closing at the end or early, and use after it was closed. Both strategies of Linux.",
        outside="KQueue; the pid of a reaped process used again while the thread strategy still knows it; callbacks that "
        "fail otherwise; registration during or after close by another thread; processes that survive SIGKILL for 3 "
        "seconds; exits that are still pending when the watcher is closed.",
        assumptions=ASSUME + ("A statement that touches shared objects at most once is atomic; pidfd, epoll and pipe "
                              "behave as their manual pages say.",)),
]
