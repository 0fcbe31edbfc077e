"""C32: the other harnesses, with the library's detailed logging turned on (SHELLOUS_TRACE=all)."""

import dataclasses

from .base import Prop
from .p_lifecycle import ASSUME
from . import (p_async, p_builds, p_datas, p_launch, p_lifecycle, p_lookup, p_prompt, p_status, p_terminal, p_watch,
               p_wiring)

MODULES = (p_lifecycle, p_async, p_status, p_datas, p_prompt, p_wiring, p_builds, p_lookup, p_terminal, p_watch, p_launch)
ALL = {p.id: {s.name: s for s in p.scenarios} for m in MODULES for p in m.PROPS}

PICK = {
    "C01": "await-c1 await-launch-c1 with-c1 raise-c1 iter-c1 prompt-c1 timeout-c1 pty-c1 procsub-c1 fault-spawn",
    "C02": "with-raise-c1 poke",
    "C03": "timeout-c1 timeout-with-c1 stuck-timeout",
    "C04": "notfound pty-fault late pipe3-missing",
    "C05": "none set-with signal-cancel pipe",
    "C06": "pipe2",
    "C07": "await2-c1 with2-c1 raise2 iter3-missing fault3",
    "C08": "mixed-fault",
    "C09": "with3-fault",
    "C10": "bytes stringio reader2 pty",
    "C11": "buffer bytearray stringio logger writer-slow",
    "C12": "two",
    "C19": "seq-2 cancel timeout stderr",
    "C20": "lit timeout command",
    "C21": "slow output-timeout dies no-echo",
    "C22": "plain2-react cancel2 results2-c1",
    "C23": "two threads",
    "C25": "depth3 pipes",
    "C26": "r.w fault-rw",
    "C27": "cmd pipe with break break-pipe break-stderr timely timely-pipe",
    "C30": "c1",
    "C31": "with",
}

scenarios = []
for pid, names in PICK.items():
    for n in names.split():
        s = ALL[pid].get(n)
        if s is not None:
            scenarios.append(dataclasses.replace(s, name=f"{pid}-{n}", quick=min(s.quick, 500), covers=()))

PROPS = [
    Prop("C32", scenarios,
         bounds=f"{len(scenarios)} scenarios of the other checks (named <check>-<scenario>; their bounds apply), executed with "
         "SHELLOUS_TRACE=all and every log record formatted: lifecycle, faults, pipelines, data, prompts, harvest, "
         "watcher, iteration, launch.",
         outside="SHELLOUS_TRACE options on their own; log handlers that raise; what is logged (but for secrets, C21).",
         assumptions=ASSUME),
]
