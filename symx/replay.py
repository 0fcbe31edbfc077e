"""Replay solver-found inputs on the plain, uninstrumented code.

As a library: `Replayer` keeps a worker process.  As a program:
    python3-vt -m symx.replay <file.json>
replays one saved counterexample and exits 1 if the violation shows again.
"""

import json
import os
import select
import subprocess
import sys
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def norm(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else [v.numerator, v.denominator]
    if isinstance(v, float):
        return norm(Fraction(v))
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    r = repr(v)
    return r if " at 0x" not in r else type(v).__name__


def quiet():
    import asyncio
    import gc
    import logging
    import warnings
    if os.environ.get("VERIF_TRACE"):
        from symx import core

        # Format every record of the library, and show none.
        class Mute(logging.Handler):
            def emit(self, record):
                try:
                    record.getMessage()
                except Exception as ex:
                    core.LOG_ERRORS.append(f"{record.msg!r}: {ex!r}")   # logging would print it
        logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
        lg = logging.getLogger("shellous")
        lg.handlers[:] = [Mute()]
        lg.setLevel(1)
        lg.propagate = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            asyncio.get_child_watcher()     # its creation opens and closes a descriptor
    else:
        logging.disable(logging.CRITICAL)
    gc.disable()
    sys.unraisablehook = lambda *a: None
    warnings.simplefilter("ignore")


def run_concrete(fn, args, inputs):
    import importlib
    from symx import core
    mod, name = fn.split(":")
    h = getattr(importlib.import_module(f"checks.{mod}"), name)
    eng = core.ConcreteEngine(inputs)
    try:
        status = core.run_path(eng, h, args)
        err = None
    except Exception as ex:  # noqa
        import traceback
        status, err = "error", traceback.format_exc()
        tb = ex.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if "/shellous/" in tb.tb_frame.f_code.co_filename:
            eng.violations.append({"label": "* exception out of the library",
                                   "info": f"{type(ex).__name__}: {ex}"})
    return {"status": status, "error": err, "violations": eng.violations,
            "obs": norm(eng.observed), "covers": sorted(eng.covers)}


def _serve():
    sys.path.insert(0, ROOT)
    quiet()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from symx import instr
    instr.install(False)
    for line in sys.stdin:
        req = json.loads(line)
        res = run_concrete(req["fn"], req["args"], req["inputs"])
        out.write(json.dumps(res) + "\n")
        out.flush()


class Replayer:
    def __init__(self):
        self.p = None

    def _start(self):
        self.p = subprocess.Popen(
            [sys.executable, "-m", "symx.replay", "--serve"], cwd=ROOT,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=dict(os.environ, PYTHONHASHSEED="0"))
        self.buf = b""

    def run(self, fn, args, inputs, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self._start()
        self.p.stdin.write(json.dumps({"fn": fn, "args": args, "inputs": inputs}).encode() + b"\n")
        self.p.stdin.flush()
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.close()
                return {"status": "timeout", "violations": [], "obs": None, "error": "timeout"}
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.close()
                return {"status": "died", "violations": [], "obs": None, "error": "died"}
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def main():
    if sys.argv[1] == "--serve":
        return _serve()
    sys.path.insert(0, ROOT)
    quiet()
    from symx import instr
    instr.install(False)
    with open(sys.argv[1]) as f:
        c = json.load(f)
    res = run_concrete(c["fn"], c["args"], c["inputs"])
    print(json.dumps(res, indent=1))
    if res["violations"]:
        print(f"VIOLATION property={c['property']} replay={sys.argv[1]}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
