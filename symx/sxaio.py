"""asyncio's own stream classes, instrumented from the interpreter's source.

The read/write pipe transports and StreamReader use bytearray/memoryview; the
instrumented copies use symbolic byte ropes instead.  Nothing else changes.
"""

import asyncio
import inspect
import sys
import types
from asyncio import streams, unix_events

from . import data
from .instr import _NS, hook, rewrite


def _copy(mod):
    m = types.ModuleType(mod.__name__ + "_sx")
    m.__package__ = mod.__package__
    m.__file__ = mod.__file__
    m.__dict__.update(_NS)
    m.__dict__["__name__"] = mod.__name__
    code = compile(rewrite(inspect.getsource(mod), mod.__file__), mod.__file__, "exec",
                   dont_inherit=True)
    exec(code, m.__dict__)
    return m


_s = _copy(streams)
_u = _copy(unix_events)

_skip = ("__dict__", "__weakref__", "__module__", "__qualname__", "__doc__", "__del__")

SXStreamReader = type("StreamReader", (asyncio.StreamReader,),
                      {k: v for k, v in vars(_s.StreamReader).items() if k not in _skip})


class SXReadPipe(_u._UnixReadPipeTransport):
    def __del__(self):
        pass


class SXWritePipe(_u._UnixWritePipeTransport):
    def __del__(self):
        pass


_real = asyncio.StreamReader


@hook(_real)
def _reader(f, a, k):
    if data.ACTIVE:
        return SXStreamReader(*a, **k)
    return f(*a, **k)


def activate(on):
    data.ACTIVE = on
    streams.StreamReader = SXStreamReader if on else _real
