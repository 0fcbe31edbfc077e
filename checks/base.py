"""Scenario descriptions shared by the driver and the replayer."""

import importlib
import inspect
from dataclasses import dataclass, field


@dataclass
class S:
    """One bounded symbolic-execution job.

    `fn` names a harness ("module:function"); its keyword arguments fix the
    structure of the run, everything else is a solver variable.
    """
    name: str
    fn: str
    args: dict = field(default_factory=dict)
    quick: int = 2000        # path budget of the quick tier
    thorough: int = 60000    # path budget of the thorough tier
    covers: tuple = ()       # situations that must have been reached
    tier: str = "both"       # "both", "quick" or "thorough"
    max_decisions: int = 2000
    expect_exhaustive: bool = True

    def harness(self):
        mod, name = self.fn.split(":")
        return getattr(importlib.import_module(f"checks.{mod}"), name)


@dataclass
class Prop:
    id: str
    scenarios: list
    bounds: str
    outside: str = ""
    assumptions: tuple = ()
    labels: tuple = ()       # other label prefixes counted for this property


def private(E, module, name, *args, **kw):
    """Call a function of the library that is not public. The path is given up when a changed
    tree has no such function any more, or one with other parameters."""
    try:
        f = getattr(importlib.import_module(f"shellous.{module}"), name)
        inspect.signature(f).bind(*args, **kw)
    except (ImportError, AttributeError, TypeError):
        E.abort(f"no {module}.{name}")
    return f(*args, **kw)
