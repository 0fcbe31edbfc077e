"""All registered properties."""

import importlib

MODULES = ["p_lifecycle", "p_async", "p_status", "p_datas", "p_prompt", "p_wiring", "p_builds", "p_lookup", "p_terminal", "p_watch", "p_launch", "p_trace", "p_concur"]

PROPS = {}
for _m in MODULES:
    for _p in importlib.import_module(f"checks.{_m}").PROPS:
        assert _p.id not in PROPS, _p.id
        PROPS[_p.id] = _p
