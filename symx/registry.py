"""Registry of harnesses: which harness decides which property, with which configurations."""
from __future__ import annotations

import importlib
import pkgutil

HARNESSES = {}  # property -> list of entries


class Entry:
    def __init__(self, prop, name, fn, quick, thorough, bounds, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.bounds, self.opts = bounds, opts

    def configs(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return self.thorough
        return self.quick

    def bind(self, cfg):
        fn = self.fn
        return lambda c: fn(c, **cfg)


def harness(prop, *, quick=({},), thorough=None, bounds="", name=None, **opts):
    """Register `async def h(c, **cfg)` as (part of) the check of a property."""

    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            HARNESSES.setdefault(p, []).append(
                Entry(p, name or fn.__name__, fn, [dict(q) for q in quick],
                      None if thorough is None else [dict(t) for t in thorough], bounds, opts))
        return fn

    return deco


def load():
    import harness as pkg

    for m in sorted(pkgutil.iter_modules(pkg.__path__), key=lambda m: m.name):
        importlib.import_module("harness." + m.name)
    return HARNESSES


def find(prop, name):
    for e in HARNESSES.get(prop, ()):
        if e.name == name:
            return e
    raise KeyError((prop, name))
