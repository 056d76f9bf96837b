# -*- coding: utf-8 -*-
"""Harness registry.  Used by the symbolic runner and by the concrete replay
(PyPy), so plain Python without instrumentation."""

HARNESSES = {}      # id -> Harness


def _native(x):
    """Ordinary containers (the harness source is instrumented)."""
    if isinstance(x, dict):
        return dict((k, _native(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [_native(v) for v in x]
    return x


class Harness(object):
    def __init__(self, fn, prop, params, config, tier, reach, note):
        self.fn = fn
        self.prop = prop
        self.params = params
        self.config = config
        self.tier = tier
        self.reach = reach
        self.note = note
        self.id = fn.__module__.split('.')[-1] + '.' + fn.__name__


def harness(prop, params=None, thorough=None, config=('fast',), reach=(), note='',
            tier='quick'):
    """Register a harness.

    params: list of dicts, one obligation each (quick tier);
    thorough: additional list for the thorough tier;
    config: storage back ends under which it runs ('fast' C extension, 'slow');
    reach: labels that must be reached on at least one path (vacuity guard).
    """
    def deco(fn):
        h = Harness(fn, prop, (_native(params or [{}]), _native(thorough or [])), tuple(config), tier,
                    tuple(reach), note)
        HARNESSES[h.id] = h
        return fn
    return deco
