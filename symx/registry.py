"""Harness registry."""
HARNESSES = {}       # property -> list of Harness


class Harness:
    def __init__(self, prop, name, fn, quick, thorough, cases, encodes, outside, mode):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.cases = cases
        self.bounds_doc = encodes
        self.outside = outside
        self.mode = mode


def harness(prop, quick=None, thorough=None, cases=None, bounds='', outside='', mode='A'):
    """register fn(ctx, **params); cases(tier) -> list of parameter dicts explored as separate jobs"""
    def deco(fn):
        HARNESSES.setdefault(prop, []).append(
            Harness(prop, fn.__name__, fn, quick or {}, thorough if thorough is not None else (quick or {}), cases,
                    bounds, outside, mode))
        return fn
    return deco


def find(prop, name):
    for h in HARNESSES.get(prop, []):
        if h.name == name:
            return h
    raise KeyError((prop, name))


def jobs(prop, tier):
    out = []
    for h in HARNESSES.get(prop, []):
        base = dict(h.quick if tier == 'quick' else h.thorough)
        cases = h.cases(tier) if h.cases else [{}]
        for c in cases:
            out.append((h, {**base, **c}))
    return out
