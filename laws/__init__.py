"""Registry of laws: LAWS[property] = [Law]"""
import importlib
import os

LAWS = {}


class Law:
    def __init__(self, prop, name, fn, args, thorough, weight):
        self.prop, self.name, self.fn, self.args, self.thorough, self.weight = prop, name, fn, args, thorough, weight


def law(prop, variants=((),), thorough=(), weight=1):
    """register fn(L, *variant) for every variant; `thorough` variants run only in the thorough tier"""
    def deco(fn):
        for tier, vs in ((False, variants), (True, thorough)):
            for v in vs:
                v = v if isinstance(v, tuple) else (v,)
                nm = fn.__name__ + ('[%s]' % ','.join(str(x) for x in v) if v else '')
                LAWS.setdefault(prop, []).append(Law(prop, nm, fn, v, tier, weight))
        return fn
    return deco


def load():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('__init__.py',):
            importlib.import_module('laws.' + f[:-3])
    return LAWS
