"""Registry of the obligations of each property."""
from ..harness import Ob

OBS = {}


def ob(prop, key, anchor, do, ref='', **kw):
    o = Ob(prop, key, anchor, do, ref, **kw)
    OBS.setdefault(prop, []).append(o)
    return o
