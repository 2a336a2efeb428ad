"""C13: a registry is a one-to-one map at all times; refused operations change nothing."""
from .common import *

A = 'whatami/registry.py:WhatamiRegistry.'
MODEL = """
class Model(object):
    def __init__(self):
        self.pairs = []
    def register(self, i, n):
        if i is None or n is None:
            raise ValueError()
        for ii, nn in self.pairs:
            if (ii == i) != (nn == n):
                raise Exception()
        for ii, nn in self.pairs:
            if ii == i:
                return i
        self.pairs.append((i, n))
        return i
    def nick2id(self, n):
        for ii, nn in self.pairs:
            if nn == n:
                return ii
        return None
    def id2nick(self, i):
        for ii, nn in self.pairs:
            if ii == i:
                return nn
        return None
    def remove(self, nickname=None, what=None):
        if nickname is None and what is None:
            raise ValueError()
        hit = [p for p in self.pairs if (nickname is None or p[1] == nickname) and (what is None or p[0] == what)]
        if len(hit) != 1:
            raise Exception()
        self.pairs = [p for p in self.pairs if p != hit[0]]
    def nick_or_id(self, i):
        n = self.id2nick(i)
        return i if n is None else n
    def list(self):
        return sorted((n, i) for i, n in self.pairs)
    def reset(self):
        self.pairs = []
R = Model()
"""
PRE = "from whatami.registry import WhatamiRegistry\nR = WhatamiRegistry()\n"
SHOW = """
%(p)s1 = [R.id2nick(q) for q in (i, j, k)]
%(p)s2 = [R.nick2id(q) for q in (m, n, o)]
"""
V = dict(i='str', j='str', k='str', m='str', n='str', o='str')
W = {('whatami.whatutils', 'what2id'): make_opaque('w2id', T['str'])}


def step(s):
    return "try:\n    t = 1\n    %s\nexcept Exception:\n    t = 0\nlog.append(t)\n" % s


def rob(key, anchor, steps, vars=None, opaque=None, **kw):
    body = "log = []\n" + ''.join(step(s) for s in steps)
    ob('C13', key, A + anchor, PRE + body + SHOW % dict(p='r') + "r3 = log\n",
       MODEL + body + SHOW % dict(p='e') + "e3 = log\n", vars=dict(V, **(vars or {})), opaque=opaque, writes_ok=False,
       limit=100, budget=20000, **kw)


rob('register1', 'register', ['R.register(i, m)'])
rob('register2', 'register', ['R.register(i, m)', 'R.register(j, n)'])
rob('register-again', 'register', ['R.register(i, m)', 'R.register(i, n)', 'R.register(j, m)', 'R.register(i, m)'])
rob('register3', 'register', ['R.register(i, m)', 'R.register(j, n)', 'R.register(k, o)'], tier='thorough')
rob('remove-nick', 'remove', ['R.register(i, m)', 'R.register(j, n)', 'R.remove(nickname=o)'], tier='thorough')
rob('remove-nick1', 'remove', ['R.register(i, m)', 'R.remove(nickname=n)'])
rob('remove-what1', 'remove', ['R.register(i, m)', 'R.remove(what=j)'])
rob('remove-both1', 'remove', ['R.register(i, m)', 'R.remove(nickname=n, what=j)'])
rob('remove-positional', 'remove', ['R.register(i, m)', 'R.remove(n, j)'])
rob('remove-none', 'remove', ['R.register(i, m)', 'R.remove()', 'R.remove(None, None)'])
rob('remove-register', 'remove', ['R.register(i, m)', 'R.remove(nickname=m)', 'R.register(i, n)', 'R.register(j, m)'])
rob('remove-register-what', 'remove', ['R.register(i, m)', 'R.remove(what=i)', 'R.register(i, n)', 'R.register(j, m)'])
rob('none', 'register', ['R.register(None, m)', 'R.register(i, None)', 'R.register(j, n)'])

rob('reset', 'reset', ['R.register(i, m)', 'R.reset()', 'R.register(i, n)', 'R.register(j, m)'])
ob('C13', 'list', A + 'list', PRE + """
r0 = R.list()
r1 = R.register(i, m)
r2 = R.list()
r3 = [R.nick_or_id(i), R.nick_or_id(j)]
R.reset()
r4 = R.list()
r5 = R.nick_or_id(i)
""", """
e0 = []
e1 = i
e2 = [(m, i)]
e3 = [m, m if j == i else j]
e4 = []
e5 = i
""", vars=V)
ob('C13', 'list2', A + 'list', PRE + "R.register(i, m)\nR.register(j, n)\nr = R.list()", "e = sorted([(m, i), (n, j)])",
   vars=V, setup=lambda I: [I.assume(App('eq', S(a), S(b)), False) for a, b in (('i', 'j'), ('j', 'i'), ('m', 'n'), ('n', 'm'))])
# whats enter by their id, whatever object carries it
ob('C13', 'by-id', A + 'register', PRE + """
from whatami import what2id
r0 = R.register(x, m) is x
log = []
try:
    R.register(y, n)
    log.append(1)
except Exception:
    log.append(0)
r1 = R.id2nick(what2id(x))
r2 = R.nick2id(m)
r3 = log
r4 = R.nick_or_id(x)
R.remove(what=x)
r5 = R.nick2id(m)
""", """
from whatami import what2id
e0 = True
e1 = m
e2 = what2id(x)
e3 = [1 if (what2id(x) == what2id(y)) == (m == n) else 0]
e4 = m
e5 = None
""", vars=dict(x='object', y='object', m='str', n='str'), opaque=W)
