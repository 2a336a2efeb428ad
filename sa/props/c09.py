"""C09: edits of the chain of renderers are atomic, exact, reversible and leave older snapshots alone."""
from .common import *

PRE = """
from whatami.plugins import WhatamiPluginManager as M
default = M.DEFAULT_PLUGINS
before = M.plugins()
"""
A = 'whatami/plugins.py:WhatamiPluginManager.'


def mob(key, anchor, do, ref, vars=None, **kw):
    ob('C09', key, A + anchor, PRE + do, PRE + ref, vars=dict(dict(p=None), **(vars or {})), writes_ok=True, **kw)


def distinct(*names):
    """The symbols are plain functions, different from each other and from every shipped plugin."""
    def f(I):
        ps = repo_class(I, 'whatami.plugins', 'WhatamiPluginManager')
        known = [x.val for x in I.o(I.o(ps).attrs['DEFAULT_PLUGINS']).segs] if isinstance(
            I.o(ps).attrs['DEFAULT_PLUGINS'], Ref) else [x.val for x in I.o(ps).attrs['DEFAULT_PLUGINS'].segs]
        for i, n in enumerate(names):
            I.set_type(S(n), exact=T['function'])
            for k in known + [S(m) for m in names[:i]]:
                for a, b in ((S(n), k), (k, S(n))):
                    for op in ('eq', 'is'):
                        I.assume(App(op, I.freeze(a), I.freeze(b)), False)
    return f


mob('insert-default', 'insert', """
M.insert(p)
r1 = M.plugins()
r2 = before
r3 = M.DEFAULT_PLUGINS is default
""", """
i = default.index(anyobject0x_plugin)
e1 = default[:i] + (p,) + default[i:]
e2 = default
e3 = True
""".replace('i = ', 'from whatami.plugins import anyobject0x_plugin\ni = '), setup=distinct('p'))
mob('insert-end', 'insert', "M.insert(p, before=None)\nr1 = M.plugins()\nr2 = before\n",
    "e1 = default + (p,)\ne2 = default", setup=distinct('p'))
for pl in ('what_plugin', 'string_plugin', 'tuple_plugin', 'dict_plugin', 'rng_plugin', 'anyobject_plugin'):
    mob('insert-before-' + pl, 'insert', """
from whatami.plugins import %s as q
M.insert(p, before=q)
r1 = M.plugins()
""" % pl, """
i = default.index(q)
e1 = default[:i] + (p,) + default[i:]
""", setup=distinct('p'))
mob('insert-positional', 'insert', """
from whatami.plugins import list_plugin as q
M.insert(p, q)
M.insert(p2, p)
r1 = M.plugins()
""", """
i = default.index(q)
e1 = default[:i] + (p2, p) + default[i:]
""", vars=dict(p2=None), setup=distinct('p', 'p2'))
mob('insert-unknown-before', 'insert', """
try:
    M.insert(p, before=p2)
    r1 = 'accepted'
except ValueError:
    r1 = 'refused'
r2 = M.plugins()
""", "e1 = 'refused'\ne2 = default", vars=dict(p2=None), setup=distinct('p', 'p2'))
mob('insert-before-itself', 'insert', """
try:
    M.insert(p, before=p)
    r1 = 'accepted'
except ValueError:
    r1 = 'refused'
r3 = M.plugins()
""", "e1 = 'refused'\ne3 = default", setup=distinct('p'))
mob('insert-twice', 'insert', """
M.insert(p)
now = M.plugins()
try:
    M.insert(p)
    r1 = 'accepted'
except ValueError:
    r1 = 'refused'
try:
    M.insert(p, before=None)
    r2 = 'accepted'
except ValueError:
    r2 = 'refused'
r3 = M.plugins()
r4 = now
""", "e1 = 'refused'\ne2 = 'refused'\ne3 = e4 = default[:-2] + (p,) + default[-2:]", setup=distinct('p'))
for pl in ('what_plugin', 'builtin_plugin', 'set_plugin', 'anyobject0x_plugin', 'anyobject_plugin'):
    mob('known-' + pl, 'drop', """
from whatami.plugins import %s as q
try:
    M.insert(q)
    r1 = 'accepted'
except ValueError:
    r1 = 'refused'
r2 = M.plugins()
M.drop(q)
r3 = M.plugins()
r4 = before
r6 = M.DEFAULT_PLUGINS
M.reset()
r5 = M.plugins()
""" % pl, """
i = default.index(q)
e1 = 'refused'
e2 = default
e3 = default[:i] + default[i + 1:]
e4 = default
e5 = default
e6 = default
""")
mob('drop-unknown', 'drop', """
try:
    M.drop(p)
    r1 = 'accepted'
except ValueError:
    r1 = 'refused'
r3 = M.plugins()
r4 = before
""", "e1 = 'refused'\ne3 = e4 = default", setup=distinct('p'))
mob('insert-drop', 'drop', """
M.insert(p)
mid = M.plugins()
M.drop(p)
r1 = M.plugins()
r2 = mid
try:
    M.drop(p)
    r3 = 'accepted'
except ValueError:
    r3 = 'refused'
""", """
from whatami.plugins import anyobject0x_plugin
i = default.index(anyobject0x_plugin)
e1 = default
e2 = default[:i] + (p,) + default[i:]
e3 = 'refused'
""", setup=distinct('p'))
mob('reset', 'reset', """
M.insert(p)
M.insert(p2, before=None)
from whatami.plugins import dict_plugin
M.drop(dict_plugin)
M.reset()
r1 = M.plugins()
r2 = M.DEFAULT_PLUGINS
M.insert(p2, before=None)
r3 = M.plugins()
M.reset()
r4 = M.plugins()
""", "e1 = default\ne2 = default\ne3 = default + (p2,)\ne4 = default", vars=dict(p2=None), setup=distinct('p', 'p2'))
mob('immutable', 'plugins', """
r1 = isinstance(M.plugins(), tuple)
M.insert(p)
r2 = isinstance(M.plugins(), tuple)
M.drop(p)
r3 = isinstance(M.plugins(), tuple)
M.reset()
r4 = isinstance(M.plugins(), tuple)
r5 = M.plugins()
r6 = M.plugins()
""", "e1 = e2 = e3 = e4 = True\ne5 = e6 = default", setup=distinct('p'))

# the chain in force is the one that renders, whatever happened before
mob('in-force', 'build_string', """
def p(v):
    return f(v)
def last(v):
    return g(v)
M.insert(p, before=M.plugins()[0])
r1 = M.build_string(x)
M.drop(p)
r2 = M.build_string(1)
M.insert(p, before=M.plugins()[0])
M.reset()
r3 = M.build_string(1)
""", """
y = f(x)
e1 = None if y is None else y
e2 = '1'
e3 = '1'
""", vars=dict(f=None, g=None, x=None),
    facts=[(App('is', App('call', S('f'), (S('x'),), ()), NONE), False)])

# any answer but None is the answer, the empty text included
mob('falsy-answer', 'build_string', """
from whatami import What
asked = []
def p(v):
    asked.append('p')
    return '' if v == 1 else None
def q(v):
    asked.append('q')
    return 'q' if v == 2 else None
M.insert(q, before=M.plugins()[0])
M.insert(p, before=q)
r1 = [M.build_string(1), M.build_string(2), M.build_string(3)]
r2 = asked
r3 = What('n', {'a': 1, 'b': 2, 'c': 3}).id()
r4 = What('n', {'a': 1, 'b': 2, 'c': 3}).positional_id()
""", "e1 = ['', 'q', '3']\ne2 = ['p', 'p', 'q', 'p', 'q'] + ['p', 'p', 'q', 'p', 'q'] * 2\ne3 = 'n(a=,b=q,c=3)'\ne4 = 'n(,q,3)'\n")
# managers derived from the shipped one have their own chain, once edited
mob('derived', 'insert', """
class D(M):
    pass
class D2(D):
    DEFAULT_PLUGINS = (p2,)
D.insert(p)
r1 = (M.plugins(), D.plugins(), D2.plugins())
M.insert(p2, before=None)
r2 = (M.plugins(), D.plugins())
D.drop(p)
r3 = (M.plugins(), D.plugins())
D2.reset()
D.reset()
r4 = (M.plugins(), D.plugins(), D2.plugins(), M.DEFAULT_PLUGINS)
""", """
d = default[:-2] + (p,) + default[-2:]
e1 = (default, d, d)
e2 = (default + (p2,), d)
e3 = (default + (p2,), default)
e4 = (default + (p2,), default, (p2,), default)
""", vars=dict(p2=None), setup=distinct('p', 'p2'))
mob('derived-in-force', 'build_string', """
class D(M):
    pass
def p(v):
    return 'mine'
D.insert(p, before=D.plugins()[0])
r = (M.build_string(1), D.build_string(1))
class E(M):
    @classmethod
    def plugins(cls):
        return (p,)
r2 = (M.build_string(x), E.build_string(x))
""", "e = ('1', 'mine')\ne2 = (M.build_string(x), 'mine')", vars=dict(x='int'))
# renderers are what they are, whatever they say of their truth
mob('falsy', 'insert', """
class F(object):
    __name__ = 'F'
    def __bool__(self):
        return False
    __nonzero__ = __bool__
    def __call__(self, v):
        return None
q = F()
M.insert(q)
r1 = M.plugins().index(q)
def p(v):
    return 'p'
M.insert(p, before=q)
r2 = (M.plugins()[-4] is p, M.plugins()[-3] is q, len(M.plugins()))
M.drop(q)
r3 = M.plugins() == default[:-2] + (p,) + default[-2:]
""", "e1 = len(default) - 2\ne2 = (True, True, len(default) + 2)\ne3 = True")
