"""C29: the helpers that look at classes tell what is there, and decorated hierarchies are decorated once and whole."""
from .common import *

M = 'whatami/misc.py:'
V = dict(x='int', y='int', z='int', n='str', t='str')
IMP = "from whatami.misc import decorate_some, is_iterable, fqn, all_subclasses, is_closure\nimport whatami.misc as misc\nfrom future.utils import with_metaclass\nfrom functools import partial\n"


def hob(key, anchor, code, ref, **kw):
    kw.setdefault('vars', V)
    ob('C29', key, M + anchor, IMP + code, ref, rec=kw.pop('rec', 12), **kw)


# --- decorated hierarchies
DEC = """
def mark(name):
    def deco(f):
        def g(self, *a):
            return (name,) + f(self, *a)
        return g
    return deco
A, B, Q = mark('A'), mark('B'), mark('Q')
"""
for key, decs, calls in (
        ('one', 'foo=A', ("('A', 'base')", "('bar',)", "('A', 'sub', 'A', 'base')", "('A', 'deep', 'A', 'sub', 'A', 'base')")),
        ('list', 'foo=[A]', ("('A', 'base')", "('bar',)", "('A', 'sub', 'A', 'base')", "('A', 'deep', 'A', 'sub', 'A', 'base')")),
        ('two', 'foo=(A, B)', ("('B', 'A', 'base')", "('bar',)", "('B', 'A', 'sub', 'B', 'A', 'base')", "('B', 'A', 'deep', 'B', 'A', 'sub', 'B', 'A', 'base')")),
        ('same-twice', 'foo=[A, A]', ("('A', 'A', 'base')", "('bar',)", "('A', 'A', 'sub', 'A', 'A', 'base')", "('A', 'A', 'deep', 'A', 'A', 'sub', 'A', 'A', 'base')")),
        ('other', 'bar=A', ("('base',)", "('A', 'bar')", "('sub', 'base')", "('deep', 'sub', 'base')")),
        ('both', 'foo=A, bar=[B, Q]', ("('A', 'base')", "('Q', 'B', 'bar')", "('A', 'sub', 'A', 'base')", "('A', 'deep', 'A', 'sub', 'A', 'base')")),
        ('absent', 'nope=A', ("('base',)", "('bar',)", "('sub', 'base')", "('deep', 'sub', 'base')")),
        ('none', '', ("('base',)", "('bar',)", "('sub', 'base')", "('deep', 'sub', 'base')")),
        ('empty', 'foo=()', ("('base',)", "('bar',)", "('sub', 'base')", "('deep', 'sub', 'base')"))):
    for how, base in (('with', 'with_metaclass(Meta)'), ('keyword', 'object, metaclass=Meta')):
        hob('decorate-%s-%s' % (key, how), 'decorate_some', DEC + """
Meta = decorate_some(%s)
class Base(%s):
    data = x
    def foo(self):
        return ('base',)
    def bar(self):
        return ('bar',)
class Sub(Base):
    def foo(self):
        return ('sub',) + super(Sub, self).foo()
class Plain(Sub):
    pass
class Deep(Plain):
    def foo(self):
        return ('deep',) + super(Deep, self).foo()
class Other(Base):
    def bar(self):
        return ('other',)
r1 = [Base().foo(), Base().bar(), Sub().foo(), Deep().foo()]
r2 = [Plain().foo(), Sub().bar(), Plain().bar(), Deep().bar()]
r3 = (Base.data, Deep.data, Base.__name__, Deep.__name__, isinstance(Deep(), Base))
r4 = Other().bar()
""" % (decs, base), """
e1 = [%s, %s, %s, %s]
e2 = [%s, %s, %s, %s]
e3 = (x, x, 'Base', 'Deep', True)
e4 = %s
""" % (calls + (calls[2], calls[1], calls[1], calls[1]) + (calls[1].replace("'bar'", "'other'"),)))
hob('decorate-name', 'decorate_some', "r = [decorate_some().__name__, decorate_some('There').__name__, decorate_some(name='Here', foo=id).__name__]", "e = ['DecorateSome', 'There', 'Here']")
hob('decorate-data', 'decorate_some', "Meta = decorate_some(v=lambda q: q + 1, w=[str, len])\nclass K(with_metaclass(Meta)):\n    v = x\n    w = 'a'\nclass L(K):\n    v = y\nclass P(K):\n    pass\nr = (K.v, K.w, L.v, L.w, P.v)", "e = (x + 1, 1, y + 1, 1, x + 1)")
hob('decorate-apart', 'decorate_some', DEC + """
M1 = decorate_some(foo=A)
M2 = decorate_some(foo=[B])
class K(with_metaclass(M1)):
    def foo(self):
        return ('k',)
class L(with_metaclass(M2)):
    def foo(self):
        return ('l',)
class N(object):
    def foo(self):
        return ('n',)
class O(with_metaclass(M1)):
    def foo(self):
        return ('o',)
r = [c().foo() for c in (K, L, N, O)]
""", "e = [('A', 'k'), ('B', 'l'), ('n',), ('A', 'o')]")
hob('decorate-given', 'decorate_some', DEC + "ds = [A, B]\nMeta = decorate_some(foo=ds)\nclass K(with_metaclass(Meta)):\n    def foo(self):\n        return ('k',)\nclass L(K):\n    def foo(self):\n        return ('l',)\nr = (len(ds), L().foo())", "e = (2, ('B', 'A', 'l'))")

# --- what can be iterated
hob('iterable-builtin', 'is_iterable', "r = [is_iterable(v) for v in ([], (x,), {}, {x: y}, set(), t, '', iter([x]), range(3), (q for q in []), map(str, []))]", "e = [True] * 11")
hob('iterable-not', 'is_iterable', "class K(object):\n    pass\ndef f():\n    yield 1\nr = [is_iterable(v) for v in (None, x, 1.5, True, K, K(), f, is_iterable, int, object())]", "e = [False] * 10")
hob('iterable-own', 'is_iterable', """
class I(object):
    def __iter__(self):
        return iter(())
class G(object):
    def __getitem__(self, i):
        raise IndexError(i)
class B(object):
    def __iter__(self):
        raise TypeError()
class N(object):
    __iter__ = None
class S(I):
    pass
r = [is_iterable(v) for v in (I(), G(), B(), N(), S(), I)]
""", "e = [True, True, False, False, True, False]")
hob('iterable-once', 'is_iterable', "i = iter([x, y])\nis_iterable(i)\nr = list(i)", "e = [x, y]")
hob('iterable-raises', 'is_iterable', "class B(object):\n    def __iter__(self):\n        raise ValueError()\ntry:\n    is_iterable(B())\n    r = 'hidden'\nexcept ValueError:\n    r = 'raised'", "e = 'raised'")

# --- full names
NEST = "class K(object):\n    class In(object):\n        def m(self):\n            return 1\n    def m(self):\n        return 1\ndef f():\n    return 1\n"
hob('fqn-module', 'fqn', "import whatami.what as w\nr = [fqn(w.What), fqn(w.whatareyou), fqn(w.What.id), fqn(w.What('a', {}), use_class=True), fqn(w.What('a', {}), True)]",
    "e = ['whatami.what.What', 'whatami.what.whatareyou', 'whatami.what.What.id', 'whatami.what.What', 'whatami.what.What']")
hob('fqn-builtin', 'fqn', "r = [fqn(int), fqn(dict), fqn(x, use_class=True), fqn([], True), fqn(t, use_class=True)]", "e = ['builtins.int', 'builtins.dict', 'builtins.int', 'builtins.list', 'builtins.str']")
hob('fqn-of-class', 'fqn', "from whatami import What\nr = [fqn(What, use_class=True), fqn(int, True), fqn(int, False)]", "e = ['builtins.type', 'builtins.type', 'builtins.int']")
hob('fqn-nested', 'fqn', "import whatami.registry as g\nr = [fqn(g.Recorder), fqn(g.WhatamiRegistry.register), fqn(g._DefaultDict(1), use_class=True)]", "e = ['whatami.registry.Recorder', 'whatami.registry.WhatamiRegistry.register', 'whatami.registry._DefaultDict']")
hob('fqn-no-qualname', 'fqn', "class O(object):\n    def __init__(self):\n        self.__module__ = n\n        self.__name__ = t\nr = fqn(O())", "e = n + '.' + t")

# --- subclasses
SUBS = "class A(object):\n    pass\nclass B(A):\n    pass\nclass C(B):\n    pass\nclass D(A):\n    pass\nclass E(C, D):\n    pass\nclass F(E):\n    pass\nclass G(F):\n    pass\nclass Z(object):\n    pass\n"
hob('subclasses', 'all_subclasses', SUBS + "r = [set(all_subclasses(k)) for k in (A, B, C, D, E, Z)]\nr2 = [k in all_subclasses(k) for k in (A, B, E)]\nr3 = type(all_subclasses(Z)) is list",
    "e = [set([B, C, D, E, F, G]), set([C, E, F, G]), set([E, F, G]), set([E, F, G]), set([F, G]), set()]\ne2 = [False] * 3\ne3 = True")
hob('closure', 'is_closure', "def out():\n    q = x\n    def g():\n        return q\n    return g\ndef f():\n    return x\nclass K(object):\n    pass\nr = [is_closure(out()), is_closure(f), is_closure(len), is_closure(K), is_closure(3), is_closure(partial(f)), is_closure(lambda: 3)]",
    "e = [True, False, False, False, False, False, False]")
hob('closure-two', 'is_closure', "def out(q, w):\n    def g():\n        return q + w\n    def h():\n        return lambda: (q, w, g)\n    return g, h, h()\nr = [is_closure(f) for f in out(x, y)] + [is_closure(out)]", "e = [True, True, True, False]")
hob('closure-default', 'is_closure', "def out(q):\n    return lambda w=q: w\ndef out2(q):\n    return lambda: q\nr = [is_closure(out(x)), is_closure(out2(x))]", "e = [False, True]")
EXT = """
def f(a, b=x):
    return a
def wrap(f):
    def g(*args):
        return f(*args)
    return g
def wrapped(f, **attrs):
    g = wrap(f)
    for k in attrs:
        setattr(g, k, attrs[k])
    return g
def two(f, q):
    def g():
        return f(q)
    g.what = 1
    return g
def data(q):
    def g():
        return q
    g.what = 1
    return g
"""
hob('extract', 'extract_decorated_function_from_closure', EXT + "unwrap = misc.extract_decorated_function_from_closure\ng = wrapped(f, what=1)\nh = wrap(f)\nd = two(f, x)\nl = data(x)\nw = wrapped(g, what=2)\nm = wrapped(h, what=3)\nr = [unwrap(g) is f, unwrap(f) is f, unwrap(h) is h, unwrap(d) is d, unwrap(l) is l, unwrap(w) is f, unwrap(m) is h]", "e = [True] * 7")
hob('fqn-local', 'fqn', "def out():\n    class L(object):\n        class In(object):\n            def m(self):\n                return 1\n    def g():\n        return 1\n    return L, L.In, L.In.m, g\nr = [q.split('.')[-k:] for q, k in zip([fqn(o) for o in out()], (3, 4, 5, 3))]\nL = out()[0]\nr2 = fqn(L(), use_class=True) == fqn(L)",
    "e = [['out', '<locals>', 'L'], ['out', '<locals>', 'L', 'In'], ['out', '<locals>', 'L', 'In', 'm'], ['out', '<locals>', 'g']]\ne2 = True")
hob('closure-function', 'is_closure', "def h():\n    return 1\ndef out(f):\n    def g():\n        return f()\n    return g\ndef rec():\n    def g(k):\n        return g(k - 1)\n    return g\nr = [is_closure(out(h)), is_closure(out(len)), is_closure(rec()), is_closure(h)]", "e = [True, True, True, False]")
hob('decorate-iterables', 'decorate_some', DEC + """
class Own(object):
    def __iter__(self):
        return iter([A, B])
def call(ds):
    Meta = decorate_some(foo=ds)
    class K(with_metaclass(Meta)):
        def foo(self):
            return ('k',)
    class L(K):
        def foo(self):
            return ('l',)
    return K().foo() + L().foo()
r = [call(ds) for ds in (Own(), {A}, frozenset([B]), {A: x, B: y}, {A: 1}.keys())]
""", "e = [('B', 'A', 'k', 'B', 'A', 'l')] + [('A', 'k', 'A', 'l'), ('B', 'k', 'B', 'l'), ('B', 'A', 'k', 'B', 'A', 'l'), ('A', 'k', 'A', 'l')]")
