"""C23: the parameters found for calls, functions and partials are those the call gets."""
from .common import *

V = dict(x=None, y=None, z=None, u=None, v=None, w=None, xs='tuple', kws='dict', d='dict', nik='list', n='str', k='str')
M = 'whatami/misc.py:'
IMP = "from functools import partial\nfrom whatami import misc\nfrom whatami.misc import callable2call, call_dict\n"
FUN = IMP + """
def none():
    return 1
def q_eq(a, b):
    return a
def mix(a, b, c=x, d=y):
    return a
def opt(a=x, b=y):
    return a
def var(a, b=x, *rest, **more):
    return a
def falsy(a=None, b=0, c=''):
    return a
lam = lambda a, b=x: a
class K(object):
    def __init__(self, a, b=x):
        self.a = a
    def meth(self, a, b=x):
        return a
class C(object):
    def __call__(self, a, b=x):
        return a
"""
for key, c, name, params in (
        ('none', 'none', 'none', '{}'), ('required', 'q_eq', 'q_eq', '{}'), ('mix', 'mix', 'mix', "{'c': x, 'd': y}"), ('optional', 'opt', 'opt', "{'a': x, 'b': y}"),
        ('variable', 'var', 'var', "{'b': x}"), ('falsy', 'falsy', 'falsy', "{'a': None, 'b': 0, 'c': ''}"), ('lambda', 'lam', 'lambda', "{'b': x}"),
        ('builtin', 'len', 'len', '{}'), ('class', 'K', 'K', '{}'), ('partial-class', 'partial(K, a=z)', 'K', "{'a': z}"), ('partial-builtin', 'partial(len, obj=z)', 'len', "{'obj': z}"),
        ('partial-builtin-position', 'partial(len, z)', 'len', '{}'), ('partial-builtin-both', 'partial(map, z, function=u)', 'map', "{'function': u}"), ('partial-class-position', 'partial(K, z, b=u)', 'K', "{'b': u}"),
        ('p-nothing', 'partial(mix)', 'mix', "{'c': x, 'd': y}"),
        ('p-positional', 'partial(mix, z)', 'mix', "{'a': z, 'c': x, 'd': y}"), ('p-two', 'partial(mix, z, u)', 'mix', "{'a': z, 'b': u, 'c': x, 'd': y}"),
        ('p-over-default', 'partial(mix, z, u, v)', 'mix', "{'a': z, 'b': u, 'c': v, 'd': y}"), ('p-all', 'partial(mix, z, u, v, w)', 'mix', "{'a': z, 'b': u, 'c': v, 'd': w}"),
        ('p-keyword', 'partial(mix, c=z)', 'mix', "{'c': z, 'd': y}"), ('p-keyword-required', 'partial(mix, b=z)', 'mix', "{'b': z, 'c': x, 'd': y}"),
        ('p-both', 'partial(mix, z, d=u)', 'mix', "{'a': z, 'c': x, 'd': u}"), ('p-both-two', 'partial(mix, z, u, d=v)', 'mix', "{'a': z, 'b': u, 'c': x, 'd': v}"),
        ('p-nested', 'partial(partial(mix, z), u)', 'mix', "{'a': z, 'b': u, 'c': x, 'd': y}"),
        ('p-nested-keyword', 'partial(partial(mix, c=z), c=u)', 'mix', "{'c': u, 'd': y}"), ('p-nested-keywords', 'partial(partial(mix, c=z), d=u)', 'mix', "{'c': z, 'd': u}"),
        ('p-nested-mixed', 'partial(partial(mix, z, c=u), v, c=w)', 'mix', "{'a': z, 'b': v, 'c': w, 'd': y}"),
        ('p-nested-three', 'partial(partial(partial(mix, z), u), v, d=w)', 'mix', "{'a': z, 'b': u, 'c': v, 'd': w}"),
        ('p-optional', 'partial(opt, z)', 'opt', "{'a': z, 'b': y}"), ('p-falsy', 'partial(mix, None, d=0)', 'mix', "{'a': None, 'c': x, 'd': 0}"),
        ('p-falsy-over', "partial(opt, b=None)", 'opt', "{'a': x, 'b': None}"), ('p-lambda', 'partial(lam, z)', 'lambda', "{'a': z, 'b': x}"),
        ('p-variable', 'partial(var, z, b=u)', 'var', "{'a': z, 'b': u}"), ('p-required', 'partial(q_eq, b=z)', 'q_eq', "{'b': z}")):
    ob('C23', 'call-' + key, M + 'callable2call', FUN + "r1, r2 = callable2call(%s)\n" % c, "e1 = '%s'\ne2 = %s\n" % (name, params), vars=V, rec=6)
    ob('C23', 'call-again-' + key, M + 'callable2call', FUN + "q = %s\ng, h = callable2call(q)\nh['a'] = w\nh['zz'] = w\nr1, r2 = callable2call(q)\n" % c,
       "e1 = '%s'\ne2 = %s\n" % (name, params), vars=V, rec=6, writes_ok=True)
for key, c in (('unknown', 'partial(mix, zz=z)'), ('twice', 'partial(mix, z, a=u)'), ('twice-second', 'partial(mix, z, u, b=v)'), ('too-many', 'partial(q_eq, z, u, v)'),
               ('unknown-variable', 'partial(var, zz=z)'), ('too-many-nested', 'partial(partial(q_eq, z, b=u), v)'), ('not-callable', '3'), ('no-parameters', 'partial(none, z)')):
    ob('C23', 'call-refused-' + key, M + 'callable2call', FUN + "r = callable2call(%s)\n" % c, "raise ValueError('refused')\n", vars=V, rec=6)
# closures are looked through with the function given, at any depth of partials
CLO = IMP + """
def deco(f):
    def inner(*args, **kwargs):
        return f(*args, **kwargs)
    return inner
def mix(a, b=x):
    return a
def see(f):
    return f.__closure__[0].cell_contents
"""
for key, c, params in (('plain', 'deco(mix)', "{'b': x}"), ('partial', 'partial(deco(mix), z)', "{'a': z, 'b': x}"), ('keyword', 'partial(deco(mix), b=z)', "{'b': z}"),
                       ('nested', 'partial(partial(deco(mix), z), b=u)', "{'a': z, 'b': u}")):
    ob('C23', 'closure-' + key, M + 'callable2call', CLO + "r1, r2 = callable2call(%s, see)\n" % c, "e1 = 'mix'\ne2 = %s\n" % params, vars=V, rec=6)
    ob('C23', 'closure-key-' + key, M + 'callable2call', CLO + "r1, r2 = callable2call(%s, closure_extractor=see)\n" % c, "e1 = 'mix'\ne2 = %s\n" % params, vars=V, rec=6)
ob('C23', 'closure-not', M + 'callable2call', CLO + "r1, r2 = callable2call(deco(mix))\nr3, r4 = callable2call(mix, see)\n", "e1 = 'inner'\ne2 = {}\ne3 = 'mix'\ne4 = {'b': x}\n", vars=V, rec=6)
# curried functions are as partials
CUR = FUN + """
class curry(object):
    def __init__(self, func, args, keywords):
        self.func = func
        self.args = args
        self.keywords = keywords
    def __call__(self, a):
        return a
"""
for key, c, params in (('keyword', "curry(mix, (), {'c': z})", "{'c': z, 'd': y}"), ('both', "curry(mix, (z, u), {'d': v})", "{'a': z, 'b': u, 'c': x, 'd': v}"),
                       ('partial', "partial(curry(mix, (z,), {'d': v}), u, d=w)", "{'a': z, 'b': u, 'c': x, 'd': w}"), ('empty', "curry(mix, (), {})", "{'c': x, 'd': y}")):
    ob('C23', 'curry-' + key, M + 'curry2partial', CUR + "r1, r2 = callable2call(%s)\n" % c, "e1 = 'mix'\ne2 = %s\n" % params, vars=V, rec=6)

# --- the parameters of a call
CALL = IMP + """
def plain(a, b=x):
    return call_dict()
def kwargs(a, b=x, **more):
    return call_dict()
def varargs(a, b=x, *rest, **more):
    return call_dict()
def ignoring(a, b=x, *rest, **more):
    return call_dict(ignore_varargs=True)
def changed(a, b=x):
    b = b if b is not None else y
    extra = z
    return call_dict()
def over(a, b=x, **more):
    return call_dict(overrides=d, b=z)
def over_dict(a, b=x, **more):
    return call_dict(overrides={'b': y, 'n': z})
def over_kw(a, b=x, **more):
    return call_dict(b=y, n=z)
def over_both(a, b=x, **more):
    return call_dict(overrides={'b': y, 'n': z, 'depth': u}, b=w, m=v)
def ignored(a, b=x, **more):
    return call_dict(ignores=['b', 'zz'])
def ignored_none(self, cls, b=x):
    return call_dict(ignores=())
def deeper(a, b=x):
    def asks(b2):
        return call_dict(depth=2)
    return asks(z)
def deepest(a, b=x):
    def asks(b2):
        def asks_too():
            return call_dict(3)
        return asks_too()
    return asks(z)
def none():
    return call_dict()
class K(object):
    def __init__(self, a, b=x):
        self.p = call_dict()
    def meth(self, a, b=x):
        return call_dict()
    @classmethod
    def cm(cls, a):
        return call_dict()
    @staticmethod
    def sm(self, a, cls=x):
        return call_dict()
"""
for key, c, params in (
        ('plain', 'plain(z)', "{'a': z, 'b': x}"), ('given', 'plain(z, u)', "{'a': z, 'b': u}"), ('named', 'plain(b=z, a=u)', "{'a': u, 'b': z}"), ('none', 'none()', '{}'),
        ('kwargs', 'kwargs(z, c=u, e=v)', "{'a': z, 'b': x, 'c': u, 'e': v}"), ('kwargs-none', 'kwargs(z)', "{'a': z, 'b': x}"), ('kwargs-falsy', 'kwargs(None, b=0, c=None)', "{'a': None, 'b': 0, 'c': None}"),
        ('varargs-none', 'varargs(z, u, c=v)', "{'a': z, 'b': u, 'c': v}"), ('varargs-ignored', 'ignoring(z, u, v, w, c=v)', "{'a': z, 'b': u, 'c': v}"),
        ('changed', 'changed(z, None)', "{'a': z, 'b': y}"), ('over-dict', 'over_dict(u, b=v, c=w)', "{'a': u, 'b': y, 'c': w, 'n': z}"),
        ('over-kw', 'over_kw(u, b=v, n=w, c=w)', "{'a': u, 'b': y, 'c': w, 'n': z}"), ('over-both', 'over_both(u, n=x)', "{'a': u, 'b': w, 'n': z, 'depth': u, 'm': v}"),
        ('ignored', 'ignored(z, u, c=v)', "{'a': z, 'c': v}"), ('ignored-kwargs', 'ignored(z, zz=u)', "{'a': z, 'zz': u}"), ('ignored-none', 'ignored_none(z, u)', "{'self': z, 'cls': u, 'b': x}"),
        ('deeper', 'deeper(u)', "{'a': u, 'b': x}"), ('deepest', 'deepest(u, v)', "{'a': u, 'b': v}"), ('init', 'K(z).p', "{'a': z, 'b': x}"), ('method', 'K(z).meth(u, v)', "{'a': u, 'b': v}"),
        ('class-method', 'K.cm(z)', "{'a': z}"), ('static-method', 'K.sm(z, u)', "{'a': u}")):
    ob('C23', 'dict-' + key, M + 'call_dict', CALL + "r1 = %s\n" % c, "e1 = %s\n" % params, vars=V)
ob('C23', 'dict-varargs', M + 'call_dict', CALL + "r1 = varargs(z, u, v)\n", "raise ValueError('varargs')\n", vars=V)
ob('C23', 'dict-new', M + 'call_dict', CALL + "o = {'n': y}\ndef f(a, **more):\n    q = call_dict(overrides=o)\n    q['zz'] = x\n    q.pop('a')\n    return [call_dict(), a, more, o]\nr1 = f(z, c=u)\n",
   "e1 = [{'a': z, 'c': u}, z, {'c': u}, {'n': y}]\n", vars=V)
# --- as a configuration
W2 = "from whatami import call2what, What\n"
for key, code, call, name, conf, ids in (
        ('plain', "def f(a, b=x, **more):\n    return call2what()\n", 'f(z, c=u)', 'f', "{'a': z, 'b': x, 'more': {'c': u}}", 'set()'),
        ('nonids', "def f(a, b=x, *rest):\n    return call2what(non_id_keys=['b', 'zz'])\n", 'f(z, u, v)', 'f', "{'a': z, 'b': u, 'rest': (v,)}", "set(['b', 'zz'])"),
        ('deeper', "def h(q):\n    return call2what(depth=2)\ndef f(a, b=x):\n    return h(y)\n", 'f(z)', 'f', "{'a': z, 'b': x}", 'set()'),
        ('deeper-positional', "def h(q):\n    return call2what(2, ['a'])\ndef f(a, b=x):\n    return h(y)\n", 'f(z)', 'f', "{'a': z, 'b': x}", "set(['a'])"),
        ('local', "def f(a, b=x):\n    c = y\n    return call2what()\n", 'f(z)', 'f', "{'a': z, 'b': x, 'c': y}", 'set()'),
        ('hidden', "def f(_a, b_=x, what=None):\n    _c = y\n    self = z\n    return call2what()\n", 'f(z)', 'f', "{'_a': z, 'b_': x, '_c': y, 'what': None, 'self': z}", 'set()'),
        ('none', "def f():\n    return call2what()\n", 'f()', 'f', "{}", 'set()'),
        ('nonids-none', "def f(a):\n    return call2what(non_id_keys=())\n", 'f(None)', 'f', "{'a': None}", 'set()'),
        ('changed', "def f(a, b=x):\n    b = y\n    return call2what()\n", 'f(z)', 'f', "{'a': z, 'b': y}", 'set()')):
    ob('C23', 'call2what-' + key, 'whatami/whatutils.py:call2what', W2 + code + "q = %s\nr1 = q.name\nr2 = q.conf\nr3 = set(q.non_id_keys)\nr4 = q.out_name\n" % call,
       "e1 = '%s'\ne2 = %s\ne3 = %s\ne4 = None\n" % (name, conf, ids), vars=V)

# --- required arguments
for key, f, names in (('none', 'none', []), ('required', 'q_eq', ['a', 'b']), ('mix', 'mix', ['a', 'b']), ('optional', 'opt', []), ('variable', 'var', ['a']), ('lambda', 'lam', ['a']),
                      ('falsy', 'falsy', [])):
    ob('C23', 'required-' + key, M + 'required_args', FUN + "r1 = misc.required_args(%s)\n" % f, "e1 = %r\n" % names, vars=V)
    for mk, args in (('empty', []), ('a', ['a']), ('b', ['b']), ('ab', ['a', 'b']), ('ba', ['b', 'a']), ('zz', ['zz']), ('c', ['a', 'c'])):
        ok = set(args) <= set(names)
        ob('C23', 'ensured-%s-%s' % (key, mk), M + 'ensure_has_positional_args', FUN + "r1 = misc.ensure_has_positional_args(%s, %r) is %s\n" % (f, tuple(args), f),
           "e1 = True\n" if ok else "raise Exception('missing')\n", vars=V)
ob('C23', 'ensured-default', M + 'ensure_has_positional_args', FUN + "r1 = misc.ensure_has_positional_args(opt) is opt\nr2 = misc.ensure_has_positional_args(mix, args=iter(['a', 'b'])) is mix\n", "e1 = True\ne2 = True\n", vars=V)
INIT = IMP + """
class Plain(object):
    pass
class One(object):
    def __init__(self, a, b, c=x):
        self.a = a
class Derived(One):
    pass
class No(object):
    def __init__(self):
        self.a = 1
class Opt(object):
    def __init__(self, a=x, b=y):
        self.a = 1
class Rest(object):
    def __init__(self, a, *rest, **more):
        self.a = 1
"""
for key, c, spec in (('one', 'One', "['self', 'a', 'b', 'c'], None, None, (x,), ['a', 'b']"), ('derived', 'Derived', "['self', 'a', 'b', 'c'], None, None, (x,), ['a', 'b']"),
                     ('no', 'No', "['self'], None, None, None, []"), ('opt', 'Opt', "['self', 'a', 'b'], None, None, (x, y), []"), ('rest', 'Rest', "['self', 'a'], 'rest', 'more', None, ['a']")):
    ob('C23', 'init-' + key, M + 'init_argspec', INIT + "r1, r2, r3, r4, r5 = misc.init_argspec(%s)\nr6 = misc.init_argspec(%s)[4]\n" % (c, c), "e1, e2, e3, e4, e5 = %s\ne6 = e5\n" % spec, vars=V)
