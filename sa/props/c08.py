"""C08: every value has exactly one rendering, decided by its type."""
from .common import *
from .c18 import scenario

PRE = "from whatami.plugins import WhatamiPluginManager as M\n"
R = PRE + "r = M.build_string(v)"


def rend(key, spec, ref, anchor, setup=None, facts=(), opaque=None, vars=None, **kw):
    op = nested()
    op.update(opaque or {})
    vs = dict(v=spec)
    vs.update(vars or {})
    ob('C08', key, 'whatami/plugins.py:' + anchor, R, PRE + 'bs = M.build_string\n' + ref, vars=vs, opaque=op, setup=setup,
       facts=list(facts), **kw)


JOIN = "e = '%s' %% ','.join([bs(x) for x in v])"
rend('list', 'list', JOIN % '[%s]', 'list_plugin')
rend('tuple', 'tuple', JOIN % '(%s)', 'tuple_plugin')
rend('set', 'set', "e = '{%s}' % ','.join(sorted([bs(x) for x in v])) if len(v) else 'set()'", 'set_plugin')
rend('frozenset', 'frozenset', "e = 'frozenset({%s})' % ','.join(sorted([bs(x) for x in v])) if len(v) else 'frozenset()'",
     'set_plugin')
rend('dict', 'dict', "e = '{%s}' % ','.join(sorted(['%s:%s' % (bs(k), bs(x)) for k, x in v.items()]))", 'dict_plugin')
SUB = "e = '%%s(seq=%s)' %% (v.__class__.__name__, ','.join([bs(x) for x in v]))"
rend('list-subclass', None, SUB % '[%s]', 'list_plugin', proper('list'), PLAIN)
rend('tuple-subclass', None, SUB % '(%s)', 'tuple_plugin', proper('tuple'), PLAIN)
for t in ('set', 'frozenset'):
    rend(t + '-subclass', None, """
inner = '{%s}' % ','.join(sorted([bs(x) for x in v])) if len(v) else 'set()'
e = '%s(seq=%s)' % (v.__class__.__name__, inner)""", 'set_plugin', proper(t), PLAIN)
rend('str', 'str', "e = \"'%s'\" % v.replace(\"\\\\'\", \"'\").replace(\"'\", \"\\\\'\")", 'string_plugin')
rend('str-subclass', None, "e = \"'%s'\" % v.replace(\"\\\\'\", \"'\").replace(\"'\", \"\\\\'\")", 'string_plugin', proper('str'), PLAIN)
for t in ('int', 'float', 'bool', 'NoneType'):
    rend(t, t, "e = str(v)", 'anyobject_plugin')
for t in ('int', 'float', 'complex'):
    ob('C08', 'type-' + t, 'whatami/plugins.py:numeric_type_plugin', PRE + 'r = M.build_string(%s)' % t, "e = '%s()'" % t)
rend('property', 'property', "raise Exception()", 'property_plugin')
rend('builtin', 'builtin', "raise Exception()", 'builtin_plugin')

WID = {('whatami.what', 'What.id'): make_opaque('whatid', T['str'])}
rend('what', WHAT_CLS, "e = v.id()", 'what_plugin', opaque=WID)
rend('what-subclass', None, "from whatami import What\ne = What.id(v)", 'what_plugin', opaque=WID,
     setup=lambda I: I.set_type(S('v'), isa=frozenset([repo_class(I, 'whatami.what', 'What')])))

OBJ = PRE + """
from whatami import What
class K(%s):
    def what(self):
        return What(name, conf, nik, out)
v = K()
r = M.build_string(v)
"""


def inner_only():
    """build_string interpreted once, uninterpreted from then on."""
    key = (PM, 'WhatamiPluginManager.build_string')
    leaf = last_arg('bs', T['str'])

    def f(I, args, kw, node):
        if I.phase == 'do' and not any(q[0] == key[1] for q in I.fstack):
            return NotImplemented
        return leaf(I, args, kw, node)
    return {key: f}


for b in ('object', 'list', 'dict', 'str', 'tuple', 'set'):
    ob('C08', 'whatable-' + b, 'whatami/plugins.py:whatable_plugin', OBJ % b, "e = What(name, conf, nik, out).id()",
       vars=WHAT, opaque=inner_only())
ob('C08', 'function', 'whatami/plugins.py:function_plugin', PRE + """
def fun(a, c=dc, d=dd):
    return a
def fun1(a, b, d=dd):
    return a
r1 = M.build_string(fun)
r5 = M.build_string(fun1)
r2 = M.build_string(lambda x, y=dc: x)
def nodef(a, b):
    return a
r3 = M.build_string(nodef)
def none():
    return 1
r4 = M.build_string(none)
""", """
bs = M.build_string
from whatami import What
e1 = What('fun', {'c': dc, 'd': dd}).id()
e5 = What('fun1', {'d': dd}).id()
e2 = What('lambda', {'y': dc}).id()
e3 = 'nodef()'
e4 = 'none()'
""", vars=dict(dc=None, dd=None), opaque=inner_only())
ob('C08', 'partial', 'whatami/plugins.py:partial_plugin', PRE + """
from functools import partial
def fun(a, b, c=dc, d=dd):
    return a
def fun1(a, b, d=dd):
    return a
def fun3(a, b=dc, c=dc, d=dd):
    return a
r1 = M.build_string(partial(fun, d=px))
r5 = M.build_string(partial(fun1, px))
r6 = M.build_string(partial(fun3, px))
r7 = M.build_string(partial(fun3, pa, px, c=py))
r2 = M.build_string(partial(fun, b=px, c=py))
r3 = M.build_string(partial(partial(fun, b=px, c=px), c=py))
r4 = M.build_string(partial(fun, pa, px))
""", """
from whatami import What
e1 = What('fun', {'c': dc, 'd': px}).id()
e2 = What('fun', {'b': px, 'c': py, 'd': dd}).id()
e3 = What('fun', {'b': px, 'c': py, 'd': dd}).id()
e5 = What('fun1', {'a': px, 'd': dd}).id()
e6 = What('fun3', {'a': px, 'b': dc, 'c': dc, 'd': dd}).id()
e7 = What('fun3', {'a': pa, 'b': px, 'c': py, 'd': dd}).id()
e4 = What('fun', {'a': pa, 'b': px, 'c': dc, 'd': dd}).id()
""", vars=dict(dc=None, dd=None, px=None, py=None, pa=None), opaque=inner_only(), rec=4)
NOCONF = {('whatami.misc', 'config_dict_for_object'): lambda I, a, k, n: I.models.m_dict(I, [], [], n, None)}
rend('odict', 'OrderedDict', """
from whatami import What
w = What('OrderedDict', {'seq': 0})
e = 'OrderedDict(seq=%s)' % bs(list(v.items()))""", 'dict_plugin', facts=PLAIN, opaque=NOCONF)
rend('dict-subclass', None, """
e = '%s(seq=%s)' % (v.__class__.__name__, bs({k: x for k, x in v.items()}))""", 'dict_plugin', proper('dict', 'OrderedDict'), PLAIN,
     opaque=NOCONF)


def other(I):
    """An instance of a class nobody knows about, that is no callable."""
    I.set_type(S('v'), nota=frozenset([T[t] for t in (
        'str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'property', 'function', 'partial', 'builtin', 'type', 'int',
        'float', 'bool', 'complex', 'NoneType', 'module')] + [repo_class(I, 'whatami.what', 'What')]))
    for lib, names in (('pandas', ('DataFrame', 'Series')), ('numpy', ('ndarray',))):
        for n in names:
            I.set_type(S('v'), nota=I.typeinfo(S('v')).nota | frozenset([Ext(lib + '.' + n)]))
    I.set_type(S('v'), nota=I.typeinfo(S('v')).nota | frozenset([Ext('numpy.random.RandomState')]))


rend('object', None, """
e = '%s()' % v.__class__.__name__ if ' at 0x' in str(v) else str(v)""", 'anyobject_plugin', setup=other, facts=PLAIN)
ob('C08', 'first', 'whatami/plugins.py:WhatamiPluginManager.build_string', PRE + """
def p1(v):
    return f1(v)
def p2(v):
    return f2(v)
M.PLUGINS = (p1, p2)
r = M.build_string(v)
""", """
x = f1(v)
y = f2(v) if x is None else None
e = y if x is None else x
""", vars=dict(f1=None, f2=None, v=None), writes_ok=True)

# random generators are told by their whole state
RNG = UNMODELLED + """
class Lib(Unmodelled):
    pass
class RandomState(object):
    def __init__(self, state):
        self._state = state
    def __getstate__(self):
        return self._state
    def get_state(self, legacy=True):
        return self._state
class Sub(RandomState):
    pass
class Other(object):
    pass
import whatami.plugins as P
P.np = lib = Lib()
lib.random = Lib()
lib.random.RandomState, lib.ndarray = RandomState, Other
from whatami import What
def there():
    return True
def gone():
    return False
"""
for key, has in (('rng', 'there'), ('rng-absent', 'gone')):
    ob('C08', key, 'whatami/plugins.py:rng_plugin', RNG + """
state = {'kind': 'MT', 'pos': x, 'more': {'key': [y, z], 'left': x}}
r = [P.rng_plugin(RandomState(state)), P.rng_plugin(Sub(state)), P.rng_plugin(RandomState(('MT', x, [y, z])))]
r2 = [P.rng_plugin(v) for v in (x, n, None, RandomState, Other(), [RandomState(state)])]
""", """
e2 = [None] * 6
e = [None] * 3
""" + ("" if has == 'gone' else """
e = ["%s(state=dict(seq={'kind':'MT','more':{'key':[%s,%s],'left':%s},'pos':%s}))" % (c, y, z, x, x) for c in ('RandomState', 'Sub')] + ["RandomState(state=tuple(seq=('MT',%s,[%s,%s])))" % (x, y, z)]
"""), vars=dict(x='int', y='int', z='int', n='str'), rec=6,
       opaque={('whatami.plugins', 'has_numpy'): scenario(has), ('whatami.plugins', 'has_pandas'): scenario('gone')})
# what no plugin knows about is told by its text, or by its class when the text is not always the same
PLACED = """
class Clock(object):
    def __str__(self):
        return 'clock at 0x' + h
class Named(object):
    def __repr__(self):
        return 'N:' + h
class Both(object):
    def __str__(self):
        return s
    def __repr__(self):
        return 'at 0x'
class Int(int):
    pass
class Plain(object):
    pass
"""
ob('C08', 'text-placed', 'whatami/plugins.py:anyobject_plugin', "from whatami.plugins import anyobject0x_plugin as p, anyobject_plugin as q\n" + PLACED + "r = [p(Clock()), p(Named()), p(Both())]\nr2 = [q(Named()), q(Both())]\n",
   PLACED + "e = ['Clock()', 'Named()' if ' at 0x' in 'N:' + h else None, 'Both()' if ' at 0x' in s else None]\ne2 = ['N:' + h, s]\n", vars=dict(h='str', s='str'))
ob('C08', 'types', 'whatami/plugins.py:numeric_type_plugin', "from whatami.plugins import numeric_type_plugin as p\n" + PLACED + "r = [p(q) for q in (int, float, complex, bool, Int, Plain, str, list, type, object, None, 0, 1.5, 'int', (int,))]\n",
   "e = ['int()', 'float()', 'complex()'] + [None] * 12\n", vars={})
OWN = """
from whatami import What
class Own(object):
    def __init__(self, w):
        self.what = w
class Method(object):
    def __init__(self, w):
        self.w = w
    def what(self):
        return self.w
class Like(object):
    def id(self):
        return 'Like()'
class Sub(What):
    pass
"""
ob('C08', 'own-what', 'whatami/plugins.py:whatable_plugin', OWN + """
from whatami.plugins import whatable_plugin as p
r = [p(q) for q in (Method(What('b', {'x': x})), Method(Sub('c', {'x': x})))]
r2 = [p(q) for q in (Own(None), Own('a()'), Own(3), Own(Like()), Method(None), Method('a()'), Method(Like()), Own([What('a', {})]))]
r3 = [p(q) for q in (x, s, None, What('a', {}), Method, Own, [Own(What('a', {}))])]
""", "t = 'x=' + repr(x)\ne = ['b(' + t + ')', 'c(' + t + ')']\ne2 = [None] * 8\ne3 = [None] * 7\n", vars=dict(x='int', s='str'), rec=5)
for key, v, text in (('none', '{None: None}', '{None:None}'), ('inside', "{1: {None: None}}", '{1:{None:None}}'), ('falsy', "{0: 0}", '{0:0}'), ('empty', "{'': ''}", "{'':''}"), ('false', "{False: []}", '{False:[]}'),
                     ('tuple', '{(): {}}', '{():{}}'), ('two', "{None: 0, 1: None}", '{1:None,None:0}'), ('list', '[None, 0, [], {}, ()]', '[None,0,[],{},()]'), ('set', '{None}', '{None}'),
                     ('frozenset', 'frozenset([0, None])', 'frozenset({0,None})'), ('nested', "{frozenset(), ()}", '{(),frozenset()}')):
    ob('C08', 'falsy-' + key, 'whatami/plugins.py:WhatamiPluginManager.build_string', PRE + "r = M.build_string(%s)" % v, "e = %r" % text, vars={}, rec=4)
# a class of whatables is not one of them
ob('C08', 'whatable-class', 'whatami/plugins.py:whatable_plugin', """
from whatami import whatable, What
from whatami.plugins import whatable_plugin as p
@whatable
class One(object):
    def __init__(self, a):
        self.a = a
class Two(One):
    pass
@whatable
def fun(a, b=x):
    return a
class Self(object):
    @classmethod
    def what(cls):
        return What('self', {'x': x})
r = [p(One), p(Two)]
r2 = [p(One(x)), p(Two(x)), p(fun), p(Self), p(Self())]
""", "t = repr(x) + ')'\ne = [None, None]\ne2 = ['One(a=' + t, 'Two(a=' + t, 'fun(b=' + t, 'self(x=' + t, 'self(x=' + t]\n", vars=dict(x='int'), rec=5)

# values with the same text are as many as they are, and the empty text is a text
ob('C08', 'same-texts', 'whatami/plugins.py:set_plugin', PRE + """
from whatami import What
class K(object):
    def __init__(self, what):
        self._what = what
    def what(self):
        return self._what
class T(object):
    def __str__(self):
        return ''
def same():
    return [K(What('k', {'a': 1})), K(What('k', {'a': 1}))]
r1 = M.build_string(set(same()))
r2 = M.build_string(frozenset(same()))
r3 = M.build_string(same())
r4 = M.build_string(tuple(same()))
p, q = same()
r5 = M.build_string({p: 1, q: 1})
r6 = M.build_string(T())
r7 = M.build_string([T(), T()])
r8 = What('n', {'a': T(), 'b': {'k': T()}}).id()
""", """
e1 = '{k(a=1),k(a=1)}'
e2 = 'frozenset({k(a=1),k(a=1)})'
e3 = '[k(a=1),k(a=1)]'
e4 = '(k(a=1),k(a=1))'
e5 = '{k(a=1):1,k(a=1):1}'
e6 = ''
e7 = '[,]'
e8 = "n(a=,b={'k':})"
""", vars={}, rec=6)
