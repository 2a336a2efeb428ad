"""C03: non identifying parameters stay out of what identifies, unless they are asked for."""
from .common import *

WH = "from whatami import What\nw = What(name, conf, nik, out)\n"
DEF = "e = [k for k in conf if k not in nik]\n"
ALL = "e = [k for k in conf]\n"
IF = "e = [k for k in conf if flag or k not in nik]\n"
V = dict(WHAT)
VF = dict(WHAT, flag='bool')
P = presence('conf')
for key, call, anchor in (
        ('id', 'w.id()', 'What.id'), ('positional', 'w.positional_id()', 'What.positional_id'),
        ('keys', 'w.keys(recursive=False)', 'What.keys'), ('values', 'w.values(recursive=False)', 'What.values'),
        ('flatten', 'w.flatten(recursive=False)[0]', 'What.flatten'),
        ('flatten-values', 'w.flatten(recursive=False)[1]', 'What.flatten'),
        ('copy-id', 'w.copy().id()', 'What.copy'), ('deepcopy-id', 'w.copy(deep=True).keys(recursive=False)', 'What.copy'),
        ('set-id', 'w.set(w.name, w, copy=True).keys(recursive=False)', 'What.set')):
    if key == 'set-id':
        continue
    ob('C03', key, 'whatami/what.py:' + anchor, WH + 'r = ' + call, DEF, vars=V, opaque=BS, view=P)
for key, call, anchor in (
        ('id', 'w.id(nonids_too=flag)', 'What.id'), ('id-pos', 'w.id(flag)', 'What.id'),
        ('positional', 'w.positional_id(non_ids_too=flag)', 'What.positional_id'),
        ('keys', 'w.keys(non_ids_too=flag, recursive=False)', 'What.keys'),
        ('values', 'w.values(non_ids_too=flag, recursive=False)', 'What.values'),
        ('flatten', 'w.flatten(non_ids_too=flag, recursive=False)[0]', 'What.flatten')):
    ob('C03', key + '-asked', 'whatami/what.py:' + anchor, WH + 'r = ' + call, IF, vars=VF, opaque=BS, view=P)
ob('C03', 'str', 'whatami/what.py:What.__str__', WH + 'r = str(w)', ALL, vars=V, opaque=BS, view=P)
ob('C03', 'nested-what', 'whatami/plugins.py:what_plugin', WH + """
from whatami.plugins import what_plugin
r = what_plugin(w)""", DEF, vars=V, opaque=BS, view=P)

# the request reaches the id from every entry point
ID = {('whatami.what', 'What.id'): make_opaque('whatid', T['str'])}
PARSE = {('whatami.parsers', 'parse_whatid'): make_opaque('parse'), ('whatami.parsers', 'parse_oldwhatid'): make_opaque('oldparse')}
DICT = dict(ID)
DICT[('whatami.whatutils', 'id2dict')] = make_opaque('id2dict')
ob('C03', 'to_dict', 'whatami/what.py:What.to_dict', """
r1 = w.to_dict()
r2 = w.to_dict(nonids_too=True)
r3 = w.to_dict(nonids_too=False)
r4 = w.to_dict(True)
""", """
from whatami import id2dict
e1 = id2dict(w.id())
e2 = id2dict(w.id(nonids_too=True))
e3 = id2dict(w.id())
e4 = id2dict(w.id(nonids_too=True))
""", vars=dict(w=WHAT_CLS), opaque=DICT)
# default: nothing is hidden
ob('C03', 'none', 'whatami/what.py:What.__init__', """
from whatami import What
w = What(name, conf)
r = w.keys(recursive=False)
r1 = w.non_id_keys
""", ALL + "e1 = set()\n", vars=V, view=lambda I, n, v: P(I, n, v) if n in 're' else v)
ob('C03', 'declared', 'whatami/what.py:What.__init__', """
from whatami import What
r1 = What(name, conf, nik).non_id_keys
r2 = What(name, conf, non_id_keys=lst).non_id_keys
r3 = What(name, conf, non_id_keys=nik).copy().non_id_keys
r4 = What(name, conf, non_id_keys=nik).copy(deep=True).non_id_keys
""", """
e1 = set(nik)
e2 = set(lst)
e3 = set(nik)
e4 = set(nik)
""", vars=dict(WHAT, lst='list'))

# declared at every place that accepts them
CD = {('whatami.misc', 'config_dict_for_object'): make_opaque('cd', T['dict']),
      ('whatami.misc', 'trim_dict'): make_opaque('trim', T['dict'])}
KEEP = {('whatami.misc', 'config_dict_for_object'): make_opaque('cd', T['dict'])}
OBJ = dict(obj='object', nik='set', exc='tuple')
ob('C03', 'whatareyou-object', 'whatami/what.py:whatareyou', """
from whatami import whatareyou
r1 = whatareyou(obj, non_id_keys=nik).non_id_keys
r2 = whatareyou(obj).non_id_keys
""", "e1 = set(nik)\ne2 = set()", vars=OBJ, opaque=CD)
FUN = """
def fun(a, b, c=dc, d=dd):
    return a
"""
FV = dict(dc=None, dd=None, nik='set', exc='tuple', lst='list')
ob('C03', 'whatareyou-function', 'whatami/what.py:whatareyou', FUN + """
from whatami import whatareyou
r1 = whatareyou(fun, non_id_keys=nik).non_id_keys
r2 = whatareyou(fun, non_id_keys=lst).non_id_keys
r3 = whatareyou(fun).non_id_keys
""", "e1 = set(nik)\ne2 = set(lst)\ne3 = set()", vars=FV)
ob('C03', 'whatable-function', 'whatami/what.py:whatable', FUN + """
from whatami import whatable
f = whatable(fun, non_id_keys=nik)
r1 = [k in f.what().non_id_keys for k in nik]
g = whatable(fun, non_id_keys=lst, modify_func_inplace=True)
r2 = [k in g.what().non_id_keys for k in lst]
h = whatable(non_id_keys=lst)(fun)
r3 = [k in h.what().non_id_keys for k in lst]
""", "e1 = [True for k in nik]\ne2 = [True for k in lst]\ne3 = [True for k in lst]", vars=FV, writes_ok=True)
ob('C03', 'whatable-class', 'whatami/what.py:whatable', """
from whatami import whatable
@whatable(non_id_keys=nik)
class K(object):
    def __init__(self):
        self.x = dc
        self.y = dd
r1 = K().what().non_id_keys
r2 = K().what().conf
""", "e1 = set(nik)\ne2 = {'x': dc, 'y': dd}", vars=FV, writes_ok=True)
ob('C03', 'whatable-object', 'whatami/what.py:whatable', """
from whatami import whatable
class K(object):
    def __init__(self):
        self.x = dc
        self.y = dd
o = whatable(K(), non_id_keys=nik)
r1 = o.what().non_id_keys
r2 = o.what().conf
""", "e1 = set(nik)\ne2 = {'x': dc, 'y': dd}", vars=FV, writes_ok=True)

# nested configurations hide their own names, not those of their containers
NEST = """
from whatami import What
from whatami.plugins import WhatamiPluginManager as M
def q(v):
    return M.build_string(v)
"""
NW = "w = What('o', {'p': What('i', {'a': x, 'b': y}, s2), 'q': z}, s1)\n"
NV = dict(x='str', y='str', z='str', s1='set', s2='set', flag='bool')
IN = """
inner = 'i(' + ','.join([k + '=' + q(v) for k, v in [('a', x), ('b', y)] if %s]) + ')'
"""
for key, call, in_asked in (('', 'w.id()', False), ('-asked', 'w.id(nonids_too=flag)', True)):
    ob('C03', 'nested-id' + key, 'whatami/what.py:What.id', NEST + NW + 'r = ' + call,
       NEST + IN % 'k not in s2' +
       "e = 'o(' + ','.join([k + '=' + v for k, v in [('p', inner), ('q', q(z))] if %s]) + ')'\n" %
       ('flag or k not in s1' if in_asked else 'k not in s1'), vars=NV, rec=3)
for key, flag in (('', 'False'), ('-all', 'True'), ('-asked', 'flag')):
    ob('C03', 'nested-flatten' + key, 'whatami/what.py:What.flatten', NEST + NW + """
r1, vs = w.flatten(non_ids_too=%s)
r3 = len(vs) == len(r1)
r4 = w.keys(non_ids_too=%s)
""" % (flag, flag), """
f = %s
e1 = []
if f or 'p' not in s1:
    e1.append('p')
    if f or 'a' not in s2:
        e1.append(('p', 'a'))
    if f or 'b' not in s2:
        e1.append(('p', 'b'))
if f or 'q' not in s1:
    e1.append('q')
e3 = True
e4 = e1
""" % flag, vars=NV, rec=3)

# which ones are left out does not depend on the values there are
VALUES = "vs = [True, False, None, 0, 1, '', 'x', 2.5, (), [], {}]\ncs = [What('n', {'a': v, 'b': u, 'c': v}, ['b']) for v in vs for u in vs]\n"
SAME_VALUES = "vs = [True, False, None, 0, '', 'x', ()]\ncs = [What('n', {'a': v, 'b': u, 'c': v}, ['b']) for v in vs for u in (v, 1)]\n"
for key, call, ref in (
        ('keys', 'w.keys()', "['a', 'c']"), ('keys-all', 'w.keys(non_ids_too=True)', "['a', 'b', 'c']"),
        ('count', '(len(w.values()), len(w.values(non_ids_too=True)))', '(2, 3)'),
        ('flatten', '(w.flatten()[0], w.flatten(non_ids_too=True)[0])', "(['a', 'c'], ['a', 'b', 'c'])"),
        ('nonids', 'w.non_id_keys', "{'b'}"),
        ('id', "w.id() == What('n', {'a': w.conf['a'], 'c': w.conf['c']}).id()", 'True'),
        ('id-all', "(w.id(nonids_too=True) == What('n', w.conf).id(), str(w) == What('n', w.conf).id())", '(True, True)'),
        ('positional', "(w.positional_id() == What('n', {'a': w.conf['a'], 'c': w.conf['c']}).positional_id(), w.positional_id(True) == What('n', w.conf).positional_id())", '(True, True)')):
    ob('C03', 'any-value-' + key, 'whatami/what.py:' + ('What.id' if 'id' in key else 'What.positional_id' if 'pos' in key else 'What.flatten'),
       'from whatami import What\n' + (VALUES if 'id' not in key[:2] and 'pos' not in key else SAME_VALUES) + 'r = [%s for w in cs]' % call,
       'e = [%s] * %d' % (ref, 121 if 'id' not in key[:2] and 'pos' not in key else 14), rec=6)

# however deep
DEEP = "from whatami import What\nw = What('n', {'a': What('m', {'b': What('l', {'c': What('k', {'x': 1, 'y': 2}, ['y']), 'y': 3}, ['y']), 'y': 4}, ['y']), 'y': 5}, ['y'])\n"
for key, call, ref in (
        ('keys', 'w.keys()', "['a', ('a', 'b'), ('a', 'b', 'c'), ('a', 'b', 'c', 'x')]"),
        ('keys-all', 'w.keys(non_ids_too=True)', "['a', ('a', 'b'), ('a', 'b', 'c'), ('a', 'b', 'c', 'x'), ('a', 'b', 'c', 'y'), ('a', 'b', 'y'), ('a', 'y'), 'y']"),
        ('values', '[v for v in w.values() if not isinstance(v, What)]', '[1]'),
        ('values-all', '[v for v in w.values(non_ids_too=True) if not isinstance(v, What)]', '[1, 2, 3, 4, 5]'),
        ('id', 'w.id()', "'n(a=m(b=l(c=k(x=1))))'"), ('id-all', 'w.id(nonids_too=True)', "'n(a=m(b=l(c=k(x=1))),y=5)'"), ('positional', 'w.positional_id()', "'n(m(b=l(c=k(x=1))))'"),
        ('inside', "(What('p', {'v': [w, {'k': (w,)}]}).id(), What('p', {'v': [w]}).keys(collections_too=True))",
         "('p(v=[n(a=m(b=l(c=k(x=1)))),{\\'k\\':(n(a=m(b=l(c=k(x=1)))))}])', ['v', ('v', 0), ('v', 0, 'a'), ('v', 0, 'a', 'b'), ('v', 0, 'a', 'b', 'c'), ('v', 0, 'a', 'b', 'c', 'x')])")):
    ob('C03', 'deep-' + key, 'whatami/what.py:' + ('What.id' if 'id' in key else 'What.flatten'), DEEP + 'r = ' + call, 'e = ' + ref, rec=12)
# nor in the values, with those of the collections
ob('C03', 'collections-values', 'whatami/what.py:What.values', """
from whatami import What
i = What(n2, {'c': z, 'd': [u, z]}, ['d'])
w = What('n', {'a': [x, {'k': (y,)}], 'b': [z], 'h': (x,), 'l': [i]}, ['b', 'h'])
vs = w.values(collections_too=True)
r1 = [v for v in vs if isinstance(v, (int, str))]
r2 = len(vs)
r3 = [v for v in w.values(non_ids_too=True, collections_too=True) if isinstance(v, (int, str))]
r4 = len(w.values()), len(w.values(non_ids_too=True))
r5 = w.keys(collections_too=True)
r6 = w.flatten(collections_too=True)[0]
r7 = [v for v in w.flatten(collections_too=True)[1] if isinstance(v, (int, str))]
""", """
e1 = [x, y, z]
e2 = 8
e3 = [x, y, z, x, z, u, z]
e4 = (2, 4)
e5 = ['a', ('a', 0), ('a', 1), ('a', 1, 'k'), ('a', 1, 'k', 0), 'l', ('l', 0), ('l', 0, 'c')]
e6 = e5
e7 = [x, y, z]
""", vars=dict(x='str', y='int', z='str', u='int', n2='str'), rec=6)
# what is excluded when decorating a function stays out of its ids too
ob('C03', 'whatable-function-excludes', 'whatami/what.py:whatable', """
from whatami import whatable
def fun(a=x, b=y, what=z):
    return a
r1 = 'what' in whatable(fun).what().non_id_keys
r2 = whatable(fun, excludes=('a',)).what().keys()
r3 = whatable(fun, excludes=('a',), non_id_keys=['b']).what().keys()
r4 = whatable(fun, non_id_keys=['b']).what().keys()
r5 = whatable(excludes=[])(fun).what().keys()
r6 = whatable(excludes=['b'], non_id_keys=())(fun).what().keys()
r7 = whatable(fun, excludes=('a', 'what'), non_id_keys=['b', 'a']).what().keys()
r8 = whatable(excludes=('a',), non_id_keys=['a', 'what'])(fun).what().keys(non_ids_too=False)

""", "e7 = []\ne8 = ['b']\ne1 = True\ne2 = ['b', 'what']\ne3 = ['what']\ne4 = ['a']\ne5 = ['a', 'b', 'what']\ne6 = ['a', 'what']\n", vars=dict(x='str', y='str', z='str'), writes_ok=True, rec=4)
