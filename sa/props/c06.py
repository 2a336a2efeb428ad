"""C06: every configuration asked for is a new one: changing it changes neither the next ones nor the object."""
from .common import *

W = 'whatami/what.py:'
U = 'whatami/whatutils.py:'
V = dict(WHAT, x=None, y=None, z=None, l='list', d='dict', n='str', f='bool')
IMP = "from whatami import What, whatable, whatareyou, obj2what, id2what, FunctionLike, whatamize_object\nfrom functools import partial\n"
KINDS = IMP + """
class Plain(object):
    k = z
    def __init__(self):
        self.a = x
        self.b = y
class Slots(object):
    __slots__ = ('a', 'b')
    def __init__(self):
        self.a = x
        self.b = y
class Derived(Plain):
    def __init__(self):
        super(Derived, self).__init__()
        self.a = x
class Props(object):
    @property
    def a(self):
        return x
    @property
    def b(self):
        return y
class Seq(list):
    def __init__(self):
        super(Seq, self).__init__()
        self.a = x
        self.b = y
class Dict(dict):
    def __init__(self):
        super(Dict, self).__init__()
        self.a = x
        self.b = y
class FL(FunctionLike):
    def __init__(self):
        super(FL, self).__init__()
        self.a = x
        self.b = y
def fun(p, a=x, b=y):
    return p
def gun(p, q, a=z, b=y):
    return p
part = partial(gun, a=x)
ppart = partial(partial(gun, a=z), a=x)
"""
CHANGE = """
w = %(ask)s
w.conf['new'] = z
w.conf['a'] = z
del w.conf['b']
w.non_id_keys.add('b')
w.name = n
w.out_name = n
second = %(ask)s
r1 = second.conf.get('a')
r2 = second.conf.get('b')
r3 = 'new' in second.conf
r4 = 'b' in second.non_id_keys
r5 = second.out_name
r6 = second.name
r7 = second.conf is w.conf
r8 = second.non_id_keys is w.non_id_keys
"""
WANT = "e1 = x\ne2 = y\ne3 = False\ne4 = False\ne5 = None\ne6 = '%s'\ne7 = False\ne8 = False\n"
OBJS = (('plain', 'Plain()', 'Plain'), ('slots', 'Slots()', 'Slots'), ('derived', 'Derived()', 'Derived'), ('props', 'Props()', 'Props'),
        ('list', 'Seq()', 'Seq'), ('dict', 'Dict()', 'Dict'), ('functionlike', 'FL()', 'FL'))
FUNS = (('fun', 'fun', 'fun'), ('partial', 'part', 'gun'), ('nested-partial', 'ppart', 'gun'))
for key, obj, name in OBJS + FUNS:
    ob('C06', 'whatareyou-' + key, W + 'whatareyou', KINDS + 'o = %s\n' % obj + CHANGE % {'ask': 'whatareyou(o)'}, WANT % name, vars=V, rec=3)
    ob('C06', 'obj2what-' + key, U + 'obj2what', KINDS + 'o = %s\n' % obj + CHANGE % {'ask': 'obj2what(o)'}, WANT % name, vars=V, rec=3)
    ob('C06', 'whatareyou-options-' + key, W + 'whatareyou', KINDS + 'o = %s\nkeep = set()\n' % obj + CHANGE % {'ask': 'whatareyou(o, n, keep, excludes=set())'}
       + 'r9 = keep\n', (WANT % name).replace("'%s'" % name, 'n') + 'e9 = set()\n', vars=V, rec=3)
for key, obj, name in FUNS:
    for how, make in (('plain', 'whatable(%s)'), ('inplace', 'whatable(%s, modify_func_inplace=True)'), ('options', 'whatable(excludes=())(%s)')):
        if how == 'inplace' and key != 'fun':
            continue
        ob('C06', 'whatable-%s-%s' % (how, key), W + 'whatable', KINDS + 'o = %s\n' % (make % obj) + CHANGE % {'ask': 'o.what()'}
           + 'r9 = o.what().conf.get("a")\n', WANT % name + 'e9 = x\n', vars=V, rec=3, writes_ok=True)
        ob('C06', 'whatable-names-%s-%s' % (how, key), W + 'whatable', KINDS + """
o = %s
r1 = whatareyou(%s).conf
o.what().conf['a'] = z
r2 = whatareyou(%s).conf
""" % (make % obj, obj, obj), "e1 = {'a': x, 'b': y}\ne2 = e1\n", vars=V, rec=3, writes_ok=True)
for key, obj, name in OBJS[:6]:
    for how, make in (('object', 'whatable(%s())'), ('class', 'whatable(%s)()'), ('options', 'whatable(excludes=())(%s)()')):
        if how == 'object' and key in ('slots',):
            continue
        exclude = "w0 = o\n" if how != 'options' else "w0 = o\n"
        ob('C06', 'whatable-%s-%s' % (how, key), W + 'whatable', KINDS + 'o = %s\n' % (make % obj[:-2]) + CHANGE % {'ask': 'o.what()'},
           WANT % name, vars=V, rec=3, writes_ok=True)
for key, obj, name in FUNS:
    ob('C06', 'whatable-itself-%s' % key, W + 'whatable', KINDS + """
o = whatable(%s, modify_func_inplace=True)
r1 = o is %s
o2 = whatable(%s)
r2 = o2.what().conf
q = whatable(%s, excludes=('a',))
r3 = (o2.what().conf, q.what().conf)
""" % ((obj,) * 4), "e1 = True\ne2 = {'a': x, 'b': y}\ne3 = ({'a': x, 'b': y}, {'a': x, 'b': y})\n", vars=V, rec=3, writes_ok=True)
# what the object has is left alone, and so are the values that come later
for key, obj, name in OBJS[:2] + OBJS[6:]:
    ob('C06', 'object-kept-' + key, W + 'whatareyou', KINDS + """
o = %s
w = obj2what(o)
w.conf['a'] = z
w.conf['c'] = z
del w.conf['b']
r1 = o.a
r2 = o.b
r3 = hasattr(o, 'c')
o.a = n
r4 = w.conf['a']
r5 = obj2what(o).conf['a']
r6 = obj2what(o).conf['b']
""" % obj, "e1 = x\ne2 = y\ne3 = False\ne4 = z\ne5 = n\ne6 = y\n", vars=V, rec=3)
ob('C06', 'two-objects', W + 'whatable', KINDS + """
K = whatable(Plain)
o1 = K()
o2 = K()
o2.a = n
w1 = o1.what()
w2 = o2.what()
w1.conf['b'] = z
r1 = w2.conf
r2 = o1.what().conf
""", "e1 = {'a': n, 'b': y}\ne2 = {'a': x, 'b': y}\n", vars=V, writes_ok=True)
ob('C06', 'two-functions', W + 'whatable', KINDS + """
def other(a=n, c=y):
    return a
g = whatable(fun)
h = whatable(other)
w = g.what()
w.conf['c'] = z
w.non_id_keys.add('c')
r1 = h.what().conf
r2 = sorted(h.what().non_id_keys)
r3 = g.what().conf
""", "e1 = {'a': n, 'c': y}\ne2 = ['what']\ne3 = {'a': x, 'b': y}\n", vars=V, writes_ok=True)
ob('C06', 'partial-kept', 'whatami/misc.py:callable2call', KINDS + """
w = whatareyou(part)
w.conf['a'] = z
w.conf['p'] = z
r1 = part.keywords
r2 = whatable(part).what().set('b', z).conf
r3 = part.keywords
r4 = ppart.keywords
""", "e1 = {'a': x}\ne2 = {'a': x, 'b': z}\ne3 = {'a': x}\ne4 = {'a': x}\n", vars=V, rec=3)
ob('C06', 'defaults', W + 'What.__init__', IMP + """
w1 = What(n, {})
w2 = What(n, {})
w1.non_id_keys.add('a')
w1.conf['a'] = x
r1 = w2.non_id_keys
r2 = w2.conf
r3 = What(n, {}).non_id_keys
""", "e1 = set()\ne2 = {}\ne3 = set()\n", vars=V)
# parsing the same text twice
NODES = """
from whatami.parsers import WhatamiTreeVisitor as T
class Node(object):
    def __init__(self, value=''):
        self.value = value
node = Node()
"""
ob('C06', 'visit-id', 'whatami/parsers.py:WhatamiTreeVisitor.visit_whatami_id', NODES + """
v = T()
kvs = [('a', x), ('b', y)]
w = v.visit_whatami_id(node, ['f', kvs])
w.conf['a'] = z
w.non_id_keys.add('a')
w2 = v.visit_whatami_id(node, ['f', kvs])
r1 = w2.conf
r2 = w2.non_id_keys
r3 = w2 is w
r4 = kvs
w3 = v.visit_whatami_id(node, ['f'])
w3.conf['a'] = z
r5 = v.visit_whatami_id(node, ['f']).conf
""", "e1 = {'a': x, 'b': y}\ne2 = set()\ne3 = False\ne4 = [('a', x), ('b', y)]\ne5 = {}\n", vars=V)
for key, meth, children, want in (('list', 'visit_a_list', '[]', '[]'), ('dict', 'visit_a_dict', '[]', '{}'),
                                  ('dict-full', 'visit_a_dict', '[[(1, x)]]', '{1: x}'), ('elements', 'visit_list_elements', '[1, 2]', '[1, 2]')):
    ob('C06', 'visit-' + key, 'whatami/parsers.py:WhatamiTreeVisitor.' + meth, NODES + """
v = T()
o1 = v.%s(node, %s)
o2 = v.%s(node, %s)
r1 = o1 is o2
r2 = o1
""" % (meth, children, meth, children), "e1 = False\ne2 = %s\n" % want, vars=V)


for key, pre, args in (('default', '', ''), ('parser', "from whatami.parsers import build_whatami_parser\np = build_whatami_parser()\n", ', p'),
                       ('visitor', "from whatami.parsers import WhatamiTreeVisitor\np = WhatamiTreeVisitor()\n", ', visitor=p')):
    for kind, text, change in (
            ('conf', "'w(a=1,b=[2])'", "q1.conf['a'] = x\nq1.conf['c'] = y\n"), ('list', "'w(a=1,b=[2])'", "q1.conf['b'].append(x)\n"), ('dict', "'w(a={1:{}})'", "q1.conf['a'][1]['k'] = x\nq1.conf['a'][2] = x\n"),
            ('nested', "'w(a=b(c=[1]),d=(e(),))'.replace(',)', ')')", "q1['a'].conf['c'].append(x)\nq1['a'].conf['k'] = x\nq1['d'][0].conf['k'] = x\n"),
            ('empty', "'w(a=[],b={},c=set(),d=v())'", "q1['a'].append(x)\nq1['b']['k'] = x\nq1['c'].add(x)\nq1['d'].conf['k'] = x\n"), ('bare', "'w()'", "q1.conf['k'] = x\nq1.non_id_keys.add('k')\n"),
            ('nonids', "'w(a=1)'", "q1.non_id_keys.add('a')\nq1.name = 'v'\nq1.out_name = 'o'\n"), ('set', "'w(a={1},b=o=v(c={2}))'", "q1['a'].add(x)\nq1['b', 'c'].add(x)\nq1['b'].out_name = 'k'\n")):
        ob('C06', 'parse-%s-%s' % (key, kind), 'whatami/parsers.py:parse_whatid', IMP + pre + "t = %s\nq0 = id2what(t%s)\nq1 = id2what(t%s)\n%sq2 = id2what(t%s)\nr1 = q2 == q0\nr2 = q1 is q2\nr3 = q2.conf is q1.conf\nr4 = q2.conf\nr5 = q0.conf\n"
           "r6 = [q2.name, q2.out_name, q2.non_id_keys]\n" % (text, args, args, change, args),
           IMP + "t = %s\nw = id2what(t)\ne1 = True\ne2 = False\ne3 = False\ne4 = w.conf\ne5 = w.conf\ne6 = ['w', None, set()]\n" % text, vars=dict(x='int', y='int'), rec=9)
# the locals of a call, as they were when asked for
for key, deep, body, want in (
        ('changed', 1, "    q = call2what()\n    a = z\n    h = call2what()\n    return [q.conf['a'], h.conf['a'], len(q.conf)]\n", '[x, z, 2]'),
        ('local', 1, "    q = call2what()\n    c = z\n    h = call2what()\n    return [sorted(q.conf), sorted(h.conf)]\n", "[['a', 'b'], ['a', 'b', 'c', 'q']]"),
        ('answer', 1, "    q = call2what()\n    q.conf['a'] = z\n    q.conf['zz'] = z\n    del q.conf['b']\n    h = call2what()\n    return [a, b, h.conf['a'], h.conf['b'], 'zz' in h.conf]\n",
         '[x, y, x, y, False]'),
        ('twice', 1, "    q, h = call2what(), call2what()\n    q.conf['a'] = z\n    return [h.conf['a'], q is h, q.conf is h.conf, h.conf]\n", "[x, False, False, {'a': x, 'b': y}]"),
        ('dict', 1, "    q = call_dict()\n    q['a'] = z\n    h = call_dict()\n    a = w\n    return [h, call_dict()]\n", "[{'a': x, 'b': y}, {'a': w, 'b': y}]")):
    ob('C06', 'call-' + key, 'whatami/whatutils.py:call2what', "from whatami import call2what\nfrom whatami.misc import call_dict\ndef f(a, b):\n%sr1 = f(x, y)\n" % body,
       "e1 = %s\n" % want, vars=V, writes_ok=True)
