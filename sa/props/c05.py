"""C05: copies say the same as the original and share nothing that changes under them."""
from .common import *

A = 'whatami/what.py:What.'
WH = "from whatami import What\nw = What(name, conf, nik, out)\n"
V = dict(WHAT, key='str', val=None)
SHOW = "\n%s = [x.name, x.conf, x.non_id_keys, x.out_name, type(x) is What]\n"
DUE = "\n%s = [name, conf, set(nik), out, True]\n"
SAMEW = "\nr9 = [w.name, w.conf, w.non_id_keys, w.out_name, w.conf is conf]\n"
SAMEE = "\ne9 = [name, conf, set(nik), out, True]\n"

for key, call in (('shallow', 'w.copy()'), ('deep', 'w.copy(deep=True)'), ('shallow-kw', 'w.copy(deep=False)'),
                  ('deep-pos', 'w.copy(True)')):
    ob('C05', key, A + 'copy', WH + "x = " + call + SHOW % 'r1' + "r2 = x.conf is conf\nr3 = x is w\nr4 = x.id() == w.id()\nr5 = x == w\nr6 = x.non_id_keys is w.non_id_keys\n" + SAMEW,
       DUE % 'e1' + "e2 = False\ne3 = False\ne4 = True\ne5 = True\ne6 = False\n" + SAMEE, vars=V, opaque=BS)
    # changes of the copy stay in the copy, and the other way round
    ob('C05', key + '-change-copy', A + 'copy', WH + "x = " + call + """
x.conf[key] = val
x.conf['new'] = val
x.non_id_keys.add(key)
x.name = key
x.out_name = key
r8 = x.conf['new']
""" + SAMEW, "e8 = val\n" + SAMEE, vars=V)
    ob('C05', key + '-change-original', A + 'copy', """
from whatami import What
conf = {'a': val, 'b': val}
w = What(name, conf, [key], out)
x = """ + call + """
del w.conf['a']
w.conf['b'] = 1
w.conf['c'] = 2
w.non_id_keys.clear()
w.name = 'other'
w.out_name = 'other'
r1 = [x.name, x.conf, x.non_id_keys, x.out_name]
""", "e1 = [name, {'a': val, 'b': val}, {key}, out]", vars=dict(name='str', out='str', key='str', val='int'))
ob('C05', 'no-out-name', A + 'copy', "from whatami import What\nw = What(name, conf)\nx = w.copy()\ny = w.copy(deep=True)\n"
   "r1 = [x.out_name, y.out_name, x.non_id_keys, y.non_id_keys]", "e1 = [None, None, set(), set()]", vars=V)
# deep copies do not even share the contents
ob('C05', 'deep-contents', A + 'copy', """
from whatami import What
inner = [1, 2]
sub = What('sub', {'l': inner}, ['q'], 'o')
conf = {'d': {'k': inner}, 'l': inner, 's': {1}, 'w': sub}
w = What(name, conf, nik, out)
x = w.copy(deep=True)
inner.append(3)
conf['d']['z'] = 1
conf['s'].add(7)
sub.conf['new'] = 1
r1 = {'k': list(x.conf['d']['k'])}
r2 = list(x.conf['l'])
r3 = set(x.conf['s'])
r4 = {'l': list(x.conf['w'].conf['l']), 'n': len(x.conf['w'].conf)}
r5 = [x.conf['w'].name, x.conf['w'].out_name, x.conf['w'].non_id_keys]
x.conf['l'].append(8)
x.conf['w'].conf['y'] = 1
r6 = inner
r7 = sub.conf
""", """
e1 = {'k': [1, 2]}
e2 = [1, 2]
e3 = {1}
e4 = {'l': [1, 2], 'n': 1}
e5 = ['sub', 'o', {'q'}]
e6 = [1, 2, 3]
e7 = {'l': [1, 2, 3], 'new': 1}
""", vars=V)
ob('C05', 'shallow-contents', A + 'copy', """
from whatami import What
inner = [1, 2]
w = What(name, {'l': inner}, nik, out)
x = w.copy()
r1 = x.conf['l'] is inner
""", "e1 = True", vars=V)
# setting on a copy
ob('C05', 'set-copy', A + 'set', WH + """
x = w.set(key, val, copy=True)
r1 = [x.name, x.conf, x.non_id_keys, x.out_name]
r2 = x is w
""" + SAMEW, """
d = dict(conf)
d[key] = val
e1 = [name, d, set(nik), out]
e2 = False
""" + SAMEE, vars=V)
ob('C05', 'set-self', A + 'set', """
from whatami import What
conf = {'a': val, 'b': val}
w = What(name, conf, nik, out)
r1 = w.set('b', 1) is w
r2 = w.set('c', 2, copy=False) is w
r3 = w.conf
r4 = [w.name, w.non_id_keys, w.out_name]
r5 = w.set('a', 1).set('d', 2).conf
""", """
e1 = e2 = True
e3 = {'a': 1, 'b': 1, 'c': 2, 'd': 2}
e4 = [name, set(nik), out]
e5 = {'a': 1, 'b': 1, 'c': 2, 'd': 2}
""", vars=V)
# ids derived by setting one key
WID = {('whatami.what', 'What.id'): make_opaque('whatid', T['str'])}
ob('C05', 'whatadd', 'whatami/whatutils.py:whatadd', """
from whatami import What
from whatami.whatutils import whatadd
w = What(name, conf, nik, out)
r1 = whatadd(w, key, values)
""" + SAMEW, """
from whatami import What
if key in conf:
    raise ValueError()
e1 = []
for v in values:
    d = dict(conf)
    d[key] = v
    e1.append(What(name, d, nik, out).id())
""" + SAMEE, vars=dict(V, values='list'), opaque=BS)
# the set of non identifying keys belongs to the configuration
ob('C05', 'own-nonids', A + '__init__', """
from whatami import What
keys = {'a', 'b'}
w = What(name, conf, keys)
x = What(name, conf, keys)
keys.add('c')
w.non_id_keys.add('d')
r1 = w.non_id_keys
r2 = x.non_id_keys
r3 = keys
d1 = What(name, conf)
d1.non_id_keys.add('z')
r4 = What(name, conf).non_id_keys
""", "e1 = {'a', 'b', 'd'}\ne2 = {'a', 'b'}\ne3 = {'a', 'b', 'c'}\ne4 = set()", vars=V)

# nor those that are hidden in what cannot be changed, in objects, or given more than once
ob('C05', 'deep-hidden', A + 'copy', """
from whatami import What
class Called(object):
    def __init__(self):
        self.l = [1]
    def __call__(self):
        return 1
class Plain(object):
    def __init__(self):
        self.l = [1]
c, o, i, j, k = Called(), Plain(), [1], [1], [1]
w = What('n', {'c': c, 'o': o, 't': (i, (j,)), 'd': {'k': (k,)}, 'w': (What('m', {'l': i}),)})
x = w.copy(deep=True)
c.l.append(2)
o.l.append(2)
i.append(2)
j.append(2)
k.append(2)
w.conf['w'][0].conf['q'] = 1
r1 = [x.conf['c'].l, x.conf['o'].l, x.conf['t'][0], x.conf['t'][1][0], x.conf['d']['k'][0], x.conf['w'][0].conf]
r2 = [x.conf['c'] is c, x.conf['o'] is o, type(x.conf['c']) is Called, type(x.conf['t']) is tuple, x.conf['w'][0].name]
""", "e1 = [[1], [1], [1], [1], [1], {'l': [1]}]\ne2 = [False, False, True, True, 'm']\n", rec=8)

# whatever the class of the dictionary with the parameters
for key, make in (('ordered', "OrderedDict([('b', x), ('a', l)])"), ('derived', "D([('b', x), ('a', l)])"), ('plain', "{'b': x, 'a': l}")):
    ob('C05', 'kind-' + key, A + 'copy', """
from collections import OrderedDict
from whatami import What
class D(dict):
    pass
l = [y]
conf = %s
w = What(name, conf, ['b'], out)
s = w.copy()
d = w.copy(deep=True)
q = w.set('a', z, copy=True)
r1 = [dict(c.conf) for c in (s, d, q)]
r2 = [c.conf == conf for c in (s, d)]
r3 = [c.conf is conf for c in (s, d, q)]
s.conf['new'] = z
d.conf['b'] = z
d.conf['a'].append(z)
del q.conf['b']
r4 = dict(w.conf), dict(conf), l
conf['a'] = z
w.set('other', z)
r5 = [dict(c.conf) for c in (s, d, q)]
r6 = [type(c.conf).__name__ for c in (s, d, q)]
""" % make, """
e1 = [{'b': x, 'a': [y]}, {'b': x, 'a': [y, z]}, {'b': x, 'a': z}]
e2 = [True, True]
e3 = [False] * 3
e4 = ({'b': x, 'a': [y]}, {'b': x, 'a': [y]}, [y])
e5 = [{'b': x, 'a': [y], 'new': z}, {'b': z, 'a': [y, z]}, {'a': z}]
e6 = %r
""" % ({'ordered': ['OrderedDict'] * 3, 'derived': ['dict', 'D', 'dict'], 'plain': ['dict'] * 3}[key],), vars=dict(name='str', out='str', x='int', y='int', z='str'), rec=5, writes_ok=True)
