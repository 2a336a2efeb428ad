"""C19: keys and values go together; each key addresses its value; what is not there is a KeyError, or the default."""
from .common import *
import itertools

W = 'whatami/what.py:What.'
V = dict(WHAT, x='int', y='str', z='float', u=None, v=None, l='list', d='dict', k='str', t='tuple', f1='bool', f2='bool', f3='bool')
IMP = "from whatami import What, whatable\n"
INNER = IMP + """
inner = What('i', {'c': x, 'h': y}, ['h'], 'o')
deep = What('d', {'e': inner, 'b': z}, ('b',))
class K(object):
    def __init__(self):
        self.c = x
        self.g = [y, z]
kk = whatable(K)()
"""
OPTS = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]
SHAPES = (('flat', "{'b': x, 'a': y, 'h': z}", ['h'], {}),
          ('nested', "{'a': inner, 'h': inner, 'z': x}", ['h'], {'a': ('i',), 'h': ('i',)}),
          ('deep', "{'a': deep}", [], {'a': ('d',)}),
          ('list', "{'a': [x, [y, z]], 'b': ()}", [], {'a': ['n', ['n', 'n']], 'b': []}),
          ('mixed', "{'a': [inner, x], 'h': {'k': (y, inner), 'j': z}}", ['h'], {'a': [('i',), 'n'], 'h': {'j': 'n', 'k': ['n', ('i',)]}}),
          ('ints', "{'a': {2: x, 1: [y]}, 's': set([x]), 'o': kk}", [], {'a': {1: ['n'], 2: 'n'}}))
NAMES = {'i': (['c', 'h'], ['h'], {}), 'd': (['b', 'e'], ['b'], {'e': ('i',)})}


def expected(names, hidden, kids, opts, pre=()):
    """The keys that flattening the shape has to give, in order."""
    nid, coll, rec = opts
    out = []

    def go(names, hidden, kids, pre, what):
        for n in names:
            if what and n in hidden and not nid:
                continue
            key = pre + (n,)
            out.append(key if len(key) > 1 else n)
            kid = kids.get(n, 'n') if isinstance(kids, dict) else kids[n]
            if not rec:
                continue
            if isinstance(kid, tuple):
                ns, hs, ks = NAMES[kid[0]]
                go(ns, hs, ks, key, True)
            elif isinstance(kid, list) and coll:
                go(range(len(kid)), (), kid, key, False)
            elif isinstance(kid, dict) and coll:
                go(sorted(kid), (), kid, key, False)
    go(names, hidden, kids, pre, True)
    return out


import ast as _ast
for key, conf, hidden, kids in SHAPES:
    names = sorted(c.value for c in _ast.parse(conf, mode='eval').body.keys)
    for i, o in enumerate(OPTS):
        if key in ('deep', 'list', 'ints') and o[2] is False and i > 2:
            continue
        args = 'non_ids_too=%r, collections_too=%r, recursive=%r' % o
        ob('C19', 'flatten-%s-%d%d%d' % ((key,) + tuple(map(int, o))), W + 'flatten', INNER + """
w = What(name, %s, %r, out)
ks, vs = w.flatten(%s)
r1 = ks
r2 = w.keys(%s)
r3 = [a is b for a, b in zip(w.values(%s), vs)]
r4 = len(vs)
r5 = [w[q] is p for q, p in zip(ks, vs)]
r6 = [w.get(q) is p for q, p in zip(ks, vs)]
r7 = [w.get(q, u) is p for q, p in zip(ks, vs)]
""" % (conf, hidden, args, args, args), "e1 = %r\ne2 = e1\ne3 = [True] * len(e1)\ne4 = len(e1)\ne5 = e3\ne6 = e3\ne7 = e3\n"
           % expected(names, hidden, kids, o), vars=V, rec=5)
# defaults: what identifies, in nested configurations too, but not what is inside collections
ob('C19', 'defaults', W + 'keys', INNER + """
w = What(name, {'a': [inner], 'b': inner, 'h': x}, ['h'], out)
r1 = w.keys()
r2 = w.values()[0] is w.conf['a']
r3 = w.flatten()[0]
r4 = w.values()[2]
""", "e1 = ['a', 'b', ('b', 'c')]\ne2 = True\ne3 = e1\ne4 = x\n", vars=V, rec=5)
# configurations with any parameters
ob('C19', 'symbolic-keys', W + 'keys', IMP + "r = What(name, conf, nik, out).keys(recursive=False)\n", "e = [q for q in sorted(conf) if q not in nik]\n", vars=V)
ob('C19', 'symbolic-values', W + 'values', IMP + "r = What(name, conf, nik, out).values(recursive=False)\n",
   "e = [conf[q] for q in sorted(conf) if q not in nik]\n", vars=V)
ob('C19', 'symbolic-keys-all', W + 'keys', IMP + "r = What(name, conf, nik, out).keys(True, recursive=False)\n", "e = sorted(conf)\n", vars=V)
ob('C19', 'symbolic-values-all', W + 'values', IMP + "r = What(name, conf, nik, out).values(True, recursive=False)\n",
   "e = [conf[q] for q in sorted(conf)]\n", vars=V)
# retrieval
ob('C19', 'getitem-any', W + '__getitem__', IMP + "r = What(name, conf, nik, out)[k]\n", "if k not in conf:\n    raise KeyError(k)\ne = conf[k]\n", vars=V)
ob('C19', 'get-any', W + 'get', IMP + "w = What(name, conf, nik, out)\nr1 = w.get(k)\nr2 = w.get(k, u)\nr3 = w.get(k, default=u)\n",
   "e1 = conf[k] if k in conf else None\ne2 = conf[k] if k in conf else u\ne3 = e2\n", vars=V)
PATHS = (("'a'", 'inner'), ("('a', 'c')", 'x'), ("('a', 'h')", 'y'), ("('b', 1, 0)", 'y'), ("('b', 0)", 'x'), ("('b', -1)", "w.conf['b'][1]"),
         ("('d', 'j')", 'z'), ("('d', 'k', 'c')", 'x'), ("('e', 'c')", 'x'), ("('e', 'e', 'c')", None), ("('w', 'c')", 'x'), ("('w', 'g', 1)", 'z'),
         ("('f', 'e', 'c')", 'x'), ("('f', 'b')", 'z'), ("('a',)", 'inner'))
MISSING = ("'zz'", "('zz',)", "('zz', 'c')", "('a', 'zz')", "('b', 7)", "('b', 'zz')", "('d', 'zz')", "('x', 'zz')", "('x', 0)", "('y', 'zz')",
           "('d', 'k', 'zz')", "('d', 'k', 'c', 'zz')", "('w', 'zz')", "('w', 'c', 'zz')", "('b', 1, 5)", "('b', 1, 0, 'q')", "('n', 'q')", "('a', 'c', 'q')",
           "('f', 'e', 'q')", "('w', 'g', 7)", "('w', 'g', 'q')", "7", "None", "('t', 'q')", "('t', 3)", "('m', 'q')")
TREE = INNER + """
w = What(name, {'a': inner, 'b': [x, (y,)], 'd': {'j': z, 'k': inner}, 'e': inner, 'w': kk, 'f': deep, 'x': x, 'y': y, 'n': None,
                't': (), 'm': {}}, nik, out)
"""
for i, (p, want) in enumerate(PATHS):
    if want is None:
        continue
    ob('C19', 'path-%d' % i, W + '__getitem__', TREE + "r1 = w[%s] is %s\nr2 = w.get(%s) is %s\nr3 = w.get(%s, u) is %s\n" % (p, want, p, want, p, want),
       "e1 = True\ne2 = True\ne3 = True\n", vars=V, rec=5)
for i, p in enumerate(MISSING):
    ob('C19', 'missing-%d' % i, W + '__getitem__', TREE + """
try:
    w[%s]
    r1 = 'found'
except KeyError:
    r1 = 'missing'
r2 = w.get(%s)
r3 = w.get(%s, u) is u
r4 = w.get(%s, default=0)
""" % (p, p, p, p), "e1 = 'missing'\ne2 = None\ne3 = True\ne4 = 0\n", vars=V, rec=5)
ob('C19', 'whatvalues', 'whatami/whatutils.py:whatvalues', TREE + """
from whatami.whatutils import whatvalues
r1 = whatvalues(w, ('x', 'y'))
r2 = whatvalues(w, 'x')
r3 = whatvalues(w, (('a', 'c'), 'y'))
r4 = whatvalues(w)
""", "e1 = (x, y)\ne2 = (x,)\ne3 = (x, y)\ne4 = ()\n", vars=V, rec=5)
ob('C19', 'set', W + 'set', IMP + """
w = What(name, conf, nik, out)
q = w.set(k, u)
r1 = q is w
r2 = w[k]
w2 = w.set(k, v, copy=True)
r3 = w2[k]
r4 = w[k]
r5 = w2 is w
""", "e1 = True\ne2 = u\ne3 = v\ne4 = u\ne5 = False\n", vars=V, writes_ok=True)
# what derives from lists, tuples and dictionaries is gone into as well
ob('C19', 'derived', W + 'flatten', INNER + """
from collections import OrderedDict
class L(list):
    pass
class T(tuple):
    pass
class D(dict):
    pass
w = What(name, {'a': L([x, inner]), 'b': T((y,)), 'c': D({'q': z, 'p': x}), 'd': OrderedDict([('j', x), ('i', [y])]), 'e': L(), 's': set([1])}, nik, out)
r1 = w.keys(non_ids_too=True, collections_too=True)
r2 = w.keys(non_ids_too=True)
r3 = w.values(non_ids_too=True, collections_too=True)[1] is x
r4 = [w[k] is v for k, v in zip(*w.flatten(non_ids_too=True, collections_too=True))]
r5 = (w['b', 0] is y, w['c', 'q'] is z, w.get(('c', 'z'), u) is u, w.get(('a', 9), u) is u)
""", "e1 = ['a', ('a', 0), ('a', 1), ('a', 1, 'c'), ('a', 1, 'h'), 'b', ('b', 0), 'c', ('c', 'p'), ('c', 'q'), 'd', ('d', 'i'), ('d', 'i', 0), ('d', 'j'), 'e', 's']\n"
   "e2 = ['a', 'b', 'c', 'd', 'e', 's']\ne3 = True\ne4 = [True] * 16\ne5 = (True, True, True, True)\n", vars=V, rec=6)
