"""C24: equality of configurations is by name, output name and parameters, and agrees with hashing."""
from .common import *

A = 'whatami/what.py:What.'
TWO = "from whatami import What\na = What(n1, c1, k1, o1)\nb = What(n2, c2, k2, o2)\n"
V = dict(n1='str', n2='str', c1='dict', c2='dict', k1='set', k2='set', o1='str', o2='str')
SAMEQ = "same = n1 == n2 and c1 == c2 and o1 == o2\n"
ob('C24', 'eq', A + '__eq__', TWO + "r1 = bool(a == b)\nr2 = bool(b == a)\nr3 = bool(a == a)\n",
   SAMEQ + "e1 = same\ne2 = same\ne3 = True\n", vars=V, opaque=BS)
ob('C24', 'ne', A + '__eq__', TWO + "r1 = bool(a != b)\nr2 = bool(b != a)\nr3 = bool(a != a)\n",
   SAMEQ + "e1 = not same\ne2 = not same\ne3 = False\n", vars=V, opaque=BS)
for key, x, y in (('out-none', 'None', 'o2'), ('none-out', 'o1', 'None'), ('none-none', 'None', 'None')):
    ob('C24', 'eq-' + key, A + '__eq__', "from whatami import What\na = What(n1, c1, k1, %s)\nb = What(n2, c2, k2, %s)\n"
       % (x, y) + "r1 = bool(a == b)\nr2 = bool(a != b)\n",
       "same = n1 == n2 and c1 == c2 and %s == %s\ne1 = same\ne2 = not same\n" % (x, y), vars=V)
ob('C24', 'default-out', A + '__eq__', """
from whatami import What
a = What(n1, c1)
b = What(n1, c1, k2)
r1 = bool(a == b)
r2 = hash(a) == hash(b)
r3 = bool(What(n1, c1, out_name=o1) == a)
r4 = bool(a == What(n2, {'x': o1}))
""", "e1 = True\ne2 = True\ne3 = False\ne4 = n1 == n2 and c1 == {'x': o1}\n", vars=V)
ob('C24', 'hash', A + '__hash__', TWO + "r1 = hash(a) == hash(b) if bool(a == b) else True\nr2 = hash(a) == hash(a)\n",
   "e1 = True\ne2 = True\n", vars=V, opaque=BS)
ob('C24', 'hash-changes', A + '__hash__', """
from whatami import What
a = What(n1, c1, k1, o1)
b = a.copy()
c = a.copy(deep=True)
r1 = hash(a) == hash(b)
r2 = hash(a) == hash(c)
r3 = bool(a == b)
b.non_id_keys.add(n2)
r4 = bool(a == b)
r5 = hash(a) == hash(b)
b.non_id_keys = k2
r6 = bool(b == a)
r7 = hash(a) == hash(b)
""", "e1 = True\ne2 = True\ne3 = True\ne4 = True\ne5 = True\ne6 = True\ne7 = True\n", vars=V)
ob('C24', 'hash-unhashable', A + '__hash__', """
from whatami import What
r1 = hash(What(n1, {'x': c1, 'y': [n2]}, k1)) == hash(What(n1, {'y': [n2], 'x': c1}, k2))
s = set([What(n1, {'x': c1})])
r2 = len(s)
""", "e1 = True\ne2 = 1\n", vars=V)
ob('C24', 'deep-eq', A + '__eq__', """
from whatami import What
a = What(n1, {'x': What(n2, {'y': o1}, k1)}, k2)
b = What(n1, {'x': What(n2, {'y': o2})})
r1 = bool(a == b)
r2 = hash(a) == hash(b) if bool(a == b) else True
r3 = bool([a] == [b])
""", "e1 = o1 == o2\ne2 = True\ne3 = o1 == o2\n", vars=V, rec=3)
# against what is not a configuration
for key, other in (('none', 'None'), ('text', 'n2'), ('id', 'a.id()'), ('dict', 'c1'), ('list', '[a]'), ('int', '3'), ('class', 'What'),
                   ('tuple', '(n1, c1, o1)')):
    ob('C24', 'other-' + key, A + '__eq__', "from whatami import What\na = What(n1, c1, k1, o1)\nv = %s\n" % other +
       "r1 = bool(a == v)\nr2 = bool(a != v)\nr3 = bool(v == a)\nr4 = a in [v]\n",
       "e1 = False\ne2 = True\ne3 = False\ne4 = False\n", vars=V, opaque=BS)
for miss in ('name', 'conf', 'out_name'):
    ob('C24', 'without-' + miss, A + '__eq__', """
from whatami import What
a = What(n1, c1, k1, o1)
class K(object):
    def __init__(self):
%s
r1 = bool(a == K())
r2 = bool(a != K())
""" % '\n'.join('        self.%s = %s' % (n, x) for n, x in (('name', 'n1'), ('conf', 'c1'), ('out_name', 'o1')) if n != miss),
       "e1 = False\ne2 = True\n", vars=V)

# equal values of different types, orders and kinds
PAIRS = [('1', '1.0'), ('True', '1'), ('0', 'False'), ('0.0', '-0.0'), ("set([1])", "frozenset([1])"), ("{'a': 1, 'b': [2]}", "{'b': [2], 'a': True}"), ('[1, [2]]', '[1.0, [2.0]]'),
         ('(1, ())', '(True, ())'), ("What('m', {'a': 1})", "What('m', {'a': 1.0}, ['a'])"), ("[What('m', {'a': {}})]", "[What('m', {'a': {}}, ['b', 'a'])]"), ("set(['a', 'b', 'c'])", "set(['c', 'b', 'a'])")]
for i, (p, q) in enumerate(PAIRS):
    ob('C24', 'hash-equal-%d' % i, A + '__hash__', "from whatami import What\na = What('n', {'v': %s, 'w': 1}, ['w'])\nb = What('n', {'w': 1, 'v': %s})\n" % (p, q) +
       "r1 = (bool(a == b), bool(b == a), bool(a != b), hash(a) == hash(b))\nr2 = len(set([a, b]))\nr3 = {a: 5}.get(b)\n", "e1 = (True, True, False, True)\ne2 = 1\ne3 = 5\n", rec=4)
DIFFER = [('1', "'1'"), ('1', '2'), ('None', 'False'), ('[1]', '(1,)'), ('{}', '[]'), ("What('m', {'a': 1})", "What('m', {'a': 2})"), ("What('m', {'a': 1})", "What('m', {'a': 1}, out_name='o')"),
          ("What('m', {})", "'m()'"), ("What('m', {})", "What('l', {})"), ('[]', 'None'), ("''", 'None')]
for i, (p, q) in enumerate(DIFFER):
    ob('C24', 'differ-%d' % i, A + '__eq__', "from whatami import What\na = What('n', {'v': %s})\nb = What('n', {'v': %s})\n" % (p, q) +
       "r1 = (bool(a == b), bool(b == a), bool(a != b))\nr2 = len(set([a, b]))\n", "e1 = (False, False, True)\ne2 = 2\n", rec=4)
for key, c, d in (('fewer', "{'a': 1}", "{'a': 1, 'b': 2}"), ('none', "{'a': None}", '{}'), ('none-other', "{'a': None}", "{'b': None}"), ('empty', '{}', "{'a': 1}"), ('name', "{'a': 1}", "{'A': 1}")):
    ob('C24', 'params-' + key, A + '__eq__', "from whatami import What\na = What('n', %s)\nb = What('n', %s)\n" % (c, d) +
       "r1 = (bool(a == b), bool(b == a), bool(a != b), bool(b != a))\n", "e1 = (False, False, True, True)\n", rec=4)
for key, o1, o2 in (('empty', "''", 'None'), ('case', "'o'", "'O'"), ('name', "'n'", 'None')):
    ob('C24', 'outs-' + key, A + '__eq__', "from whatami import What\na = What('n', {'a': 1}, None, %s)\nb = What('n', {'a': 1}, None, %s)\n" % (o1, o2) +
       "r1 = (bool(a == b), bool(b == a), bool(a != b), bool(b != a))\n", "e1 = (False, False, True, True)\n", rec=4)
# classes that derive from it are configurations too, from both sides
ob('C24', 'derived', A + '__eq__', """
from whatami import What
class Sub(What):
    pass
a, b, c = What(n1, c1, k1, o1), Sub(n1, c1, k2, o1), Sub(n2, c1, k1, o1)
r1 = (bool(a == b), bool(b == a), bool(a != b), bool(b != a), hash(a) == hash(b))
r2 = bool(a == c) == bool(c == a)
""", "e1 = (True, True, False, False, True)\ne2 = True\n", vars=V, opaque=BS)
