"""C21: sorting, matching and tabulating ids and configurations agree with the values in them."""
from .common import *

V = dict(WHAT, l='list', k='str', x='int', y='str', z='int', n2='str', o2='str', l2='list', u=None, v=None, k2='str', f='bool')
U = 'whatami/whatutils.py:'
IMP = "from whatami import What, sort_whats, sort_whatids, match_whatids, whatadd, id2what\nfrom whatami.whatutils import whatvalues, whatid2columns\n"
NE = [(App('eq', S('x'), S('z')), False)]


def trees(**kw):
    return ''.join('def t_%s():\n    return %s\n' % p for p in sorted(kw.items()))


# --- whatvalues
Q = "w = What(name, {'a': x, 'b': What(n2, {'c': y, 'd': z}, None, o2), 'e': [x, y]}, nik, out)\n"
for key, keys, ref in (('one', "'a'", '(x,)'), ('two', "('a', 'b')", "(x, w['b'])"), ('order', "('e', 'a')", "(w['e'], x)"), ('none', '()', '()'), ('default', None, '()'),
                       ('nested', "(('b', 'c'), 'a')", '(y, x)'), ('twice', "('a', 'a')", '(x, x)'), ('deep', "(('b', 'd'), ('b', 'c'), ('b',))", "(z, y, w['b'])"),
                       ('list', "(('e', 1), ('e', 0))", '(y, x)')):
    ob('C21', 'values-' + key, U + 'whatvalues', IMP + Q + "r1 = whatvalues(w%s)\nw0 = w\n" % (', ' + keys if keys else ''),
       IMP.split('\n')[0] + '\n' + Q + "e1 = %s\n" % ref, vars=V, rec=4)
for key, keys in (('missing', "'q'"), ('missing-nested', "(('b', 'q'),)"), ('missing-second', "('a', 'q')")):
    ob('C21', 'values-' + key, U + 'whatvalues', IMP + Q + "try:\n    whatvalues(w, %s)\n    r1 = 'found'\nexcept KeyError:\n    r1 = 'missing'\n" % keys,
       "e1 = 'missing'\n", vars=V, rec=4)

# --- sorting
T3 = trees(A="What(name, {'a': 10, 'b': x, 'c': What('i', {'p': 1})})", B="What(name, {'a': 1, 'b': y, 'c': What('i', {'p': 2})})",
           C="What(n2, {'a': 2, 'b': z, 'c': What('j', {'p': 3})})", D="What(name, {'a': 1, 'b': z, 'c': What('i', {'p': 2})})")
SORTS = (('one', 'ABC', "'a'", 'BCA', '(1,), (2,), (10,)'), ('nested', 'CBA', "('c', 'p')", 'ABC', '(1,), (2,), (3,)'),
         ('two', 'ABCD', "'a', 'b'", None, None), ('ties', 'ABCD', "'a'", 'BDCA', '(1,), (1,), (2,), (10,)'), ('ties-reversed', 'DCBA', "'a'", 'DBCA', '(1,), (1,), (2,), (10,)'),
         ('twice', 'ABA', "'a'", 'BAA', '(1,), (10,), (10,)'), ('keys', 'CAB', "('c', 'p'), 'a'", 'ABC', '(1, 10), (2, 1), (3, 2)'), ('sorted', 'BCA', "'a'", 'BCA', '(1,), (2,), (10,)'),
         ('single', 'A', "'a'", 'A', '(10,),'), ('no-keys', 'CAB', '', 'CAB', '(), (), ()'), ('ties-many', 'DBDB', "'a', ('c', 'p')", 'DBDB', '(1, 2), (1, 2), (1, 2), (1, 2)'))
for key, given, keys, order, values in SORTS:
    if order is None:
        continue
    ids = '[%s]' % ', '.join("'%s'" % c for c in given)
    ob('C21', 'sort-ids-' + key, U + 'sort_whatids', IMP + T3 + "g = %s\nr1, r2 = sort_whatids(g%s)\nr3 = g\n" % (ids, ', ' + keys if keys else ''),
       "e1 = (%s,)\ne2 = (%s)\ne3 = %s\n" % (', '.join("'%s'" % c for c in order), values, ids), vars=V, opaque=PARSED, rec=4)
    names = sorted(set(given))
    ob('C21', 'sort-whats-' + key, U + 'sort_whats', IMP + T3 + ''.join("%s = t_%s()\n" % (c, c) for c in names) +
       "g = [%s]\nws, r2 = sort_whats(g%s)\nr1 = [w is q for w, q in zip(ws, [%s])]\nr3 = [len(ws), [w is q for w, q in zip(g, [%s])]]\n" % (
           ', '.join(given), ', ' + keys if keys else '', ', '.join(order), ', '.join(given)),
       "e1 = [True] * %d\ne2 = (%s)\ne3 = [%d, [True] * %d]\n" % (len(given), values, len(given), len(given)), vars=V, rec=4)
TC = trees(A="What('n', {'a': 1, 'b': 5})", B="What('n', {'a': 1, 'b': 3})", C="What('m', {'a': 1, 'b': 4}, None, 'o')")
for key, keys in (('same-values', "'a'"), ('no-values', '')):
    ob('C21', 'sort-whats-' + key, U + 'sort_whats', IMP + TC + "A = t_A()\nB = t_B()\nC = t_C()\nws, q = sort_whats([A, B, C]%s)\nr1 = [ws[0] is A, ws[1] is B, ws[2] is C]\n" % (', ' + keys if keys else ''),
       "e1 = [True, True, True]\n", vars=V, rec=4)
    ob('C21', 'sort-ids-' + key, U + 'sort_whatids', IMP + TC + "r1, q = sort_whatids(['B', 'A', 'C']%s)\n" % (', ' + keys if keys else ''),
       "e1 = ('B', 'A', 'C')\n", vars=V, rec=4, opaque=PARSED)
for fn, get in (('sort_whats', 'w'), ('sort_whatids', 'id2what(w)')):
    ob('C21', 'sort-any-' + fn, U + fn, IMP + "r1 = %s(l, k, k2)\n" % fn, IMP + """
ps = sorted([(tuple([q[k], q[k2]]), w) for w, q in [(w, %s) for w in l]], key=lambda p: p[0])
e1 = tuple(zip(*[(w, v) for v, w in ps]))
""" % get, vars=V, opaque={('whatami.parsers', 'parse_whatid'): make_opaque('parse', None)})

# --- matching
BASE = "{'a': x, 'b': y, 'c': What(n2, {'p': x, 'q': y}, None, o2)}"



def w(a='x', b='y', c="What(n2, {'p': x, 'q': y}, None, o2)", name='name', extra='', out='out'):
    return "What(%s, {'a': %s, 'b': %s, 'c': %s%s}, None, %s)" % (name, a, b, c, extra, out)


def inn(p='x', q='y', name='n2', extra='', out='o2'):
    return "What(%s, {'p': %s, 'q': %s%s}, None, %s)" % (name, p, q, extra, out)


SAME_ = w()
VAR = dict(B=SAME_, C=w(a='z'), D=w(name='n2'), E=w(c=inn(p='z')), F=w(c=inn(name='name')), G=w(extra=", 'd': x"), H="What(name, {'a': x, 'b': y}, None, out)",
           I=w(c=inn(extra=", 'r': x")), J=w(a='z', c=inn(p='z')), K=w(c='x'), L=w(c=inn(out="'other'")), M=w(a='None'), N=w(c=inn(p='z', name='name')),
           O="What(name, {'a': x, 'b2': y, 'c': %s}, None, out)" % inn())
ON = [(App('eq', S('o2'), 'other'), False)]
NAMES = 'ABCDEFGHIJKLMNO'
for key, ignored, expect in (('exact', '', 'AB'), ('empty', '()', 'AB'), ('ignore-a', "('a',)", 'ABCM'), ('ignore-a-list', "['a']", 'ABCM'),
                             ('ignore-nested', "[('c', 'p')]", 'ABE'), ('ignore-c', "['c']", 'ABEFLN'), ('ignore-both', "['a', 'c']", 'ABCEFJLMN'),
                             ('ignore-a-p', "['a', ('c', 'p')]", 'ABCEJM'), ('ignore-other', "['zz', ('c', 'zz'), 'p']", 'AB'), ('ignore-b', "('b',)", 'AB'),
                             ('ignore-keyword', "ignored_keys=('a',)", 'ABCM'), ('ignore-words', "['name', 'out_name', 'conf', ('c', 'name'), '', None]", 'AB')):
    t = dict(A=SAME_)
    t.update(VAR)
    ob('C21', 'match-' + key, U + 'match_whatids', IMP + trees(**t) + "g = [%s]\nr1 = match_whatids(g, 'A'%s)\nr2 = g\n" % (
        ', '.join("'%s'" % c for c in NAMES), ', ' + ignored if ignored else ''),
       "e1 = [%s]\ne2 = [%s]\n" % (', '.join("'%s'" % c for c in expect), ', '.join("'%s'" % c for c in NAMES)), vars=V, opaque=PARSED, rec=5,
       facts=NE + ON + [(App('eq', S('n2'), S('name')), False), (App('eq', S('name'), S('n2')), False), (App('eq', S('o2'), C('other')), False)])

for key, a, b, expect in (('case-name', "What('w', {'a': x})", "What('W', {'a': x})", 'A'), ('case-inner', "What('w', {'a': What('i', {'b': x})})", "What('w', {'a': What('I', {'b': x})})", 'A'),
                          ('case-key', "What('w', {'a': x})", "What('w', {'A': x})", 'A'), ('case-value', "What('w', {'a': 'x'})", "What('w', {'a': 'X'})", 'A'), ('value-type', "What('w', {'a': 1})", "What('w', {'a': '1'})", 'A'),
                          ('value-spaces', "What('w', {'a': 'x'})", "What('w', {'a': ' x'})", 'A'), ('value-same', "What('w', {'a': 1, 'b': 'x'})", "What('w', {'b': 'x', 'a': 1})", 'AB')):
    ob('C21', 'match-const-' + key, U + 'match_whatids', IMP + trees(A=a, B=b) + "r1 = match_whatids(['A', 'B'], 'A')\nr2 = match_whatids(['B', 'A'], 'B')\n",
       "e1 = %r\ne2 = %r\n" % (list(expect), ['B', 'A'] if len(expect) > 1 else ['B']), vars=V, opaque=PARSED, rec=5)
# options reach the listing of the parameters: collections, names that are not identifying, nested ones
for key, opts, ignored, expect in (('collections', ', collections_too=True', '', 'A'), ('collections-ignored', ', collections_too=True', "[('a', 1)]", 'A'),
                                   ('collections-ignored-root', ', collections_too=True', "['a']", 'AB'), ('no-recursion', ', recursive=False', '', 'AC'),
                                   ('collections-not', '', "[('a', 1)]", 'A'), ('no-recursion-ignored', ', recursive=False', "['b']", 'ACD')):
    t = dict(A="What(name, {'a': [x, y], 'b': What(n2, {'p': x}, None, o2)}, None, out)", B="What(name, {'a': [x, None], 'b': What(n2, {'p': x}, None, o2)}, None, out)",
             C="What(name, {'a': [x, y], 'b': What(n2, {'p': z}, None, o2)}, None, out)", D="What(name, {'a': [x, y], 'b': What(name, {'p': z}, None, o2)}, None, out)")
    ob('C21', 'match-opt-' + key, U + 'match_whatids', IMP + trees(**t) + "r1 = match_whatids('ABCD', 'A'%s%s)\n" % (', ' + ignored if ignored else '', opts),
       "e1 = %r\n" % list(expect), vars=V, opaque=PARSED, rec=5, facts=NE + [(App('eq', S('n2'), S('name')), False), (App('eq', S('name'), S('n2')), False)])
for key, opts, expect in (('nonids', ', non_ids_too=True', 'A'), ('nonids-not', '', 'AB')):
    t = dict(A="What(name, {'a': x, 'b': y}, ['b'], out)", B="What(name, {'a': x, 'b': None}, ['b'], out)")
    ob('C21', 'match-opt-' + key, U + 'match_whatids', IMP + trees(**t) + "r1 = match_whatids(['A', 'B'], 'A'%s)\n" % opts, "e1 = %r\n" % list(expect),
       vars=V, opaque=PARSED, rec=5)

# the more deeply nested, the more prefixes that can be ignored
def deep(p, q, r):
    return "What(name, {'a': What('i', {'b': What('j', {'c': %s, 'd': %s}), 'e': %s})})" % (p, q, r)


for key, ignored, expect in (('none', '[]', 'A'), ('c', "[('a', 'b', 'c')]", 'AB'), ('b', "[('a', 'b')]", 'ABCE'), ('a', "['a']", 'ABCDE'), ('e', "[('a', 'e')]", 'AD'),
                             ('tails', "['c', ('b', 'c'), 'b', 'e', ('c',), ('a', 'c')]", 'A'), ('c-e', "[('a', 'e'), ('a', 'b', 'c')]", 'ABD'), ('two', "[('a', 'b', 'c'), ('a', 'b', 'd')]", 'ABCE')):
    ob('C21', 'match-deep-' + key, U + 'match_whatids', IMP + trees(A=deep('x', 'y', 'x'), B=deep('z', 'y', 'x'), C=deep('x', 'None', 'x'), D=deep('x', 'y', 'z'), E=deep('z', 'None', 'x')) +
       "r1 = match_whatids('ABCDE', 'A', %s)\n" % ignored, "e1 = %r\n" % list(expect), vars=V, opaque=PARSED, rec=6, facts=NE)

def deeper(p, q):
    return "What(name, {'a': What('i', {'b': What('j', {'c': What('k', {'d': %s}), 'e': %s})})})" % (p, q)


for key, ignored, expect in (('none', '[]', 'A'), ('d', "[('a', 'b', 'c', 'd')]", 'AB'), ('c', "[('a', 'b', 'c')]", 'AB'), ('b', "[('a', 'b')]", 'ABCD'), ('a', "['a']", 'ABCD'), ('a-tuple', "[('a',)]", 'ABCD'),
                             ('e', "[('a', 'b', 'e')]", 'AC'), ('others', "[('b', 'c'), ('a', 'c'), ('c', 'd'), ('a', 'd')]", 'A')):
    ob('C21', 'match-deeper-' + key, U + 'match_whatids', IMP + trees(A=deeper('x', 'y'), B=deeper('z', 'y'), C=deeper('x', 'None'), D=deeper('z', 'None')) +
       "r1 = match_whatids('ABCD', 'A', %s)\n" % ignored, "e1 = %r\n" % list(expect), vars=V, opaque=PARSED, rec=7, facts=NE)

# --- columns
FRAME = UNMODELLED + IMP + """
class Column(Unmodelled):
    def __init__(self, values):
        self.values = values
    def unique(self):
        return [v for i, v in enumerate(self.values) if v not in self.values[:i]]
    def apply(self, f):
        return [f(v) for v in self.values]
    def map(self, f):
        return [f(v) for v in self.values]
    def __iter__(self):
        return iter(self.values)
    def tolist(self):
        return list(self.values)
    def __len__(self):
        return len(self.values)
class Frame(Unmodelled):
    def __init__(self, data):
        self.data = data
    def __getitem__(self, name):
        return Column(self.data[name])
    def __setitem__(self, name, values):
        self.data[name] = values
    def __contains__(self, name):
        return name in self.data
    def copy(self):
        return Frame(dict(self.data))
    @property
    def columns(self):
        return list(self.data)
    def keys(self):
        return list(self.data)
    def __iter__(self):
        return iter(list(self.data))
    def __len__(self):
        return len(self.data['w'])
    @property
    def shape(self):
        return (len(self), len(self.data))
    @property
    def index(self):
        return list(range(len(self)))
    @property
    def empty(self):
        return len(self) == 0
    def get(self, name, default=None):
        return self[name] if name in self.data else default
    def assign(self, **columns):
        c = self.copy()
        for name in columns:
            c[name] = columns[name](c) if callable(columns[name]) else columns[name]
        return c
"""
CT = trees(A="What(name, {'a': x, 'c': What(n2, {'p': x, 'q': [y, z]}, None, o2)}, None, out)", B="What(n2, {'b': y, 'a': z}, ['b'], None)", C="What(name, {})",
           D="What(name, {'w': x, 'u': y})")
CA = "t_A().conf['c']"
for key, given, opts, expect in (
        ('one', 'ABAC', "columns=['a']", "'a': [x, z, x, None]"),
        ('list-arg', 'ABAC', "['a', 'b']", "'a': [x, z, x, None], 'b': [None, y, None, None]"),
        ('all', 'ABC', '', "'a': [x, z, None], 'c': [%s, None, None], 'c_p': [x, None, None], 'c_q': [[y, z], None, None]" % CA),
        ('all-empty', 'CC', '', ''),
        ('nested', 'BA', "[('c', 'p')]", "'c_p': [None, x]"),
        ('nested-list', 'BA', "[['c', 'p'], 'a']", "'c_p': [None, x], 'a': [z, x]"),
        ('nested-position', 'AB', "[('c', 'q', 1)]", "'c_q_1': [z, None]"),
        ('nested-position-list', 'AB', "[['c', 'q', 1], ['c', 'q', 0]]", "'c_q_1': [z, None], 'c_q_0': [y, None]"),
        ('missing', 'ABC', "['zz', ('c', 'zz')]", "'zz': [None, None, None], 'c_zz': [None, None, None]"),
        ('prefix', 'AB', "['a'], prefix='p_'", "'p_a': [x, z]"),
        ('postfix', 'AB', "['a'], postfix='_q'", "'a_q': [x, z]"),
        ('both', 'AB', "['a'], 'p_', '_q'", "'p_a_q': [x, z]"),
        ('both-all', 'B', "None, 'p_', '_q'", "'p_a_q': [z]"),
        ('no-affixes', 'AB', "['a'], None, None", "'a': [x, z]"),
        ('same-name', 'DAD', "['w', 'u']", "'w': [x, None, x], 'u': [y, None, y]"),
        ('same-name-all', 'DB', "", "'a': [None, z], 'u': [y, None], 'w': [x, None]"),
        ('other-name', 'AD', "['o', 'a']", "'o': [None, None], 'a': [x, None]"),
        ('empty', 'AD', "[]", "")):
    for pk, inplace in (('', ''), ('-copy', ', inplace=False'), ('-inplace', ', inplace=True')):
        ids = repr(list(given))
        call = "whatid2columns(df, 'w'%s%s)" % (', ' + opts if opts else '', inplace)
        if pk == '-copy':
            code = "df = Frame({'w': %s, 'o': [k, k2]})\nq = %s\nr1 = q.data\nr4 = list(q.data)\nr2 = df.data\nr3 = q is df\n" % (ids, call)
            ref = "e1 = {'w': %s, 'o': [k, k2]}\ne1.update({%s})\ne4 = list(e1)\ne2 = {'w': %s, 'o': [k, k2]}\ne3 = False\n" % (ids, expect, ids)
        else:
            code = "df = Frame({'w': %s, 'o': [k, k2]})\nq = %s\nr1 = q.data\nr4 = list(q.data)\nr3 = q is df\n" % (ids, call)
            ref = "e1 = {'w': %s, 'o': [k, k2]}\ne1.update({%s})\ne4 = list(e1)\ne3 = True\n" % (ids, expect)
        ob('C21', 'columns-%s%s' % (key, pk), U + 'whatid2columns', FRAME + CT + code, IMP + CT.replace('t_A', 't_A') + ref, vars=V, opaque=PARSED, rec=5)

# --- whatadd
for key, vals, expect in (('many-again', '[x, x, 1, True, 1.0]', '[What(name, {\'a\': y, \'b\': x}, nik, out).id(), What(name, {\'a\': y, \'b\': x}, nik, out).id(), What(name, {\'a\': y, \'b\': 1}, nik, out).id(), What(name, {\'a\': y, \'b\': True}, nik, out).id(), What(name, {\'a\': y, \'b\': 1.0}, nik, out).id()]'), ('many-given', '(v for v in [x, x])', '[What(name, {\'a\': y, \'b\': x}, nik, out).id(), What(name, {\'a\': y, \'b\': x}, nik, out).id()]'), ('one', '[x]', '[What(name, {\'a\': y, k: x}, nik, out).id()]'), ('none', '[]', '[]'),
                          ('many', '[x, z, None]', '[What(name, {\'a\': y, \'b\': x}, nik, out).id(), What(name, {\'a\': y, \'b\': z}, nik, out).id(), What(name, {\'a\': y, \'b\': None}, nik, out).id()]')):
    kk = "'b'" if key.startswith('many') else 'k'
    ob('C21', 'add-' + key, U + 'whatadd', IMP + "q = What(name, {'a': y}, nik, out)\nr1 = whatadd(q, %s, %s)\nr2 = [q.name, q.conf, q.non_id_keys, q.out_name]\n" % (kk, vals),
       "from whatami import What\ne1 = %s\ne2 = [name, {'a': y}, nik, out]\n" % expect, vars=V, opaque=BS, facts=[(App('eq', S('k'), C('a')), False), (App('eq', C('a'), S('k')), False)])
ob('C21', 'add-there', U + 'whatadd', IMP + "q = What(name, {k: y}, nik, out)\ntry:\n    whatadd(q, k, [x])\n    r1 = 'added'\nexcept ValueError:\n    r1 = 'refused'\nr2 = q.conf\n",
   "e1 = 'refused'\ne2 = {k: y}\n", vars=V, opaque=BS)
ob('C21', 'add-there-none', U + 'whatadd', IMP + "q = What(name, {k: None}, nik, out)\ntry:\n    whatadd(q, k, [])\n    r1 = 'added'\nexcept ValueError:\n    r1 = 'refused'\n",
   "e1 = 'refused'\n", vars=V, opaque=BS)
