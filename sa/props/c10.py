"""C10: ids read back to configurations equal to those they came from."""
from .common import *

P = 'whatami/parsers.py:'
IMP = "from whatami import What, id2what\n"
NAME = r'[A-Za-z_][A-Za-z0-9_]*'
TEXT = r"[^\\']*"
V = dict(n='str', m='str', p='str', s='str', t='str', x='int', y='int', z='float', b='bool')


def lang(v, pattern, *nots):
    return [(App('lang', S(v), C(pattern)), True)] + [(App('eq', S(v), C(q)), False) for q in nots]


# names: any identifier; set and frozenset alone are ambiguous without parameters
FACTS = sum([lang(v, NAME, 'set', 'frozenset') for v in ('n', 'm', 'p')] + [lang(v, TEXT) for v in ('s', 't')], [])


# the arrays libraries are there or not: it makes no difference, and the short obligations analyse both
HAVE = [(App('isinstance', Ext(m), T['module']), True) for m in ('pandas', 'numpy')]


def trip(key, what, anchor='WhatamiTreeVisitor.visit_whatami_id', pre='', facts=FACTS, **kw):
    """The configuration read back has the same name, parameters and output name, and the same id."""
    used = {v: k for v, k in V.items() if v in names(pre + what)}
    facts = [f for f in facts if next(iter(syms(f[0]))) in used] + HAVE
    ob('C10', key, P + anchor, IMP + pre + "w = %s\nq = id2what(w.id())\nr1 = q.name\nr2 = q.conf\nr3 = q.out_name\nr4 = type(q)\nr5 = q.id()\n" % what,
       IMP + "e1 = w.name\ne2 = w.conf\ne3 = w.out_name\ne4 = What\ne5 = w.id()\n",
       vars=used, facts=facts, rec=9, **kw)


def names(src):
    import ast
    return {x.id for x in ast.walk(ast.parse(src)) if isinstance(x, ast.Name)}


def syms(v):
    return [x.name for x in walk(v) if isinstance(x, Sym)]


trip('no-parameters', "What(n, {})")
trip('no-parameters-out', "What(n, {}, out_name=m)")
trip('fixed-name-out', "What('mean', {'x': x}, out_name=m)")
trip('private-names', "What('__n_1__', {'_': x, '__k0__': y, 'A9': z}, out_name='_o')")
for lit in ('None', 'True', 'False', 'inf', 'nan', 'set', 'frozenset', 'e', 'class', 'NoneType', 'Trueish', 'Falsely', 'infinite', 'nanmean', 'sets', 'setter',
            'frozensets', '_inf', 'e5', 'E'):
    trip('literal-name-' + lit, "What(%r, {%r: x}, out_name=%r)" % (lit, lit, lit))
    trip('literal-nested-' + lit, "What('w', {'a': What(%r, {'b': x}), 'c': [What(%r, {'b': x})], 'd': {'k': What(%r, {'b': x})}})" % (lit, lit, lit))
    trip('literal-nested-out-' + lit, "What('w', {'a': What('q', {'b': x}, out_name=%r), 'c': What(%r, {'b': x}, out_name=%r)})" % (lit, lit, lit))
    if lit not in ('set', 'frozenset'):
        trip('literal-nested-bare-' + lit, "What('w', {'a': What(%r, {}), 'b': (What(%r, {}), What(%r, {}, out_name=m)), 'c': x})" % (lit, lit, lit))
# values of one kind at a time, at the top, and within each kind of collection
KINDS = {'int': 'x', 'float': 'z', 'bool-true': 'True', 'bool-false': 'False', 'none': 'None', 'string': 's', 'string-empty': "''", 'inf': "float('inf')",
         'minus-inf': "-float('inf')", 'zero': '0', 'minus-one': '-1', 'real': '1.5', 'small': '1e-7', 'large': '1e+22', 'minus-real': '-2.25', 'big-int': '10 ** 30',
         'list': '[x, s]', 'tuple': '(x, s)', 'dict': '{s: x}', 'set': 'set([x])', 'frozenset': 'frozenset([x])', 'list-empty': '[]', 'tuple-empty': '()',
         'dict-empty': '{}', 'set-empty': 'set()', 'frozenset-empty': 'frozenset()', 'what': "What(n, {'a': x})", 'what-out': "What(n, {'a': x}, out_name=m)",
         'what-bare': 'What(n, {})', 'what-bare-out': 'What(n, {}, out_name=m)', 'class': 'str', 'class-own': 'What',
         'list-one': '[x]', 'tuple-one': '(s,)', 'list-none': '[None]', 'tuple-none': '(None,)', 'dict-none': '{None: None}'}
HASHABLE = {k for k in KINDS if not k.startswith(('list', 'dict', 'set'))}
for k, e in sorted(KINDS.items()):
    trip('kind-' + k, "What('w', {'a': %s})" % e)
    trip('kind-more-' + k, "What('w', {'a': %s, 'b': y, 'c': t})" % e)
    trip('kind-out-' + k, "What('w', {'b': %s}, out_name='o')" % e)
    trip('in-list-' + k, "What('w', {'a': [%s], 'b': [%s, y], 'c': [t, %s]})" % (e, e, e))
    trip('in-tuple-' + k, "What('w', {'a': (%s,), 'b': (%s, y), 'c': (t, %s)})" % (e, e, e))
    trip('in-dict-' + k, "What('w', {'a': {'k': %s}, 'b': {'k': %s, 3: t}})" % (e, e))
    trip('in-what-' + k, "What('w', {'a': What(p, {'a': %s}), 'b': What(p, {'k': %s, 'l': t}, out_name='o')})" % (e, e))
    trip('in-deep-' + k, "What('w', {'a': What(p, {'a': [{'k': (%s, y)}]})})" % e)
    if k in HASHABLE and not k.startswith(('what', 'float', 'frozenset', 'tuple', 'inf', 'minus-inf')):
        trip('as-key-' + k, "What('w', {'a': {%s: t}})" % e)
    if k in HASHABLE and not k.startswith(('what', 'frozenset')):
        trip('in-set-' + k, "What('w', {'a': set([%s]), 'b': frozenset([%s])})" % (e, e), tier='thorough')
# strings with everything that has a meaning in the notation
for i, c in enumerate((',', ')', '(', '=', ' ', '  lead', 'trail ', 'a,b=c', "]", "[", "{", "}", ":", '"', '#', 'a(b=c)', 'None', '3', 'set()', '<class ', '\n', '\t', 'inf', '-', '.',
                       "{'a'".replace("'", '"'), 'ü', ',)', '%s', '{}')):
    trip('text-%d' % i, "What('w', {'a': %r, 'b': [%r, 's' + %r, %r + 't'], 'c': {%r: x}, 'd': y})" % ((c,) * 5), 'WhatamiTreeVisitor.visit_a_string')
trip('text-any-beside', "What('w', {'a': ' ' + s, 'b': s + ')', 'c': [',' + s, s + t], 'd': {'(' + s: x}})", 'WhatamiTreeVisitor.visit_a_string')
# numbers keep their kind
trip('number-kinds', "What('w', {'a': 1, 'b': 1.0, 'c': True, 'd': 0, 'e': 0.0, 'f': False, 'g': -3, 'h': -3.0, 'i': 1e100, 'j': -1e-100, 'k': 100})",
     'WhatamiTreeVisitor.visit_a_number')
for key, e, k in (('int', 'x', 'int'), ('float', 'z', 'float'), ('bool', 'True', 'bool'), ('whole-float', '2.0', 'float'), ('exponent', '1e+16', 'float'), ('negative', '-7', 'int')):
    ob('C10', 'number-kind-' + key, P + 'WhatamiTreeVisitor.visit_a_number', IMP + "q = id2what(What('w', {'a': %s, 'b': [%s]}).id())\nr1 = type(q['a'])\nr2 = type(q['b'][0])\n" % (e, e),
       "e1 = %s\ne2 = %s\n" % (k, k), vars={v: V[v] for v in names(e) & set(V)}, rec=9)
ob('C10', 'nan', P + 'WhatamiTreeVisitor.visit_a_number', IMP + "q = id2what(What('w', {'a': float('nan'), 'b': x}).id())\nr1 = q['a'] != q['a']\nr2 = type(q['a'])\nr3 = q.id()\nr4 = q['b']\n",
   "e1 = True\ne2 = float\ne3 = 'w(a=nan,b=%s)' % x\ne4 = x\n", vars=dict(x='int'), rec=9)
# collections keep their kind and order
for key, e, k in (('list', '[x, s]', 'list'), ('tuple', '(x, s)', 'tuple'), ('dict', '{s: x}', 'dict'), ('set', 'set([x])', 'set'), ('frozenset', 'frozenset([x])', 'frozenset'),
                  ('empty-list', '[]', 'list'), ('empty-tuple', '()', 'tuple'), ('empty-dict', '{}', 'dict'), ('empty-set', 'set()', 'set'), ('empty-frozenset', 'frozenset()', 'frozenset')):
    vs = names(e) & set(V)
    ob('C10', 'collection-kind-' + key, P + 'WhatamiTreeVisitor', IMP + "q = id2what(What('w', {'a': %s, 'b': [%s], 'c': What('v', {'d': %s})}).id())\nr1 = type(q['a'])\nr2 = type(q['b'][0])\nr3 = type(q['c', 'd'])\nr4 = type(q['b'])\nr5 = len(q['a'])\n" % (e, e, e),
       "e1 = %s\ne2 = %s\ne3 = %s\ne4 = list\ne5 = len(%s)\n" % (k, k, k, e), vars={v: V[v] for v in vs}, facts=[f for f in FACTS if syms(f[0])[0] in vs], rec=9)
trip('order', "What('w', {'l': [x, y, x, z, s], 't': (s, x, y, t), 'd': {'b': [y, x], 'a': (t, s)}})", 'build_whatami_parser')
trip('many-elements', "What('w', {'l': [1, 2, 3, 4, 5, 6, 7], 't': tuple('abcdef'), 'd': {'a': 1, 'b': 2, 'c': 3, 'd': 4}, 's': set([4, 3, 2, 1])})", 'build_whatami_parser')
trip('many-parameters', "What(n, {'a': x, 'b': y, 'c': z, 'd': s, 'e': t, 'f': None, 'g': True})", 'build_whatami_parser')
# depth
trip('nested-3', "What(n, {'a': What(m, {'b': What(p, {'c': x, 'd': s})}), 'e': y})")
trip('nested-3-out', "What('f', {'a': What('g', {'b': What('h', {'c': x}, out_name=m)}, out_name=p)}, out_name=n)")
trip('nested-collections', "What('f', {'a': [(x, [y, (s, {'k': [t]})], {})], 'b': {'k': {'l': {'m': [x]}}}})")
trip('nested-in-collections', "What('f', {'a': [What('g', {'b': (What('h', {}), [What('i', {'c': {'d': What('j', {'e': z})}})])})]})")
trip('siblings', "What('f', {'a': What(n, {'x': x}), 'b': What(m, {'x': y}, out_name='o'), 'c': [What(p, {}), What(n, {})]})")
trip('same-key', "What('f', {'f': What('f', {'f': x}, out_name='f')}, out_name='f')")
# classes come back as themselves when they can be imported
trip('class-known', "What('w', {'a': int if False else str, 'b': [OrderedDict, What], 'c': datetime.datetime})", 'WhatamiTreeVisitor.visit_a_class',
     "from collections import OrderedDict\nimport datetime\n")
trip('class-user', "What('w', {'a': K, 'b': [J, K], 'c': {'k': J}})", 'WhatamiTreeVisitor.visit_a_class', "class K(object):\n    pass\nclass J(K):\n    pass\n")
# what is left out of the id is left out of what is read
ob('C10', 'nonids', P + 'WhatamiTreeVisitor.visit_whatami_id', IMP + "w = What(n, {'a': x, 'b': s, 'c': y}, non_id_keys=['b'])\nq = id2what(w.id())\nr1 = q.conf\nr2 = q.non_id_keys\nq2 = id2what(w.id(nonids_too=True))\nr3 = q2.conf\n",
   "e1 = {'a': x, 'c': y}\ne2 = set()\ne3 = {'a': x, 'b': s, 'c': y}\n", vars=dict(n='str', x='int', y='int', s='str'), facts=lang('n', NAME) + lang('s', TEXT), rec=9)
# the whole loop: ids of what was read are the ids read
ob('C10', 'twice', P + 'parse_whatid', IMP + "w = What(n, {'a': [What(m, {'b': s}), {'k': z}], 'c': (x,)}, out_name=p)\ni = w.id()\nr1 = id2what(id2what(i).id()).id()\nr2 = id2what(i) == id2what(i)\nr3 = id2what(i).id(nonids_too=True)\n",
   "e1 = w.id()\ne2 = True\ne3 = w.id()\n", vars={v: V[v] for v in 'nmpsxz'}, facts=[f for f in FACTS if syms(f[0])[0] in 'nmps'], rec=9)
ob('C10', 'quotes-keep-id', P + 'WhatamiTreeVisitor.visit_a_string', IMP + "w = What('w', {'a': \"it's\", 'b': [\"'\", \"''\", \"a'b'c\"], 'c': x})\nr = id2what(w.id()).id()\n", "e = w.id()\n", vars=dict(x='int'), rec=9)
ob('C10', 'str', P + 'parse_whatid', IMP + "w = What(n, {'a': x})\nr1 = id2what(str(w)).conf\nr2 = id2what(w.id()) == w\nr3 = hash(id2what(w.id())) == hash(w)\nr4 = w == id2what(w.id())\n",
   "e1 = {'a': x}\ne2 = True\ne3 = True\ne4 = True\n", vars=dict(n='str', x='int'), facts=lang('n', NAME), rec=9)
# parsers and visitors given are used; the defaults are as good as new ones
ob('C10', 'given-parser', P + 'parse_whatid', IMP + "from whatami.parsers import build_whatami_parser, WhatamiTreeVisitor\nw = What(n, {'a': x})\nr1 = id2what(w.id(), parser=build_whatami_parser()).conf\nr2 = id2what(w.id(), visitor=WhatamiTreeVisitor()).conf\nr3 = id2what(w.id(), build_whatami_parser(), WhatamiTreeVisitor()).conf\nr4 = id2what(w.id()).conf\n",
   "e1 = {'a': x}\ne2 = {'a': x}\ne3 = {'a': x}\ne4 = {'a': x}\n", vars=dict(n='str', x='int'), facts=lang('n', NAME), rec=9)
ob('C10', 'history', P + 'parse_whatid', IMP + """
a = id2what(What(n, {'a': [x]}).id())
a.conf['a'].append(y)
a.conf['b'] = y
try:
    id2what('w(')
except Exception:
    pass
b = id2what(What(n, {'a': [x]}).id())
r1 = b.conf
r2 = b.name
""", "e1 = {'a': [x]}\ne2 = n\n", vars=dict(n='str', x='int', y='int'), facts=lang('n', NAME), rec=9)
