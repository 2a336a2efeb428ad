"""C01: ids do not depend on the order of insertion or iteration of what has no order."""
from .common import *

WH = "from whatami import What\nw = What(name, conf, nik, out)\n"

for nid in (False, True):
    ob('C01', 'id-%s' % nid, 'whatami/what.py:What.id',
       WH + "r = w.id(nonids_too=%s)" % nid, vars=WHAT, opaque=BS, effects=[order_free('r', src='conf')],
       claim='entries of the configuration reach the id sorted by their unique key')
    ob('C01', 'positional-%s' % nid, 'whatami/what.py:What.positional_id',
       WH + "r = w.positional_id(non_ids_too=%s)" % nid, vars=WHAT, opaque=BS, effects=[order_free('r', src='conf')],
       claim='values reach the positional id sorted by their unique key')
    ob('C01', 'flatten-%s' % nid, 'whatami/what.py:What.flatten',
       WH + "r1 = w.keys(non_ids_too=%s, recursive=False)\nr2 = w.values(non_ids_too=%s, recursive=False)" % (nid, nid),
       vars=WHAT, effects=[order_free('r1', 'r2', src='conf')],
       claim='flattening enumerates the configuration sorted by key')
ob('C01', 'str', 'whatami/what.py:What.__str__', WH + "r = str(w)", vars=WHAT, opaque=BS,
   effects=[order_free('r', src='conf')])

ODICT = dict(BS)
ODICT[('whatami.misc', 'config_dict_for_object')] = lambda I, a, k, n: I.models.m_dict(I, [], [], n, None)
PL = "from whatami.plugins import %s as p\nr = p(v)"
ob('C01', 'dict', 'whatami/plugins.py:dict_plugin', PL % 'dict_plugin', vars=dict(v='dict'), opaque=BS,
   effects=[order_free('r', src='v')])
ob('C01', 'odict', 'whatami/plugins.py:dict_plugin', PL % 'dict_plugin', vars=dict(v='OrderedDict'),
   effects=[order_kept('r', src='v')], facts=PLAIN,
   opaque=ODICT)
for t in ('set', 'frozenset'):
    ob('C01', t, 'whatami/plugins.py:set_plugin', PL % 'set_plugin', vars=dict(v=t), opaque=BS,
       effects=[order_free('r', src='v')])
    ob('C01', t + '-subclass', 'whatami/plugins.py:set_plugin', PL % 'set_plugin', vars=dict(v=None), opaque=BS,
       setup=proper(t), effects=[order_free('r', src='v')])
for t in ('list', 'tuple'):
    ob('C01', t, 'whatami/plugins.py:%s_plugin' % t, PL % (t + '_plugin'), vars=dict(v=t), opaque=BS,
       effects=[order_kept('r', src='v')])
    ob('C01', t + '-subclass', 'whatami/plugins.py:%s_plugin' % t, PL % (t + '_plugin'), vars=dict(v=None), opaque=BS,
       setup=proper(t), effects=[order_kept('r', src='v')])

# two entries, in both orders: whatever is done with their texts cannot tell the orders apart
PAIR = [(App('eq', S('a'), S('b')), False)]
PV = dict(a='str', b='str', x='str', y='str', name='str')
for key, anchor, expr, one, two in (
        ('dict', 'whatami/plugins.py:dict_plugin', 'p(v)', '{a: x, b: y}', '{b: y, a: x}'),
        ('set', 'whatami/plugins.py:set_plugin', 'p(v)', '{a, b}', '{b, a}'),
        ('frozenset', 'whatami/plugins.py:set_plugin', 'p(v)', 'frozenset([a, b])', 'frozenset([b, a])')):
    ob('C01', 'pair-' + key, anchor, "from whatami.plugins import WhatamiPluginManager as M\n"
       "r1 = M.build_string(%s)\nr2 = M.build_string([%s])" % (one, one),
       "from whatami.plugins import WhatamiPluginManager as M\n"
       "e1 = M.build_string(%s)\ne2 = M.build_string([%s])" % (two, two), vars=PV, facts=PAIR, rec=4)
for key, expr in (('id', 'w.id()'), ('str', 'str(w)'), ('positional', 'w.positional_id()'), ('keys', 'w.keys()'),
                  ('values', 'w.values()'), ('keys-all', 'w.keys(non_ids_too=True)'), ('to-text', 'M.build_string([w])'),
                  ('collections', 'w.keys(collections_too=True)')):
    ob('C01', 'pair-what-' + key, 'whatami/what.py:What.id',
       "from whatami import What\nfrom whatami.plugins import WhatamiPluginManager as M\n"
       "w = What(name, {a: x, b: y})\nr = " + expr,
       "from whatami import What\nfrom whatami.plugins import WhatamiPluginManager as M\n"
       "w = What(name, {b: y, a: x})\ne = " + expr, vars=PV, facts=PAIR, rec=4)

# at any depth, also where the parameters of a nested configuration, or the entries of a dictionary, came in another order
for key, expr in (('keys', 'w.keys()'), ('values', 'w.values()'), ('keys-all', 'w.keys(non_ids_too=True)'), ('values-all', 'w.values(non_ids_too=True)'),
                  ('collections', 'w.keys(collections_too=True)'), ('collections-values', '[v for v in w.values(collections_too=True) if type(v) is not What]'),
                  ('id', 'w.id()'), ('str', 'str(w)'), ('positional', 'w.positional_id()')):
    for nkey, wrap in (('what', "What('i', %s)"), ('dict', '%s'), ('what-what', "What('i', {'k': What('j', %s)})"), ('what-dict', "What('i', {'k': %s})"),
                       ('list-dict', '[%s]'), ('dict-dict', "{'k': %s}")):
        ob('C01', 'inside-%s-%s' % (nkey, key), 'whatami/what.py:What.flatten',
           "from whatami import What\nw = What('n', {'p': %s, 'z': 1})\nr = %s" % (wrap % "{'a': 1, 'c': 2, 'b': 3}", expr),
           "from whatami import What\nw = What('n', {'z': 1, 'p': %s})\ne = %s" % (wrap % "{'c': 2, 'b': 3, 'a': 1}", expr), rec=6)
# sets of sets, and dictionaries with sets in their keys: their elements are only partially ordered
for key, one, two in (
        ('sets', "{frozenset('ab'), frozenset('bc'), frozenset('abc')}", "{frozenset('cba'), frozenset('cb'), frozenset('ba')}"),
        ('frozensets', "frozenset([frozenset([1, 2]), frozenset([2, 3]), frozenset([2])])", "frozenset([frozenset([2]), frozenset([3, 2]), frozenset([2, 1])])"),
        ('keys', "{frozenset('ab'): 1, frozenset('bc'): 2}", "{frozenset('cb'): 2, frozenset('ba'): 1}"),
        ('tuples', "{(frozenset('ab'), 1), (frozenset('bc'), 1)}", "{(frozenset('cb'), 1), (frozenset('ba'), 1)}"),
        ('mixed', "{1, 'a', None, (2, 'b'), 2.5}", "{2.5, (2, 'b'), None, 'a', 1}"),
        ('mixed-keys', "{1: 'x', 'a': 2, None: 3, (2, 'b'): 4}", "{(2, 'b'): 4, None: 3, 'a': 2, 1: 'x'}")):
    B = "from whatami.plugins import WhatamiPluginManager as M\nfrom whatami import What\n"
    ob('C01', 'partial-order-' + key, 'whatami/plugins.py:WhatamiPluginManager.build_string', B + "r = M.build_string(%s)\nr2 = What('n', {'k': %s}).id()\n" % (one, one), B + "e = M.build_string(%s)\ne2 = What('n', {'k': %s}).id()\n" % (two, two), vars={}, rec=6)

# so are the texts of dictionaries and sets of other classes
OTHER = "from whatami.plugins import WhatamiPluginManager as M\nfrom whatami import What, whatareyou\nclass D(dict):\n    pass\nclass S(set):\n    pass\nclass F(frozenset):\n    pass\n"
for key, one, two in (('dict', "D([(a, x), (b, y)])", "D([(b, y), (a, x)])"), ('set', 'S([a, b])', 'S([b, a])'), ('frozenset', 'F([a, b])', 'F([b, a])'),
                      ('dict-inside', "[D([(a, {b: x, a: y}), (b, y)])]", "[D([(b, y), (a, {a: y, b: x})])]"), ('dict-filled', 'fill([(a, x), (b, y)])', 'fill([(b, y), (a, x)])')):
    fill = "def fill(ps):\n    d = D()\n    for k, v in ps:\n        d[k] = v\n    d.extra = x\n    return d\n"
    ob('C01', 'derived-' + key, 'whatami/plugins.py:%s_plugin' % ('set' if 'set' in key else 'dict'), OTHER + fill + "v = %s\nr1 = M.build_string(v)\nr2 = What('n', {'k': v}).id()\nr3 = whatareyou(v).id()\n" % one,
       OTHER + fill + "v = %s\ne1 = M.build_string(v)\ne2 = What('n', {'k': v}).id()\ne3 = whatareyou(v).id()\n" % two, vars=PV, facts=PAIR, rec=6, writes_ok=True)
