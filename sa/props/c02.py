"""C02: ids tell the value at the time they are asked for, whatever was asked for before."""
from .common import *

W = 'whatami/what.py:'
P = 'whatami/plugins.py:'
U = 'whatami/whatutils.py:'
IMP = "from whatami import What, whatable, whatareyou, obj2what, what2id, parse_whatid\nfrom whatami.plugins import WhatamiPluginManager as M\nfrom functools import partial\n"
V = dict(x='int', y='int', z='int', n='str', m='str', k='str', t='str', o='str')


def fob(key, code, ref, anchor=W + 'What.id', **kw):
    kw.setdefault('vars', V)
    ob('C02', key, anchor, IMP + code, IMP + ref, rec=kw.pop('rec', 5), **kw)


ASK = "[w.id(), w.id(nonids_too=True), w.positional_id(), str(w), repr(w), w.id(maxlength=3), M.build_string(w), M.build_string([w]), What('O', {'w': w}).id(), what2id(w), list(w.keys()), list(w.values()), w.values(recursive=True)]"
DEEP = 'w.id()'
# a configuration that changed says what a new one with the same parts says
HIST = (
    ('value', "w = What(n, {'a': x, 'b': y})", "w.conf['a'] = z", "w = What(n, {'a': z, 'b': y})"),
    ('new-key', "w = What(n, {'a': x})", "w.conf['b'] = z", "w = What(n, {'a': x, 'b': z})"),
    ('no-key', "w = What(n, {'a': x, 'b': y})", "del w.conf['a']", "w = What(n, {'b': y})"),
    ('conf', "w = What(n, {'a': x})", "w.conf = {'b': y}", "w = What(n, {'b': y})"),
    ('name', "w = What(n, {'a': x})", "w.name = m", "w = What(m, {'a': x})"),
    ('out', "w = What(n, {'a': x})", "w.out_name = o", "w = What(n, {'a': x}, out_name=o)"),
    ('no-out', "w = What(n, {'a': x}, out_name=o)", "w.out_name = None", "w = What(n, {'a': x})"),
    ('non-ids', "w = What(n, {'a': x, 'b': y})", "w.non_id_keys.add('b')", "w = What(n, {'a': x, 'b': y}, ['b'])"),
    ('non-ids-fewer', "w = What(n, {'a': x, 'b': y}, ['a', 'b'])", "w.non_id_keys.discard('a')", "w = What(n, {'a': x, 'b': y}, ['b'])"),
    ('non-ids-new', "w = What(n, {'a': x, 'b': y})", "w.non_id_keys = set(['a'])", "w = What(n, {'a': x, 'b': y}, ['a'])"),
    ('list', "l = [x]\nw = What(n, {'a': l})", "l.append(y)", "w = What(n, {'a': [x, y]})"),
    ('list-item', "l = [x, 'q']\nw = What(n, {'a': l})", "l[0] = z", "w = What(n, {'a': [z, 'q']})"),
    ('dict', "d = {'p': x}\nw = What(n, {'a': d})", "d['q'] = y", "w = What(n, {'a': {'p': x, 'q': y}})"),
    ('set', "s = set(['p'])\nw = What(n, {'a': s})", "s.add('q')", "w = What(n, {'a': set(['p', 'q'])})"),
    ('deep', "l = ['p']\nw = What('nm', {'a': [{'b': (l, 1)}]})", "l[0] = 'q'\nl.append(True)", "w = What('nm', {'a': [{'b': (['q', True], 1)}]})"),
    ('nested', "v = What(m, {'b': x})\nw = What(n, {'a': v})", "v.conf['b'] = y", "w = What(n, {'a': What(m, {'b': y})})"),
    ('nested-name', "v = What(m, {'b': x})\nw = What(n, {'a': [v]})", "v.name = k", "w = What(n, {'a': [What(k, {'b': x})]})"),
    ('nested-non-ids', "v = What(m, {'b': x, 'c': y})\nw = What(n, {'a': v})", "v.non_id_keys.add('c')", "w = What(n, {'a': What(m, {'b': x, 'c': y}, ['c'])})"),
    ('nested-other', "w = What(n, {'a': What(m, {'b': x})})", "w['a'].conf['b'] = y\nw.conf['c'] = z", "w = What(n, {'a': What(m, {'b': y}), 'c': z})"),
    ('whatable', "@whatable\nclass K(object):\n    def __init__(self, a):\n        self.a = a\nv = K(x)\nw = What(n, {'a': v})", "v.a = y", "w = What(n, {'a': K(y)})"),
    ('back', "w = What(n, {'a': x})", "w.conf['a'] = z\nw.id()\nw.conf['a'] = x", "w = What(n, {'a': x})"),
)
for key, make, change, fresh in HIST:
    ask = DEEP if key == 'deep' else ASK
    fob('changed-' + key, "%s\np = %s\n%s\nr = %s" % (make, ask, change, ask), "%s\ne = %s" % (fresh, ask), limit=80)

# values that are equal are not the same
TWINS = (('int-bool', '1', 'True'), ('int-float', '1', '1.0'), ('bool-float', 'False', '0.0'), ('zeros', '0.0', '-0.0'), ('tuple', '(1, 2)', '(True, 2.0)'), ('list', '[1]', '[1.0]'),
         ('dict', "{'a': 0}", "{'a': False}"), ('set', 'set([1])', 'set([True])'), ('frozenset', 'frozenset([0])', 'set([0])'), ('what', "What(n, {'a': 1})", "What(n, {'a': True})"),
         ('what-float', "What(n, {'a': [0, 1]})", "What(n, {'a': [0.0, 1.0]})"), ('large', '10000000000000000', '1e16'), ('key', '{1: x}', '{True: x}'))
for key, a, b in TWINS:
    for one, two, way in ((a, b, ''), (b, a, '-back')):
        fob('twin-%s%s' % (key, way), "p = [M.build_string(%s), What(n, {'v': %s}).id(), What(n, {'v': %s}).positional_id()]\nr = [M.build_string(%s), What(n, {'v': %s}).id(), What(n, {'v': %s}).positional_id()]" % (one, one, one, two, two, two),
            "e = [M.build_string(%s), What(n, {'v': %s}).id(), What(n, {'v': %s}).positional_id()]" % (two, two, two), P + 'WhatamiPluginManager.build_string')
        if not key.startswith('what') and key not in ('key',):
            texts = {'1': '1', 'True': 'True', '1.0': '1.0', 'False': 'False', '0.0': '0.0', '-0.0': '-0.0', '(1, 2)': '(1,2)', '(True, 2.0)': '(True,2.0)', '[1]': '[1]', '[1.0]': '[1.0]',
                     "{'a': 0}": "{'a':0}", "{'a': False}": "{'a':False}", 'set([1])': '{1}', 'set([True])': '{True}', 'frozenset([0])': None, 'set([0])': None,
                     '10000000000000000': '10000000000000000', '1e16': '1e+16'}
            if texts[one] is None:
                continue
            fob('text-%s%s' % (key, way), "M.build_string(%s)\nM.build_string(%s)\nr = [M.build_string(%s), M.build_string(%s)]" % (one, two, one, two), "e = [%r, %r]" % (texts[one], texts[two]), P + 'WhatamiPluginManager.build_string')
fob('other-equal', "p = What(n, {'a': x}, ['a']).id()\nr = What(n, {'a': x}).id()", "e = n + '(a=' + str(x) + ')'")
fob('other-equal-back', "p = What(n, {'a': x}).id()\nr = What(n, {'a': x}, ['a']).id()", "e = n + '()'")

# the length asked for before, or the rest of the options, do not matter
w_ = "w = What(n, {'a': x, 'b': y}, ['b'], o)\n"
fob('lengths', "w = What('nm', {'a': x, 'b': y}, ['b'], 'out')\np = [w.id(maxlength=1), w.id(maxlength=0), w.id(nonids_too=True, maxlength=2)]\nr = [w.id(), w.id(nonids_too=True), w.id(maxlength=0)]", "w = What('nm', {'a': x, 'b': y}, ['b'], 'out')\ne = [w.id(), w.id(nonids_too=True), w.id()]")
fob('lengths-back', w_ + "p = [w.id(), w.id(nonids_too=True)]\nr = w.id(maxlength=0)", "e = What(n, {'a': x, 'b': y}, ['b'], o).id(maxlength=0)")
fob('non-ids-before', w_ + "p = w.id(nonids_too=True)\nr = w.id()\nq = w.positional_id(non_ids_too=True)\nr2 = w.positional_id()", "v = What(n, {'a': x, 'b': y}, ['b'], o)\ne = v.id()\ne2 = v.positional_id()")
fob('non-ids-after', w_ + "p = w.id()\nq = w.positional_id()\nr = w.id(nonids_too=True)\nr2 = w.positional_id(non_ids_too=True)\nr3 = w.keys(non_ids_too=True)", "v = What(n, {'a': x, 'b': y}, ['b'], o)\ne = v.id(nonids_too=True)\ne2 = v.positional_id(non_ids_too=True)\ne3 = v.keys(non_ids_too=True)")

# the renderers there are when the id is asked for
PL = "def seven(v):\n    if v == 7:\n        return 'seven'\ndef night(v):\n    if v == 7:\n        return 'eight'\n"
fob('renderer-new', PL + "w = What(n, {'a': 7, 'b': [7]})\np = w.id()\nM.insert(seven)\nr = (p, w.id(), M.build_string(7))\nM.drop(seven)\nr2 = w.id()\nM.insert(night)\nr3 = w.id()\nM.reset()\nr4 = w.id()",
    "e2 = n + '(a=7,b=[7])'\ne = (e2, n + '(a=seven,b=[seven])', 'seven')\ne3 = n + '(a=eight,b=[eight])'\ne4 = e2", P + 'WhatamiPluginManager.build_string', writes_ok=True)
fob('renderer-told', "said = ['one']\ndef tell(v):\n    if v == 7:\n        return said[0]\nM.insert(tell)\np = What(n, {'a': 7}).id()\nsaid[0] = t\nr = What(n, {'a': 7}).id()\nr2 = M.build_string([7, 7])", "e = n + '(a=' + t + ')'\ne2 = '[' + t + ',' + t + ']'",
    P + 'WhatamiPluginManager.build_string', writes_ok=True)

# what is looked at is looked at each time
fob('functions', "def mk(v):\n    def f(a, b=v):\n        return a\n    return f\nf, g = mk(x), mk(y)\np = [what2id(f), M.build_string(f)]\nr = [what2id(g), M.build_string(g), whatable(g).what().id()]", "i = What('f', {'b': y}).id()\ne = [i, i, i]", U + 'whatareyou')
fob('closure-list', "l = [x]\ndef f(a, b=l):\n    return a\nf = whatable(f)\np = f.what().id()\nl.append(y)\nr = f.what().id()\nr2 = what2id(f)", "e = What('f', {'b': [x, y]}).id()\ne2 = e", U + 'whatable')
fob('partials', "def f(a, b=1):\n    return a\np = what2id(partial(f, b=1))\nr = [what2id(partial(f, b=True)), what2id(partial(f, b=1.0)), what2id(partial(f, b=y))]", "e = ['f(b=True)', 'f(b=1.0)', What('f', {'b': y}).id()]", U + 'whatareyou')
fob('object', "class K(object):\n    pass\nv = K()\nv.a = x\np = [what2id(v), obj2what(v).id(), M.build_string(v)]\nv.a = True\nv.b = [y]\nr = [what2id(v), obj2what(v).id()]", "i = What('K', {'a': True, 'b': [y]}).id()\ne = [i, i]", U + 'whatareyou')
fob('object-equal', "class K(object):\n    def __init__(self, a):\n        self.a = a\n    def __eq__(self, other):\n        return True\n    def __hash__(self):\n        return 1\np = [what2id(K(x)), M.build_string(K(x)), What(n, {'k': K(x)}).id()]\nr = [what2id(K(y)), obj2what(K(y)).id()]",
    "e = [What('K', {'a': y}).id()] * 2", U + 'whatareyou')
fob('object-property', "s = [x]\nclass K(object):\n    @property\n    def a(self):\n        return s[0]\nv = K()\np = [what2id(v), whatareyou(v).id()]\ns[0] = y\nr = [what2id(v), whatareyou(v).id()]", "e = [What('K', {'a': y}).id()] * 2", U + 'whatareyou')
fob('class-same-name', "def mk(v):\n    @whatable\n    class K(object):\n        def __init__(self):\n            self.a = v\n    return K\nA, B = mk(x), mk(y)\np = [A().what().id(), what2id(A())]\nr = [B().what().id(), what2id(B())]", "e = [What('K', {'a': y}).id()] * 2", U + 'whatable')
# functions and partials tell their parameters as they are when asked
ob('C02', 'partial-changed', 'whatami/misc.py:callable2call', """
from functools import partial
from whatami import What, whatareyou, what2id
def fun(a, b=x):
    return a
p = partial(fun, a=y)
w = What(n, {'f': p})
r1 = (whatareyou(p).conf, w.id())
p.keywords['a'] = z
r2 = (whatareyou(p).conf, w.id(), what2id(p))
p.keywords['b'] = y
r3 = (whatareyou(p).conf, w.id())
""", """
from whatami import What
def t(a, b):
    return What(n, {'f': What('fun', {'a': a, 'b': b})}).id()
e1 = ({'a': y, 'b': x}, t(y, x))
e2 = ({'a': z, 'b': x}, t(z, x), What('fun', {'a': z, 'b': x}).id())
e3 = ({'a': z, 'b': y}, t(z, y))
""", vars=dict(x='int', y='int', z='int', n='str'), rec=6)
ob('C02', 'function-changed', 'whatami/misc.py:callable2call', """
from whatami import What, whatareyou, what2id
def fun(a=x, b=y):
    return a
w = What(n, {'f': fun})
r1 = (whatareyou(fun).conf, w.id())
fun.__defaults__ = (z, y)
r2 = (whatareyou(fun).conf, w.id(), what2id(fun))
""", """
from whatami import What
def t(a, b):
    return What(n, {'f': What('fun', {'a': a, 'b': b})}).id()
e1 = ({'a': x, 'b': y}, t(x, y))
e2 = ({'a': z, 'b': y}, t(z, y), What('fun', {'a': z, 'b': y}).id())
""", vars=dict(x='int', y='int', z='int', n='str'), rec=6)

# the same value again, and again after others
Q = "def q(s):\n    return \"'\" + s.replace(\"\\\\'\", \"'\").replace(\"'\", \"\\\\'\") + \"'\"\n"
AGAIN = (('"it\'s"', None), ('"it\\\\\'s"', None), ("'a\"b'", None), ("'plain'", None), ("''", None), ("'\u00e9'", None), ("'a\\nb'", None), ('"\'\'"', None), ('t', None),
         ('[x, t]', "'[' + str(x) + ',' + q(t) + ']'"), ('(t, "q\'")', "'(' + q(t) + ',' + q(\"q'\") + ')'"), ('{t: [x]}', "'{' + q(t) + ':[' + str(x) + ']}'"),
         ('{m}', "'{' + q(m) + '}'"), ('frozenset([x])', "'frozenset({' + str(x) + '})'"), ("What(n, {'a': [t]})", "n + '(a=[' + q(t) + '])'"), ('None', "'None'"), ('1.5', "'1.5'"),
         ("b'a'", "\"b'a'\""), ('int', "'int()'"), ('x', 'str(x)'), ('[[]]', "'[[]]'"), ('{}', "'{}'"), ('set()', "'set()'"), ('fun', "'fun(a=' + str(x) + ')'"), ('partial(fun, 1, a=t)', "'fun(a=' + q(t) + ',b=1)'"),
         ('K()', "'K(a=' + str(x) + ')'"))
for i, (v, text) in enumerate(AGAIN):
    fob('again-%d' % i, "def fun(b, a=x):\n    return a\nclass K(object):\n    def __init__(self):\n        self.a = x\n    def what(self):\n        return whatareyou(self)\n"
        "p = M.build_string(%s)\nr1 = M.build_string(%s)\nM.build_string('other')\nr2 = M.build_string([%s, {'k': %s}])\nr3 = What('n', {'a': %s}).id()\nr4 = M.build_string(%s)\n" % ((v,) * 6),
        Q + "e1 = %s\ne2 = '[' + e1 + ',{\\'k\\':' + e1 + '}]'\ne3 = 'n(a=' + e1 + ')'\ne4 = e1\n" % (text or 'q(%s)' % v), P + 'WhatamiPluginManager.build_string', limit=80)
