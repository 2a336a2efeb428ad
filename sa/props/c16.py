"""C16: arguments that are read through once give the same results as lists of their elements."""
from .common import *

V = dict(WHAT, u=None, l='list', l2='list', k='str', x=None, y=None, z=None, k1='str', k2='str', d='dict', f='bool')
# ways of giving the elements of a list that can be read through only once, or in no special container
KINDS = (('iterator', 'iter(%s)'), ('generator', '(q for q in %s)'), ('tuple', 'tuple(%s)'))
W = 'whatami/what.py:'
M = 'whatami/misc.py:'
U = 'whatami/whatutils.py:'
P = 'whatami/parsers.py'
ID2 = {('whatami.parsers', 'parse_whatid'): make_opaque('parse', None)}
IMP = "from whatami import What, whatareyou, whatable\n"


def once(key, anchor, code, ref, kinds=KINDS, **kw):
    for kn, how in kinds:
        ob('C16', '%s-%s' % (key, kn), anchor, code.replace('GIVEN', how % 'l'), ref, **kw)


once('non-id-keys', W + 'What.__init__', IMP + """
w = What(name, conf, GIVEN, out)
r1 = set(w.non_id_keys)
r2 = w.keys(recursive=False)
r3 = w.keys(recursive=False)
r4 = set(w.copy().non_id_keys)
""", """
ids = set(l)
e1 = ids
e2 = What(name, conf, l).keys(recursive=False)
e3 = e2
e4 = ids
""", vars=V)
CLS = IMP + """
class K(object):
    def __init__(self):
        self.a = x
        self.b = y
def fun(p, a=x, b=y):
    return a
"""
for key, code, end in (('whatareyou', 'q = whatareyou(K(), non_id_keys=GIVEN)\n', ''),
                       ('whatareyou-function', 'q = whatareyou(fun, non_id_keys=GIVEN)\n', ''),
                       ('whatable-function', 'g = whatable(fun, non_id_keys=GIVEN)\nq0 = g.what()\nq = g.what()\n', " | set(('what',))"),
                       ('whatable-function-decorator', 'g = whatable(non_id_keys=GIVEN)(fun)\nq0 = g.what()\nq = g.what()\n', " | set(('what',))"),
                       ('whatable-inplace', 'g = whatable(fun, non_id_keys=GIVEN, modify_func_inplace=True)\nq0 = g.what()\nq = g.what()\n',
                        " | set(('what',))")):
    once(key, W + code.split(' = ')[1].split('(')[0], CLS + code + "r1 = set(q.non_id_keys)\nr2 = q.conf\n", "e1 = set(l)%s\ne2 = {'a': x, 'b': y}\n" % end,
         vars=V, writes_ok=True)
once('whatareyou-excludes', W + 'whatareyou', CLS + "q = whatareyou(K(), excludes=GIVEN)\nr1 = q.conf\n",
     "e1 = {n: v for n, v in (('a', x), ('b', y)) if n not in l}\n", vars=V)
once('whatable-function-excludes', W + 'whatable', CLS + "g = whatable(fun, excludes=GIVEN)\nr0 = set(g.what().non_id_keys)\nr1 = set(g.what().non_id_keys)\n",
     "e0 = set(l)\ne1 = set(l)\n", vars=V, writes_ok=True)
once('trim', M + 'trim_dict', "from whatami.misc import trim_dict\nr1 = trim_dict(d, None, None, GIVEN)\n",
     "e1 = {n: d[n] for n in d if n not in l}\n", vars=V)
once('trim-two', M + 'trim_dict', "from whatami.misc import trim_dict\nr1 = trim_dict({k1: x, k2: y}, None, None, excludes=GIVEN)\n",
     "e1 = {}\nif k1 not in l:\n    e1[k1] = x\nif k2 not in l:\n    e1[k2] = y\n", vars=V, facts=[(App('eq', S('k1'), S('k2')), False)])
# ids and configurations
WL = "from whatami import sort_whats, sort_whatids, match_whatids, whatadd, What\n"
once('sort-whats', U + 'sort_whats', WL + "r1 = sort_whats(GIVEN, k)\n", "from whatami import sort_whats\ne1 = sort_whats(list(l), k)\n", vars=V)
once('sort-whatids', U + 'sort_whatids', WL + "r1 = sort_whatids(GIVEN, k)\n", "from whatami import sort_whatids\ne1 = sort_whatids(list(l), k)\n",
     vars=V, opaque=ID2)
TREES = WL + """
def t_A():
    return What('n', {'a': x, 'b': y})
def t_B():
    return What('n', {'a': z, 'b': y})
def t_C():
    return What('m', {'a': x, 'b': y})
"""
EQ = [(App('eq', S('x'), S('z')), False)]
for kn, how in KINDS + (('list', '%s'),):
    ob('C16', 'match-' + kn, U + 'match_whatids', TREES + "r1 = match_whatids(%s, 'A')\nr2 = match_whatids(%s, 'A', ['a'])\n" % (
        how % "['A', 'B', 'C', 'A']", how % "['A', 'B', 'C']"), "e1 = ['A', 'A']\ne2 = ['A', 'B']\n", vars=dict(V, x='int', y='str', z='int'), opaque=PARSED, facts=EQ, rec=3)
    ob('C16', 'match-ignored-' + kn, U + 'match_whatids', TREES + "r1 = match_whatids(['A', 'B', 'C', 'A'], 'A', %s)\n" % (how % "['a']"),
       "e1 = ['A', 'B', 'A']\n", vars=dict(V, x='int', y='str', z='int'), opaque=PARSED, facts=EQ, rec=3)
once('whatadd', U + 'whatadd', WL + "r1 = whatadd(What(name, {'a': x}, nik, out), 'b', GIVEN)\n",
     "e1 = [What(name, {'a': x, 'b': q}, nik, out).id() for q in l]\n", vars=V, opaque=BS)
once('decorate', 'whatami/plugins.py:WhatamiPluginManager.build_string', """
from whatami.plugins import WhatamiPluginManager as M
r1 = What(name, {'a': 1}, GIVEN).id()
r2 = What(name, {'a': 1, 'b': What('i', {'a': 2}, GIVEN)}).id()
""".replace('\nfrom', '\n' + IMP + 'from'), "e1 = What(name, {'a': 1}, set(l)).id()\ne2 = What(name, {'a': 1, 'b': What('i', {'a': 2}, set(l))}).id()\n",
     vars=V, rec=3)
REC = "from whatami.registry import Recorder\n"
for kn, how in KINDS + (('list', '%s'),):
    ob('C16', 'record-ids-' + kn, 'whatami/registry.py:Recorder.add', REC + "rec = Recorder(id_extractor=None)\nr1 = rec.add(%s, unbox_iterables=False, a=x)\nr2 = rec.get(1, 2, 3)\n" % (how % '[1, 2]'),
       "e1 = {1: {'a': x, 'id': 1}, 2: {'a': x, 'id': 2}}\ne2 = [{'a': x, 'id': 1}, {'a': x, 'id': 2}]\n", vars=dict(V, x='int'))
    ob('C16', 'record-columns-' + kn, 'whatami/registry.py:Recorder.add', REC + "rec = Recorder(id_extractor=None)\nr1 = rec.add(%s, a=%s)\n" % (how % '[1, 2]', how % '[x, y]'),
       "e1 = {1: {'a': x, 'id': 1}, 2: {'a': y, 'id': 2}}\n", vars=V)
    ob('C16', 'record-processors-' + kn, 'whatami/registry.py:Recorder.add', REC + """
def p1(i, record, rec):
    record['p'] = y
    return record
rec = Recorder(id_extractor=None)
r1 = rec.add([1, 2], record_postprocessors=%s)
r2 = rec.add([3, 4], record_postprocessors=%s, override_postprocessors=True)
rec2 = Recorder(None, 'id', None, %s)
r3 = rec2.add([1, 2])
r4 = rec2.add([3])
""" % (how % '[p1]', how % '[p1]', how % '[p1]'), """
e1 = {1: {'p': y, 'id': 1}, 2: {'p': y, 'id': 2}}
e2 = {3: {'p': y, 'id': 3}, 4: {'p': y, 'id': 4}}
e3 = e1
e4 = {3: {'p': y, 'id': 3}}
""", vars=V)
FRAME = UNMODELLED + WL + """
from whatami.whatutils import whatid2columns
class Column(Unmodelled):
    def __init__(self, values):
        self.values = values
    def unique(self):
        return [v for i, v in enumerate(self.values) if v not in self.values[:i]]
    def apply(self, f):
        return [f(v) for v in self.values]
    def __iter__(self):
        return iter(self.values)
class Frame(Unmodelled):
    def __init__(self, data):
        self.data = data
    def __getitem__(self, name):
        return Column(self.data[name])
    def __setitem__(self, name, values):
        self.data[name] = values
    def copy(self):
        return Frame(dict(self.data))
"""
for kn, how in KINDS + (('list', '%s'),):
    ob('C16', 'columns-' + kn, U + 'whatid2columns', FRAME + TREES + "df = Frame({'w': ['A', 'B', 'A', 'C']})\nr1 = whatid2columns(df, 'w', %s).data\n" % (how % "['b', 'a']"),
       "e1 = {'w': ['A', 'B', 'A', 'C'], 'a': [x, z, x, x], 'b': [y, y, y, y]}\n", vars=dict(V, x='int', y='str', z='int'), opaque=PARSED, rec=3)
for kn, how in KINDS + (('list', '%s'),):
    ob('C16', 'sort-two-' + kn, U + 'sort_whats', WL + """
def t_A():
    return What('n', {'a': 2, 'b': x})
def t_B():
    return What('n', {'a': 1, 'b': y})
r1 = sort_whatids(%s, 'a', 'b')
A = t_A()
B = t_B()
q, r2 = sort_whats(%s, 'a')
r3 = [q[0] is B, q[1] is A]
""" % (how % "['A', 'B']", how % "[A, B]"), "e1 = (('B', 'A'), ((1, y), (2, x)))\ne2 = ((1,), (2,))\ne3 = [True, True]\n", vars=dict(V, x='int', y='int'), opaque=PARSED, rec=3)
    ob('C16', 'whatadd-two-' + kn, U + 'whatadd', WL + "r1 = whatadd(What('n', {'a': 1}), 'b', %s)\n" % (how % "[3, 'q', 2]"),
       "e1 = ['n(a=1,b=3)', \"n(a=1,b='q')\", 'n(a=1,b=2)']\n", vars=V)
