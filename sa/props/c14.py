"""C14: a recorder adds all the records of a call or none, and never replaces any."""
from .common import *

A = 'whatami/registry.py:Recorder.'
MODEL = """
class Model(object):
    def __init__(self, given=()):
        self.records = list(given)
    def add(self, ids, columns, after=None):
        new = []
        for i in ids:
            for j, _ in self.records + new:
                if i == j:
                    raise Exception()
            if 'id' in columns:
                raise Exception()
            record = dict(columns)
            record['id'] = i
            if after is not None:
                record = after(i, record)
            new.append((i, record))
        self.records = self.records + new
        return [r for _, r in new]
    def get(self, *ids):
        return [r for i in ids for j, r in self.records if i == j]
    def all(self):
        return [r for _, r in self.records]
M = Model()
"""
PRE = "from whatami.registry import Recorder\nM = Recorder()\n"
V = dict(i='str', j='str', k='str', m='str', x='int', y='float', z='str')


def both(steps, add, get_all):
    """The same history for the recorder and for the model of it."""
    return 'log = []\n' + ''.join("try:\n    t = %s\nexcept Exception:\n    t = 'refused'\nlog.append(t)\n" % add(*s) for s in steps) + get_all


def real(ids, cols='', post=''):
    # one id can be given alone
    ids = ids[1:-1] if ids.startswith('(') else ids
    return "list(M.add(%s).values())" % ', '.join(filter(None, [ids, cols and ', '.join('%s=%s' % c for c in cols), post and 'record_postprocessors=[%s]' % post]))


def model(ids, cols='', post=''):
    ids = '[%s]' % ids[1:-1] if ids.startswith('(') else ids
    return "M.add(%s, {%s}%s)" % (ids, ', '.join('%r: %s' % c for c in cols), post and ', ' + post + '_')


def rob(key, anchor, *steps, **kw):
    pre = kw.pop('pre', '')
    prem = kw.pop('prem', pre)
    code = PRE + pre + both(steps, real, "r1 = log\nr2 = M.get(i, j, k)\nr3 = len(M)\nr4 = M.unique('a')\nr5 = [M[q] for q in (i, j, k)]\nr6 = M.unique('id')\n")
    ref = MODEL + prem + both(steps, model, "e1 = log\ne2 = M.get(i, j, k)\ne3 = len(M.records)\ne4 = set([r['a'] for r in M.all() if 'a' in r])\ne5 = [M.get(q) for q in (i, j, k)]\n"
                                            "e6 = set([r['id'] for r in M.all()])\n")
    ob('C14', key, A + anchor, code, ref, vars=kw.pop('vars', V), rec=3, **kw)


X = [('a', 'x')]
Y = [('a', 'y')]
rob('one', 'add', ('(i)', X))
rob('two', 'add', ('(i)', X), ('(j)', Y))
rob('same-again', 'add', ('(i)', X), ('(i)', Y), ('(i)', X))
rob('three', 'add', ('(i)', X), ('(j)', Y), ('(k)', [('b', 'z')]))
rob('many', 'add', ('[i, j]', X))
rob('many-three', 'add', ('[i, j, k]', X))
rob('many-duplicated', 'add', ('[i, i]', X), ('[j, i]', Y))
rob('many-last-duplicated', 'add', ('[i, j, i]', X), ('[i]', Y))
rob('many-then-more', 'add', ('[i, j]', X), ('[j, k]', Y))
rob('many-then-first-known', 'add', ('[i]', X), ('[i, k]', Y), ('[k, j]', Y))
rob('many-then-last-known', 'add', ('[i]', X), ('[j, i]', Y), ('[j]', Y))
rob('none', 'add', ('[]', X), ('[i]', Y))
rob('id-column', 'add', ('(i)', X), ('(j)', [('id', 'y')]), ('(k)', Y))
rob('id-column-many', 'add', ('[i, j]', [('id', 'y')]), ('(i)', Y))
# a postprocessor that refuses one of the records
POST = """
def bad(an_id, record, rec):
    if an_id == m:
        raise ValueError()
    record['p'] = z
    return record
def new(an_id, record, rec):
    return {'id': record['id'], 'a': an_id}
"""
POSTM = """
def bad_(an_id, record):
    if an_id == m:
        raise ValueError()
    record['p'] = z
    return record
def new_(an_id, record):
    return {'id': record['id'], 'a': an_id}
"""
rob('processor', 'add', ('[i, j]', X, 'bad'), pre=POST, prem=POSTM)
rob('processor-then', 'add', ('[i, j]', X, 'bad'), ('[i]', Y), pre=POST, prem=POSTM)
rob('processor-known', 'add', ('[i]', X), ('[j, i]', Y, 'bad'), ('(j)', X), pre=POST, prem=POSTM)
rob('processor-new', 'add', ('[i, j]', X, 'new'), ('[j]', Y), pre=POST, prem=POSTM)

R = "from whatami.registry import Recorder\n"
TRY = """
def attempt(f, *args, **kw):
    try:
        f(*args, **kw)
        return 'added'
    except Exception:
        return 'refused'
"""
SEEN = "r1 = t\nr2 = rec.get(1, 2, 3)\nr3 = len(rec)\n"
for key, pre, step in (
        ('processor-of-recorder', "def p(an_id, record, rec):\n    if an_id == 3:\n        raise KeyError()\n    return record\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\n", 'attempt(rec.add, [2, 3], a=y)'),
        ('processor-added', "def p(an_id, record, rec):\n    if an_id == 3:\n        raise KeyError()\n    return record\nrec = Recorder(id_extractor=None)\nrec.add_record_postprocessors(p)\n", 'attempt(rec.add, [2, 3], a=y)'),
        ('processor-overridden', "def p(an_id, record, rec):\n    if an_id == 3:\n        raise KeyError()\n    return record\nrec = Recorder(id_extractor=None)\nrec.override_record_postprocessors(p)\n", 'attempt(rec.add, [2, 3], a=y)'),
        ('processor-last', "def p(an_id, record, rec):\n    return record\ndef q(an_id, record, rec):\n    raise KeyError()\nrec = Recorder(id_extractor=None)\n", 'attempt(rec.add, [2, 3], record_postprocessors=[p, q], a=y)'),
        ('extractor', "def idof(v):\n    if v == 3:\n        raise TypeError()\n    return v\nrec = Recorder(id_extractor=idof)\n", 'attempt(rec.add, [2, 3], a=y)'),
        ('extractor-same', "def idof(v):\n    return abs(v)\nrec = Recorder(id_extractor=idof)\n", 'attempt(rec.add, [2, -2], a=y)'),
        ('extractor-known', "def idof(v):\n    return abs(v)\nrec = Recorder(id_extractor=idof)\n", 'attempt(rec.add, [2, -1], a=y)'),
        ('unhashable', "rec = Recorder(id_extractor=None)\n", 'attempt(rec.add, [2, []], a=y)'),
        ('equal-ids', "rec = Recorder(id_extractor=None)\n", 'attempt(rec.add, [2, 1.0], a=y)'),
        ('equal-ids-bool', "rec = Recorder(id_extractor=None)\n", 'attempt(rec.add, [2, True], a=y)'),
        ('id-column-by-id', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, [2, 3], id={3: y}, a=y)"),
        ('id-column-curried', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add(id=y), [2, 3], a=y)"),
        ('known-curried', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add(a=y), [2, 1])"),
        ('known-partial', "rec = Recorder(id_extractor=None)\n", "attempt(rec.padd(a=y), [2, 1])"),
        ('known-generator', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, iter([2, 1]), a=y)"),
        ('duplicated-generator', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, (q for q in [2, 2]), a=y)"),
        ('known-tuple', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, (2, 1), a=y)"),
        ('many-known', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, [2, 3, 4, 5, 6, 7, 1], a=y)"),
        ('no-columns', "rec = Recorder(id_extractor=None)\n", "attempt(rec.add, [2, 1])"),
        ('own-id-column', "rec = Recorder(id_extractor=None, id_column_name='a')\nrec.add([7])\n", "attempt(rec.add, [2], a=y)")):
    n = 2 if key == 'own-id-column' else 1
    ob('C14', 'refused-' + key, A + 'add', R + TRY + pre + "%srec.add([1]%s)\nt = %s\n" % ('', '' if n == 2 else ', a=x', step) + SEEN,
       "e1 = 'refused'\ne2 = [%s]\ne3 = %d\n" % ("{'a': 1}" if n == 2 else "{'a': x, 'id': 1}", n), vars=dict(x='int', y='float'), rec=3)
# the order is that of insertion, and reading changes nothing
ob('C14', 'order', A + 'add', R + """
rec = Recorder(id_extractor=None)
rec.add([3, 1], a=[x, y])
rec.add(2, a=z)
r1 = [q['id'] for q in rec.get(1, 2, 3)]
r2 = list(rec._registry)
r3 = rec.get(2, 1, 7, 3, 2)
r4 = rec.get()
r5 = rec[7]
r6 = len(rec)
r7 = rec.unique('b')
r8 = rec.unique('a')
""".replace("r2 = list(rec._registry)\n", ''), """
e1 = [1, 2, 3]
e3 = [{'id': 2, 'a': z}, {'id': 1, 'a': y}, {'id': 3, 'a': x}, {'id': 2, 'a': z}]
e4 = []
e5 = []
e6 = 3
e7 = set()
e8 = set([x, y, z])
""", vars=dict(x='int', y='int', z='int'))
ob('C14', 'order-returned', A + 'add', R + """
rec = Recorder(id_extractor=None)
r1 = list(rec.add([3, 1, 2]))
r2 = [q['id'] for q in rec.add((9, 4, 8)).values()]
""", "e1 = [3, 1, 2]\ne2 = [9, 4, 8]\n", vars={})
ob('C14', 'seen-by-processors', A + 'add', R + """
def p(an_id, record, rec):
    record['n'] = len(rec)
    record['known'] = rec.get(1, 2, 3)
    return record
rec = Recorder(id_extractor=None)
rec.add([1])
r1 = rec.add([2, 3], record_postprocessors=[p])
""", """
e1 = {2: {'id': 2, 'n': 1, 'known': [{'id': 1}]}, 3: {'id': 3, 'n': 1, 'known': [{'id': 1}]}}
""", vars={})
# --- ids and records of any kind, falsy ones too
FALSY = "def p(an_id, record, rec):\n    return [{}, None, '', [], {'a': x}][an_id]\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\n"
ob('C14', 'falsy-records', A + 'get', R + FALSY + "rec.add([0, 1, 2, 3, 4])\nr1 = rec.get(4, 3, 2, 1, 0, 5)\nr2 = rec[0]\nr3 = len(rec)\nr4 = rec[1]\n",
   "e1 = [{'a': x}, [], '', None, {}]\ne2 = [{}]\ne3 = 5\ne4 = [None]\n", vars=dict(x='int'))
ob('C14', 'falsy-records-known', A + 'add', R + TRY + FALSY + "rec.add([0, 1, 2])\nr1 = [attempt(rec.add, [i]) for i in (0, 1, 2, 3)]\nr2 = len(rec)\n",
   "e1 = ['refused', 'refused', 'refused', 'added']\ne2 = 4\n", vars=dict(x='int'))
for key, ids in (('zero', '0'), ('empty', "''"), ('none', 'None'), ('false', 'False'), ('tuple', '((),)'), ('zeros', "[0, '']"), ('nones', "['', None]")):
    first = {'(': '()', '[': ids[1:].split(',')[0]}.get(ids[0], ids)
    ob('C14', 'falsy-ids-' + key, A + 'add', R + TRY + "rec = Recorder(id_extractor=None)\nr1 = list(rec.add(%s, a=x))\nr2 = attempt(rec.add, [%s])\nr3 = rec.get(%s)\nr4 = rec[%s]\nr5 = len(rec)\n" % (ids, first, first, first),
       "e1 = %s\ne2 = 'refused'\ne3 = [{'id': %s, 'a': x}]\ne4 = e3\ne5 = len(e1)\n" % (ids if ids[0] == '[' else '[%s]' % first, first), vars=dict(x='int'))
ob('C14', 'falsy-unique', A + 'unique', R + "rec = Recorder(id_extractor=None)\nrec.add([0, 1, 2, 3, 4], a={0: 0, 1: None, 2: '', 4: x}, b=None)\nr1 = rec.unique('a') == {0, None, '', x}\nr2 = rec.unique('b')\nr3 = rec.unique('id')\nr4 = rec.unique('c')\n",
   "e1 = True\ne2 = {None}\ne3 = {0, 1, 2, 3, 4}\ne4 = set()\n", vars=dict(x='int'))
for key, name in (('none', 'None'), ('int', '1'), ('tuple', "('id',)"), ('list', '[]')):
    ob('C14', 'id-column-not-str-' + key, A + '__init__', R + "try:\n    Recorder(id_column_name=%s)\n    r1 = 'made'\nexcept ValueError:\n    r1 = 'refused'\n" % name, "e1 = 'refused'\n", vars={})
# --- the dataframe has a row per record: what is written into it, whatever way pandas is asked to make it
PANDAS = UNMODELLED + '''
class Loc(Unmodelled):
    def __init__(self, df):
        self.df = df
    def __getitem__(self, keys):
        return Frame([(k, r) for q in keys for k, r in self.df.rows if k == q])
class Frame(Unmodelled):
    def __init__(self, data=None, index=None):
        if isinstance(data, list):
            # rows
            if data and isinstance(data[0], tuple):
                self.rows = data
            else:
                self.rows = list(zip(range(len(data)) if index is None else index, data))
        else:
            undecidable__('pandas')
    @classmethod
    def from_dict(cls, data, orient='columns'):
        if orient != 'index':
            undecidable__('pandas')
        return cls([(k, dict(data[k])) for k in data])
    @classmethod
    def from_records(cls, data, index=None):
        return cls(list(data), index)
    @property
    def loc(self):
        return Loc(self)
    def reindex(self, keys):
        return self.loc[keys]
    def set_index(self, keys):
        return Frame(list(zip(keys, [r for k, r in self.rows])))
class Pandas(Unmodelled):
    DataFrame = Frame
def rows(df):
    return df.rows if isinstance(df, Frame) else undecidable__('pandas')
import whatami.registry
whatami.registry.pd = Pandas()
'''
for key, steps, rows in (
        ('none', '', '[]'), ('one', 'rec.add([1], a=x)', "[(1, {'id': 1, 'a': x})]"), ('order', "rec.add([3, 1, 2], a=[x, y, z])", "[(3, {'id': 3, 'a': x}), (1, {'id': 1, 'a': y}), (2, {'id': 2, 'a': z})]"),
        ('many', "rec.add(['b'], a=x)\nrec.add(['c', 'a'], b=y)\nrec.add('aa')", "[('b', {'id': 'b', 'a': x}), ('c', {'id': 'c', 'b': y}), ('a', {'id': 'a', 'b': y}), ('aa', {'id': 'aa'})]"),
        ('falsy', "rec.add([0, '', None], a=[None, 0, ''])", "[(0, {'id': 0, 'a': None}), ('', {'id': '', 'a': 0}), (None, {'id': None, 'a': ''})]"),
        ('refused', "rec.add([2], a=x)\nr0 = attempt(rec.add, [1, 2], a=y)", "[(2, {'id': 2, 'a': x})]")):
    ob('C14', 'dataframe-' + key, A + 'to_df', PANDAS + R + TRY + "rec = Recorder(id_extractor=None)\n%s\nr1 = rows(rec.to_df())\nr2 = len(rec)\n" % steps, "e1 = %s\ne2 = len(e1)\n" % rows, vars=dict(x='int', y='str', z='float'))
# an id is known from the moment its record is made, whatever that record is
for key, value in (('none', 'None'), ('dict', '{}'), ('zero', '0'), ('text', "''")):
    ob('C14', 'falsy-record-twice-' + key, A + 'add', R + TRY + "def p(an_id, record, rec):\n    return %s\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\nr1 = attempt(rec.add, [0, 1, 0])\nr2 = len(rec)\nr3 = attempt(rec.add, [1, 0])\nr4 = rec.get(0, 1, 0)\n" % value,
       "e1 = 'refused'\ne2 = 0\ne3 = 'added'\ne4 = [%s] * 3\n" % value, vars={})
for key, ids, known in (('same', '(1, 1)', [1, 1]), ('again', '(2, 1, 2, 1)', [2, 1, 2, 1]), ('unknown', '(7, 7, 1)', [1]), ('equal', '(1, 1.0, True)', [1, 1, 1])):
    ob('C14', 'get-repeated-' + key, A + 'get', R + "rec = Recorder(id_extractor=None)\nrec.add([1, 2], a=[x, y])\nr1 = rec.get(*%s)\n" % ids, "w = {1: {'id': 1, 'a': x}, 2: {'id': 2, 'a': y}}\ne1 = [w[q] for q in %s]\n" % known, vars=dict(x='int', y='int'))
# the record is known by the id given, whatever the postprocessors write in it
ob('C14', 'id-rewritten', A + 'add', R + TRY + "def p(an_id, record, rec):\n    record['id'] = x\n    return record\nrec = Recorder(record_postprocessors=[p])\nr1 = attempt(rec.add, ['i', 'j'], a=y)\nr2 = rec.get('i', 'j')\nr3 = len(rec)\nr4 = attempt(rec.add, 'i')\nr5 = rec['j']\n",
   "e1 = 'added'\ne2 = [{'id': x, 'a': y}] * 2\ne3 = 2\ne4 = 'refused'\ne5 = [{'id': x, 'a': y}]\n", vars=dict(x='int', y='int'))
ob('C14', 'id-removed', A + 'add', R + TRY + "def p(an_id, record, rec):\n    del record['id']\n    return record\nrec = Recorder(record_postprocessors=[p])\nr1 = attempt(rec.add, ['i', 'j'], a=y)\nr2 = rec.get('i', 'j')\nr3 = attempt(rec.add, 'i')\nr4 = rec.unique('a')\n",
   "e1 = 'added'\ne2 = [{'a': y}] * 2\ne3 = 'refused'\ne4 = {y}\n", vars=dict(y='int'))
# a call that is refused can be made again once what refused it is gone
ob('C14', 'refused-then-added', A + 'add', R + TRY + "def p(an_id, record, rec):\n    if an_id == 3:\n        raise KeyError()\n    return record\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\nr1 = attempt(rec.add, [2, 3], a=[x, y])\nrec.override_record_postprocessors()\n"
   "r2 = attempt(rec.add, [2, 3], a=[x, y])\nr3 = rec.get(2, 3)\n", "e1 = 'refused'\ne2 = 'added'\ne3 = [{'id': 2, 'a': x}, {'id': 3, 'a': y}]\n", vars=dict(x='int', y='int'))
# a postprocessor that adds records itself
ob('C14', 'adding-processor', A + 'add', R + TRY + "def p(an_id, record, rec):\n    if an_id < 10:\n        rec.add(an_id + 10, a=x)\n    return record\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\nr1 = attempt(rec.add, [1, 2], a=y)\nr2 = rec.get(1, 2, 11, 12)\nr3 = len(rec)\n",
   "e1 = 'added'\ne2 = [{'id': 1, 'a': y}, {'id': 2, 'a': y}, {'id': 11, 'a': x}, {'id': 12, 'a': x}]\ne3 = 4\n", vars=dict(x='int', y='int'))
for key, ids, nested, out in (('known', '[1, 2]', 1, 'refused'), ('coming', '[2, 1]', 1, 'refused'), ('same', '[2]', 2, 'refused'), ('middle', '[1, 3, 2]', 3, 'refused'), ('last', '[1, 3, 2]', 2, 'refused'), ('late', '[1, 4, 3, 2, 5]', 5, 'refused'), ('other', '[2, 1]', 3, 'added')):
    ob('C14', 'adding-processor-' + key, A + 'add', R + TRY + "def p(an_id, record, rec):\n    if an_id == 2 and record['a'] == 0:\n        rec.add(%d, a=x)\n    return record\nrec = Recorder(id_extractor=None, record_postprocessors=[p])\nr1 = attempt(rec.add, %s, a=0)\nr2 = rec.get(%d)\nr3 = len(rec)\n" % (nested, ids, nested),
       "e1 = %r\ne2 = [{'id': %d, 'a': x}]\ne3 = %d\n" % (out, nested, 1 if out == 'refused' else 3), vars=dict(x='int'), facts=[(App('eq', S('x'), C(0)), False)])
