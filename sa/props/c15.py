"""C15: what is in the records, where each value comes from, and what recorders and calls do not share."""
from .common import *

A = 'whatami/registry.py:Recorder.'
R = "from whatami.registry import Recorder\n"
V = dict(x='int', y='float', z='str', u='int', v='str', i='str', j='str', k='str', c='bool')
DIST = [(App('eq', S(a), S(b)), False) for a, b in (('i', 'j'), ('i', 'k'), ('j', 'k'))]


def used(*srcs):
    import ast
    names = {n.id for s in srcs for n in ast.walk(ast.parse(s)) if isinstance(n, ast.Name)}
    vs = {k: t for k, t in V.items() if k in names}
    return dict(vars=vs, facts=[f for f in DIST if all(q.name in vs for q in f[0].args)])


def rob(key, code, ref, anchor='add', **kw):
    ob('C15', key, A + anchor, R + code, ref, **{**dict(used(code, ref), rec=3), **kw})


def rec(key, call, expected, pre='rec = Recorder()\n', **kw):
    rob(key, pre + "r1 = rec.%s\nr2 = rec.get(i, j, k)\n" % call, "q = %s\ne1 = q\ne2 = [q[o] for o in (i, j, k) if o in q]\n" % expected, **kw)


# --- columns
rec('no-columns', 'add(i)', "{i: {'id': i}}")
rec('column', 'add(i, a=x, b=z)', "{i: {'id': i, 'a': x, 'b': z}}")
rec('column-none', 'add(i, a=None)', "{i: {'id': i, 'a': None}}")
rec('column-empty-string', "add([i, j], a='')", "{i: {'id': i, 'a': ''}, j: {'id': j, 'a': ''}}")
rec('column-falsy', "add([i, j], a=0, b=False)", "{i: {'id': i, 'a': 0, 'b': False}, j: {'id': j, 'a': 0, 'b': False}}")
rec('column-all', 'add([i, j], a=x)', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': x}}")
rec('column-string', 'add([i, j], a=z)', "{i: {'id': i, 'a': z}, j: {'id': j, 'a': z}}")
rec('column-string-length', "add([i, j], a='xy')", "{i: {'id': i, 'a': 'xy'}, j: {'id': j, 'a': 'xy'}}")
rec('column-string-one', "add(i, a='xy')", "{i: {'id': i, 'a': 'xy'}}")
for how in ('[x, y]', '(x, y)', 'iter([x, y])', '(o for o in (x, y))'):
    rec('column-each-' + how.split('(')[0].strip('[') [:4] + str(len(how)), 'add([i, j], a=%s)' % how, "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('column-each-strings', "add([i, j], a=['p', z])", "{i: {'id': i, 'a': 'p'}, j: {'id': j, 'a': z}}")
rec('column-each-lists', "add([i, j], a=[[x], [y, x]])", "{i: {'id': i, 'a': [x]}, j: {'id': j, 'a': [y, x]}}")
rec('column-each-dicts', "add([i, j], a=[{i: x}, {j: y}])", "{i: {'id': i, 'a': {i: x}}, j: {'id': j, 'a': {j: y}}}")
rec('column-each-none', "add([i, j], a=[None, x])", "{i: {'id': i, 'a': None}, j: {'id': j, 'a': x}}")
rec('column-each-one', "add(i, a=[x])", "{i: {'id': i, 'a': x}}")
rec('column-each-two', "add([i, j], a=[x, u], b=(y, z))", "{i: {'id': i, 'a': x, 'b': y}, j: {'id': j, 'a': u, 'b': z}}")
for how in ('[x, y]', '(x, y)', '[]', '[[x], y]'):
    rec('column-whole-' + how, "add([i, j], unbox_iterables=False, a=%s)" % how, "{i: {'id': i, 'a': %s}, j: {'id': j, 'a': %s}}" % (how, how))
rec('column-whole-one', "add(i, unbox_iterables=False, a=[x, y])", "{i: {'id': i, 'a': [x, y]}}")
rec('column-whole-positional', "add(i, False, a=[x, y])", "{i: {'id': i, 'a': [x, y]}}")
rec('column-by-id', "add([i, j], a={i: x, j: y})", "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('column-by-id-other-order', "add([i, j], a={j: y, i: x})", "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('column-by-id-some', "add([i, j], a={j: y}, b=z)", "{i: {'id': i, 'b': z}, j: {'id': j, 'a': y, 'b': z}}")
rec('column-by-id-more', "add([i], a={j: y, i: x})", "{i: {'id': i, 'a': x}}")
rec('column-by-id-none', "add([i, j], a={})", "{i: {'id': i}, j: {'id': j}}")
rec('column-by-id-whole', "add([i, j], unbox_iterables=False, a={i: x})", "{i: {'id': i, 'a': x}, j: {'id': j}}")
rec('column-by-id-lists', "add([i, j], a={i: [x], j: {u: y}})", "{i: {'id': i, 'a': [x]}, j: {'id': j, 'a': {u: y}}}")
rec('column-by-id-value-none', "add([i], a={i: None})", "{i: {'id': i, 'a': None}}")
rec('columns-mixed', "add([i, j], a={j: y}, b=[x, u], c=z, d='p')", "{i: {'id': i, 'b': x, 'c': z, 'd': 'p'}, j: {'id': j, 'a': y, 'b': u, 'c': z, 'd': 'p'}}")
# --- ids
rec('ids-tuple', 'add((i, j), a=[x, y])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('ids-iterator', 'add(iter([i, j]), a=[x, y])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('ids-keyword', 'add(ids=[i, j], a=[x, y])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('id-column', 'add([i, j], id=x)', "{i: {'name': i, 'id': x}, j: {'name': j, 'id': x}}", pre="rec = Recorder(id_column_name='name')\n")
rec('id-column-positional', 'add(i, a=x)', "{i: {'name': i, 'a': x}}", pre="rec = Recorder(z, 'name')\n")
rob('ids-str', "rec = Recorder()\nr1 = rec.add([1, 2.5, None, 'a', True], a=x)\nr2 = rec.get('1', 1, 'None')\n",
    "e1 = {o: {'id': o, 'a': x} for o in ('1', '2.5', 'None', 'a', 'True')}\ne2 = [{'id': '1', 'a': x}, {'id': 'None', 'a': x}]\n")
rob('ids-one', "rec = Recorder(id_extractor=None)\nr1 = rec.add(5, a=x)\nr2 = rec.add('abc', a=y)\nr3 = rec.add(None, a=z)\n",
    "e1 = {5: {'id': 5, 'a': x}}\ne2 = {'abc': {'id': 'abc', 'a': y}}\ne3 = {None: {'id': None, 'a': z}}\n")
rob('ids-extractor', "def idof(q):\n    return '<' + q + '>'\nrec = Recorder(id_extractor=idof)\nr1 = rec.add(['p', 'q'], a={'<p>': x, 'q': y, '<q>': z})\nr2 = rec.get('<q>', 'q')\n",
    "e1 = {'<p>': {'id': '<p>', 'a': x}, '<q>': {'id': '<q>', 'a': z}}\ne2 = [{'id': '<q>', 'a': z}]\n")
rob('ids-extractor-once', "seen = []\ndef idof(q):\n    seen.append(q)\n    return len(seen)\nrec = Recorder(id_extractor=idof)\nrec.add(['p', 'q'], a=[x, y])\nr1 = rec.get(1, 2, 3)\nr2 = seen\n",
    "e1 = [{'id': 1, 'a': x}, {'id': 2, 'a': y}]\ne2 = ['p', 'q']\n")
# --- defaults
D = "rec = Recorder(None, 'id', str, None, a=x, b=z)\n"
rec('default', 'add(i)', "{i: {'id': i, 'a': x, 'b': z}}", pre=D)
rec('default-overridden', 'add([i, j], a=y)', "{i: {'id': i, 'a': y, 'b': z}, j: {'id': j, 'a': y, 'b': z}}", pre=D)
rec('default-overridden-none', 'add(i, a=None, b=0)', "{i: {'id': i, 'a': None, 'b': 0}}", pre=D)
rec('default-overridden-empty', "add(i, a='', b=False)", "{i: {'id': i, 'a': '', 'b': False}}", pre=D)
rec('default-overridden-some', 'add([i, j], a={i: y})', "{i: {'id': i, 'a': y, 'b': z}, j: {'id': j, 'a': x, 'b': z}}", pre=D)
rec('default-overridden-each', 'add([i, j], a=[None, y])', "{i: {'id': i, 'a': None, 'b': z}, j: {'id': j, 'a': y, 'b': z}}", pre=D)
rec('default-whole', 'add([i, j])', "{i: {'id': i, 'a': [x, y]}, j: {'id': j, 'a': [x, y]}}", pre="rec = Recorder(a=[x, y])\n")
rec('default-dict', 'add([i, j])', "{i: {'id': i, 'a': {i: x}}, j: {'id': j, 'a': {i: x}}}", pre="rec = Recorder(a={i: x})\n")
rec('default-id-ignored', 'add(i)', "{i: {'ID': i, 'a': x}}", pre="rec = Recorder(id_column_name='ID', a=x)\nrec.add_column_defaults(ID=y)\n")
rec('default-added', 'add(i)', "{i: {'id': i, 'a': x, 'b': z, 'd': y}}", pre=D + "rec.add_column_defaults(d=y)\n", anchor='add_column_defaults')
rec('default-replaced', 'add(i)', "{i: {'id': i, 'a': y, 'b': z}}", pre=D + "rec.add_column_defaults(a=y)\n", anchor='add_column_defaults')
rec('default-removed', 'add(i)', "{i: {'id': i, 'b': z}}", pre=D + "rec.remove_column_defaults('a', 'nono')\n", anchor='remove_column_defaults')
rec('default-removed-all', 'add(i)', "{i: {'id': i}}", pre=D + "rec.remove_column_defaults('b', 'a')\n", anchor='remove_column_defaults')
rob('default-later', D + "rec.add(i)\nrec.add_column_defaults(a=y, d=u)\nrec.remove_column_defaults('b')\nrec.add(j)\nr1 = rec.get(i, j)\nr2 = rec.column_defaults\n",
    "e1 = [{'id': i, 'a': x, 'b': z}, {'id': j, 'a': y, 'd': u}]\ne2 = {'a': y, 'd': u}\n", anchor='add_column_defaults')
rob('default-copy', D + "d = rec.column_defaults\nd['a'] = y\nd['d'] = u\ndel d['b']\nr1 = rec.add(i)\nr2 = rec.column_defaults\n", "e1 = {i: {'id': i, 'a': x, 'b': z}}\ne2 = {'a': x, 'b': z}\n", anchor='column_defaults')
rob('default-not-added', D + "rec.add(i, a=y, d=u)\nr1 = rec.column_defaults\nr2 = rec.add(j)\n", "e1 = {'a': x, 'b': z}\ne2 = {j: {'id': j, 'a': x, 'b': z}}\n")
# --- postprocessors
PP = """
def p(an_id, record, recorder):
    record['steps'] = record.get('steps', '') + 'p'
    return record
def q(an_id, record, recorder):
    record['steps'] = record.get('steps', '') + 'q'
    return record
def s(an_id, record, recorder):
    return dict(record, steps=record.get('steps', '') + 's')
"""
for key, mk, call, steps in (
        ('none', 'Recorder()', 'add(i)', None),
        ('recorder', 'Recorder(record_postprocessors=[p, q])', 'add(i)', 'pq'),
        ('recorder-tuple', 'Recorder(record_postprocessors=(q, p))', 'add(i)', 'qp'),
        ('call', 'Recorder()', 'add(i, record_postprocessors=[q, p])', 'qp'),
        ('both', 'Recorder(record_postprocessors=[p])', 'add(i, record_postprocessors=[q, s])', 'pqs'),
        ('repeated', 'Recorder(record_postprocessors=[p, p])', 'add(i, record_postprocessors=[p])', 'ppp'),
        ('override', 'Recorder(record_postprocessors=[p])', 'add(i, record_postprocessors=[q, s], override_postprocessors=True)', 'qs'),
        ('override-none', 'Recorder(record_postprocessors=[p])', 'add(i, override_postprocessors=True)', 'p'),
        ('override-empty', 'Recorder(record_postprocessors=[p])', 'add(i, record_postprocessors=[], override_postprocessors=True)', None),
        ('call-empty', 'Recorder(record_postprocessors=[p])', 'add(i, record_postprocessors=[])', 'p'),
        ('positional', 'Recorder(record_postprocessors=[p])', 'add(i, True, [q], True)', 'q'),
        ('new-record', 'Recorder(record_postprocessors=[s, s, p])', 'add(i)', 'ssp')):
    record = "{'id': i%s}" % (", 'steps': %r" % steps if steps else '')
    rob('processors-' + key, PP + "rec = %s\nr1 = rec.%s\nr2 = rec.get(i)\nr3 = rec.%s\n" % (mk, call, call.replace('add(i', 'add(j')), "e1 = {i: %s}\ne2 = [%s]\ne3 = {j: %s}\n" % (record, record, record.replace('i', 'j', 2).replace("'jd'", "'id'").replace(': i', ': j')))
for key, change, steps in (('added', 'rec.add_record_postprocessors(q, s)', 'pqs'), ('added-none', 'rec.add_record_postprocessors()', 'p'), ('overridden', 'rec.override_record_postprocessors(s, q)', 'sq'),
                           ('removed', 'rec.override_record_postprocessors()', ''), ('overridden-added', 'rec.override_record_postprocessors(s)\nrec.add_record_postprocessors(q, p)', 'sqp'),
                           ('added-overridden', 'rec.add_record_postprocessors(q)\nrec.override_record_postprocessors(s)', 's')):
    rob('processors-' + key, PP + "given = [p]\nrec = Recorder(record_postprocessors=given)\nrec.add(i)\n%s\nrec.add(j)\nr1 = [w.get('steps', '') for w in rec.get(i, j)]\nr2 = len(given)\nr3 = len(rec.record_postprocessors())\n" % change,
        "e1 = ['p', %r]\ne2 = 1\ne3 = %d\n" % (steps, len(steps)), anchor=change.split('.')[1].split('(')[0])
rob('processors-given', PP + "given = [p]\nrec = Recorder(record_postprocessors=given)\ngiven.append(q)\nr1 = rec.add(i)\nmore = [s]\nr2 = rec.add(j, record_postprocessors=more)\nr3 = len(more)\nr4 = len(given)\nr5 = rec.add(k)\n",
    "e1 = {i: {'id': i, 'steps': 'p'}}\ne2 = {j: {'id': j, 'steps': 'ps'}}\ne3 = 1\ne4 = 2\ne5 = {k: {'id': k, 'steps': 'p'}}\n")
rob('processors-copy', PP + "rec = Recorder(record_postprocessors=[p])\nl = rec.record_postprocessors()\nl.append(q)\nr1 = rec.add(i)\nr2 = [w is p for w in rec.record_postprocessors()]\n",
    "e1 = {i: {'id': i, 'steps': 'p'}}\ne2 = [True]\n", anchor='record_postprocessors')
rob('processors-arguments', "log = []\ndef p(*args, **kw):\n    log.append((args[0], dict(args[1]), args[2] is rec, len(args), kw))\n    return args[1]\nrec = Recorder(record_postprocessors=[p], d=u)\nrec.add([i, j], a=[x, y])\nr1 = log\n",
    "e1 = [(i, {'id': i, 'a': x, 'd': u}, True, 3, {}), (j, {'id': j, 'a': y, 'd': u}, True, 3, {})]\n")
# --- frozen calls
rec('frozen', 'add(a=x)(i)', "{i: {'id': i, 'a': x}}")
rec('frozen-more', 'add(a=x)(i, b=y)', "{i: {'id': i, 'a': x, 'b': y}}")
rec('frozen-again', 'add(a=x)(b=z)(i, c=y)', "{i: {'id': i, 'a': x, 'b': z, 'c': y}}")
rec('frozen-overridden', 'add(a=x, b=z)(i, a=y)', "{i: {'id': i, 'a': y, 'b': z}}")
rec('frozen-overridden-again', 'add(a=x)(a=u)([i, j], b=z)', "{i: {'id': i, 'a': u, 'b': z}, j: {'id': j, 'a': u, 'b': z}}")
rec('frozen-each', 'add(a=[x, y])([i, j])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('frozen-whole', 'add(unbox_iterables=False)([i, j], a=[x, y])', "{i: {'id': i, 'a': [x, y]}, j: {'id': j, 'a': [x, y]}}")
rec('frozen-default', 'add(a=y)([i, j])', "{i: {'id': i, 'a': y, 'b': z}, j: {'id': j, 'a': y, 'b': z}}", pre=D)
rec('frozen-padd', 'padd(a=x)(i, b=y)', "{i: {'id': i, 'a': x, 'b': y}}", anchor='padd')
rec('frozen-padd-overridden', 'padd(a=x)(i, a=y)', "{i: {'id': i, 'a': y}}", anchor='padd')
rec('frozen-padd-padd', 'padd(add=rec.padd(a=x, b=z), b=y)(i)', "{i: {'id': i, 'a': x, 'b': y}}", anchor='padd')
rec('frozen-padd-add', 'padd(add=rec.add(a=x), b=y)(i, c=z)', "{i: {'id': i, 'a': x, 'b': y, 'c': z}}", anchor='padd')
rec('frozen-padd-positional', 'padd(rec.add(a=x), b=y)(i)', "{i: {'id': i, 'a': x, 'b': y}}", anchor='padd')
rob('frozen-independent', "rec = Recorder(b=u)\nf = rec.add(a=x)\ng = f(a=y)\nh = rec.padd(a=z)\nrec.add(i)\ng(j)\nf(k)\nh('9')\nf('8', a=u)\nf('7')\nr1 = rec.get(i, j, k, '9', '8', '7')\nr2 = len(rec)\n",
    "e1 = [{'id': i, 'b': u}, {'id': j, 'a': y, 'b': u}, {'id': k, 'a': x, 'b': u}, {'id': '9', 'a': z, 'b': u}, {'id': '8', 'a': u, 'b': u}, {'id': '7', 'a': x, 'b': u}]\ne2 = 6\n",
    facts=DIST + [(App('eq', S(n), C(q)), False) for n in 'ijk' for q in '789'])
rob('frozen-adds-nothing', "rec = Recorder()\nrec.add(a=x)\nrec.add()\nrec.padd(a=x)\nr1 = len(rec)\nr2 = rec.column_defaults\n", "e1 = 0\ne2 = {}\n")
rob('frozen-later-defaults', "rec = Recorder()\nf = rec.add(a=x)\nh = rec.padd(a=x)\nrec.add_column_defaults(a=y, b=z)\nr1 = f(i)\nr2 = h(j)\n", "e1 = {i: {'id': i, 'a': x, 'b': z}}\ne2 = {j: {'id': j, 'a': x, 'b': z}}\n")
# --- what is not shared
TWO = "one = Recorder('one', a=x)\ntwo = Recorder('two', a=y)\n"
rob('recorders', TWO + "one.add(i)\nr1 = two.get(i)\nr2 = len(two)\ntwo.add([i, j])\nr3 = one.get(i, j)\nr4 = two.get(i, j)\none.add_column_defaults(b=z)\none.remove_column_defaults('a')\nr5 = two.column_defaults\nr6 = one.column_defaults\nr7 = (one.name, two.name)\n",
    "e1 = []\ne2 = 0\ne3 = [{'id': i, 'a': x}]\ne4 = [{'id': i, 'a': y}, {'id': j, 'a': y}]\ne5 = {'a': y}\ne6 = {'b': z}\ne7 = ('one', 'two')\n")
rob('recorders-bare', "one = Recorder()\ntwo = Recorder()\none.add_column_defaults(b=z)\none.add(i)\nr1 = two.column_defaults\nr2 = two.add(i)\nr3 = Recorder().column_defaults\nr4 = len(Recorder())\n",
    "e1 = {}\ne2 = {i: {'id': i}}\ne3 = {}\ne4 = 0\n", anchor='__init__')
rob('recorders-processors', PP + "chain = [p]\none = Recorder(record_postprocessors=chain)\ntwo = Recorder(record_postprocessors=chain)\none.add_record_postprocessors(q)\nthree = Recorder()\nfour = Recorder()\nthree.add_record_postprocessors(s)\n"
    "r1 = [len(w.record_postprocessors()) for w in (one, two, three, four)]\nr2 = two.add(i)\nr3 = four.add(i)\n", "e1 = [2, 1, 1, 0]\ne2 = {i: {'id': i, 'steps': 'p'}}\ne3 = {i: {'id': i}}\n", anchor='add_record_postprocessors')
rob('recorders-frozen', TWO + "f = one.add(d=z)\ng = two.add(d=u)\nf(i)\ng(i)\nf(j)\nr1 = one.get(i, j)\nr2 = two.get(i, j)\n",
    "e1 = [{'id': i, 'a': x, 'd': z}, {'id': j, 'a': x, 'd': z}]\ne2 = [{'id': i, 'a': y, 'd': u}]\n")
rob('arguments', "ids = [i, j]\ncols = {i: x, j: y}\nl = [x, y]\nw = {'a': cols, 'b': l}\nrec = Recorder(id_extractor=None)\nrec.add(ids, **w)\nr1 = ids\nr2 = cols\nr3 = l\nr4 = sorted(w)\n",
    "e1 = [i, j]\ne2 = {i: x, j: y}\ne3 = [x, y]\ne4 = ['a', 'b']\n")
rob('records-apart', "rec = Recorder(a=x)\nrec.add([i, j], b=y)\nrec.get(i)[0]['a'] = z\nr1 = rec.get(j)\nr2 = rec.add(k, b=y)\n", "e1 = [{'id': j, 'a': x, 'b': y}]\ne2 = {k: {'id': k, 'a': x, 'b': y}}\n")
rob('returned-apart', "rec = Recorder(a=x)\nt = rec.add([i, j])\ndel t[i]\nt[k] = z\nr1 = rec.get(i, j, k)\nr2 = len(rec)\n", "e1 = [{'id': i, 'a': x}, {'id': j, 'a': x}]\ne2 = 2\n")
# --- subclasses
rob('subclass', "class Sub(Recorder):\n    def add(self, ids, d, **columns):\n        return super(Sub, self).add(ids, d=d, **columns)\nrec = Sub(id_extractor=None)\nr1 = rec.add([i, j], d=[x, y])\nf = rec.add(a=z)\nr2 = f(k, u)\nr3 = rec.padd(d=x)('9')\n",
    "e1 = {i: {'id': i, 'd': x}, j: {'id': j, 'd': y}}\ne2 = {k: {'id': k, 'd': u, 'a': z}}\ne3 = {'9': {'id': '9', 'd': x}}\n", facts=DIST + [(App('eq', S(n), C('9')), False) for n in 'ijk'])
for key, sig, ok in (('no-ids', 'self, there, **columns', False), ('ids-default', 'self, ids=None, **columns', False), ('ids', 'self, ids, **columns', True), ('ids-second', 'self, a, ids', True), ('varargs', 'self, *ids', False),
                     ('nothing', 'self', False)):
    rob('subclass-' + key, "def make():\n    class Sub(Recorder):\n        def add(%s):\n            return None\n    return Sub\ntry:\n    make()\n    r1 = True\nexcept Exception:\n    r1 = False\n" % sig, "e1 = %s\n" % ok)
rob('subclass-sub', "class A(Recorder):\n    pass\ndef make():\n    class B(A):\n        def add(self, what):\n            return None\n    return B\ntry:\n    make()\n    r1 = True\nexcept Exception:\n    r1 = False\nr2 = A(a=x).add(i)\nr3 = A().add(a=y)(i)\n",
    "e1 = False\ne2 = {i: {'id': i, 'a': x}}\ne3 = {i: {'id': i, 'a': y}}\n")
# the order of the ids given is the order of the values
for how in ("['b', 'a', 'c']", "('c', 'b', 'a')", "['3', '20', '100']"):
    rob('each-in-order-' + how, "ids = %s\nrec = Recorder()\nr1 = [w['a'] for w in rec.add(ids, a=[x, y, z]).values()]\nr2 = [w['id'] for w in rec.get(*ids)]\nr3 = rec.get(ids[2])\n" % how,
        "ids = %s\ne1 = [x, y, z]\ne2 = list(ids)\ne3 = [{'id': ids[2], 'a': z}]\n" % how)
# --- iterables with less values than there are ids, and with more
rec('short-list', 'add([i, j, k], a=[x])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': None}, k: {'id': k, 'a': None}}")
rec('short-empty', 'add([i, j], a=[])', "{i: {'id': i, 'a': None}, j: {'id': j, 'a': None}}")
rec('short-empty-one', 'add(i, a=())', "{i: {'id': i, 'a': None}}")
rec('short-iterator', 'add([i, j], a=iter([x]), b=(y, z))', "{i: {'id': i, 'a': x, 'b': y}, j: {'id': j, 'a': None, 'b': z}}")
rec('short-default', 'add([i, j], a=[y])', "{i: {'id': i, 'a': y, 'b': z}, j: {'id': j, 'a': None, 'b': z}}", pre=D)
rec('long-list', 'add([i, j], a=[x, y, z])', "{i: {'id': i, 'a': x}, j: {'id': j, 'a': y}}")
rec('long-one', 'add(i, a=[x, y])', "{i: {'id': i, 'a': x}}")
rob('ids-empty', "rec = Recorder(a=x)\nr1 = rec.add([], b=[y])\nr2 = rec.add((), b=y)\nr3 = len(rec)\n", "e1 = {}\ne2 = {}\ne3 = 0\n")
# --- a frozen call of another recorder adds to that other
OTHER = "rec = Recorder(a=x)\nother = Recorder(b=z)\n"
for key, frozen, record in (('add', 'rec.padd(add=other.add(d=y))', "{'id': i, 'b': z, 'd': y}"), ('padd', 'rec.padd(add=other.padd(d=y))', "{'id': i, 'b': z, 'd': y}"), ('bare', 'rec.padd(add=other.add, d=y)', "{'id': i, 'b': z, 'd': y}"),
                            ('own', 'rec.padd(add=rec.add, d=y)', None), ('none', 'rec.padd(add=None, d=y)', None)):
    there = record is not None
    mine = "{'id': i, 'a': x, 'd': y}"
    rob('frozen-of-' + key, OTHER + "f = %s\nr1 = f(i)\nr2 = rec.get(i)\nr3 = other.get(i)\n" % frozen, "e1 = {i: %s}\ne2 = %s\ne3 = %s\n" % (record or mine, '[]' if there else '[%s]' % mine, '[%s]' % record if there else '[]'), anchor='padd')
# --- values a record has are the ones it keeps, whatever they are
for value in ('0', "''", '()', 'False', 'None'):
    rec('default-falsy-' + value, 'add([i, j])', "{i: {'id': i, 'a': %s}, j: {'id': j, 'a': %s}}" % (value, value), pre='rec = Recorder(a=%s)\n' % value)
    rec('default-under-falsy-' + value, 'add([i, j], unbox_iterables=False, a=%s)' % value, "{i: {'id': i, 'a': %s}, j: {'id': j, 'a': %s}}" % (value, value), pre=D.replace(', b=z', ''))
    rec('by-id-falsy-' + value, 'add([i, j], a={i: %s, j: x})' % value, "{i: {'id': i, 'a': %s}, j: {'id': j, 'a': x}}" % value, pre=D.replace(', b=z', ''))
# --- no column is made up
rob('by-id-column-not-made-up', "rec = Recorder(b=z)\nrec.add([i, j], a={j: y})\nr1 = sorted(rec.get(i)[0])\nr2 = sorted(rec.get(j)[0])\n", "e1 = ['b', 'id']\ne2 = ['a', 'b', 'id']\n")
rob('unknown-column-not-made-up', "rec = Recorder(id_extractor=None)\nr1 = rec.add([1, 2], a={3: x})\n", "e1 = {1: {'id': 1}, 2: {'id': 2}}\n")

# each postprocessor is asked once for each record, in its turn
for key, own, given, over, order in (('own', 'p, q', None, False, 'pq'), ('given', '', 'p, q', False, 'pq'), ('given-override', '', 'p, q', True, 'pq'), ('both', 'p', 'q', False, 'pq'), ('both-override', 'p', 'q', True, 'q'),
                                     ('same', 'p', 'p', False, 'pp'), ('same-override', 'p', 'p', True, 'p'), ('none-given', 'p', '', False, 'p'), ('none-override', 'p', '', True, ''), ('nothing', '', None, True, ''), ('own-override', 'p, q', None, True, 'pq'),
                                     ('reversed', 'q, p', 'p, q', False, 'qppq')):
    ob('C15', 'turns-' + key, 'whatami/registry.py:Recorder.add', """
from whatami.registry import Recorder
asked = []
def p(an_id, record, rec):
    asked.append(('p', an_id))
    return record
def q(an_id, record, rec):
    asked.append(('q', an_id))
    return dict(record, q=x)
rec = Recorder(id_extractor=None, record_postprocessors=[%s])
rec.add([1, 2]%s%s)
r1 = asked
r2 = rec.get(1, 2)
""" % (own, '' if given is None else ', record_postprocessors=[%s]' % given, ', override_postprocessors=True' if over else ''),
       "e1 = [(f, i) for i in (1, 2) for f in %r]\ne2 = [%s for i in (1, 2)]\n" % (order, "{'id': i, 'q': x}" if 'q' in order else "{'id': i}"), vars=dict(x='int'), rec=5)
