"""C12: ids in the old notation are read to the configurations they described, and brought to the new notation."""
from .common import *
from .c10 import syms, FACTS, V, names, HAVE

P = 'whatami/parsers.py:build_oldwhatami_parser'
U = 'whatami/whatutils.py:'
IMP = "from whatami import What\nfrom whatami.whatutils import oldid2what, id2whatami4, id2what\n"
REFUSE = """
from arpeggio import NoMatch
def read(text):
    try:
        return oldid2what(text)
    except NoMatch:
        return 'refused'
"""


def given(*srcs):
    used = set().union(*[names(s) for s in srcs]) & set(V)
    return dict(vars={v: V[v] for v in used}, facts=[f for f in FACTS if syms(f[0])[0] in used] + HAVE, rec=9)


def old(key, text, what, anchor=P, new=True, **kw):
    """The same configuration, also with quotes around, and the same new id."""
    for q, t in (('', 't'), ('-quoted', "'\"' + t + '\"'")):
        ob('C12', key + q, anchor, IMP + "t = %s\nq = oldid2what(%s)\nr1 = q.name\nr2 = q.conf\nr3 = q.out_name\nr4 = type(q)\nr5 = q.non_id_keys\n" % (text, t),
           IMP + "w = %s\ne1 = w.name\ne2 = w.conf\ne3 = w.out_name\ne4 = What\ne5 = set()\n" % what, **{**given(text, what), **kw})
        if new:
            ob('C12', 'new-' + key + q, U + 'id2whatami4', IMP + "t = %s\nr1 = id2whatami4(%s)\nr2 = oldid2what(%s).id()\n" % (text, t, t),
               IMP + "w = %s\ne1 = w.id()\ne2 = w.id()\n" % what, **{**given(text, what), **kw})


def refused(key, text):
    ob('C12', 'refuse-' + key, P, IMP + REFUSE + "t = %s\nr = read(t)\n" % text, "e = 'refused'\n", **given(text))
    ob('C12', 'kept-' + key, U + 'id2whatami4', IMP + "t = %s\nr = id2whatami4(t)\n" % text, "t = %s\ne = t\n" % text, **given(text))


old('bare', "n + '#'", 'What(n, {})')
old('one', "n + '#a=' + str(x)", "What(n, {'a': x})")
old('two', "n + '#a=' + str(x) + '#b=' + str(z)", "What(n, {'a': x, 'b': z})")
old('reversed', "n + '#b=' + str(x) + '#a=' + str(z)", "What(n, {'a': z, 'b': x})")
old('many', "'w#a=1#b=2#c=3#d=4#e=5#f=6#g=7#h=8#i=9#j=10'", "What('w', {'a': 1, 'b': 2, 'c': 3, 'd': 4, 'e': 5, 'f': 6, 'g': 7, 'h': 8, 'i': 9, 'j': 10})")
old('key-any', "'w#' + n + '=' + str(x)", "What('w', {n: x})")
old('repeated', "n + '#a=1#a=2'", "What(n, {'a': 2})")
old('names', "'_n1#_a=1#B2=2#__c__=3'", "What('_n1', {'_a': 1, 'B2': 2, '__c__': 3})")
old('string-any', "\"w#a='\" + s + \"'#b='\" + t2 + \"'\"".replace('t2', 's'), "What('w', {'a': s, 'b': s})")
for lit in ('None', 'True', 'inf', 'nan', 'nanmean', 'outer', 'out', 'set', 'infinite', 'Nones'):
    old('literal-' + lit, "'%s#a=1#%s=2'" % (lit, lit), "What(%r, {'a': 1, %r: 2})" % (lit, lit))
for key, text, value in (
        ('none', 'None', 'None'), ('true', 'True', 'True'), ('false', 'False', 'False'), ('int', '12', '12'), ('zero', '0', '0'), ('minus', '-3', '-3'), ('float', '0.25', '0.25'), ('minus-float', '-0.1', '-0.1'),
        ('exponent', '1e-05', '1e-05'), ('exponent-plus', '1e+16', '1e+16'), ('whole-float', '2.0', '2.0'), ('inf', 'inf', "float('inf')"), ('minus-inf', '-inf', "-float('inf')"),
        ('string', "'b'", "'b'"), ('string-empty', "''", "''"), ('string-space', "' b '", "' b '"), ('string-hash', "'a#b=1'", "'a#b=1'"), ('string-double', "'\"'", "'\"'"), ('string-number', "'3'", "'3'"), ('string-none', "'None'", "'None'"),
        ('list', "[1,'b',None]", "[1, 'b', None]"), ('list-empty', '[]', '[]'), ('tuple', "('x', 'y')", "('x', 'y')"), ('tuple-empty', '()', '()'), ('tuple-one', "('x')", "('x',)"), ('tuple-order', '(3,1,2)', '(3, 1, 2)'),
        ('dict', "{'b':1,2:'c'}", "{'b': 1, 2: 'c'}"), ('dict-empty', '{}', '{}'), ('dict-none', '{None:None}', '{None: None}'), ('set', '{1,2}', 'set([1, 2])'), ('set-empty', 'set()', 'set()'), ('set-none', '{None}', 'set([None])'),
        ('deep', "[(1,{'a':[2,()]}),[]]", "[(1, {'a': [2, ()]}), []]"), ('nested', '"v#b=1"', "What('v', {'b': 1})"), ('nested-two', '"v#b=1#c=\'d\'"', "What('v', {'b': 1, 'c': 'd'})"), ('nested-bare', '"v#"', "What('v', {})"),
        ('nested-deep', '"v#b="u#c="t#d=1"""', "What('v', {'b': What('u', {'c': What('t', {'d': 1})})})"), ('nested-list', '["v#b=1","u#"]', "[What('v', {'b': 1}), What('u', {})]"),
        ('nested-tuple', '("v#b=1", 2)', "(What('v', {'b': 1}), 2)"), ('nested-dict', '{\'k\':"v#b=1"}', "{'k': What('v', {'b': 1})}"),
        ('nested-none', '"None#a=None"', "What('None', {'a': None})"), ('nested-nan', '"nanmean#a=nan"'.replace('=nan', '=1'), "What('nanmean', {'a': 1})"), ('nested-true', '"Trues#"', "What('Trues', {})")):
    old('value-' + key, repr('w#a=' + text), "What('w', {'a': %s})" % value, 'whatami/parsers.py:WhatamiTreeVisitor')
    old('value-more-' + key, "n + %r + str(x)" % ('#a=%s#b=[%s]#c=' % (text, text)), "What(n, {'a': %s, 'b': [%s], 'c': x})" % (value, value), 'whatami/parsers.py:WhatamiTreeVisitor', new=False)
    ob('C12', 'kind-' + key, 'whatami/parsers.py:WhatamiTreeVisitor', IMP + "r = type(oldid2what(%r).conf['a'])\n" % ('w#a=' + text), IMP + "e = type(%s)\n" % value, rec=9)
# output names come first in the old notation, and are parameters of the configuration
for key, text, what in (('out', "'out=' + m + '#' + n + '#a=' + str(x)", "What(n, {'a': x, 'out': m})"), ('out-bare', "'out=' + m + '#' + n + '#'", "What(n, {'out': m})"),
                        ('out-many', "'out=acc_to#G#im=True#p=(1, 2)'", "What('G', {'im': True, 'p': (1, 2), 'out': 'acc_to'})"), ('out-quoted-id', "'out=o#\"w#a=1\"'", "What('w', {'a': 1, 'out': 'o'})"),
                        ('out-nested', "'out=o#w#a=\"v#out=1\"'", "What('w', {'a': What('v', {'out': 1}), 'out': 'o'})"), ('out-equals', "'out=a=b#Name#c=1'", "What('Name', {'c': 1, 'out': 'a=b'})"), ('out-spaces', "'out= x #Name#'", "What('Name', {'out': ' x '})"), ('out-spaces-more', "'out=x y#Name#a= 1'", "What('Name', {'a': 1, 'out': 'x y'})"), ('out-name-out', "'out=out#out#outs=1'", "What('out', {'outs': 1, 'out': 'out'})"),
                        ('no-out', "'w#out=' + str(x)", "What('w', {'out': x})"), ('no-out-name', "'outs#a=1'", "What('outs', {'a': 1})"), ('no-out-value', "\"w#a='out=b#'\"", "What('w', {'a': 'out=b#'})")):
    ob('C12', key, U + 'oldid2what', IMP + "t = %s\nq = oldid2what(t)\nr1 = q.name\nr2 = q.conf\nr3 = q.out_name\nr4 = id2whatami4(t)\n" % text,
       IMP + "w = %s\ne1 = w.name\ne2 = w.conf\ne3 = None\ne4 = w.id()\n" % what, **given(text, what))
for key, text in (('out-twice', "'out=' + m + '#w#out=' + str(x)"), ('out-twice-last', "\"out=acc#w#a=1#out='vel'\""), ('out-twice-same', "\"out=o#w#out='o'\""), ('out-none', "'out=o#w#out=None'")):
    ob('C12', key, U + 'oldid2what', IMP + "def read(t):\n    try:\n        return oldid2what(t)\n    except ValueError:\n        return 'ambiguous'\nr = read(%s)\n" % text, "e = 'ambiguous'\n", **given(text))
    ob('C12', 'new-' + key, U + 'id2whatami4', IMP + "def read(t):\n    try:\n        return id2whatami4(t)\n    except ValueError:\n        return 'ambiguous'\nr = read(%s)\n" % text, "e = 'ambiguous'\n", **given(text))
for key, text in (('empty', "''"), ('name', "n"), ('new', "n + '()'"), ('new-values', "n + '(a=' + str(x) + ')'"), ('hash', "'#'"), ('no-name', "'#a=1'"), ('no-hash', "n + 'a=1'"), ('no-key', "n + '#1'"), ('no-value', "n + '#a='"),
                  ('no-value-more', "n + '#a=#b=1'"), ('comma', "n + '#a=1,b=2'"), ('open-quote', "'\"' + n + '#a=1'"), ('close-quote', "n + '#a=1\"'"), ('after', "n + '#a=1 b'"), ('double-hash', "n + '##a=1'"),
                  ('trailing-hash', "n + '#a=1#'"), ('bad-value', "'w#a=hello'"), ('dotted', "'a.b#c=1'"), ('digit', "'1a#c=1'"), ('digit-key', "'w#1a=2'"), ('open-list', "'w#a=[1'"), ('open-string', "\"w#a='b\""),
                  ('list-comma', "'w#a=[1,]'"), ('nested-open', "'w#a=\"v#b=1'"), ('nested-new', "'w#a=v(b=1)'"), ('words', "'velocity of it'"), ('out-only', "'out=o#'"), ('quoted-new', "'\"w()\"'"), ('single-quoted', "\"'w#a=1'\"")):
    refused(key, text) if not key.startswith('out') else ob('C12', 'refuse-' + key, P, IMP + REFUSE + "r = read(%s)\n" % text, "e = 'refused'\n", **given(text))
for key, text in (('only', 'out=x'), ('nothing', 'out='), ('hash', 'out=x#'), ('hash-only', 'out=#'), ('word', 'out'), ('no-hash', 'out=a#w'), ('many', 'out=a#b#c#d=1'), ('twice', 'out=a#out=b#w#')):
    refused('out-no-id-' + key, repr(text))
# one parser serves all, and every answer is new
ob('C12', 'history', U + 'oldid2what', IMP + REFUSE + """
a = oldid2what('w#a=[1]')
a.conf['a'].append(x)
a.conf['b'] = x
r1 = read('w#a=')
b = oldid2what('w#a=[1]')
r2 = b.conf
r3 = id2what('w(a=[1])').conf
r4 = read('w(a=[1])')
r5 = id2whatami4('w#a=[1]')
""", "e1 = 'refused'\ne2 = {'a': [1]}\ne3 = {'a': [1]}\ne4 = 'refused'\ne5 = 'w(a=[1])'\n", vars=dict(x='int'), rec=9)
ob('C12', 'agree', U + 'id2whatami4', IMP + "t = n + '#a=' + str(x) + \"#b='\" + s + \"'\"\nr1 = id2what(id2whatami4(t)) == oldid2what(t)\nr2 = id2whatami4(id2whatami4(t)) == id2whatami4(t)\nr3 = id2whatami4(id2whatami4(t))\n",
   "e1 = True\ne2 = True\ne3 = n + '(a=' + str(x) + \",b='\" + s + \"')\"\n", **given('[n, x, s]'))
