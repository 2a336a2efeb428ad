"""C11: texts are read by the notation of ids, whitespace between symbols aside, and anything else is refused."""
from .common import *
from .c10 import lang, names, syms, FACTS, V, NAME, HAVE

P = 'whatami/parsers.py:'
IMP = "from whatami import What, id2what\n"
REFUSE = """
from arpeggio import NoMatch
def read(text):
    try:
        return id2what(text)
    except NoMatch:
        return 'refused'
"""
OVER = dict(n='str', m='str', s='str', x='int', z='float')


def given(*srcs):
    used = set().union(*[names(s) for s in srcs]) & set(V)
    return dict(vars={v: V[v] for v in used}, facts=[f for f in FACTS if syms(f[0])[0] in used], rec=9)


def refused(key, text, anchor='build_whatami_parser'):
    ob('C11', 'refuse-' + key, P + anchor, IMP + REFUSE + "r = read(%s)\n" % text, "e = 'refused'\n", **given(text))


def reads(key, text, what, anchor='build_whatami_parser', pre='', **kw):
    ob('C11', 'read-' + key, P + anchor, IMP + pre + "q = id2what(%s)\nr1 = q.name\nr2 = q.conf\nr3 = q.out_name\nr4 = type(q)\nr5 = q.non_id_keys\n" % text,
       IMP + pre + "w = %s\ne1 = w.name\ne2 = w.conf\ne3 = w.out_name\ne4 = What\ne5 = set()\n" % what, **{**given(text, what), **kw})


# --- not ids
for key, text in (
        ('empty', "''"), ('blank', "'  '"), ('no-name', "'()'"), ('no-name-values', "'(a=1)'"), ('name-only', "n"), ('name-only-out', "m + '=' + n"), ('no-close', "n + '('"),
        ('no-close-values', "n + '(a=1'"), ('no-close-comma', "n + '(a=1,'"), ('no-open', "n + ')'"), ('no-open-values', "n + 'a=1)'"),
        ('no-key', "n + '(5)'"), ('no-key-second', "n + '(a=1,5)'"), ('no-key-string', "n + \"('a')\""), ('no-key-what', "n + '(' + m + '())'"),
        ('no-value', "n + '(a=)'"), ('no-value-first', "n + '(a=,b=1)'"), ('no-equals', "n + '(a 1)'"), ('colon', "n + '(a:1)'"), ('double-equals', "n + '(a==1)'"),
        ('double-comma', "n + '(a=1,,b=2)'"), ('trailing-comma', "n + '(a=1,)'"), ('leading-comma', "n + '(,a=1)'"), ('only-comma', "n + '(,)'"), ('no-comma', "n + '(a=1 b=2)'"),
        ('semicolon', "n + '(a=1;b=2)'"), ('after', "n + '(a=1)b'"), ('after-close', "n + '(a=1))'"), ('after-id', "n + '()' + m + '()'"), ('after-comma', "n + '(),'"),
        ('after-space', "n + '() x'"), ('two-outs', "n + '=' + m + '=f()'"), ('out-only', "n + '=('"), ('out-value', "n + '=3'"), ('out-string', "n + \"='a'\""),
        ('dotted-name', "'a.b()'"), ('dashed-name', "'a-b()'"), ('digit-name', "'1a()'"), ('quoted-name', "\"'a'()\""), ('digit-key', "'w(1a=2)'"), ('dotted-key', "'w(a.b=2)'"),
        ('quoted-key', "\"w('a'=2)\""), ('dashed-key', "'w(a-b=2)'"), ('unicode-name', "'\u00e9()'"), ('literal-value', "'w(a=hello)'"),
        ('not-literal', "'w(a=none)'"), ('not-literal-true', "'w(a=true)'"), ('not-literal-false', "'w(a=FALSE)'"), ('literal-more', "'w(a=Nones)'"), ('literal-digit', "'w(a=True1)'"),
        ('bad-inf', "'w(a=infinity)'"), ('bad-plus', "'w(a=+1)'"), ('bad-plus-inf', "'w(a=+inf)'"), ('dict-nosep', "'w(a={1:2 3:4})'"), ('class-nospace', "\"w(a=<class'str'>)\""), ('not-literal-upper', "'w(a=NONE)'"), ('bad-double-minus', "'w(a=--1)'"), ('bad-dot', "'w(a=.5)'"), ('bad-exponent', "'w(a=1e)'"), ('bad-number', "'w(a=1a)'"),
        ('bad-number-two', "'w(a=1.2.3)'"), ('bad-minus', "'w(a=-)'"), ('bad-hex', "'w(a=0x1)'"), ('bad-complex', "'w(a=1j)'"), ('bad-under', "'w(a=1_000)'"),
        ('open-string', "\"w(a='\""), ('open-string-close', "\"w(a='b)\""), ('open-string-two', "\"w(a=b')\""), ('double-quotes', "'w(a=\"b\")'"), ('two-strings', "\"w(a='a''b')\""),
        ('list-open', "'w(a=[1)'"), ('list-close', "'w(a=1])'"), ('list-comma', "'w(a=[1,])'"), ('list-commas', "'w(a=[1,,2])'"), ('list-lead', "'w(a=[,1])'"), ('list-only-comma', "'w(a=[,])'"),
        ('list-mixed', "'w(a=[1))'"), ('list-pair', "'w(a=[b=1])'"), ('list-colon', "'w(a=[1:2])'"), ('list-nosep', "'w(a=[1 2])'"), ('list-name', "'w(a=[b])'"),
        ('tuple-open', "'w(a=(1)'"), ('tuple-comma', "'w(a=(1,))'"), ('tuple-two-commas', "'w(a=(1,2,))'"), ('tuple-mixed', "'w(a=(1])'"), ('tuple-only-comma', "'w(a=(,))'"),
        ('dict-open', "'w(a={1:2)'"), ('dict-comma', "'w(a={1:2,})'"), ('dict-no-value', "'w(a={1:})'"), ('dict-no-key', "'w(a={:1})'"), ('dict-equals', "'w(a={1=2})'"),
        ('dict-mixed', "'w(a={1:2,3})'"), ('set-mixed', "'w(a={3,1:2})'"), ('set-comma', "'w(a={1,})'"), ('set-only-comma', "'w(a={,})'"), ('set-open', "'w(a={1)'"),
        ('set-call', "'w(a=set({1}))'"), ('set-list', "'w(a=set([1]))'"), ('frozenset-list', "'w(a=frozenset([1]))'"), ('frozenset-open', "'w(a=frozenset({1)'"), ('frozenset-braces', "'w(a=frozenset({}))'"),
        ('class-open', "\"w(a=<class 'str')\""), ('class-bare', "'w(a=<class str>)'"), ('class-word', "\"w(a=<klass 'str'>)\""), ('class-none', "'w(a=<class >)'"),
        ('nested-open', "'w(a=b(c=1)'"), ('nested-close', "'w(a=b(c=1)))'"), ('nested-comma', "'w(a=b(c=1,))'"), ('nested-out', "'w(a=o=3)'"), ('nested-two-outs', "'w(a=o=p=b())'"),
        ('nested-no-key', "'w(a=b(1))'"), ('old', "n + '#a=1'"), ('old-bare', "n + '#'"), ('quoted', "\"'w()'\""), ('double-quoted', "'\"w()\"'"), ('brackets', "n + '[a=1]'"),
        ('number', "'3'"), ('list', "'[1]'"), ('dict', "'{1:2}'"), ('none', "'None'"), ('string', "\"'a'\""), ('keys', "'a=1,b=2'"), ('comment', "n + '() # hello'")):
    refused(key, text)
# after a refusal everything goes on as before
ob('C11', 'refuse-history', P + 'parse_whatid', IMP + REFUSE + "r1 = read(n + '(a=')\nr2 = read(n + '(a=1)').conf\nr3 = read(n + '(a=1')\nr4 = read(n + '(b=2)').conf\nr5 = read(n + '()').conf\n",
   "e1 = 'refused'\ne2 = {'a': 1}\ne3 = 'refused'\ne4 = {'b': 2}\ne5 = {}\n", **given('n'))
# --- the notation, as written by hand
SP = (("plain", "n + '(a=' + str(x) + ',b=' + str(z) + ')'"), ("after-comma", "n + '(a=' + str(x) + ', b=' + str(z) + ')'"),
      ("inside", "n + '( a=' + str(x) + ',b=' + str(z) + ' )'"), ("around-equals", "n + '(a = ' + str(x) + ',b =' + str(z) + ')'"),
      ("before-open", "n + ' (a=' + str(x) + ',b=' + str(z) + ')'"), ("lead", "'  ' + n + '(a=' + str(x) + ',b=' + str(z) + ')'"), ("trail", "n + '(a=' + str(x) + ',b=' + str(z) + ')  '"),
      ("lines", "n + '(\\n  a=' + str(x) + ',\\n  b=' + str(z) + '\\n)\\n'"), ("tabs", "n + '(\\ta=' + str(x) + '\\t,b=\\t' + str(z) + ')'"), ("reversed", "n + '(b=' + str(z) + ',a=' + str(x) + ')'"))
for key, text in SP:
    reads('space-' + key, text, "What(n, {'a': x, 'b': z})")
for key, text, value in (
        ('list', "[ 1 ,2,  3 ]", "[1, 2, 3]"), ('list-empty', "[ ]", "[]"), ('tuple', "( 1, 2 )", "(1, 2)"), ('tuple-empty', "( )", "()"), ('tuple-one', "(1)", "(1,)"),
        ('dict', "{ 1 : 2, 'a' :'b' }", "{1: 2, 'a': 'b'}"), ('dict-empty', "{ }", "{}"), ('set', "{ 1, 2 ,3}", "set([1, 2, 3])"), ('set-repeated', "{1,1,2}", "set([1, 2])"),
        ('frozenset', "frozenset({ 1, 2 })", "frozenset([1, 2])"), ('frozenset-none', "frozenset({None,'a'})", "frozenset([None, 'a'])"), ('set-none', "{None}", "set([None])"),
        ('dict-repeated', "{1:2,1:3}", "{1: 3}"), ('dict-nested', "{'a':{'b':{}},'c':[{}]}", "{'a': {'b': {}}, 'c': [{}]}"), ('dict-none', "{None:None,'x':None,2:None}", "{None: None, 'x': None, 2: None}"),
        ('dict-bool', "{True:False,'a':True}", "{True: False, 'a': True}"), ('dict-tuple', "{(1,2):[3],():4}", "{(1, 2): [3], (): 4}"), ('dict-what', "{'a':b(c=1)}", "{'a': What('b', {'c': 1})}"),
        ('string-space', "' a  b '", "' a  b '"), ('string-empty', "''", "''"), ('string-symbols', "'=,()[]{}:#<>'", "'=,()[]{}:#<>'"), ('string-double', "'\"'", "'\"'"), ('string-number', "'3'", "'3'"),
        ('string-none', "'None'", "'None'"), ('string-id', "'b(c=1)'", "'b(c=1)'"),
        ('set-empty', "set()", "set()"), ('frozenset-empty', "frozenset()", "frozenset()"), ('set-empty-list', "[set(),frozenset(),{},{1}]", "[set(), frozenset(), {}, set([1])]"),
        ('order', "[3,1,2,1]", "[3, 1, 2, 1]"), ('order-tuple', "('b','a',3,'a')", "('b', 'a', 3, 'a')"), ('order-dict', "{'b':2,'a':1}", "{'b': 2, 'a': 1}"),
        ('name-nan', "nanmean(a=1)", "What('nanmean', {'a': 1})"), ('name-none', "None(a=1)", "What('None', {'a': 1})"), ('name-true', "[True(),Trues(),True]", "[What('True', {}), What('Trues', {}), True]"),
        ('name-inf', "info(a=inf,inf=inf)", "What('info', {'a': float('inf'), 'inf': float('inf')})"), ('name-set', "set(a=1)", "What('set', {'a': 1})"), ('name-sets', "sets()", "What('sets', {})"),
        ('name-out', "None=False(True=nan(inf=None))", "What('False', {'True': What('nan', {'inf': None})}, out_name='None')"), ('name-frozenset', "frozenset(a={1})", "What('frozenset', {'a': set([1])})"),
        ('int', "0", "0"), ('int-minus', "-12", "-12"), ('int-big', "123456789012345678901234567890", "123456789012345678901234567890"), ('int-zeros', "007", "7"),
        ('float', "3.25", "3.25"), ('float-dot', "3.", "3.0"), ('float-minus', "-0.5", "-0.5"), ('float-exponent', "1e5", "100000.0"), ('float-EXP', "1E5", "100000.0"), ('float-plus', "1.5e+3", "1500.0"),
        ('float-small', "2e-07", "2e-07"), ('inf', "inf", "float('inf')"), ('minus-inf', "-inf", "-float('inf')"), ('none', "None", "None"), ('true', "True", "True"), ('false', "False", "False"),
        ('what', "b(c=1,d='e')", "What('b', {'c': 1, 'd': 'e'})"), ('what-space', " b ( c = 1 ) ", "What('b', {'c': 1})"), ('what-out', "o=b(c=1)", "What('b', {'c': 1}, out_name='o')"),
        ('what-out-space', "o = b( )", "What('b', {}, out_name='o')"), ('what-bare', "b()", "What('b', {})"), ('what-list', "[b(),o=c(),[d(e=1)]]", "[What('b', {}), What('c', {}, out_name='o'), [What('d', {'e': 1})]]"),
        ('what-deep', "b(c=d(e=f(g=h=i(j=1))))", "What('b', {'c': What('d', {'e': What('f', {'g': What('i', {'j': 1}, out_name='h')})})})"),
        ('none-list', "[None,None,1,None]", "[None, None, 1, None]"), ('none-tuple', "(None,None)", "(None, None)"), ('mixed', "[1,'1',1.0,True,None,(1,),{}]".replace('(1,)', '(1)'), "[1, '1', 1.0, True, None, (1,), {}]"),
        ('class-str', "<class 'str'>", "str"), ('class-builtins', "<class 'builtins.dict'>", "dict"), ('class-what', "<class 'whatami.what.What'>", "What"),
        ('class-nested', "[<class 'str'>,{'a':<class 'list'>}]", "[str, {'a': list}]"), ('class-missing', "<class 'whatami.what.Missing'>", "{'class': 'whatami.what.Missing'}"),
        ('class-no-module', "<class 'whatami.missing.Missing'>", "{'class': 'whatami.missing.Missing'}"), ('class-no-builtin', "<class 'missing'>", "{'class': 'missing'}"),
        ('class-std', "<class 'collections.OrderedDict'>", "__import__('collections').OrderedDict")):
    pre = ''
    if '__import__' in value:
        pre, value = "from collections import OrderedDict\n", 'OrderedDict'
    reads('value-' + key, repr('w(a=%s)' % text), "What('w', {'a': %s})" % value, pre=pre)
    reads('value-more-' + key, "n + %r + str(x) + ')'" % ('(z=[%s],a=%s,k=' % (text, text)), "What(n, {'z': [%s], 'a': %s, 'k': x})" % (value, value), pre=pre, tier='thorough')
    ob('C11', 'kind-' + key, P + 'WhatamiTreeVisitor', IMP + pre + "q = id2what(%r)\nr = type(q.conf['a'])\n" % ('w(a=%s)' % text), IMP + pre + "e = type(%s)\n" % value, rec=9)
reads('bare', "n + '()'", "What(n, {})")
reads('bare-space', "n + '( )'", "What(n, {})")
reads('bare-out', "m + '=' + n + '()'", "What(n, {}, out_name=m)")
reads('bare-out-space', "m + ' = ' + n + ' ( )'", "What(n, {}, out_name=m)")
reads('out', "m + '=' + n + '(a=' + str(x) + ')'", "What(n, {'a': x}, out_name=m)")
reads('repeated-key', "n + '(a=1,a=2)'", "What(n, {'a': 2})", 'WhatamiTreeVisitor.visit_whatami_id')
reads('key-any', "'w(' + n + '=' + str(x) + ')'", "What('w', {n: x})", 'WhatamiTreeVisitor.visit_kv')
reads('string-any', "\"w(a='\" + s + \"',b='\" + s + \"')\"", "What('w', {'a': s, 'b': s})", 'WhatamiTreeVisitor.visit_a_string')
reads('many', "'w(a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9,j=10)'", "What('w', {'a': 1, 'b': 2, 'c': 3, 'd': 4, 'e': 5, 'f': 6, 'g': 7, 'h': 8, 'i': 9, 'j': 10})")
ob('C11', 'nan', P + 'WhatamiTreeVisitor.visit_a_number', IMP + "q = id2what('w(a=nan)')\nr1 = q['a'] != q['a']\nr2 = type(q['a'])\n", "e1 = True\ne2 = float\n", rec=9)
ob('C11', 'class-third-party', P + 'WhatamiTreeVisitor.visit_a_class', IMP + "r = id2what(\"w(a=<class 'sklearn.svm.SVC'>)\").conf\n",
   "import importlib\ntry:\n    c = importlib.import_module('sklearn.svm').SVC\nexcept (ImportError, AttributeError):\n    c = {'class': 'sklearn.svm.SVC'}\ne = {'a': c}\n", rec=9)
ob('C11', 'unhashable', P + 'parse_whatid', IMP + """
def bad(text):
    try:
        return id2what(text)
    except TypeError:
        return 'unhashable'
r1 = bad('w(a={[1]:2})')
r2 = bad('w(a={{},1})')
r3 = bad('w(a=frozenset({[1]}))')
r4 = bad('w(a=1)').conf
""", "e1 = 'unhashable'\ne2 = 'unhashable'\ne3 = 'unhashable'\ne4 = {'a': 1}\n", rec=9)
# backslashes at the end of a text
reads('backslash-end', '"w(a=\'b\\\\\')"', "What('w', {'a': 'b\\\\'})")
reads('backslash-only', '"w(a=\'\\\\\',c=1)"', "What('w', {'a': '\\\\', 'c': 1})")
reads('backslash-list', '"w(a=[1,\'x\\\\\'],c=1)"', "What('w', {'a': [1, 'x\\\\'], 'c': 1})")
ob('C11', 'no-text', P + 'parse_whatid', IMP + """
def bad(text):
    try:
        return id2what(text)
    except TypeError:
        return 'no text'
q = bad(None)
r1 = id2what('w(a=1)').conf
q = bad(3)
r2 = id2what('w(b=v(c=2))').conf['b'].conf
""", "e1 = {'a': 1}\ne2 = {'c': 2}\n", rec=9)
