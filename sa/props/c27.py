"""C27: dictionaries made from ids hold the whole configuration, and no configuration objects."""
from .common import *

V = dict(WHAT, l='list', k='str', x='int', y='str', z='float', d='dict', n2='str', o2='str', n3='str', o3='str', l2='list', u=None, f='bool')
U = 'whatami/whatutils.py:id2dict'
W = 'whatami/what.py:What.to_dict'
IMP = "from whatami import What, id2dict\n"


def conf(key, value, expected, extra='', eextra='', anchor=U, **kw):
    ob('C27', key, anchor, IMP + extra + "def t_A():\n    return What(name, %s, nik, out)\nr1 = id2dict('A')\n" % value,
       eextra + "e1 = {'whatami_name': name, 'whatami_out_name': out, 'whatami_conf': %s}\n" % expected,
       vars=kw.pop('vars', V), opaque=PARSED, rec=9, **kw)


def wd(n, c, o):
    return "{'whatami_name': %s, 'whatami_out_name': %s, 'whatami_conf': %s}" % (n, o, c)


conf('empty', '{}', '{}')
conf('plain', "{'a': x, 'b': y, 'c': z, 'd': None, 'e': True}", "{'a': x, 'b': y, 'c': z, 'd': None, 'e': True}")
IN = "What(n2, {'p': x}, None, o2)"
DIN = wd('n2', "{'p': x}", 'o2')
conf('nested', "{'a': %s, 'b': y}" % IN, "{'a': %s, 'b': y}" % DIN)
conf('nested-empty', "{'a': What(n2, {}, None, o2)}", "{'a': %s}" % wd('n2', '{}', 'o2'))
conf('two-deep', "{'a': What(n2, {'q': What(n3, {'p': x}, None, o3), 'r': y}, None, o2)}", "{'a': %s}" % wd('n2', "{'q': %s, 'r': y}" % wd('n3', "{'p': x}", 'o3'), 'o2'))
for cn, l, r in (('list', '[', ']'), ('tuple', '(', ',)'), ('dict', "{k: ", '}'), ('dict-in-list', "[{k: ", '}]'), ('list-in-list', '[[', ']]'),
                 ('list-in-tuple', '([', '],)'), ('tuple-in-dict', '{k: (', ',)}'), ('dict-in-dict', "{'v': {k: ", '}}'), ('tuple-in-list', '[(', ',)]')):
    conf('in-' + cn, "{'a': %s%s%s}" % (l, IN, r), "{'a': %s%s%s}" % (l, DIN, r))
    conf('plain-in-' + cn, "{'a': %sx%s}" % (l, r), "{'a': %sx%s}" % (l, r))
    conf('in-nested-' + cn, "{'a': What(n2, {'q': %s%s%s}, None, o2)}" % (l, IN, r), "{'a': %s}" % wd('n2', "{'q': %s%s%s}" % (l, DIN, r), 'o2'))
    conf('nested-in-' + cn, "{'a': %sWhat(n2, {'q': [%s]}, None, o2)%s}" % (l, IN, r), "{'a': %s%s%s}" % (l, wd('n2', "{'q': [%s]}" % DIN, 'o2'), r))
conf('mixed-list', "{'a': [x, %s, y, %s]}" % (IN, IN), "{'a': [x, %s, y, %s]}" % (DIN, DIN))
conf('mixed-tuple', "{'a': (%s, x, [y])}" % IN, "{'a': (%s, x, [y])}" % DIN)
conf('mixed-dict', "{'a': {'u': x, 'v': %s, 3: y}}" % IN, "{'a': {'u': x, 'v': %s, 3: y}}" % DIN)
conf('empty-containers', "{'a': [], 'b': (), 'c': {}}", "{'a': [], 'b': (), 'c': {}}")
conf('sets', "{'a': set([x]), 'b': frozenset([y]), 'c': set()}", "{'a': set([x]), 'b': frozenset([y]), 'c': set()}")
conf('key-any', "{k: %s}" % IN, "{k: %s}" % DIN)
conf('key-names', "{'whatami_name': x, 'whatami_conf': %s, 'name': y, 'conf': z}" % IN, "{'whatami_name': x, 'whatami_conf': %s, 'name': y, 'conf': z}" % DIN)
conf('no-out', "{'a': What(n2, {'p': x})}", "{'a': %s}" % wd('n2', "{'p': x}", 'None'))
# the whole id, also of names that are not identifying, and never shortened
for key, args, nonids in (('to-dict', '', 'False'), ('to-dict-nonids', 'nonids_too=True', 'True'), ('to-dict-any', 'f', 'f'), ('to-dict-ids', 'False', 'False')):
    ob('C27', key, W, IMP + "def t_any(text):\n    return What('parsed', {'text': text})\nw = What(name, conf, nik, out)\nr1 = w.to_dict(%s)\n" % args,
       "from whatami import What\ne1 = {'whatami_name': 'parsed', 'whatami_out_name': None, 'whatami_conf': {'text': What(name, conf, nik, out).id(%s)}}\n" % nonids,
       vars=V, rec=9, opaque={**BS, **PARSED})
# what is given is new: changing it changes nothing given later
ob('C27', 'new', U, IMP + """
def t_A():
    return What(name, {'a': [x], 'b': %s}, nik, out)
q = id2dict('A')
q['whatami_conf']['a'].append(y)
q['whatami_conf']['b']['whatami_conf']['p'] = z
q['whatami_conf']['c'] = y
q['whatami_name'] = y
r1 = id2dict('A')
""" % IN, "e1 = {'whatami_name': name, 'whatami_out_name': out, 'whatami_conf': {'a': [x], 'b': %s}}\n" % DIN, vars=V, opaque=PARSED, rec=9)
conf('falsy-list', "{'a': [None, 0, '', False, []], 'b': (None, (), {}), 'c': {'n': None, None: 0, 'f': ''}}",
     "{'a': [None, 0, '', False, []], 'b': (None, (), {}), 'c': {'n': None, None: 0, 'f': ''}}")
for key, args, eargs in (('long', '', ''), ('long-nonids', 'True', 'True'), ('long-keyword', 'nonids_too=False', 'False')):
    ob('C27', key, W, IMP + "def t_any(text):\n    return What('parsed', {'text': text})\nw = What('n' * 300, {'b': 'v' * 300, 'a': 2}, ['a'])\nr1 = w.to_dict(%s)\n" % args,
       "e1 = {'whatami_name': 'parsed', 'whatami_out_name': None, 'whatami_conf': {'text': 'n' * 300 + '(' + %s + \"b='\" + 'v' * 300 + \"')\"}}\n"
       % ("'a=2,'" if eargs == 'True' else "''"), vars=V, rec=9, opaque=PARSED)
# keys of dictionaries stay as they are
conf('key-what', "{'a': {%s: x}, 'b': [{%s: %s}]}" % (IN, IN, IN), "{'a': {%s: x}, 'b': [{%s: %s}]}" % (IN, IN, DIN))
conf('key-tuple', "{'a': {(x, %s): y, (): z}}" % IN, "{'a': {(x, %s): y, (): z}}" % IN)
