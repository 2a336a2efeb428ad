"""C22: ids over the maximum length become the sha1 of the whole id; the others are returned whole."""
from .common import *

A = 'whatami/what.py:What.'
WH = "from whatami import What\nw = What(name, conf, nik, out)\n"
SHA = "import hashlib\ndef sha(s):\n    return hashlib.sha1(s.encode('utf-8')).hexdigest()\n"
V = dict(WHAT, n='int')
HASH = ('hashlib.sha1',)
CHOOSE = "e = sha(full) if n > 0 and len(full) > n else full\n"
for key, full, call, anchor in (
        ('id', 'w.id()', 'w.id(maxlength=n)', 'id'),
        ('id-all', 'w.id(nonids_too=True)', 'w.id(nonids_too=True, maxlength=n)', 'id'),
        ('id-pos', 'w.id(True)', 'w.id(True, n)', 'id'),
        ('positional', 'w.positional_id()', 'w.positional_id(maxlength=n)', 'positional_id'),
        ('positional-all', 'w.positional_id(non_ids_too=True)', 'w.positional_id(non_ids_too=True, maxlength=n)', 'positional_id'),
        ('positional-pos', 'w.positional_id(True)', 'w.positional_id(True, n)', 'positional_id'),
        ('default', 'w.id()', 'w.id(maxlength=0)', 'id'), ('default-positional', 'w.positional_id()', 'w.positional_id(maxlength=0)', 'positional_id'),
        ('negative', 'w.id()', 'w.id(maxlength=-1)', 'id')):
    ob('C22', key, A + anchor, WH + "full = %s\nr = %s\n" % (full, call),
       SHA + CHOOSE if ('n)' in call or '=n' in call) else "e = full\n", vars=V, opaque=BS, rigid_calls=HASH)
# the reading above of the whole id does not come from a shortened one
ob('C22', 'whole', A + 'id', WH + "r1 = w.id()\nr2 = w.positional_id()\nr3 = w.id(nonids_too=True)\n", BSREF + """
pre = '' if out is None else out + '='
e1 = pre + name + '(' + ','.join(['%s=%s' % (k, bs(v)) for k, v in sorted(conf.items()) if k not in nik]) + ')'
e2 = pre + name + '(' + ','.join([bs(v) for k, v in sorted(conf.items()) if k not in nik]) + ')'
e3 = pre + name + '(' + ','.join(['%s=%s' % (k, bs(v)) for k, v in sorted(conf.items())]) + ')'
""", vars=WHAT, opaque=BS)
ob('C22', 'whole-noout', A + 'id', "from whatami import What\nw = What(name, conf, nik)\nr1 = w.id()\nr2 = w.positional_id()\n", BSREF + """
e1 = name + '(' + ','.join(['%s=%s' % (k, bs(v)) for k, v in sorted(conf.items()) if k not in nik]) + ')'
e2 = name + '(' + ','.join([bs(v) for k, v in sorted(conf.items()) if k not in nik]) + ')'
""", vars=WHAT, opaque=BS)
ob('C22', 'text', A + '_trim_too_long', WH + """
r1 = What('x', {}).id(maxlength=n)
r2 = What('xyz', {}, out_name='o').id(maxlength=n)
""", SHA + """
e1 = sha('x()') if n > 0 and 3 > n else 'x()'
e2 = sha('o=xyz()') if n > 0 and 7 > n else 'o=xyz()'
""", vars=V, rigid_calls=HASH)
ob('C22', 'text-fixed', A + '_trim_too_long', WH + """
a = What('xy', {})
r1 = [a.id(maxlength=3), a.id(maxlength=4), a.id(maxlength=5), a.id(maxlength=0), a.id(maxlength=-3)]
r2 = [a.positional_id(maxlength=3), a.positional_id(maxlength=4), a.positional_id(maxlength=5)]
""", SHA + "e1 = [sha('xy()'), 'xy()', 'xy()', 'xy()', 'xy()']\ne2 = [sha('xy()'), 'xy()', 'xy()']\n", vars=V, rigid_calls=HASH)
# nested ids are never shortened by the request
ob('C22', 'nested', A + 'id', """
from whatami import What
w = What(name, {'k': What(inner, {})}, nik)
full = w.id()
r = w.id(maxlength=n)
""", SHA + CHOOSE, vars=dict(V, inner='str'), rigid_calls=HASH, rec=3)
