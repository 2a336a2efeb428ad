"""C04: identifying, comparing, flattening and printing never modify what is identified, nor anything global."""
from .common import *

STATE = "r1 = w.name\nr2 = w.conf\nr3 = w.non_id_keys\nr4 = w.out_name\nr5 = w.conf is conf\n"
DUE = "e1 = name\ne2 = conf\ne3 = set(nik)\ne4 = out\ne5 = True\n"
WH = "from whatami import What\nw = What(name, conf, nik, out)\n"
OPS = dict(
    id='w.id()', id_all='w.id(nonids_too=True)', id_max='w.id(maxlength=5)', positional='w.positional_id(non_ids_too=True)',
    keys='w.keys(recursive=False)', values='w.values(non_ids_too=True, recursive=False)',
    flatten='w.flatten(recursive=False)', str='str(w)', repr='repr(w)', hash='hash(w)', eq='w == other', eq2='other == w',
    get='w.get(key)', get_default='w.get(key, name)', copy='w.copy()', deepcopy='w.copy(deep=True)',
    set_copy='w.set(key, name, copy=True)', plugin='M.build_string(w)')
for key, op in sorted(OPS.items()):
    pre = WH
    if key == 'plugin':
        pre += "from whatami.plugins import WhatamiPluginManager as M\n"
    if key in ('get', 'get_default'):
        pre = pre.replace('nik, out', 'nik, out')
    ob('C04', key, 'whatami/what.py', pre + "x = " + op + "\n" + STATE, DUE,
       vars=dict(WHAT, key='str', other='object'), may_raise=key == 'id_max', opaque=inner_bs() if key == 'plugin' else BS)

# mutable contents of a configuration are the ones of the caller
ob('C04', 'contents', 'whatami/what.py:What', """
from whatami import What
inner = {'x': a, 'y': b}
lst = [a, b]
st = {a}
conf = {'d': inner, 'l': lst, 's': st, 'b': b}
nid = ['b']
w = What('n', conf, nid)
w.id(), w.id(nonids_too=True), w.positional_id(), w.flatten(collections_too=True), w.keys(), w.values()
w.copy(), w.copy(deep=True), w.get('d'), w[('d', 'x')], w.set('z', b, copy=True), str(w), repr(w), w == w.copy()
r1 = conf
r2 = inner
r3 = lst
r4 = st
r5 = nid
r6 = w.non_id_keys
""", "e1 = {'d': {'x': a, 'y': b}, 'l': [a, b], 's': {a}, 'b': b}\ne2 = {'x': a, 'y': b}\ne3 = [a, b]\ne4 = {a}\ne5 = ['b']\ne6 = {'b'}\n",
   vars=dict(a='int', b='str'), rec=6)

# rendering values
PRE = "from whatami.plugins import WhatamiPluginManager as M\n"
for t in ('dict', 'OrderedDict', 'list', 'tuple', 'set', 'frozenset', 'str', 'int', 'float', 'NoneType'):
    ob('C04', 'render-' + t, 'whatami/plugins.py', PRE + "M.build_string(v)\nr = M.plugins() is before\n".replace(
        'M.build', 'M.build') if False else PRE + "before = M.plugins()\nM.build_string(v)\nr = M.plugins() is before\n", "e = True",
       vars=dict(v=t), opaque=dict(nested(), **{}), facts=PLAIN if t == 'OrderedDict' else ())
for t in ('dict', 'list', 'set', 'tuple', 'frozenset'):
    ob('C04', 'render-sub-' + t, 'whatami/plugins.py', PRE + "M.build_string(v)\n", vars=dict(v=None),
       setup=proper(t, *(['OrderedDict'] if t == 'dict' else [])), facts=PLAIN, opaque=nested(), may_raise=True)
ob('C04', 'render-object', 'whatami/plugins.py', PRE + "M.build_string(v)\n", vars=dict(v='object'), facts=PLAIN, opaque=nested())
ob('C04', 'render-function', 'whatami/plugins.py', PRE + """
from functools import partial
def fun(a, b=v, c=w):
    return a
kw = dict(c=v)
p = partial(fun, **kw)
M.build_string(fun)
M.build_string(p)
r1 = p.keywords
r2 = p.args
r3 = fun.__defaults__
""", "e1 = {'c': v}\ne2 = ()\ne3 = (v, w)", vars=dict(v=None, w=None), opaque=inner_bs(), rec=4)

# inferring configurations
ob('C04', 'whatareyou', 'whatami/what.py:whatareyou', """
from whatami import whatareyou, is_whatable
class K(object):
    def __init__(self):
        self.x = a
        self.y = lst
        self._z = b
o = K()
before = sorted(vars(o))
d = vars(o)
w = whatareyou(o, non_id_keys=nid)
w.conf['new'] = 1
w.non_id_keys.add('new')
is_whatable(o)
r1 = dict(d)
r2 = o.y is lst
r3 = nid
""", "e1 = {'x': a, 'y': lst, '_z': b}\ne2 = True\ne3 = nid", vars=dict(a=None, b=None, lst='list', nid='set'))
ob('C04', 'whatareyou-collection', 'whatami/what.py:whatareyou', """
from whatami import whatareyou
whatareyou(v)
""", vars=dict(v='dict'), may_raise=True)
ob('C04', 'trim_dict', 'whatami/misc.py:trim_dict', """
from whatami.misc import trim_dict
t = trim_dict(d, prefix, postfix, exc)
t['new'] = 1
r = t is d
""", "e = False", vars=dict(d='dict', prefix='str', postfix='str', exc='list'))
ob('C04', 'callable2call', 'whatami/misc.py:callable2call', """
from whatami.misc import callable2call
from functools import partial
def fun(a, b=v, c=w):
    return a
p = partial(fun, c=v)
name, params = callable2call(p)
params['new'] = 1
name, params = callable2call(fun)
params['new'] = 1
r1 = p.keywords
r2 = fun.__defaults__
""", "e1 = {'c': v}\ne2 = (v, w)", vars=dict(v=None, w=None), rec=4)

# utilities over whats and ids
P = {('whatami.parsers', 'parse_whatid'): make_opaque('parse'),
     ('whatami.whatutils', 'what2id'): make_opaque('w2id', T['str'])}
UT = "from whatami.whatutils import *\nfrom whatami.whatutils import match_whatids\n"
ob('C04', 'sort_whats', 'whatami/whatutils.py:sort_whats', """
from whatami import sort_whats, sort_whatids
sort_whats(whats, 'a', 'b')
sort_whatids(ids, 'a')
""", vars=dict(whats='list', ids='list'), opaque=P, may_raise=True)
ob('C04', 'what2id', 'whatami/whatutils.py:what2id', "from whatami import what2id\nwhat2id(w)\nwhat2id(t)\n",
   vars=dict(w=WHAT_CLS, t='str'), opaque={('whatami.what', 'What.id'): make_opaque('whatid', T['str'])})
ob('C04', 'whatvalues', 'whatami/whatutils.py:whatvalues', "from whatami.whatutils import whatvalues\nwhatvalues(w, keys)\n",
   vars=dict(w=WHAT_CLS, keys='list'), may_raise=True)
ob('C04', 'whatid2columns', 'whatami/whatutils.py:whatid2columns',
   "from whatami.whatutils import whatid2columns\nwhatid2columns(df, col, columns=cols, inplace=False)\n",
   vars=dict(df=None, col='str', cols='list'), opaque=P, may_raise=True)
ob('C04', 'whatadd', 'whatami/whatutils.py:whatadd', """
from whatami import What
from whatami.whatutils import whatadd
w = What(name, conf, nik, out)
x = whatadd(w, key, values)
""" + STATE, DUE, vars=dict(WHAT, key='str', values='list'), may_raise=True, opaque={('whatami.what', 'What.id'): make_opaque('whatid', T['str'])})
# the parameters of a call, told by call_dict, are the caller's
ob('C04', 'call-dict', 'whatami/misc.py:call_dict', """
from whatami.misc import call_dict
def caller(a, b=x, *args, **kwargs):
    d = call_dict(overrides=ov, c=y, ignores=ig, ignore_varargs=True)
    d['new'] = 1
    return d is kwargs, kwargs, args, a, b
def plain(q, **kw):
    d = call_dict(z=x)
    d2 = call_dict()
    d2['k'] = 1
    return kw, call_dict()
ov = {'d': y, 'a': x}
ig = ['b', 'e']
r1 = caller(x, y, z, c=z, d=x, e=z)
r2 = plain(x, z=y, w=z)
r3 = (ov, ig)
""", """
e1 = (False, {'c': z, 'd': x, 'e': z}, (z,), x, y)
e2 = ({'z': y, 'w': z}, {'q': x, 'z': y, 'w': z})
e3 = ({'d': y, 'a': x}, ['b', 'e'])
""", vars=dict(x='int', y='int', z='int'), rec=6)
