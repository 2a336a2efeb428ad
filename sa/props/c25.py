"""C25: the attributes that make a configuration are exactly the requested ones, wherever they are requested."""
from .common import *

M = 'whatami/misc.py:'
A = 'whatami/what.py:'
# --- trimming
TR = "from whatami.misc import trim_dict\n"
TV = dict(d='dict', p='str', q='str', ex='tuple', k1='str', k2='str', x=None, y=None)
for key, args, (p, q, ex) in (
        ('default', '', ("'_'", "'_'", "('what',)")), ('prefix', ', exclude_prefix=p', ('p', "'_'", "('what',)")),
        ('postfix', ', exclude_postfix=q', ("'_'", 'q', "('what',)")), ('excludes', ', excludes=ex', ("'_'", "'_'", 'ex')),
        ('none', ', exclude_prefix=None, exclude_postfix=None', ('None', 'None', "('what',)")),
        ('empty', ", exclude_prefix='', exclude_postfix=''", ('None', 'None', "('what',)")),
        ('all', ', exclude_prefix=p, exclude_postfix=q, excludes=ex', ('p', 'q', 'ex'))):
    pre = '%s and k.startswith(%s)' % (p, p) if p != 'None' else 'False'
    post = '%s and k.endswith(%s)' % (q, q) if q != 'None' else 'False'
    ref = ("def keep(k):\n    if %s:\n        return False\n    if %s:\n        return False\n    return k not in %s\n" % (pre, post, ex))
    ob('C25', 'trim-two-' + key, M + 'trim_dict', TR + "r1 = trim_dict({k1: x, k2: y}%s)\n" % args,
       ref + "e1 = {}\nif keep(k1):\n    e1[k1] = x\nif keep(k2):\n    e1[k2] = y\n", vars=TV,
       facts=[(App('eq', S('k1'), S('k2')), False)])
    ob('C25', 'trim-' + key, M + 'trim_dict', TR + "r1 = trim_dict(d%s)\n" % args,
       ref + "e1 = {k: d[k] for k in d if keep(k)}\n", vars=TV)
# --- which attributes of an object
CLS = """
class K(object):
    shared = s
    def __init__(self):
        self.a = x
        self._b = y
        self.c_ = z
    @property
    def p(self):
        return u
    @property
    def _q(self):
        return v
    def method(self):
        return 1
"""
CV = dict(x=None, y=None, z=None, u=None, v=None, s=None, fd='bool', fs='bool', fp='bool', ex='str', pre='str')
for key, opts, fd, fp in (('default', '', 'True', 'True'), ('dict', 'add_dict=fd', 'fd', 'True'), ('props', 'add_properties=fp', 'True', 'fp'),
                          ('both', 'add_dict=fd, add_properties=fp', 'fd', 'fp'),
                          ('slots', 'add_slots=fs', 'True', 'True'),
                          ('pos', 'None, None, fd, fs, fp', 'fd', 'fp')):
    ob('C25', 'object-' + key, A + 'whatareyou', CLS + "from whatami import whatareyou\no = K()\nw = whatareyou(o%s)\nr1 = w.conf\nr2 = w.name\n"
       % (', ' + opts if opts else ''),
       "e1 = {}\nif %s:\n    e1['a'] = x\nif %s:\n    e1['p'] = u\ne2 = 'K'\n" % (fd, fp), vars=CV)
ob('C25', 'object-untrimmed', A + 'whatareyou', CLS + """
from whatami import whatareyou
r1 = whatareyou(K(), exclude_prefix=None, exclude_postfix=None, add_properties=False).conf
r2 = whatareyou(K(), exclude_prefix=None, exclude_postfix=None, excludes=('a', 'p')).conf
r3 = whatareyou(K(), excludes=()).conf
r4 = whatareyou(K(), excludes=('a',)).conf
r5 = whatareyou(K(), exclude_prefix='a').conf
r6 = whatareyou(K(), exclude_postfix='b').conf
r7 = whatareyou(K(), name_override=pre).name
""", """
e1 = {'a': x, '_b': y, 'c_': z}
e2 = {'_b': y, 'c_': z, '_q': v}
e3 = {'a': x, 'p': u}
e4 = {'p': u}
e5 = {'_b': y, 'p': u, '_q': v}
e6 = {'a': x, 'c_': z, 'p': u}
e7 = pre
""", vars=CV)
ob('C25', 'slots', M + 'config_dict_for_object', """
class K(object):
    __slots__ = ('a', 'b')
    def __init__(self):
        self.a = x
        self.b = y
from whatami import whatareyou
from whatami.misc import config_dict_for_object
r1 = whatareyou(K(), add_slots=fs).conf
r2 = config_dict_for_object(K(), add_slots=fs)
r3 = whatareyou(K(), excludes=('b',)).conf
""", "e1 = {'a': x, 'b': y} if fs else {}\ne2 = {'a': x, 'b': y} if fs else {}\ne3 = {'a': x}\n", vars=CV)
ob('C25', 'inherited', M + 'config_dict_for_object', """
class B(object):
    def __init__(self):
        self.a = x
    @property
    def p(self):
        return u
class K(B):
    def __init__(self):
        B.__init__(self)
        self.d = y
    @property
    def q(self):
        return v
from whatami import whatareyou
r1 = whatareyou(K()).conf
r2 = whatareyou(K(), add_dict=False).conf
r3 = whatareyou(B()).conf
""", "e1 = {'a': x, 'd': y, 'p': u, 'q': v}\ne2 = {'p': u, 'q': v}\ne3 = {'a': x, 'p': u}\n", vars=CV)
ob('C25', 'slots-inherited', M + 'config_dict_for_object', """
class A(object):
    __slots__ = ('a', '_h')
class B(A):
    __slots__ = ('b',)
class K(B):
    __slots__ = ('c', 'd')
    def __init__(self):
        self.a = x
        self.b = y
        self.c = z
class N(B):
    def __init__(self):
        self.a = x
        self.k = y
from whatami import whatareyou
from whatami.misc import config_dict_for_object
r1 = whatareyou(K()).conf
r2 = whatareyou(K(), add_slots=fs).conf
r3 = config_dict_for_object(K(), add_properties=False)
r4 = whatareyou(N()).conf
r5 = whatareyou(N(), add_dict=False).conf
r6 = whatareyou(N(), add_slots=False).conf
""", """
e1 = {'a': x, 'b': y, 'c': z}
e2 = {'a': x, 'b': y, 'c': z} if fs else {}
e3 = {'a': x, 'b': y, 'c': z}
e4 = {'a': x, 'k': y}
e5 = {'a': x}
e6 = {'k': y}
""", vars=CV, writes_ok=True)
# the value under a name is the one the object has under that name
ob('C25', 'property-shadows', M + 'config_dict_for_object', """
class B(object):
    both = z
    @property
    def p(self):
        return u
class K(B):
    a = x
    q = z
    def __init__(self):
        self.a = y
        self.__dict__['p'] = v
        self.__dict__['q'] = v
    @property
    def q(self):
        return t
from whatami import whatareyou
from whatami.misc import config_dict_for_object
o = K()
r1 = whatareyou(o).conf
r2 = whatareyou(o, add_class=True).conf
r3 = whatareyou(o, add_properties=False).conf
r4 = whatareyou(o, add_dict=False).conf
r5 = config_dict_for_object(o)
r6 = [o.p, o.q, o.a]
""", """
e1 = {'a': y, 'p': u, 'q': t}
e2 = {'a': y, 'p': u, 'q': t, 'both': z}
e3 = {'a': y, 'p': v, 'q': v}
e4 = {'p': u, 'q': t}
e5 = {'a': y, 'p': u, 'q': t}
e6 = [u, t, y]
""", vars=dict(CV, t='str'), writes_ok=True)
# --- every option, wherever it is given
FULL = """
class B(object):
    __slots__ = ('s',)
    def __init__(self):
        self.s = x
class K(B):
    shared = y
    both = y
    def __init__(self):
        B.__init__(self)
        self.a = u
        self._b = v
        self.c_ = z
        self.both = t
    @property
    def p(self):
        return w
"""
DUE = """
def due(o, non_id_keys=None, add_dict=True, add_slots=True, add_properties=True,
        exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
    out = {}
    if add_dict:
        out['a'] = u
        out['_b'] = v
        out['c_'] = z
        out['both'] = t
    if add_slots:
        out['s'] = x
    if add_properties:
        out['p'] = w
    return {k: q for k, q in out.items() if not (exclude_prefix and k.startswith(exclude_prefix)) and
            not (exclude_postfix and k.endswith(exclude_postfix)) and k not in excludes}
"""
FV = dict(x=None, y=None, z=None, u=None, v=None, t=None, w=None, nik='set', fd='bool', fs='bool', fp='bool', pre='str', post='str',
          e1_='str', e2_='str')
SETS = (('none', ()), ('non_id_keys', ('non_id_keys=nik',)), ('add_dict', ('add_dict=fd',)), ('add_slots', ('add_slots=fs',)),
        ('add_properties', ('add_properties=fp',)), ('flags', ('add_dict=fd', 'add_slots=fs', 'add_properties=fp')),
        ('prefix', ("exclude_prefix='a'",)), ('postfix', ("exclude_postfix='b'",)), ('no-prefix', ("exclude_prefix=None",)),
        ('no-postfix', ("exclude_postfix=''",)), ('excludes', ("excludes=('a', 'p', 'what')",)),
        ('excludes-any', ("excludes=(e1_, e2_, 'what')",)),
        ('all', ('non_id_keys=nik', 'add_dict=fd', 'add_slots=fs', 'add_properties=fp', "exclude_prefix='a'", "exclude_postfix='b'",
                 "excludes=('s', 'what')")))
ENTRIES = (('whatareyou', 'whatareyou', 'from whatami import whatareyou\nk = K()\nq = whatareyou(k%s)\n'),
           ('override', 'whatareyou', "from whatami import whatareyou\nk = K()\nq = whatareyou(k, 'K'%s)\n"),
           ('decorator', 'whatable', 'from whatami import whatable\nK2 = whatable(%s)(K)\nk = K2()\nq = k.what()\n'),
           ('class', 'whatable', 'from whatami import whatable\nK2 = whatable(K%s)\nk = K2()\nq = k.what()\n'),
           ('object', 'whatable', 'from whatami import whatable\nk = whatable(K()%s)\nq = k.what()\n'),
           ('decorated-object', 'whatable', 'from whatami import whatable\nk = whatable(%s)(K())\nq = k.what()\n'))
for ename, fn, code in ENTRIES:
    for sname, opts in SETS:
        o = ', '.join(opts)
        ob('C25', '%s-%s' % (ename, sname), A + fn,
           FULL + code % (o if '(%s)' in code else (', ' + o if o else '')) + "r1 = q.conf\nr2 = q.non_id_keys\nr3 = q.name\nr4 = q.out_name\n",
           FULL + DUE + "e1 = due(None, %s)\ne2 = %s\ne3 = 'K'\ne4 = None\n"
           % (o, 'set(nik)' if 'non_id_keys' in o else 'set()'), vars=FV, writes_ok=True)
    for sname, o, due in (('class-only', 'add_class=True, add_dict=False, add_slots=False, add_properties=False', "'both': y"),
                          ('class-dict', "add_class=True, add_slots=False, add_properties=False", "'a': u, 'both': t"),
                          ('class-slots', "add_class=True, add_dict=False, add_properties=False, excludes=('what', 'p')", "'both': y, 's': x"),
                          ('class-props', "add_class=True, add_dict=False, add_slots=False, excludes=('what', 's')", "'both': y, 'p': w"),
                          ('class-off', "add_class=False, add_slots=False, add_properties=False", "'a': u, 'both': t")):
        drop = tuple(n for n in 'ps' if "'%s'" % n not in due)
        ob('C25', '%s-%s' % (ename, sname), A + fn,
           FULL + code % (o if '(%s)' in code else ', ' + o) + "r1 = {n: q.conf[n] for n in q.conf if n not in %r}\n" % (drop,),
           FULL + "e1 = {%s%s}\n" % (due, '' if sname == 'class-off' else ", 'shared': y"), vars=FV, writes_ok=True)

# what is in a container comes with it
CONT = """
from whatami import whatareyou, obj2what, whatable
class L(list):
    pass
class T(tuple):
    pass
class D(dict):
    pass
class S(set):
    pass
class F(frozenset):
    pass
"""
for key, v, ref in (('list', '[x, y]', '[x, y]'), ('tuple', '(x, y)', '(x, y)'), ('dict', "{'a': x}", "{'a': x}"), ('set', "set(['a'])", "set(['a'])"), ('list-empty', '[]', '[]'), ('tuple-empty', '()', '()'),
                    ('dict-empty', '{}', '{}'), ('list-derived', 'L([x, y])', '[x, y]'), ('tuple-derived', 'T((x, y))', '(x, y)'), ('dict-derived', "D({'a': x})", "{'a': x}"), ('list-derived-empty', 'L()', '[]'),
                    ('dict-derived-empty', 'D()', '{}'), ('frozenset', "frozenset(['a'])", "set(['a'])"), ('frozenset-empty', 'frozenset()', 'set()'),
                    ('set-derived', "S(['a'])", "set(['a'])"), ('set-derived-empty', 'S()', 'set()'), ('frozenset-derived', "F(['a'])", "set(['a'])"),
                    ('frozenset-derived-empty', 'F()', 'set()')):
    ob('C25', 'contents-' + key, A + 'whatareyou', CONT + "o = %s\nw = whatareyou(o)\nr1 = w.conf\nr2 = w.name\nr3 = type(w.conf['seq']).__name__\n" % v,
       "e1 = {'seq': %s}\ne2 = '%s'\ne3 = type(%s).__name__\n" % (ref, v[0] if v[0] in 'LTDSF' else key.split('-')[0], ref), vars=CV)
ob('C25', 'contents-attributes', A + 'whatareyou', CONT + """
o = L([x])
o.a = y
o._b = z
p = D(k=x)
p.a = y
r1 = whatareyou(o).conf
r2 = whatareyou(p).conf
r3 = whatareyou(o, add_dict=False).conf
r4 = whatareyou(o, excludes=('seq',)).conf
r5 = whatable(L)([x, y]).what().conf
r6 = whatable(D, excludes=('a', 'what'))(k=x).what().conf
""", "e1 = {'a': y, 'seq': [x]}\ne2 = {'a': y, 'seq': {'k': x}}\ne3 = {'seq': [x]}\ne4 = {'a': y}\ne5 = {'seq': [x, y]}\ne6 = {'seq': {'k': x}}\n", vars=CV, writes_ok=True)
# decorated again, the last options are those in force
ob('C25', 'again', A + 'whatable', CLS + """
from whatami import whatable
C = whatable(K, excludes=('a', 'what'))
r1 = C().what().keys()
C = whatable(C, add_class=True)
r2 = C().what().keys()
C = whatable(add_properties=False)(C)
r3 = C().what().keys()
class S(C):
    pass
r4 = whatable(S, exclude_prefix='z', exclude_postfix='z')().what().keys()
r5 = C().what().keys()
o = C()
o = whatable(o, non_id_keys=['a'])
r6 = o.what().keys()
o = whatable(o)
r7 = o.what().keys()
r8 = C().what().non_id_keys
""", "e1 = ['p']\ne2 = ['a', 'method', 'p', 'shared']\ne3 = ['a']\ne4 = ['_b', '_q', 'a', 'c_', 'p']\ne5 = ['a']\ne6 = ['p']\ne7 = ['a', 'p']\ne8 = set()\n", vars=dict(CV, x='str', y='str', z='str', u='str', v='str', s='str'), rec=4, writes_ok=True)
# names with underscores at both ends are names as any other
ob('C25', 'dunders', M + 'config_dict_for_object', """
class B(object):
    __slots__ = ('__s__', '_t_')
    def __init__(self):
        self.__s__ = x
        self._t_ = y
class K(B):
    def __init__(self):
        B.__init__(self)
        self.__d__ = z
    @property
    def __p__(self):
        return u
    @property
    def p__(self):
        return v
from whatami import whatareyou
from whatami.misc import config_dict_for_object
r1 = whatareyou(K(), exclude_prefix=None, exclude_postfix=None).conf
r2 = whatareyou(K(), exclude_prefix='', exclude_postfix='', add_dict=False, excludes=()).conf
r3 = whatareyou(K(), exclude_prefix='', exclude_postfix='x', add_slots=False, excludes=('p__',)).conf
r4 = whatareyou(K()).conf
r5 = config_dict_for_object(K())
""", """
e1 = e5 = {'__s__': x, '_t_': y, '__d__': z, '__p__': u, 'p__': v}
e2 = {'__s__': x, '_t_': y, '__p__': u, 'p__': v}
e3 = {'__d__': z, '__p__': u}
e4 = {}
""", vars=CV)
