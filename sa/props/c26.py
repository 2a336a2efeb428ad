"""C26: whatable and whatamize_object add a what and nothing else, and never over one that is not theirs; is_whatable is total."""
from .common import *

A = 'whatami/what.py:'
U = 'whatami/whatutils.py:'
V = dict(x=None, y=None, z=None, n='str', c='dict', k='set', o='str', f='bool')
IMP = "from whatami import What, whatable, is_whatable, whatareyou, whatamize_object\n"
# --- is_whatable
DUCK = IMP + """
class K(object):
    def __init__(self):
        self.a = x
%s
v = K()
"""
for key, body, due in (
        ('duck', '    def what(self):\n        return What(n, c, k, o)', 'True'),
        ('inherited', '    pass\nclass B(K):\n    def what(self):\n        return What(n, c)\nclass K(B):\n    pass', 'True'),
        ('what-subclass', '    def what(self):\n        class W(What):\n            pass\n        return W(n, c)', 'True'),
        ('static', '    @staticmethod\n    def what():\n        return What(n, c)', 'False'),
        ('attribute', '    what = 3', 'False'), ('none', '    what = None', 'False'), ('text', "    what = 'what'", 'False'),
        ('data', '    what = x', 'False'),
        ('other', '    def what(self):\n        return x', 'False'), ('dict', '    def what(self):\n        return c', 'False'),
        ('nothing', '    def what(self):\n        pass', 'False'), ('id', '    def what(self):\n        return What(n, c).name', 'False'),
        ('class-returned', '    def what(self):\n        return What', 'False'),
        ('argument', '    def what(self, q):\n        return What(n, c)', 'False'),
        ('no-self', '    def what():\n        return What(n, c)', 'False'),
        ('default', '    def what(self, q=1):\n        return What(n, c)', 'True'),
        ('raises', '    def what(self):\n        raise ValueError(n)', 'False'),
        ('raises-key', '    def what(self):\n        return {}[n]', 'False'),
        ('raises-attribute', '    def what(self):\n        return self.missing', 'False'),
        ('property-raises', '    @property\n    def what(self):\n        raise ValueError(n)', 'False'),
        ('property', '    @property\n    def what(self):\n        return x', 'False'),
        ('absent', '    def other(self):\n        return What(n, c)', 'False'),
        ('getattr', '    def __getattr__(self, q):\n        raise AttributeError(q)', 'False')):
    ob('C26', 'is-' + key, A + 'is_whatable', DUCK % body + "r1 = is_whatable(v)\nr2 = is_whatable(v) is %s\nr3 = is_whatable(K)\n" % due,
       "e1 = %s\ne2 = True\ne3 = False\n" % due, vars=V, facts=[(has('x', 'what'), False), (has('x', '__self__'), False),
                                                      (has('x', 'whatami'), False)], setup=not_what('x'))
for key, v in (('none', 'None'), ('int', '3'), ('text', 'n'), ('list', '[x]'), ('tuple', '(x, y)'), ('dict', 'c'), ('set', 'k'),
               ('type', 'int'), ('function', 'lambda q=1: q'), ('object', 'object()'), ('what-class', 'What'), ('module-function', 'whatareyou'),
               ('what', 'What(n, c)')):
    ob('C26', 'is-not-' + key, A + 'is_whatable', IMP + "v = %s\nr1 = is_whatable(v)\n" % v, "e1 = False\n", vars=V)
ob('C26', 'is-not-object', A + 'is_whatable', IMP + "r1 = is_whatable(x)\n", "e1 = False\n", vars=V, facts=[(has('x', 'what'), False)])
# --- what becomes whatable
CLS = IMP + '''
class K(object):
    """Documented."""
    shared = y
    def __init__(self):
        self.a = x
    def m(self):
        return self.a
def wf(self):
    return What(n, c, k, o)
'''
LOOK = """
r1 = is_whatable(v)
r2 = v.a
r3 = v.m()
r4 = v.shared
r5 = sorted(q for q in vars(K) if not q.startswith('__'))
r6 = v.what().name
r7 = v.what().conf
r8 = sorted(q for q in vars(v))
r11 = K.__doc__
r12 = K.__name__
r13 = v.what().out_name
r14 = type(v) is K
"""
for key, code, ks, vs in (('class', 'K2 = whatable(K)\nv = K()\nr9 = K2 is K\nr10 = is_whatable(K)\n', "['m', 'shared', 'what']", "['a']"),
                          ('decorator', 'K2 = whatable(add_slots=f)(K)\nv = K()\nr9 = K2 is K\nr10 = is_whatable(K)\n', "['m', 'shared', 'what']", "['a']"),
                          ('object', 'v = K()\nv2 = whatable(v)\nr9 = v2 is v\nr10 = not is_whatable(K)\n', "['m', 'shared']", "['a', 'what']"),
                          ('object-decorator', 'v = K()\nv2 = whatable(add_slots=f)(v)\nr9 = v2 is v\nr10 = not is_whatable(K)\n', "['m', 'shared']", "['a', 'what']"),
                          ('twice', 'K2 = whatable(whatable(K))\nv = K()\nr9 = K2 is K\nr10 = is_whatable(K)\n', "['m', 'shared', 'what']", "['a']"),
                          ('instance-of-whatable', 'whatable(K)\nv = K()\nv2 = whatable(v)\nr9 = v2 is v\nr10 = is_whatable(K)\n', "['m', 'shared', 'what']", "['a', 'what']")):
    ob('C26', 'makes-' + key, A + 'whatable', CLS + code + LOOK,
       "e1 = True\ne2 = x\ne3 = x\ne4 = y\ne5 = %s\ne6 = 'K'\ne7 = {'a': x}\ne8 = %s\ne9 = True\ne10 = True\ne11 = 'Documented.'\ne12 = 'K'\ne13 = None\ne14 = True\n" % (ks, vs), vars=V, writes_ok=True)
for key, code in (('class', 'whatable(K, whatfunc=wf)\nv = K()\n'), ('decorator', 'whatable(whatfunc=wf)(K)\nv = K()\n'),
                  ('object', 'v = whatable(K(), whatfunc=wf)\n'), ('object-decorator', 'v = whatable(whatfunc=wf)(K())\n'),
                  ('positional', 'v = whatable(K(), wf)\n')):
    ob('C26', 'given-' + key, A + 'whatable', CLS + code + "q = v.what()\nr1 = is_whatable(v)\nr2 = q.name\nr3 = q.conf\nr4 = q.non_id_keys\nr5 = q.out_name\nr6 = v.a\nr7 = is_whatable(K)\n",
       "e7 = %r\ne1 = True\ne2 = n\ne3 = c\ne4 = k\ne5 = o\ne6 = x\n" % (key in ('class', 'decorator')), vars=V, writes_ok=True)
ob('C26', 'independent', A + 'whatable', CLS + """
v = whatable(K())
w = K()
r1 = is_whatable(w)
r2 = is_whatable(K)
class D(K):
    pass
whatable(D)
r3 = is_whatable(K)
r4 = is_whatable(K())
r5 = is_whatable(D())
class E(D):
    def __init__(self):
        D.__init__(self)
        self.e = z
r6 = E().what().name
r7 = E().what().conf
""", "e1 = False\ne2 = False\ne3 = False\ne4 = False\ne5 = True\ne6 = 'E'\ne7 = {'a': x, 'e': z}\n", vars=V, writes_ok=True)
# --- what is not ours is left alone
FOREIGN = IMP + """
class K(object):
    def __init__(self):
        self.a = x
    def what(self%s):
        %s
v = K()
before = K.what
"""
TRY = """
try:
    %s
    r1 = 'no error'
except Exception:
    r1 = 'refused'
r2 = K.what is before
r3 = sorted(q for q in vars(v))
r4 = sorted(q for q in vars(K) if not q.startswith('__'))
r5 = hasattr(K.what, 'whatami')
r6 = v.a
"""
for bkey, arg, body in (('data', '', 'return y'), ('argument', ', q', 'return What(n, c)'), ('raises', '', 'raise ValueError(n)')):
    for key, code in (('class', 'whatable(K)'), ('decorator', 'whatable(add_dict=f)(K)'), ('object', 'whatable(v)'),
                      ('object-decorator', 'whatable(add_dict=f)(v)'), ('whatfunc', 'whatable(v, whatfunc=lambda s: What(n, c))'),
                      ('class-whatfunc', 'whatable(K, whatfunc=lambda s: What(n, c))'), ('not-forced', 'whatable(v, force_flag_as_whatami=False)')):
        ob('C26', 'foreign-%s-%s' % (bkey, key), A + 'whatable', FOREIGN % (arg, body) + TRY % code,
           "e1 = 'refused'\ne2 = True\ne3 = ['a']\ne4 = ['what']\ne5 = False\ne6 = x\n", vars=V, writes_ok=True, setup=not_what('y'))
ob('C26', 'foreign-class-duck', A + 'whatable', FOREIGN % ('', 'return What(n, c)') + TRY % 'whatable(K)',
   "e1 = 'refused'\ne2 = True\ne3 = ['a']\ne4 = ['what']\ne5 = False\ne6 = x\n", vars=V, writes_ok=True)
ob('C26', 'foreign-instance-attribute', A + 'whatable', IMP + """
class K(object):
    def __init__(self):
        self.what = x
v = K()
try:
    whatable(v)
    r1 = 'no error'
except Exception:
    r1 = 'refused'
r2 = v.what
""", "e1 = 'refused'\ne2 = x\n", vars=V, writes_ok=True, facts=[(has('x', '__self__'), False), (has('x', 'whatami'), False)])
ob('C26', 'forced', A + 'whatable', FOREIGN % ('', 'return What(n, c)') + """
K2 = whatable(K, force_flag_as_whatami=True)
r1 = K2 is K
r2 = K.what is before
r3 = is_whatable(K)
r4 = v.what().name
r5 = v.what().conf
r6 = sorted(q for q in vars(K) if not q.startswith('__'))
""", "e1 = True\ne2 = True\ne3 = True\ne4 = n\ne5 = c\ne6 = ['what']\n", vars=V, writes_ok=True)
for key, v in (('int', '3'), ('text', 'n'), ('none-list', '[x]'), ('dict', 'c'), ('tuple', '(x,)'), ('set', 'k')):
    ob('C26', 'cannot-' + key, A + 'whatable', IMP + "whatable(%s)\nr = 1\n" % v, "raise Exception('cannot')", vars=V, writes_ok=True)
for key, fn in (('len', 'len'), ('print', 'print'), ('method', '[].append')):
    ob('C26', 'builtin-' + key, A + 'whatable', IMP + "whatable(%s)\nr = 1\n" % fn, "raise TypeError('builtin')", vars=V, writes_ok=True)
ob('C26', 'slots', A + 'whatable', IMP + """
class K(object):
    __slots__ = ('a',)
    def __init__(self):
        self.a = x
v = K()
try:
    whatable(v)
    r1 = 'no error'
except Exception:
    r1 = 'refused'
r2 = v.a
r3 = is_whatable(v)
whatable(K)
r4 = is_whatable(v)
r5 = v.what().conf
""", "e1 = 'refused'\ne2 = x\ne3 = False\ne4 = True\ne5 = {'a': x}\n", vars=V, writes_ok=True)
# --- whatamize_object
MO = {('whatami.misc', 'maybe_import'): make_opaque('module')}
for key, body, force, replaced in (('plain', 'pass', '', True), ('forced-plain', 'pass', ', force=True', True), ('kept', 'def what(self):\n        return y', '', False),
                                   ('kept-off', 'def what(self):\n        return y', ', force=False', False),
                                   ('kept-none', 'what = None', '', False), ('kept-attribute', 'what = z', ', True, False', False),
                                   ('forced', 'def what(self):\n        return y', ', force=True', True),
                                   ('forced-positional', 'what = z', ', f, True', True)):
    ob('C26', 'whatamize-' + key, U + 'whatamize_object', IMP + """
class K(object):
    def m(self):
        return x
    %s
def wf(self):
    return What(n, c)
before = getattr(K, 'what', None)
r0 = whatamize_object(K, wf%s)
r1 = K.what is wf
r2 = K.what is before
r3 = sorted(q for q in vars(K) if not q.startswith('__'))
r4 = K().m()
""" % (body, force), "e0 = None\ne1 = %r\ne2 = %r\ne3 = ['m', 'what']\ne4 = x\n" % (replaced, not replaced), vars=V, writes_ok=True)
ob('C26', 'whatamize-inherited', U + 'whatamize_object', IMP + """
class B(object):
    def what(self):
        return y
class K(B):
    pass
def wf(self):
    return What(n, c)
whatamize_object(K, wf)
r1 = K().what()
r2 = sorted(q for q in vars(K) if not q.startswith('__'))
whatamize_object(K, wf, force=True)
r3 = K().what().name
r4 = B().what()
r5 = sorted(q for q in vars(K) if not q.startswith('__'))
""", "e1 = y\ne2 = []\ne3 = n\ne4 = y\ne5 = ['what']\n", vars=V, writes_ok=True)
