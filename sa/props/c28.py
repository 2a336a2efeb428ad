"""C28: what objects tell of themselves goes before what can be found looking at them."""
from .common import *

U = 'whatami/whatutils.py:'
M = 'whatami/misc.py:'
V = dict(x='int', y='int', z='int', n='str', m='str', o='str', k='str', t='str')
IMP = "from whatami import What, whatable, whatareyou, obj2what, what2id, FunctionLike\nfrom functools import partial\n"


def wob(key, code, ref, anchor='what2id', **kw):
    kw.setdefault('vars', V)
    a = U + anchor if ':' not in anchor else anchor
    ob('C28', key, a, IMP + code, ref, rec=kw.pop('rec', 4), **kw)


# --- what2id
wob('id-none', "r = what2id(None)", "e = None")
wob('id-text', "r = what2id(t)", "e = t")
wob('id-text-subclass', "class S(str):\n    def what(self):\n        return What(n, {})\ns = S('abc')\nr = what2id(s) is s", "e = True")
wob('id-what', "r = what2id(What(n, {'a': x, 'b': y}, ['b'], o))", "e = What(n, {'a': x}, out_name=o).id()")
BODIES = dict(what='    def what(self):\n        return What(n, {"w": x, "v": y}, ["v"], o)\n',
              id='    def id(self):\n        return t\n',
              classwhat='    @classmethod\n    def what(cls):\n        return What(n, {"w": x})\n',
              classid='    @classmethod\n    def id(cls):\n        return t\n',
              staticid='    @staticmethod\n    def id():\n        return t\n',
              ducked='    def what(self):\n        class D(object):\n            def id(self):\n                return k\n        return D()\n',
              textwhat='    def what(self):\n        return t\n',
              datawhat='    what = 3\n', dataid='    id = 7\n', noneid='    id = None\n', nonewhat='    what = None\n',
              raising='    def what(self):\n        raise ValueError(n)\n',
              raisingid='    def id(self):\n        raise KeyError(n)\n',
              propid='    @property\n    def id(self):\n        return y\n')
CLS = "class K(object):\n    def __init__(self):\n        self.a = z\n%s"
WHATID, ID, LOOK = "What(n, {'w': x}, out_name=o).id()", 't', "What('K', {'a': z}).id()"
for key, bodies, due in (
        ('what', 'what', WHATID), ('id', 'id', ID), ('both', 'what id', WHATID), ('both-swapped', 'id what', WHATID),
        ('neither', '', LOOK), ('classwhat', 'classwhat', "What(n, {'w': x}).id()"), ('classid', 'classid', ID), ('staticid', 'staticid', ID),
        ('ducked', 'ducked', 'k'), ('ducked-id', 'ducked id', 'k'),
        ('text', 'textwhat', LOOK), ('text-id', 'textwhat id', ID),
        ('data-what', 'datawhat', LOOK), ('data-id', 'dataid', LOOK), ('none-id', 'noneid', LOOK), ('none-what', 'nonewhat id', ID),
        ('data-both', 'datawhat dataid', LOOK), ('data-what-id', 'datawhat id', ID), ('what-data-id', 'what dataid', WHATID)):
    body = ''.join(BODIES[b] for b in bodies.split())
    wob('id-of-' + key, CLS % body + "v = K()\nr = what2id(v)\nr2 = what2id(v)", "e = %s\ne2 = e" % due)
    wob('id-of-inherited-' + key, CLS % body + "class J(K):\n    pass\nr = what2id(J())", "e = %s" % due.replace("'K'", "'J'"))
wob('id-of-prop', CLS % BODIES['propid'] + "r = what2id(K())", "e = What('K', {'a': z, 'id': y}).id()")
wob('id-raises', CLS % BODIES['raising'] + "try:\n    what2id(K())\n    r = 'hidden'\nexcept ValueError:\n    r = 'raised'", "e = 'raised'")
wob('id-raises-id', CLS % BODIES['raisingid'] + "try:\n    what2id(K())\n    r = 'hidden'\nexcept KeyError:\n    r = 'raised'", "e = 'raised'")
wob('id-whatable', "@whatable\nclass K(object):\n    def __init__(self):\n        self.a = x\n@whatable\ndef f(q=1):\n    return q\nr = what2id(K())\nr2 = what2id(f)\nr3 = what2id(whatable(partial(f, q=y)))",
    "e = What('K', {'a': x}).id()\ne2 = 'f(q=1)'\ne3 = What('f', {'q': y}).id()")
wob('id-function', "def f(a, b=1):\n    return a\nr = what2id(f)\nr2 = what2id(partial(f, b=x))\nr3 = what2id(partial(f, x))\nr4 = what2id(lambda p=3: p)",
    "e = 'f(b=1)'\ne2 = What('f', {'b': x}).id()\ne3 = What('f', {'a': x, 'b': 1}).id()\ne4 = 'lambda(p=3)'")
wob('id-class', "class K(object):\n%sclass J(object):\n%sclass P(object):\n    pass\n@whatable\nclass W(object):\n    pass\nr = [what2id(c) for c in (K, J, P, W, int)]" % (BODIES['what'], BODIES['id']),
    "e = [whatareyou(c).id() for c in (K, J, P, W, int)]")
wob('id-class-own', "class K(object):\n%sclass J(object):\n%sr = [what2id(c) for c in (K, J)]" % (BODIES['classwhat'], BODIES['classid']), "e = [What(n, {'w': x}).id(), t]")
for key, v in (('list', '[x, t]'), ('empty', '[]'), ('dict', '{k: x}'), ('tuple', '(x,)')):
    wob('id-' + key, "r = what2id(%s)" % v, "e = whatareyou(%s).id()" % v)
wob('id-now', CLS % '    def what(self):\n        return What(n, {"a": self.a})\n' + "v = K()\np = what2id(v)\nv.a = y\nr = (p, what2id(v))", "e = (What(n, {'a': z}).id(), What(n, {'a': y}).id())")

# --- obj2what
wob('what-same', "W = What(n, {'a': x}, ['a'], o)\nclass K(object):\n    def what(self):\n        return W\nr = obj2what(K()) is W\nr2 = obj2what(K(), name_override=m, non_id_keys=['q'], excludes=('a',)) is W", "e = True\ne2 = True", 'obj2what')
wob('what-forced', CLS % BODIES['what'] + "w = obj2what(K(), force_inspect=True)\nr = (w.name, w.conf, w.non_id_keys, w.out_name)\nw = obj2what(K(), True, m, ['a'])\nr2 = (w.name, w.conf, w.non_id_keys, w.out_name)",
    "e = ('K', {'a': z}, set(), None)\ne2 = (m, {'a': z}, set(['a']), None)", 'obj2what')
OPTS = CLS % """        self._p = x
        self.q_ = y
    @property
    def r(self):
        return x
""" + """
class S(K):
    __slots__ = 's'
    def __init__(self):
        super(S, self).__init__()
        self.s = y
v = S()
"""
for key, opts in (('plain', ''), ('name', 'name_override=m'), ('non-ids', 'non_id_keys=["a"]'), ('no-dict', 'add_dict=False'), ('no-slots', 'add_slots=False'),
                  ('no-props', 'add_properties=False'), ('prefix', 'exclude_prefix=None'), ('postfix', 'exclude_postfix=None'), ('excludes', 'excludes=("a",)'),
                  ('prefix-a', 'exclude_prefix="a"'), ('postfix-p', 'exclude_postfix="p"'), ('no-excludes', 'excludes=()'),
                  ('several', 'name_override=m, non_id_keys=("a", "s"), add_properties=False, exclude_prefix="", excludes=["s"]')):
    wob('what-' + key, OPTS + "w = obj2what(v%s)\nr = (w.name, w.conf, w.non_id_keys, w.out_name)" % (opts and ', ' + opts),
        "w = whatareyou(v%s)\ne = (w.name, w.conf, w.non_id_keys, w.out_name)" % (opts and ', ' + opts), 'obj2what')
wob('what-positional', OPTS + "w = obj2what(v, False, m, ['a'], True, False, False, 'p', 'q', ('s',))\nr = (w.name, w.conf, w.non_id_keys)",
    "w = whatareyou(v, m, ['a'], True, False, False, False, 'p', 'q', ('s',))\ne = (w.name, w.conf, w.non_id_keys)", 'obj2what')
wob('what-function', "def f(a, b=1, c=2):\n    return a\nr = [(w.name, w.conf) for w in (obj2what(f), obj2what(partial(f, b=x)), obj2what(f, excludes=('b',)), obj2what(whatable(f)), obj2what(f, name_override=m))]",
    "e = [('f', {'b': 1, 'c': 2}), ('f', {'b': x, 'c': 2}), ('f', {'c': 2}), ('f', {'b': 1, 'c': 2}), (m, {'b': 1, 'c': 2})]", 'obj2what')
wob('what-class', "class K(object):\n%s@whatable\nclass W(object):\n    pass\nr = [obj2what(c).id() for c in (K, W)]" % BODIES['what'], "e = [whatareyou(c).id() for c in (K, W)]", 'obj2what')
wob('what-class-own', "class K(object):\n%sr = obj2what(K) == What(n, {'w': x})" % BODIES['classwhat'], "e = True", 'obj2what')
for key, body in (('text', BODIES['textwhat']), ('raising', BODIES['raising']), ('data', BODIES['datawhat'])):
    wob('what-not-whatable-' + key, CLS % body + "w = obj2what(K())\nr = (w.name, w.conf)", "e = ('K', {'a': z})", 'obj2what')

# --- objects like functions
FL = """
class F(FunctionLike):
    def __init__(self, a, b):
        self.a = a
        self.b = b
        self._c = 1
        self.d_ = 2
    def __call__(self):
        return self.a
class G(F):
    @property
    def p(self):
        return self.a
    @property
    def _q(self):
        return 0
class H(F):
    __slots__ = ('s',)
    def __init__(self):
        super(H, self).__init__(x, x)
        self.s = z
"""
wob('like-what', FL + "v = F(x, y)\nw = v.what()\nr = (w.name, w.conf, w.non_id_keys, w.out_name, v.__name__, v())", "e = ('F', {'a': x, 'b': y}, set(), None, 'F', x)", 'FunctionLike.what')
wob('like-inside', "class O(object):\n    class Inner(FunctionLike):\n        def __init__(self):\n            self.a = x\ndef make():\n    class Local(O.Inner):\n        pass\n    return Local()\nr = [(o.__name__, o.what().name, o.what().conf) for o in (O.Inner(), make())]", "e = [('Inner', 'Inner', {'a': x}), ('Local', 'Local', {'a': x})]", 'FunctionLike.what')
wob('like-sub', FL + "r = [(o.what().name, o.what().conf, o.__name__) for o in (G(x, y), H())]", "e = [('G', {'a': x, 'b': y, 'p': x}, 'G'), ('H', {'a': x, 'b': x, 's': z}, 'H')]", 'FunctionLike.what')
wob('like-now', FL + "v = G(x, y)\nw = v.what()\nv.a = z\nv.new = t\nr = (w.conf, v.what().conf)", "e = ({'a': x, 'b': y, 'p': x}, {'a': z, 'b': y, 'p': z, 'new': t})", 'FunctionLike.what')
wob('like-values', FL + "v = F(len, None)\nv.g = what2id\nv.c = F\nv.e = []\nv.f = False\nr = v.what().conf", "e = {'a': len, 'b': None, 'g': what2id, 'c': F, 'e': [], 'f': False}", 'FunctionLike.what')
wob('like-id', FL + "v = F(x, [y])\nr = [what2id(v), obj2what(v).id(), What('C', {'f': v}).id(), v.what().id()]",
    "i = What('F', {'a': x, 'b': [y]}).id()\ne = [i, i, What('C', {'f': What('F', {'a': x, 'b': [y]})}).id(), i]", 'FunctionLike.what')

# --- descriptions of experiments
class_ = CLS % BODIES['what']
NOW = {('datetime', 'datetime.now'): lambda I, args, kw, node: App('now')}
EXP = class_ + "from whatami.misc import mlexp_info_helper\n"
wob('experiment', EXP + "d = mlexp_info_helper(t, data_setup=K(), model_setup=k, eval_setup=None, comments=m, itime=lambda: o)\nr = [(i, d[i]) for i in d if i not in ('date', 'host')]\nr2 = list(d)",
    "e = [('title', t), ('data_setup', What(n, {'w': x}, out_name=o).id()), ('model_setup', k), ('eval_setup', None), ('fsource', None), ('idate', o), ('comments', m)]\n"
    "e2 = ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments']", M + 'mlexp_info_helper')
wob('experiment-default', EXP + "d = mlexp_info_helper(t)\nr = [(i, d[i]) for i in d if i not in ('date', 'host')]",
    "e = [('title', t)] + [(i, None) for i in ('data_setup', 'model_setup', 'eval_setup', 'fsource', 'idate', 'comments')]", M + 'mlexp_info_helper')
wob('experiment-positional', EXP + "d = mlexp_info_helper(t, k, K(), What(m, {}), None, n, lambda: 'then')\nr = [d[i] for i in ('data_setup', 'model_setup', 'eval_setup', 'comments', 'idate')]",
    "e = [k, What(n, {'w': x}, out_name=o).id(), What(m, {}).id(), n, 'then']", M + 'mlexp_info_helper')
wob('experiment-source', EXP + "import inspect\ndef f():\n    return 1\nd = mlexp_info_helper(t, exp_function=f)\nr = d['fsource']", "e = inspect.getsourcelines(f)", M + 'mlexp_info_helper')
# whatever is wrong in what is told is not hidden
for key, err in (('type', 'TypeError'), ('key', 'KeyError'), ('index', 'IndexError'), ('not', 'NotImplementedError'), ('runtime', 'RuntimeError'), ('zero', 'ZeroDivisionError')):
    for name, body in (('what', 'def what(self):\n        raise %s(n)'), ('id', 'def id(self):\n        raise %s(n)'), ('inner', "def what(self):\n        class D(object):\n            def id(self):\n                raise %s(n)\n        return D()")):
        wob('id-raises-%s-%s' % (name, key), CLS % ('    ' + body % err + '\n') + "try:\n    what2id(K())\n    r = 'hidden'\nexcept %s as problem:\n    r = problem.args" % err, "e = (n,)")
wob('id-given', "class K(object):\n    def __init__(self, v):\n        self.v = v\n    def id(self):\n        return self.v\nr = [what2id(K(v)) for v in (x, None, '', 0, (x, t), 1.5, False)]\nl = [x]\nr2 = what2id(K(l)) is l",
    "e = [x, None, '', 0, (x, t), 1.5, False]\ne2 = True")
for key, args, due in (('', '', {'a': 'x'}), ('-none', ', excludes=()', {'a': 'x', 'what': 'y'}), ('-list', ", excludes=['a']", {'what': 'y'}), ('-both', ", excludes=('a', 'what')", {})):
    wob('what-data' + key, "class K(object):\n    def __init__(self):\n        self.a = x\n        self.what = y\nr = obj2what(K()%s).conf" % args,
        "e = {%s}" % ', '.join('%r: %s' % i for i in due.items()), 'obj2what')
    wob('what-data-forced' + key, "class K(object):\n    def __init__(self):\n        self.a = x\n        self.what = [y]\nr = sorted(obj2what(K(), force_inspect=True%s).conf)" % args,
        "e = %r" % sorted(due), 'obj2what')
