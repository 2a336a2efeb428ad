"""C18: sklearn estimators tell their parameters, and the ones that do not change what they learn are not part of ids."""
import ast
import json
import os
from .common import *

SK = 'whatami/wrappers/what_sklearn.py:'
IMP = "import whatami.wrappers.what_sklearn as sk\nfrom whatami import What, whatareyou, obj2what, what2id, whatamize_object, whatable\n"
V = dict(x='int', y='int', z='int', n='str', m='str', k='str')


def scenario(name):
    def f(I, args, kw, node):
        g = I.o(I.scenario_frame).vars.get(name)
        return NotImplemented if g is None else I.call(g, list(args), list(kw), node, I.scenario_frame)
    return f


def importer(I, name):
    g = I.o(I.scenario_frame).vars.get('fake_module')
    if g is None:
        return None
    v = I.call(g, [C(name)], [], None, I.scenario_frame)
    return None if v == NONE else v


def sob(key, code, ref, anchor='_what_for_sklearn', **kw):
    kw.setdefault('vars', V)
    kw.setdefault('rec', 4)
    ob('C18', key, SK + anchor, IMP + code, ref, importer=importer, **kw)


EST = """
class Base(object):
    def get_params(self, deep=True):
        if deep:
            return {'deep': 'yes', 'a': self.a, 'b': self.b}
        return {'a': self.a, 'b': self.b, 'n_jobs': self.n_jobs}
class K(Base):
    def __init__(self, a, b=3, n_jobs=1):
        self.a = a
        self.b = b
        self.n_jobs = n_jobs
        self.fitted_ = 7
        self._p = 8
class Sub(K):
    pass
class Bare(object):
    def __init__(self, a, n_jobs=1):
        self.a = a
        self.n_jobs = n_jobs
        self._p = 8
        self.fitted_ = 7
class Broken(object):
    def __init__(self, a, n_jobs=1):
        self.a = a
        self.n_jobs = n_jobs
    def get_params(self, deep=True):
        return self.not_there
"""
LOOK = "w = sk._what_for_sklearn(%s)\nr = (w.name, w.conf, w.non_id_keys, w.out_name)"
for key, declare, arg, due in (
        ('undeclared', '', 'K(x, y)', "('K', P, set(), None)"),
        ('undeclared-long', '', 'K(x, y), False', "('K', P, set(), None)"),
        ('declared', "sk._a(K, n, ('n_jobs',))", 'K(x, y)', "(n, P, set(['n_jobs']), None)"),
        ('declared-long', "sk._a(K, n, ('n_jobs',))", 'K(x, y), use_short=False', "('K', P, set(['n_jobs']), None)"),
        ('declared-short', "sk._a(K, n, ('n_jobs',))", 'K(x, y), True', "(n, P, set(['n_jobs']), None)"),
        ('declared-other', "sk._a(Sub, n, ('n_jobs',))", 'K(x, y)', "('K', P, set(), None)"),
        ('declared-base', "sk._a(K, n, ('n_jobs',))", 'Sub(x, y)', "('Sub', P, set(), None)"),
        ('declared-both', "sk._a(K, n, ('n_jobs',))\nsk._a(Sub, m, ('b',))", 'Sub(x, y)', "(m, P, set(['b']), None)"),
        ('unnamed', "sk._a(K)", 'K(x, y)', "('K', P, set(), None)"),
        ('unnamed-none', "sk._a(K, None, ('b', 'n_jobs'))", 'K(x, y)', "('K', P, set(['b', 'n_jobs']), None)"),
        ('non-ids-not-there', "sk._a(K, n, ['verbose', 'b'])", 'K(x, y)', "(n, P, set(['b', 'verbose']), None)"),
        ('non-ids-set', "sk._a(K, n, set(['b']), 'notes')", 'K(x, y)', "(n, P, set(['b']), None)"),
        ('twice', "sk._a(K, n, ('n_jobs',))\nsk._a(K, m, ('b',))", 'K(x, y)', "(m, P, set(['b']), None)"),
        ('empty-name', "sk._a(K, '', ())", 'K(x, y)', "('', P, set(), None)")):
    sob('params-' + key, EST + declare + '\n' + LOOK % arg, "P = {'a': x, 'b': y, 'n_jobs': 1}\ne = " + due)
for key, declare, arg, due in (
        ('undeclared', '', 'Bare(x, y)', "('Bare', P, set(), None)"),
        ('declared', "sk._a(Bare, n, ('n_jobs',))", 'Bare(x, y)', "(n, P, set(['n_jobs']), None)"),
        ('declared-long', "sk._a(Bare, n, ('n_jobs',))", 'Bare(x, y), False', "('Bare', P, set(['n_jobs']), None)"),
        ('undeclared-long', '', 'Bare(x, y), use_short=False', "('Bare', P, set(), None)"),
        ('unnamed', "sk._a(Bare, None, ('a',))", 'Bare(x, y)', "('Bare', P, set(['a']), None)"),
        ('broken', "sk._a(Broken, n, ('n_jobs',))", 'Broken(x, y)', "(n, P, set(['n_jobs']), None)")):
    sob('attributes-' + key, EST + declare + '\n' + LOOK % arg, "P = {'a': x, 'n_jobs': y}\ne = " + due)
sob('attributes-whatable', EST + "class W(Bare):\n    def what(self):\n        return What(k, {})\nsk._a(W, n, ('n_jobs',))\n" + LOOK % "W(x, y)", "e = (n, {'a': x, 'n_jobs': y}, set(['n_jobs']), None)")

# --- the ids
ID = EST + "sk._a(K, n, ('n_jobs',))\nwhatamize_object(Base, sk._what_for_sklearn)\n"
sob('id', ID + "r = [what2id(K(x, y, z)), K(x, y, z).what().id(), obj2what(K(x, y, z)).id(), K(x, y).what().id(nonids_too=True)]",
    "i = What(n, {'a': x, 'b': y}).id()\ne = [i, i, i, What(n, {'a': x, 'b': y, 'n_jobs': 1}).id()]")
sob('id-nested', ID + "v = Sub(K(x, y, z), [K(y), ('step', K(z, x, y))], z)\nr = what2id(v)\nr2 = v.what().conf['a'] is v.a",
    "e = What('Sub', {'a': What(n, {'a': x, 'b': y}), 'b': [What(n, {'a': y, 'b': 3}), ('step', What(n, {'a': z, 'b': x}))], 'n_jobs': z}).id()\ne2 = True")
sob('id-inside', ID + "r = What(m, {'e': K(x, y, z)}).id()", "e = What(m, {'e': What(n, {'a': x, 'b': y})}).id()")
sob('id-now', ID + "v = K(x, y)\np = v.what()\nv.a = z\nr = (p.conf, v.what().conf, what2id(v))", "e = ({'a': x, 'b': y, 'n_jobs': 1}, {'a': z, 'b': y, 'n_jobs': 1}, What(n, {'a': z, 'b': y}).id())")
sob('id-later', EST + "whatamize_object(Base, sk._what_for_sklearn)\nv = K(x, y, z)\np = what2id(v)\nsk._a(K, n, ('n_jobs', 'b'))\nr = (p, what2id(v))", "e = (What('K', {'a': x, 'b': y, 'n_jobs': z}).id(), What(n, {'a': x}).id())")

# --- declarations
sob('declare', EST + "sk._a(K, n, ('n_jobs',), m)\ni = sk._SKLRegistry['K']\nr = (i.object is K, i.short_name, i.non_id_params, i.notes)", "e = (True, n, ('n_jobs',), m)", '_a')
sob('declare-defaults', EST + "sk._a(K)\ni = sk._SKLRegistry['K']\nr = (i.object is K, i.short_name, i.non_id_params, i.notes, i.group, i.extra)", "e = (True, 'K', (), None, None, None)", '_a')
sob('declare-once', EST + "sk._a(K, n, override=False)\ntry:\n    sk._a(K, m, override=False)\n    r = 'twice'\nexcept Exception:\n    r = sk._SKLRegistry['K'].short_name", "e = n", '_a')
sob('declare-again', EST + "sk._a(K, n)\nsk._a(K, m, override=True)\nsk._a(Sub, k, override=False)\nr = [sk._SKLRegistry[c].short_name for c in ('K', 'Sub')]", "e = [m, k]", '_a')
sob('declare-info', "class Z(object):\n    pass\ni = sk._ObjectParametersMeta(Z, None, ('b',), n, m, k)\nj = sk._ObjectParametersMeta(Z, short_name=n, extra=x, group=y)\nr = [(o.object is Z, o.short_name, o.non_id_params, o.notes, o.group, o.extra) for o in (i, j)]",
    "e = [(True, 'Z', ('b',), n, m, k), (True, n, (), None, y, x)]", '_ObjectParametersMeta.__init__')

# --- which declarations: the ones for the version of sklearn that is there, or the ones for the supported version before it
PICK = UNMODELLED + """
class Version(Unmodelled):
    def __init__(self, text):
        self.key = tuple([int(p) for p in text.split('.')])
    def __lt__(self, other):
        return self.key < other.key
    def __le__(self, other):
        return self.key <= other.key
    def __gt__(self, other):
        return self.key > other.key
    def __ge__(self, other):
        return self.key >= other.key
    def __eq__(self, other):
        return self.key == other.key
    def __ne__(self, other):
        return self.key != other.key
class Lib(object):
    __version__ = %r
def fake_module(name):
    return Lib if name == 'sklearn' else None
done = []
def declare_old():
    done.append('old')
def declare_new():
    done.append('new')
sk._declare_id_nonid_attributes()
r = done
"""
PICKERS = {('whatami.wrappers.what_sklearn', '_declare0dot15dot1'): scenario('declare_old'),
           ('whatami.wrappers.what_sklearn', '_declare0dot19dot1'): scenario('declare_new'),
           ('distutils.version', 'StrictVersion'): scenario('Version'), ('distutils.version', 'LooseVersion'): scenario('Version')}
for version, due in (('0.15.1', 'old'), ('0.19.1', 'new'), ('0.19.2', 'new'), ('0.20.4', 'new'), ('0.20', 'new'), ('0.19.0', 'old'), ('0.17.1', 'old'),
                     ('0.16', 'old'), ('0.15.2', 'old'), ('0.15.0', 'old'), ('0.14.1', 'old'), ('0.19.11', 'new'), ('0.100.1', 'new'), ('1.0.2', 'new')):
    sob('version-' + version, PICK % version, "e = [%r]" % due, '_declare_id_nonid_attributes', opaque=PICKERS)

# --- the tables
with open(os.path.join(os.path.dirname(__file__), 'sklearn_params.json')) as f:
    PARAMS = json.load(f)       # of the estimators of sklearn 0.20.4: the ones that say how to work, not what to learn
for table, version in (('_declare0dot15dot1', '0.15'), ('_declare0dot19dot1', '0.19')):
    T_ = "sk.%s()\nd = sk._SKLRegistry\n" % table
    sob('table-%s-names' % version, T_ + "s = [i.short_name for i in d.values()]\nr = (len(set(s)) == len(s), [c for c in d if d[c].short_name != c and d[c].short_name in d])", "e = (True, [])", table)
    sob('table-%s-classes' % version, T_ + "r = [c for c in d if d[c].object.__name__ != c]", "e = []", table)
    sob('table-%s-non-ids' % version, T_ + "r = [c for c in d if isinstance(d[c].non_id_params, str) or [p for p in d[c].non_id_params if not isinstance(p, str)]]", "e = []", table)
    sob('table-%s-texts' % version, T_ + "r = [c for c in d if not isinstance(d[c].short_name, str) or not d[c].short_name]", "e = []", table)
sob('table-0.19-execution', "sk._declare0dot19dot1()\nd = sk._SKLRegistry\nP = %r\nr = [(c, p) for c in P if c in d for p in P[c] if p not in d[c].non_id_params]" % PARAMS['execution'], "e = []", '_declare0dot19dot1')
sob('table-0.19-learnt', "sk._declare0dot19dot1()\nd = sk._SKLRegistry\nP = %r\nr = [(c, p) for c in P if c in d for p in d[c].non_id_params if p in P[c]]" % PARAMS['learning'], "e = []", '_declare0dot19dot1')
sob('table-0.19-declared', "sk._declare0dot19dot1()\nd = sk._SKLRegistry\nr = [c for c in %r if c not in d]" % PARAMS['declared'], "e = []", '_declare0dot19dot1')

# the same of sklearn 0.15 (whose author holds that outlier_label does not change the model)
sob('table-0.15-execution', "sk._declare0dot15dot1()\nd = sk._SKLRegistry\nP = %r\nr = [(c, p) for c in P if c in d for p in P[c] if p not in d[c].non_id_params]" % PARAMS['execution 0.15'], "e = []", '_declare0dot15dot1')
sob('table-0.15-learnt', "sk._declare0dot15dot1()\nd = sk._SKLRegistry\nP = %r\nr = [(c, p) for c in P if c in d for p in d[c].non_id_params if p in P[c] and p != 'outlier_label']" % PARAMS['learning'], "e = []", '_declare0dot15dot1')
sob('table-0.15-declared', "sk._declare0dot15dot1()\nd = sk._SKLRegistry\nr = [c for c in %r if c not in d]" % PARAMS['declared 0.15'], "e = []", '_declare0dot15dot1')

# --- what gets what()
PATCH = """
class Base(object):
    def __init__(self, a):
        self.a = a
    def get_params(self, deep=True):
        return {'a': self.a}
class Kernel(Base):
    pass
class Splitter(object):
    def __init__(self, a):
        self.a = a
class Shuffler(Splitter):
    pass
class Repeated(object):
    def __init__(self, a):
        self.a = a
class Own(Base):
    def what(self):
        return What('own', {})
class Mod(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)
MODS = {'sklearn': Mod(__version__='0.19.1'), 'sklearn.base': Mod(BaseEstimator=Base), 'sklearn.gaussian_process.kernels': Mod(Kernel=Kernel),
        'sklearn.model_selection': Mod(BaseCrossValidator=Splitter), 'sklearn.model_selection._split': Mod(BaseShuffleSplit=Shuffler, _RepeatedSplits=Repeated)}
def fake_module(name):
    return MODS.get(name)
def fake_import(name, package=None):
    if name not in MODS:
        raise ImportError(name)
    return MODS[name]
sk.BaseEstimator = Base
declared = []
def declare():
    declared.append(1)
"""
PATCHERS = {('importlib', 'import_module'): scenario('fake_import'), ('whatami.wrappers.what_sklearn', '_declare_id_nonid_attributes'): scenario('declare')}


def pob(key, code, ref, **kw):
    sob(key, PATCH + code, ref, kw.pop('anchor', 'whatamize_sklearn'), opaque=PATCHERS, **kw)


ALL = "ws = [v.what() for v in (Base(x), Kernel(y), Splitter(z), Shuffler(x), Repeated(y))]\nr = [(w.name, w.conf) for w in ws]"
DUE = "e = [('Base', {'a': x}), ('Kernel', {'a': y}), ('Splitter', {'a': z}), ('Shuffler', {'a': x}), ('Repeated', {'a': y})]"
pob('patch', "sk.whatamize_sklearn()\n" + ALL + "\nr2 = declared", DUE + "\ne2 = [1]")
pob('patch-twice', "sk.whatamize_sklearn()\nsk.whatamize_sklearn()\n" + ALL, DUE)
pob('patch-declared', "sk._a(Base, n, ('a',))\nsk.whatamize_sklearn()\nw = Base(x).what()\nr = (w.name, w.conf, w.non_id_keys, w.id())", "e = (n, {'a': x}, set(['a']), What(n, {}).id())")
pob('patch-existing', "v = Base(x)\nsk.whatamize_sklearn()\nclass New(Kernel):\n    pass\nr = [v.what().id(), New(y).what().id(), what2id(Splitter(z))]", "e = [What('Base', {'a': x}).id(), What('New', {'a': y}).id(), What('Splitter', {'a': z}).id()]")
pob('patch-own', "sk.whatamize_sklearn()\nr = [Own(x).what().id(), what2id(Own(x))]", "e = ['own()', 'own()']")
pob('patch-kept', "def mine(self):\n    return What('mine', {})\nKernel.what = mine\nRepeated.what = mine\nsk.whatamize_sklearn()\nr = [v.what().id() for v in (Base(x), Kernel(y), Repeated(z))]",
    "e = [What('Base', {'a': x}).id(), 'mine()', 'mine()']")
for gone, due in (('sklearn.gaussian_process.kernels', [1, 1, 1, 1, 1]), ('sklearn.model_selection', [1, 1, 0, 1, 1]), ('sklearn.model_selection._split', [1, 1, 1, 1, 0])):
    pob('patch-without-' + gone.rpartition('.')[2], "del MODS[%r]\nsk.whatamize_sklearn()\nr = [hasattr(v, 'what') for v in (Base(x), Kernel(y), Splitter(z), Shuffler(x), Repeated(y))]" % gone,
        "e = %r" % ([bool(d) for d in due],))
pob('patch-kept-base', "def mine(self):\n    return What('mine', {})\nBase.what = mine\nsk.whatamize_sklearn()\nr = [v.what().id() for v in (Base(x), Kernel(y), Splitter(z))]",
    "e = ['mine()', 'mine()', What('Splitter', {'a': z}).id()]")
