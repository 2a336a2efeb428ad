"""C17: optional libraries are imported when they are there and complain only when used; packages are imported whole."""
from .common import *

MI = 'whatami/misc.py:'
WU = 'whatami/whatutils.py:'
IMP = "from whatami.misc import maybe_import, maybe_import_member, import_submodules\nfrom whatami import whatamize_object, What\n"


def fake(name):
    """A function of the standard library, replaced by one of the scenario."""
    def f(I, args, kw, node):
        fr = I.scenario_frame
        g = I.o(fr).vars.get(name)
        if g is None:
            return NotImplemented
        return I.call(g, list(args), list(kw), node, fr)
    return f


def dunder(I, args, kw, node):
    raise Undecided('__import__')


FAKES = {('importlib', 'import_module'): fake('fake_import'), ('pkgutil', 'iter_modules'): fake('fake_iter'),
         ('pkgutil', 'walk_packages'): fake('fake_walk'), ('builtins', '__import__'): dunder,
         ('importlib', '__import__'): dunder}


def iob(key, anchor, code, ref, **kw):
    kw.setdefault('rec', 4)
    ob('C17', key, anchor, kw.pop('pre', PRE) + IMP + code, ref, opaque=FAKES, **kw)


# --- maybe_import: some names can be imported, others cannot
PRE = """
tried = []
class Mod(object):
    def __init__(self, name):
        self.__name__ = name
        self.member = ('member', name)
        self.what = ('what', name)
HERE = {}
def fake_import(name, package=None):
    tried.append(name)
    if not can(name):
        raise ImportError('cannot %s' % name)
    if name not in HERE:
        HERE[name] = Mod(name)
    return HERE[name]
"""
CAN = "def can(name):\n    return {'a': fa, 'b': fb, 'c': fc, 'd': fd}[name]\n"
F = dict(fa='bool', fb='bool', fc='bool', fd='bool')
SAY = """
def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except ImportError:
        return 'ImportError'
    except ValueError:
        return 'ValueError'
"""
for key, args, order in (('alone', "'a'", 'a'), ('alone-hint', "'a', 'conda'", 'a'), ('alone-named', "'a', install_msg='do it'", 'a'),
                         ('variant', "'a', 'pip', 'b'", 'b'), ('variant-same', "'a', None, 'a'", 'a'),
                         ('two', "'a', None, 'b', 'c'", 'bc'), ('two-self', "'a', 'conda', 'b', 'a'", 'ba'),
                         ('three', "'a', 'x', 'd', 'c', 'b'", 'dcb')):
    iob('maybe-' + key, MI + 'maybe_import', CAN + SAY + """
m = maybe_import(%s)
r1 = attempt(getattr, m, 'member')
r2 = attempt(lambda: m.__name__)
r3 = attempt(lambda: m.what)
""" % args, """
first = None
for n in %r:
    if can(n):
        first = n
        break
if first is None:
    e1, e2, e3 = 'ImportError', 'ImportError', 'ImportError'
else:
    e1, e2, e3 = ('member', first), first, ('what', first)
""" % order, vars=F)
    iob('maybe-is-' + key, MI + 'maybe_import', CAN + "m = maybe_import(%s)\nr = any(m is HERE.get(n) for n in 'abcd')\nr2 = maybe_import(%s) is m or not r" % (args, args),
        "e = any(can(n) for n in %r)\ne2 = True" % order, vars=F)
# a name is not imported once a variant before it works, nor the name of the library when there are variants
for key, args, order in (('alone', "'a'", 'a'), ('variants', "'a', None, 'b', 'c'", 'bc'), ('three', "'a', None, 'c', 'b', 'd'", 'cbd')):
    iob('maybe-tried-' + key, MI + 'maybe_import', CAN + "m = maybe_import(%s)\nr = set(tried)" % args, """
e = set()
for n in %r:
    e.add(n)
    if can(n):
        break
""" % order, vars=F)
# any name
iob('maybe-any', MI + 'maybe_import', "def can(name):\n    return name == x or name == y\nr = maybe_import(lib, None, v1, v2).__name__",
    "e = v1 if can(v1) else v2", vars=dict(lib='str', v1='str', v2='str', x='str', y='str'), facts=[(App('eq', S('v2'), S('x')), True)])
iob('maybe-any-alone', MI + 'maybe_import', "def can(name):\n    return True\nm = maybe_import(lib)\nr = (m.__name__, m.member)", "e = (lib, ('member', lib))", vars=dict(lib='str'))
# what it says
NO = "def can(name):\n    return False\n"
TELL = """
def message(m, name):
    try:
        getattr(m, name)
    except ImportError as e:
        return str(e)
    return ''
"""
for key, args, parts in (
        ('library', "'cool'", ('cool', 'thing')),
        ('variants', "'cool', None, 'cooler', 'fresh'", ('cool', 'thing', 'cooler', 'fresh', 'cannot cooler', 'cannot fresh')),
        ('conda', "'cool', 'conda', 'frio', 'fresco'", ('cool', 'thing', 'conda install frio')),
        ('pip', "'cool', 'pip', 'frio', 'fresco'", ('cool', 'thing', 'pip install frio')),
        ('conda-alone', "'cool', 'conda'", ('conda install cool', 'thing')),
        ('pip-alone', "'cool', install_msg='pip'", ('pip install cool', 'cannot cool')),
        ('hint', "'cool', 'sudo apt-get cool'", ('cool', 'thing', 'sudo apt-get cool')),
        ('hint-variants', "'cool', 'ask your admin', 'frio', 'fresco'", ('cool', 'thing', 'ask your admin', 'cannot frio', 'cannot fresco'))):
    iob('says-' + key, MI + '_LazyImportError.__getattribute__', NO + TELL + "s = message(maybe_import(%s), 'thing')\nr = [p in s for p in %r]" % (args, parts),
        "e = %r" % ([True] * len(parts),))
iob('says-no-hint', MI + '_LazyImportError.__getattribute__', NO + TELL + "s = message(maybe_import('cool', None, 'frio'), 'thing')\nr = 'install' in s", "e = False")
iob('every-use', MI + '_LazyImportError.__getattribute__', NO + SAY + "m = maybe_import('cool')\nr = [attempt(getattr, m, n) for n in ('x', 'what', '__name__', '__dict__', '__path__', 'ndarray')]",
    "e = ['ImportError'] * 6")
iob('any-attribute', MI + '_LazyImportError.__getattribute__', NO + SAY + "m = maybe_import('cool')\nr = attempt(getattr, m, n)", "e = 'ImportError'",
    vars=dict(n='str'), facts=[(App('eq', S('n'), C(s)), False) for s in ('_library_name', '_install_msg', '_errors', '_maybe_import', 'module', '_variants')])
iob('again', MI + '_LazyImportError.__getattribute__', NO + SAY + "m = maybe_import('cool')\nr = [attempt(getattr, m, 'x'), attempt(getattr, m, 'x'), attempt(hasattr, m, 'x')]",
    "e = ['ImportError'] * 3")
iob('independent', MI + 'maybe_import', "def can(name):\n    return name == 'b'\n" + SAY + "m = maybe_import('a')\nn = maybe_import('b')\nr = [attempt(getattr, m, 'member'), attempt(getattr, n, 'member')]",
    "e = ['ImportError', ('member', 'b')]")
iob('later', MI + 'maybe_import', "ok = []\ndef can(name):\n    return bool(ok)\n" + SAY + "m = maybe_import('a')\nok.append(1)\nn = maybe_import('a')\nr = attempt(getattr, n, 'member')",
    "e = ('member', 'a')")
# errors that are not of import are not hidden
PRE_BAD = """
class Broken(Exception):
    pass
def fake_import(name, package=None):
    raise Broken()
"""
iob('broken', MI + 'maybe_import', "try:\n    maybe_import('a', None, 'b')\n    r = 'hidden'\nexcept Broken:\n    r = 'raised'\n", "e = 'raised'", pre=PRE_BAD)

# --- maybe_import_member
WORLD = """
tried = []
class Mod(object):
    def __init__(self, name, **members):
        self.__name__ = name
        for k in members:
            setattr(self, k, members[k])
class K(object):
    pass
HERE = {'m': Mod('m', K=K, z=z), 'm.n': Mod('m.n', K='other', q=0), 'v': Mod('v', K='variant')}
def fake_import(name, package=None):
    tried.append(name)
    if name not in HERE or not up:
        raise ImportError(name)
    return HERE[name]
"""
Z = dict(z='any', up='bool')
for key, args, val, fails in (
        ('class', "'m.K'", 'K', True), ('any', "'m.z'", 'z', True), ('nested', "'m.n.K'", "'other'", True), ('falsy', "'m.n.q'", '0', True),
        ('class-quiet', "'m.K', False", 'K', False), ('any-quiet', "'m.z', fail_if_import_error=False", 'z', False),
        ('missing', "'nope.K'", None, True), ('missing-deep', "'i.made.this.UP', fail_if_import_error=True", None, True),
        ('missing-quiet', "'nope.K', False", None, False), ('missing-hint', "'nope.K', True, 'conda'", None, True),
        ('missing-deep-quiet', "'i.made.this.UP', fail_if_import_error=False", None, False),
        ('variant', "'lib.K', True, None, 'v'", "'variant'", True), ('variant-second', "'lib.K', False, 'pip', 'nope', 'v', 'm'", "'variant'", False),
        ('variant-none', "'m.K', False, None, 'nope'", None, False), ('variant-raises', "'m.K', True, None, 'nope'", None, True)):
    iob('member-' + key, MI + 'maybe_import_member', SAY + "r = attempt(maybe_import_member, %s)" % args,
        "e = %s if up else %s" % (val or ("'ImportError'" if fails else 'None'), "'ImportError'" if fails else 'None'), pre=WORLD, vars=Z)
iob('member-bare', MI + 'maybe_import_member', SAY + "r = [attempt(maybe_import_member, 'K'), attempt(maybe_import_member, 'K', False), attempt(maybe_import_member, '', True)]\nr2 = tried",
    "e = ['ValueError'] * 3\ne2 = []", pre=WORLD, vars=Z)
iob('member-fqn', MI + 'maybe_import_member', "r = maybe_import_member(mod + '.' + name)", "e = ('member of', mod, name)",
    pre="def fake_import(name, package=None):\n    class M(object):\n        def __getattribute__(self, k):\n            return ('member of', name, k)\n    return M()\n",
    vars=dict(mod='str', name='str'), facts=[(App('in', C('.'), S('name')), False), (App('truthy', S('mod')), True), (App('eq', S('name'), C('n')), False)])

# --- whatamize_object by name
for key, fqn, kw, ok in (('plain', 'm.P', '', True), ('nested', 'm.n.P', ', True', True), ('quiet', 'm.P', ', False', True),
                         ('missing', 'nope.P', '', False), ('missing-quiet', 'nope.P', ', fail_on_import_error=False', None),
                         ('missing-positional', 'nope.x.P', ', False, True', None), ('missing-force', 'nope.P', ', force=True', False)):
    iob('whatamize-' + key, WU + 'whatamize_object', """
class P(object):
    pass
HERE['m'].P = P
HERE['m.n'].P = P
def wf(self):
    return What('P', {})
""" + SAY + "r1 = attempt(whatamize_object, %r, wf%s)\nr2 = 'yes' if P.__dict__.get('what') is wf else 'no'\nr3 = hasattr(K, 'what')" % (fqn, kw),
        "e1 = %s\ne2 = %s\ne3 = False" % (
            "None if up else %s" % ("None" if kw == ', False' else "'ImportError'") if ok else "'ImportError'" if ok is False else 'None',
            "'yes' if up else 'no'" if ok else "'no'"), pre=WORLD, vars=Z)
iob('whatamize-members', WU + 'whatamize_object', """
class P(object):
    def what(self):
        return What('own', {})
HERE['m'].P = P
own = P.__dict__['what']
def wf(self):
    return What('P', {})
whatamize_object('m.P', wf)
r1 = P.__dict__['what'] is own
whatamize_object('m.P', wf, force=True)
r2 = P.__dict__['what'] is wf
""", "e1 = True\ne2 = True", pre=WORLD.replace(' or not up', ''), vars=dict(z='any'))

# --- import_submodules: a tree of packages and modules, any of which may fail to import
TREE = """
class Info(object):
    def __init__(self, module_finder, name, ispkg):
        self.module_finder = module_finder
        self.name = name
        self.ispkg = ispkg
    def __iter__(self):
        return iter((self.module_finder, self.name, self.ispkg))
    def __getitem__(self, i):
        return (self.module_finder, self.name, self.ispkg)[i]
TREE = %r
class Mod(object):
    def __init__(self, name):
        self.__name__ = name
        self.__file__ = name + '.py'
        if name in TREE:
            self.__path__ = [name]
            self.__file__ = name + '/__init__.py'
LOADED = {}
def fake_import(name, package=None):
    if name not in KNOWN:
        raise ImportError(name)
    parent = name.rpartition('.')[0]
    if parent:
        fake_import(parent)
    if name in FAILS and FAILS[name]:
        raise ImportError(name)
    if name not in LOADED:
        LOADED[name] = Mod(name)
    return LOADED[name]
def fake_iter(path=None, prefix=''):
    out = []
    for p in path:
        for n in TREE[p]:
            out.append(Info(None, prefix + n, (p + '.' + n) in TREE))
    return out
def fake_walk(path=None, prefix='', onerror=None):
    out = []
    for info in fake_iter(path, prefix):
        out.append(info)
        if info.ispkg:
            try:
                m = fake_import(info.name)
            except ImportError:
                if onerror is not None:
                    onerror(info.name)
            else:
                out.extend(fake_walk(m.__path__, info.name + '.', onerror))
    return out
KNOWN = ['p', 'lone']
for k in TREE:
    for n in TREE[k]:
        KNOWN.append(k + '.' + n)
"""
SPEC = """
def spec(top, recurse, quiet):
    out = {}
    def load(name):
        try:
            out[name] = fake_import(name)
            return True
        except ImportError:
            if not quiet:
                raise
            return False
    def go(name, deep):
        if not load(name):
            return
        for n in TREE.get(name, ()):
            full = name + '.' + n
            if deep and full in TREE:
                go(full, True)
            else:
                load(full)
    go(top, recurse)
    return out
"""
FLAT = {'p': ['a', 'b']}
DEEP = {'p': ['a', 'b', 'c'], 'p.b': ['x', 'y'], 'p.b.y': ['z'], 'p.c': []}
for key, tree, fails in (('flat', FLAT, {}), ('flat-fail', FLAT, {'p.a': 'f1', 'p.b': 'f2'}), ('deep', DEEP, {}),
                         ('deep-fail-package', DEEP, {'p.b': 'f1', 'p.a': 'f2'}), ('deep-fail-leaf', DEEP, {'p.b.x': 'f1', 'p.b.y': 'f2'}),
                         ('deep-fail-inner', DEEP, {'p.b.y.z': 'f1', 'p.c': 'f2'}), ('top-fail', FLAT, {'p': 'f1', 'p.a': 'f2'})):
    pre = TREE % (tree,) + 'FAILS = {%s}\n' % ', '.join('%r: %s' % i for i in fails.items())
    for okey, opts, recurse, quiet in (('', '', True, True), ('-strict', ', ignore_errors=False', True, False), ('-shallow', ', recurse_packages=False', False, True),
                                       ('-shallow-strict', ', False, False', False, False), ('-positional', ', True, True', True, True)):
        iob('submodules-' + key + okey, MI + 'import_submodules', SAY + "r = attempt(import_submodules, 'p'%s)" % opts,
            SPEC + "\ntry:\n    e = spec('p', %s, %s)\nexcept ImportError:\n    e = 'ImportError'\n" % (recurse, quiet),
            pre=pre, vars=dict(f1='bool', f2='bool'))
for okey, opts, quiet in (('', '', True), ('-strict', ', ignore_errors=False', False)):
    iob('submodules-shallow-keys' + okey, MI + 'import_submodules', "r = sorted(import_submodules('p', recurse_packages=False%s))" % opts,
        "e = ['p', 'p.a', 'p.b', 'p.c']", pre=TREE % (DEEP,) + 'FAILS = {}\n')
    iob('submodules-given' + okey, MI + 'import_submodules', "m = fake_import('p')\nr = import_submodules(m%s)" % opts, SPEC + "e = spec('p', True, %s)" % quiet,
        pre=TREE % (DEEP,) + 'FAILS = {}\n')
    iob('submodules-named-same' + okey, MI + 'import_submodules', "r = import_submodules('p'%s)['p.b.x'] is fake_import('p.b.x')" % opts, "e = True",
        pre=TREE % (DEEP,) + 'FAILS = {}\n')
    iob('submodules-subpackage' + okey, MI + 'import_submodules', "r = import_submodules('p.b'%s)" % opts, SPEC + "e = spec('p.b', True, %s)" % quiet,
        pre=TREE % (DEEP,) + 'FAILS = {}\n')
    iob('submodules-missing' + okey, MI + 'import_submodules', SAY + "r = attempt(import_submodules, 'q'%s)" % opts, "e = %s" % ('{}' if quiet else "'ImportError'"),
        pre=TREE % (DEEP,) + 'FAILS = {}\n')

# --- without numpy, pandas and toolz everything else is described the same
PL = 'whatami/plugins.py:'
WITHOUT = """
def fake_import(name, package=None):
    raise ImportError(name)
import whatami.plugins as P
from whatami import What, whatareyou, whatable, obj2what, what2id
from functools import partial
M = P.WhatamiPluginManager
"""
HAVE = [(App('isinstance', Ext(m), Ext('types.ModuleType')), True) for m in ('numpy', 'pandas')]
for lib in ('np', 'pd', 'both'):
    names = ['np', 'pd'] if lib == 'both' else [lib]
    without = ''.join("%s_there = P.%s\nP.%s = maybe_import(%r, 'conda')\n" % (n, n, n, {'np': 'numpy', 'pd': 'pandas'}[n]) for n in names)
    again = ''.join('P.%s = %s_there\n' % (n, n) for n in names)
    iob('without-%s-has' % lib, PL + 'has_numpy', without + "r = [P.has_numpy(), P.has_pandas()]", "e = [%s, %s]" % ('np' not in names, 'pd' not in names), pre=WITHOUT, writes_ok=True, facts=HAVE)
    for key, expr, vs in (('int', 'x', dict(x='int')), ('float', 'x', dict(x='float')), ('none', 'None', {}), ('text', 'x', dict(x='str')), ('bool', 'x', dict(x='bool')),
                          ('list', '[x, y, [x]]', dict(x='int', y='str')), ('tuple', '(x, y)', dict(x='int', y='str')), ('dict', '{x: y}', dict(x='int', y='str')),
                          ('set', '{x}', dict(x='str')), ('what', "What('C', {'a': x, 'b': [y]})", dict(x='int', y='str')),
                          ('function', 'f', dict(x='int')), ('partial', 'partial(f, a=x)', dict(x='int')), ('object', 'K()', {}), ('class', 'int', {})):
        code = "def f(a=1, b='2'):\n    return a\nclass K(object):\n    def __repr__(self):\n        return 'k'\n"
        iob('without-%s-%s' % (lib, key), PL + 'WhatamiPluginManager.build_string', without + code + 'r = M.build_string(%s)' % expr,
            again + 'e = M.build_string(%s)' % expr, pre=WITHOUT, writes_ok=True, facts=HAVE, vars=vs)
iob('every-dunder', MI + '_LazyImportError.__getattribute__', NO + SAY + "m = maybe_import('cool')\nr = [attempt(getattr, m, k) for k in ('__version__', '__doc__', '__file__', '__all__', '__spec__', '__dict__', '__path__', '__module__')]\nr2 = [attempt(lambda: m.__version__), attempt(lambda: m.__doc__), attempt(lambda: m._private), attempt(getattr, m, 'x', 3), attempt(hasattr, m, '__version__')]",
    "e = ['ImportError'] * 8\ne2 = ['ImportError'] * 5")
# what is not in a module that can be imported is an error of attribute, failing or not
MISS = "def attempt2(f, *a):\n    try:\n        return attempt(f, *a)\n    except AttributeError:\n        return 'AttributeError'\n"
for key, args in (('', "'m.nope'"), ('-quiet', "'m.nope', False"), ('-variant', "'lib.q', True, None, 'nope', 'v'"), ('-variant-quiet', "'lib.q', False, 'pip', 'v', 'm'")):
    iob('member-absent' + key, MI + 'maybe_import_member', SAY + MISS + "r = attempt2(maybe_import_member, %s)" % args, "e = 'AttributeError'", pre=WORLD.replace(' or not up', ''), vars=Z)
for key, args in (('', ''), ('-quiet', ', False'), ('-force', ', False, True')):
    iob('whatamize-absent' + key, WU + 'whatamize_object', SAY + MISS + "def wf(self):\n    return 3\nr = attempt2(whatamize_object, 'm.nope', wf%s)\nr2 = hasattr(HERE['m'], 'what')" % args, "e = 'AttributeError'\ne2 = False", pre=WORLD.replace(' or not up', ''), vars=Z)
