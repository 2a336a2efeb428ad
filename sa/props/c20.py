"""C20: hashes depend on all there is in a value and on nothing else."""
from .common import *
from .c18 import importer, scenario

HA = 'whatami/minijoblib/hashing.py:'
PL = 'whatami/plugins.py:'
IMP = "from whatami.minijoblib.hashing import hasher, Hasher, NumpyHasher\n"
V = dict(x='int', y='int', z='int', w='int', n='str', m='str', k='str')
LOADED = App('in', C('numpy'), Ext('sys.modules'))

# numpy: arrays of four elements at most, told by their elements in the order of their indices and how they lie in memory
NP = UNMODELLED + """
class dtype(Unmodelled):
    def __init__(self, name, hasobject=False):
        fields = [tuple(f.split(':')) for f in name.split()] if ':' in name else None
        self.name = name if fields is None else 'void'
        self.hasobject = hasobject
        self.descr = [('', name)] if fields is None else fields
        self.str = name if fields is None else '|V%d' % len(name)
        self.names = None if fields is None else tuple([f[0] for f in fields])
        self.token = [name]
        self.spec = name
        self.kind = 'V' if fields is not None else name[:1]
        self.itemsize = 8 if '8' in name else 4
        self.fields = None if fields is None else dict([(f[0], (f[1], 0)) for f in fields])
        self.shape = ()
        self.isnative = True
    def __eq__(self, other):
        return self.spec == other.spec
    def reduced(self):
        return (dtype, (self.spec,), None)
class Flags(Unmodelled):
    def __init__(self, c, f):
        self.c_contiguous = self.contiguous = self.C_CONTIGUOUS = c
        self.f_contiguous = self.F_CONTIGUOUS = f
        self.fnc = f and not c
        self.forc = f or c
        self.writeable = True
    def __getitem__(self, k):
        return getattr(self, {'C_CONTIGUOUS': 'c_contiguous', 'C': 'c_contiguous', 'F_CONTIGUOUS': 'f_contiguous', 'F': 'f_contiguous'}[k])
class Address(object):
    pass
def cells(a):
    return [('cell', Address() if a.dtype.hasobject else e) for e in a.elems]
class Raw(object):
    def __init__(self, cells):
        self.cells = cells
def swap(elems, shape):
    if len(shape) < 2 or not len(elems):
        return elems
    at, step = [0], 1
    for n in reversed(shape):
        at = [o + i * step for o in at for i in range(n)]
        step = step * n
    return tuple([elems[o] for o in at])
class ndarray(Unmodelled):
    def __init__(self, elems, shape=None, dt='i8', order='C'):
        self.elems = tuple(elems)
        self.shape = (len(self.elems),) if shape is None else shape
        self.dtype = dtype(dt, dt == 'O') if isinstance(dt, str) else dt
        self.order = order
        self.ndim = len(self.shape)
        self.size = len(self.elems)
        self.base = None
        flat = self.size == 0 or len([n for n in self.shape if n != 1]) < 2
        self.flags = Flags(order == 'C' or flat and order != 'N', order == 'F' or flat and order != 'N')
        self.itemsize = 8 if '8' in self.dtype.name else 4
        self.nbytes = self.size * self.itemsize
    @property
    def strides(self):
        i = self.itemsize * (2 if self.order == 'N' else 1)
        out = []
        for n in (self.shape if self.order == 'F' else reversed(self.shape)):
            out.append(i)
            i = i * n
        return tuple(out if self.order == 'F' else reversed(out))
    @property
    def T(self):
        return type(self)(swap(self.elems, self.shape), tuple(reversed(self.shape)), self.dtype, {'C': 'F', 'F': 'C', 'N': 'N'}[self.order])
    def transpose(self):
        return self.T
    def flatten(self, order='C'):
        if order == 'K':
            order = 'F' if self.order == 'F' else 'C'
        if order == 'A':
            order = 'F' if self.flags.f_contiguous and not self.flags.c_contiguous else 'C'
        return ndarray(self.elems if order == 'C' else swap(self.elems, self.shape), None, self.dtype)
    def ravel(self, order='C'):
        return self.flatten(order)
    def reshape(self, *shape):
        return ndarray(self.elems, None if shape in ((-1,), ((-1,),)) else shape[0] if isinstance(shape[0], tuple) else shape, self.dtype)
    def copy(self, order='C'):
        return type(self)(self.elems, self.shape, self.dtype, 'F' if order in 'KA' and self.order == 'F' or order == 'F' else 'C')
    def view(self, what):
        if what is uint8:
            if self.ndim == 0 or not self.flags.c_contiguous:
                raise ValueError('cannot be seen as bytes')
            return Raw(cells(self))
        return what(self.elems, self.shape, self.dtype, self.order)
    def tobytes(self, order='C'):
        return cells(self.flatten(order))
    def reduced(self):
        return (type(self), (self.elems, self.shape, self.dtype), None)
class memmap(ndarray):
    pass
class matrix(ndarray):
    pass
class uint8(object):
    pass
class Np(Unmodelled):
    def __getattr__(self, name):
        if name in ('getbuffer', 'newbuffer', 'float128', 'int_asbuffer'):
            raise AttributeError(name)
        undecidable__(name)
np = Np()
np.ndarray, np.memmap, np.dtype, np.uint8 = ndarray, memmap, dtype, uint8
def ascontiguousarray(a):
    return a if a.flags.c_contiguous and a.ndim else ndarray(a.elems, a.shape or (1,), a.dtype)
np.ascontiguousarray = ascontiguousarray
np.asarray = np.asanyarray = lambda a: a
def fake_module(name):
    return np if name == 'numpy' else None
def buffer(a):
    if isinstance(a, Raw):
        return a.cells
    if isinstance(a, ndarray):
        if not a.flags.c_contiguous:
            raise ValueError('not contiguous')
        return cells(a)
    return a
"""


def hob(key, code, ref, anchor='hasher', loaded=True, pre=NP, **kw):
    kw.setdefault('vars', V)
    kw.setdefault('rec', 12)
    ob('C20', key, (HA if ':' not in anchor else '') + anchor, pre + IMP + code, ref, importer=importer, facts=[(LOADED, loaded)] + list(kw.pop('facts', ())),
       opaque={('builtins', 'memoryview'): scenario('buffer')}, **kw)


def pairs(prefix, table, expect, anchor, **kw):
    """Hashes of pairs of values, that are to be the same exactly when the condition holds."""
    for key, a, b in table:
        hob('%s-%s' % (prefix, key), "r = hasher(%s) == hasher(%s)" % (a, b), "e = %s" % expect, anchor, **kw)


A22 = 'ndarray((x, y, z, w), (2, 2)%s)'
SAME_ = [('array', 'ndarray((x, y))', 'ndarray((x, y))'), ('array-0d', 'ndarray((x,), ())', 'ndarray((x,), ())'), ('array-2d', A22 % '', A22 % ''),
         ('array-empty', 'ndarray(())', 'ndarray(())'),
         ('array-fortran', A22 % ", order='F'", A22 % ", order='F'"), ('array-strided', A22 % ", order='N'", A22 % ", order='N'"),
         ('array-3d', 'ndarray((x, y, z, w), (2, 1, 2))', 'ndarray((x, y, z, w), (2, 1, 2))'), ('array-3d-fortran', "ndarray((x, y, z, w), (2, 1, 2), order='F')", "ndarray((x, y, z, w), (2, 1, 2), order='F')"),
         ('array-object', "ndarray((x, 'a'), dt='O')", "ndarray((x, 'a'), dt='O')"), ('dtype', "dtype('f8')", "dtype('f8')"),
         ('list', '[x, [y], n]', '[x, [y], n]'), ('tuple', '(x, (y, n), ())', '(x, (y, n), ())'),
         ('dict', "{'a': x, 'b': y, 'c': n}", "{'c': n, 'b': y, 'a': x}"), ('dict-ints', '{1: x, 2: y}', '{2: y, 1: x}'),
         ('dict-mixed', "{1: x, 'a': y}", "{'a': y, 1: x}"), ('dict-inside', "[{'a': {'b': x, 'c': y}}]", "[{'a': {'c': y, 'b': x}}]"),
         ('set', "set(['a', 'b', 'c'])", "set(['c', 'b', 'a'])"), ('set-mixed', "set([1, 'b', None])", "set([None, 'b', 1])"), ('set-mixed-two', "set([1, 'b'])", "set(['b', 1])"), ('set-mixed-three', "set([1, 2, 'b'])", "set(['b', 2, 1])"), ('dict-mixed-three', "{1: x, 2: y, 'b': z}", "{'b': z, 2: y, 1: x}"), ('builtin', 'len', 'len'), ('builtin-list', '[abs]', '[abs]'),
         ('array-fields', "ndarray((x, y), dt='a:i4 b:i4')", "ndarray((x, y), dt='a:i4 b:i4')"), ('dict-mixed-two', "{1: x, None: y}", "{None: y, 1: x}"), ('frozenset', "frozenset(['a', 'b'])", "frozenset(['b', 'a'])"),
         ('set-alike', "set([1, '1'])", "set(['1', 1])"), ('dict-alike', "{1: x, '1': y}", "{'1': y, 1: x}"), ('set-sets', "set([frozenset([1]), frozenset([2])])", "set([frozenset([2]), frozenset([1])])"), ('dict-sets', "{frozenset([1]): x, frozenset([2]): y}", "{frozenset([2]): y, frozenset([1]): x}"), ('dict-sets-three', "{frozenset([1]): x, frozenset([1, 2]): y, frozenset([3]): z}", "{frozenset([3]): z, frozenset([1, 2]): y, frozenset([1]): x}"),
         ('dict-nan', "{float('nan'): x, 1.5: y}", "{1.5: y, float('nan'): x}"),
         ('arrays', '[ndarray((x,)), ndarray((y,))]', '[ndarray((x,)), ndarray((y,))]'),
         ('arrays-dict', "{'a': ndarray((x,)), 'b': A(y, ndarray((z,)))}", "{'b': A(y, ndarray((z,))), 'a': ndarray((x,))}"),
         ('object', 'A(x, [y])', 'A(x, [y])'), ('text', '[n, n]', '[n, n + ""]'), ('text-const', "['aa', 'aa']", "['aa', 'aaZ'[:2]]"), ('method', 'A(x, y).get', 'A(x, y).get'),
         ('class', '[A, B]', '[A, B]'), ('function', '[f]', '[f]'), ('none', 'None', 'None')]
OBJ = """
class A(object):
    def __init__(self, a, b):
        self.a = a
        self.b = b
    def get(self):
        return self.a
    def other(self):
        return self.a
class B(A):
    pass
def f():
    return 1
def g():
    return 2
"""
for key, a, b in SAME_:
    hob('same-' + key, OBJ + "r = hasher(%s) == hasher(%s)" % (a, b), "e = True")
    if 'array' not in key and 'dtype' not in key:
        hob('same-no-numpy-' + key, OBJ + "r = hasher(%s) == hasher(%s)" % (a, b), "e = True", loaded=False)
NP_DIFF = [('array-long', 'ndarray((1,) * 5000 + (2,))', 'ndarray((1,) * 5000 + (3,))'), ('array-long-inside', 'ndarray((1,) * 2500 + (2,) + (1,) * 2500)', 'ndarray((1,) * 2500 + (3,) + (1,) * 2500)'), ('element', 'ndarray((x, 1))', 'ndarray((x, 2))'), ('dtype', "ndarray((x, y), dt='i8')", "ndarray((x, y), dt='f8')"),
           ('dtype-sign', "ndarray((x, y), dt='i8')", "ndarray((x, y), dt='u8')"), ('dtype-0d', "ndarray((x,), (), dt='i8')", "ndarray((x,), (), dt='f8')"),
           ('shape', 'ndarray((x, y))', 'ndarray((x, y), (1, 2))'), ('shape-0d', 'ndarray((x,), ())', 'ndarray((x,))'), ('shape-turned', 'ndarray((x, y), (1, 2))', 'ndarray((x, y), (2, 1))'),
           ('shape-empty', 'ndarray((), (0,))', 'ndarray((), (0, 3))'), ('shape-empty-columns', 'ndarray((), (5, 0))', 'ndarray((), (6, 0))'), ('shape-empty-turned', 'ndarray((), (0, 2))', 'ndarray((), (2, 0))'),
           ('dtype-fields', "ndarray((x, y), dt='a:i4 b:i4')", "ndarray((x, y), dt='a:i4 c:i4')"), ('dtype-fields-kind', "ndarray((x, y), dt='a:i4 b:i4')", "ndarray((x, y), dt='a:i4 b:u4')"),
           ('dtypes-fields', "dtype('a:i4 b:i4')", "dtype('a:i4 c:i4')"),
           ('shape-2d', 'ndarray((x, y, z, w), (2, 2))', 'ndarray((x, y, z, w), (4,))'),
           ('turned', 'ndarray((1, 2, 3, 4), (2, 2))', "ndarray((1, 3, 2, 4), (2, 2), order='F')"),
           ('turned-strided', "ndarray((1, 2, 3, 4), (2, 2), order='N')", "ndarray((1, 3, 2, 4), (2, 2), order='F')"),
           ('turned-3d', 'ndarray((1, 2, 3, 4), (1, 2, 2))', "ndarray((1, 3, 2, 4), (1, 2, 2), order='F')"),
           ('turned-cube', 'ndarray((1, 2, 3, 4, 5, 6, 7, 8), (2, 2, 2))', "ndarray((1, 5, 3, 7, 2, 6, 4, 8), (2, 2, 2), order='F')"),
           ('turned-4d', 'ndarray((1, 2, 3, 4), (2, 1, 1, 2))', "ndarray((1, 3, 2, 4), (2, 1, 1, 2), order='F')"),
           ('shape-3d', 'ndarray((x, y, z, w), (2, 1, 2))', 'ndarray((x, y, z, w), (2, 2, 1))'), ('shape-cube', 'ndarray((x, y, z, w), (1, 2, 2))', 'ndarray((x, y, z, w), (2, 2))'),
           ('fortran-element', "ndarray((1, 2, 3, x), (2, 2), order='F')", "ndarray((2, 1, 3, x), (2, 2), order='F')"),
           ('strided-element', "ndarray((1, 2, 3, x), (2, 2), order='N')", "ndarray((1, 2, 4, x), (2, 2), order='N')"),
           ('element-0d', 'ndarray((1,), ())', 'ndarray((2,), ())'), ('length', 'ndarray((x, y))', 'ndarray((x, y, 0))'),
           ('class', 'ndarray((x, y))', 'matrix((x, y))'), ('class-memmap', 'ndarray((x, y))', 'memmap((x, y))'),
           ('object-element', "ndarray((1, 'a'), dt='O')", "ndarray((1, 'b'), dt='O')"), ('object-shape', "ndarray((1, 'a'), dt='O')", "ndarray((1, 'a'), (2, 1), dt='O')"),
           ('swapped', '[ndarray((1,)), ndarray((2,))]', '[ndarray((2,)), ndarray((1,))]'), ('split', '[ndarray((1, 2)), ndarray((3,))]', '[ndarray((1,)), ndarray((2, 3))]'),
           ('keys', "{'a': ndarray((1,)), 'b': ndarray((2,))}", "{'a': ndarray((2,)), 'b': ndarray((1,))}"), ('array-list', 'ndarray((1, 2))', '[1, 2]'),
           ('inside', 'A(1, ndarray((2,)))', 'A(1, ndarray((3,)))'), ('dtypes', "dtype('i8')", "dtype('f8')"), ('dtypes-list', "[dtype('i8'), 1]", "[dtype('f8'), 1]")]
DIFF_ = [('long-text', "'a' * 70000 + 'b'", "'a' * 70000 + 'c'"), ('long-text-start', "'b' + 'a' * 70000", "'c' + 'a' * 70000"), ('list', '[1, 2]', '[2, 1]'), ('list-tuple', '[1, 2]', '(1, 2)'), ('list-nested', '[1, [2]]', '[[1], 2]'), ('list-set', "['a', 'b']", "set(['a', 'b'])"),
         ('set-frozenset', "set(['a', 'b'])", "frozenset(['a', 'b'])"), ('set', "set(['a', 'b'])", "set(['a', 'c'])"), ('frozenset', "frozenset([1, 2])", "frozenset([1, 3])"),
         ('set-size', "set(['a'])", "set(['a', 'b'])"), ('set-mixed', "set([1, 'a'])", "set([2, 'a'])"), ('set-mixed-text', "set([1, 'a'])", "set(['1', 'a'])"), ('set-mixed-more', "set([1, 'a', None])", "set([1, 'a', 'None'])"),
         ('dict-mixed-text', "{1: 5, 'a': 6}", "{'1': 5, 'a': 6}"), ('dict-mixed-none', "{None: 5, 'a': 6}", "{'None': 5, 'a': 6}"),
         ('builtin', 'len', 'abs'), ('builtin-list', '[len]', '[abs]'), ('set-sets', 'set([frozenset([1]), frozenset([2])])', 'set([frozenset([1]), frozenset([3])])'),
         ('dict-value', "{'a': 1, 'b': 2}", "{'a': 2, 'b': 1}"), ('dict-key', "{'a': x}", "{'b': x}"), ('dict-more', "{'a': x}", "{'a': x, 'b': None}"),
         ('dict-mixed-value', "{1: 5, 'a': 6}", "{1: 6, 'a': 5}"), ('dict-mixed-key', "{1: x, 'a': y}", "{2: x, 'a': y}"),
         ('dict-list', "{'a': 1}", "[('a', 1)]"), ('int-float', '1', '1.0'), ('int-bool', '1', 'True'), ('int-text', '1', "'1'"), ('none-text', 'None', "'None'"), ('text-bytes', "'a'", "b'a'"),
         ('object-attribute', 'A(1, 2)', 'A(1, 3)'), ('object-swap', 'A(1, 2)', 'A(2, 1)'), ('object-class', 'A(x, y)', 'B(x, y)'), ('object-dict', 'A(x, y)', "{'a': x, 'b': y}"),
         ('object-inside', "[A([1], 2)]", "[A([2], 2)]"),
         ('method', 'A(x, y).get', 'A(x, y).other'), ('method-self', 'A(1, 2).get', 'A(1, 3).get'), ('method-class', 'A(x, y).get', 'B(x, y).get'), ('class', 'A', 'B'), ('function', 'f', 'g')]
for key, a, b in NP_DIFF + DIFF_:
    hob('differs-' + key, OBJ + "r = hasher(%s) == hasher(%s)" % (a, b), "e = False")
for key, a, b in DIFF_:
    hob('differs-no-numpy-' + key, OBJ + "r = hasher(%s) == hasher(%s)" % (a, b), "e = False", loaded=False)
# all of the elements count
for key, s in (('1d', '(4,)'), ('2d', '(2, 2)'), ('row', '(1, 4)'), ('3d', '(2, 1, 2)')):
    for order in 'CFN':
        hob('all-%s-%s' % (key, order), "r = hasher(ndarray((x, y, z, w), %s, order='%s')) == hasher(ndarray((1, 2, 3, 4), %s, order='%s'))" % (s, order, s, order), "e = x == 1 and y == 2 and z == 3 and w == 4")
# options
hob('memmap', "r = [hasher(memmap((x, y)), coerce_mmap=c) == hasher(ndarray((x, y)), coerce_mmap=c) for c in (True, False)]\nr2 = hasher(matrix((x, y)), coerce_mmap=True) == hasher(ndarray((x, y)), coerce_mmap=True)",
    "e = [True, False]\ne2 = False")
hob('name', "r = [hasher([x], h)[1] for h in ('md5', 'sha1')]\nr2 = hasher([x])[1]\nr3 = hasher([x], hash_name='sha1') == hasher([x])\nr4 = Hasher('sha1').hash(x)[1]", "e = ['md5', 'sha1']\ne2 = 'md5'\ne3 = False\ne4 = 'sha1'")
# nothing is left from one time to the next
hob('again', OBJ + "v = [x, ndarray((y, z)), {'a': A(n, [])}]\np = hasher(v)\nhasher(ndarray((z, z)))\nq = hasher(v)\nv[0] = w\nr = (p == q, hasher(v) == p, hasher([w, ndarray((y, z)), {'a': A(n, [])}]) == hasher(v))", "e = (True, w == x, True)")
hob('untouched', OBJ + "a = A(x, [y])\nv = [x, {'b': y, 'a': z}, set(['q']), a]\nhasher(v)\nr = (v[:3], list(v[1]), a.__dict__, v[3] is a)", "e = ([x, {'b': y, 'a': z}, set(['q'])], ['b', 'a'], {'a': x, 'b': [y]}, True)")

# --- what the plugins say
PLUG = UNMODELLED + """
class nd(object):
    def __repr__(self):
        return 'nd([1])'
class sub(nd):
    pass
class DF(object):
    def __repr__(self):
        return '   a'
class Ser(object):
    def __repr__(self):
        return '0    a'
class Made(object):
    pass
class Frame2(DF):
    pass
class Nothing(object):
    size, shape, empty, ndim, nbytes = 0, (0,), True, 1, 0
    def __len__(self):
        return 0
class NoRows(Nothing, DF):
    pass
class NoValues(Nothing, Ser):
    pass
class NoItems(Nothing, nd):
    pass
class Lib(Unmodelled):
    pass
lib = Lib()
lib.ndarray, lib.DataFrame, lib.Series = nd, DF, Ser
lib.random = Lib()
lib.random.RandomState = Made
import whatami.plugins as P
from whatami import What
P.np = lib
P.pd = lib
def there():
    return True
def digest(v, hash_name='md5', coerce_mmap=False):
    return '%s-%s' % (hash_name, v.h) if not coerce_mmap else ''
def made(cls, h):
    v = cls()
    v.h = h
    return v
"""
PLUGGED = {('whatami.plugins', 'has_numpy'): scenario('there'), ('whatami.plugins', 'has_pandas'): scenario('there'), ('whatami.minijoblib.hashing', 'hasher'): scenario('digest')}


def lob(key, code, ref, anchor, **kw):
    ob('C20', key, PL + anchor, PLUG + code, ref, vars=V, rec=4, opaque=PLUGGED, **kw)


for key, cls, plugin in (('ndarray', 'nd', 'numpy_plugin'), ('sub', 'sub', 'numpy_plugin'), ('frame', 'DF', 'pandas_plugin'), ('series', 'Ser', 'pandas_plugin'), ('frame-sub', 'Frame2', 'pandas_plugin'), ('frame-empty', 'NoRows', 'pandas_plugin'), ('series-empty', 'NoValues', 'pandas_plugin'), ('ndarray-empty', 'NoItems', 'numpy_plugin')):
    lob('plugin-' + key, "v = made(%s, n)\nr = P.%s(v)\nr2 = What('C', {'p': v}).id()" % (cls, plugin), "e = %s.__name__ + \"(hash='md5-\" + n + \"')\"\ne2 = 'C(p=' + e + ')'" % cls, plugin)
lob('plugin-others', "vs = [x, n, None, [nd()], {'a': DF()}, object(), nd, DF]\nr = [P.numpy_plugin(v) for v in vs + [made(DF, n)]]\nr2 = [P.pandas_plugin(v) for v in vs + [made(nd, n)]]", "e = [None] * 9\ne2 = e", 'numpy_plugin')
# texts met again are told as the first time: equal texts hash the same, be they one object or two
hob('texts-again', "t = hasher([n, n, 'ab', 'ab', b'c', b'c'])[2]\nr = [p for p in t if p[0] == 'GET']", "e = []", 'Hasher.memoize')
hob('texts-again-no-numpy', "t = hasher({'a': ['b', 'b'], 'b': 'a'})[2]\nr = [p for p in t if p[0] == 'GET']", "e = []", 'Hasher.memoize', loaded=False)
hob('name-no-numpy', "r = [hasher([x], h)[1] for h in ('md5', 'sha1')]\nr2 = hasher([x])[1]", "e = ['md5', 'sha1']\ne2 = 'md5'", loaded=False)


def told_apart(*names):
    """No iteration order of what has no order is left in the results."""
    def eff(I, frame, trace, exc):
        out = []
        for n in names:
            v = var(I, frame, n)
            v = None if v is None else I.freeze(v)
            for p in walk(v) if v is not None else ():
                if isinstance(p, Perm) and p.how[0] == 'unordered':
                    out.append((DIFF, 'elements in iteration order reach the hash: %s' % show(p)[:200], None))
                    break
        return out
    return eff


for key, v in (('set', "set(['a', 'b', 'c'])"), ('frozenset', "frozenset(['a', 'b', 'c'])"), ('set-mixed', "set([1, 'b', None])"), ('set-inside', "[{'k': set([1, 2])}]"), ('set-object', "A(set(['a', 'b']), 2)")):
    hob('order-' + key, OBJ + "r = hasher(%s)" % v, '', '_ConsistentSet.__init__', loaded=False, effects=[told_apart('r')])
