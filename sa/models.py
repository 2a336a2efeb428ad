"""Abstract semantics of the language operators and of the library calls the repository uses."""
import ast
import builtins
import functools
import re
import sys

from .values import *
from .types_ import T, TypeInfo, real, disjoint_real
from . import interp as _i
from . import linear

MUTATORS = frozenset(('append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'sort', 'reverse',
                      'update', 'setdefault', 'add', 'discard', 'difference_update', 'intersection_update',
                      'symmetric_difference_update', 'move_to_end', '__setitem__', '__delitem__', '__setattr__',
                      '__delattr__', 'appendleft', 'popleft', 'extendleft', 'drop_duplicates_inplace'))

RESULT_TYPES = {'builtins.id': 'int', 'builtins.hash': 'int', 'builtins.sum': 'object', 'socket.gethostname': 'str',
                'copy.deepcopy': 'object', 'copy.copy': 'object', 'builtins.round': 'object',
                'builtins.format': 'str', 'builtins.dir': 'list', 'builtins.chr': 'str', 'builtins.ord': 'int',
                'inspect.stack': 'list', 'hashlib.sha1': 'object', 'inspect.getmembers': 'list'}
RESULT_TYPES = {k: v for k, v in RESULT_TYPES.items() if v != 'object'}

# exceptions an external callable is known to raise (others: none worth a partition)
# modules of the standard library that are always there
KNOWN_MODULES = {m: __import__('importlib').import_module(m) for m in (
    'builtins', 'collections', 'collections.abc', 'datetime', 'decimal', 'fractions', 'functools', 'itertools', 'operator', 'types',
    'math', 're', 'inspect', 'numbers', 'string', 'io', 'json', 'os.path', 'abc')}
RAISES = {'importlib.import_module': ('ImportError',), 'inspect.getfullargspec': ('TypeError',),
          'inspect.getargspec': ('TypeError',), 'builtins.iter': ('TypeError',), 'builtins.sorted': ('TypeError',),
          'builtins.__import__': ('ImportError',), 'inspect.signature': ('TypeError', 'ValueError'),
          'arpeggio.visit_parse_tree': ('TypeError',), 'inspect.stack': (), 'inspect.getargvalues': (),
          'builtins.id': (), 'builtins.hash': ('TypeError',), 'hashlib.sha1': (), 'hashlib.md5': (),
          'builtins.vars': ('TypeError',), 'inspect.getmembers': (), 'copy.copy': (), 'copy.deepcopy': ()}

ASSIGNED = ('__module__', '__name__', '__qualname__', '__doc__', '__annotations__')
EXT_ALIAS = {'functools.WRAPPER_ASSIGNMENTS': tup(*[C(n) for n in ASSIGNED]),
             'functools.WRAPPER_UPDATES': tup(C('__dict__')),
             'future.utils.PY3': TRUE, 'future.utils.PY2': FALSE,
             'future.utils.string_types': tup(T['str']), 'future.utils.integer_types': tup(T['int']),
             'six.PY3': TRUE, 'six.PY2': FALSE, 'six.string_types': tup(T['str']),
             'sys.version_info': tup(C(3), C(9), C(18), C('final'), C(0)),
             'sys.maxsize': Const(9223372036854775807),
             'collections.Hashable': Ext('collections.abc.Hashable'),
             'builtins.str.join': Ext('builtins.str.join')}


# ------------------------------------------------------------------ segments

def map_segs(I, segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(s.val)))
        elif isinstance(s, Each):
            out.append(Each(s.b, s.src, tuple((g, map_segs(I, sg, f)) for g, sg in s.alts)))
        elif isinstance(s, Perm):
            out.append(Perm(s.how, map_segs(I, s.segs, f)))
        else:
            b = I.fresh_b()
            out.append(Each(b, Frozen('opq', s), (((), (One(f(App('at', Frozen('opq', s), b))),)),)))
    return tuple(out)


def build(I, segs, body, node):
    """Runs body(value, emit) over segs, returning the emitted segments."""
    out = I.new(_i.ListObj())

    def b(v):
        def emit(x):
            I.m(out).segs += (One(x),)
        body(v, emit)
    I.run_segs(segs, b, node, -1)
    return I.o(out).segs


def pair_get(I, p, i):
    if isinstance(p, Tup):
        vs = ones(p.segs)
        if vs is not None and len(vs) > i:
            return vs[i]
    if isinstance(p, Ref):
        return get_item(I, p, C(i), None)
    return App('getitem', p, C(i))


def as_pair(I, p):
    if isinstance(p, Tup) and ones(p.segs) is not None and len(p.segs) == 2:
        return p
    return tup(pair_get(I, p, 0), pair_get(I, p, 1))


def pairs_of(I, v, node):
    """Segments of (key, value) pairs of a mapping or of an iterable of pairs."""
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.DictObj):
            return o.segs
        if isinstance(o, _i.InstObj) and I.isobj(o.payload, _i.DictObj):
            return I.o(o.payload).segs
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, 'keys')
            if f is not None:
                raise _i.Undecided('mapping protocol of an instance')
        return map_segs(I, I.iter_segs(v, node), lambda p: as_pair(I, p))
    if isinstance(v, Tup):
        return map_segs(I, v.segs, lambda p: as_pair(I, p))
    if isinstance(v, Frozen) and v.k[0] == 'dict':
        return v.k[1]
    if isinstance(v, Const):
        I.throw('TypeError', node)
    ti = I.typeinfo(v)
    known_seq = any(t is not None and I.issub(t, s) for t in ([ti.exact] + list(ti.isa)) if t is not None
                    for s in (T['list'], T['tuple'], T['set']))
    if known_seq:
        return map_segs(I, I.iter_segs(v, node), lambda p: as_pair(I, p))
    I.ev('iter', (v,), node)
    return sym_pairs(I, v)


def overlay(I, v):
    return [e for e in I.state.symitems if e[0] == v]


def sym_pairs(I, v):
    b = I.fresh_b()
    k = App('at', v, b)
    segs = (Each(b, v, (((), (One(tup(k, App('getitem', v, k))),)),)),)
    for e in overlay(I, v):
        if e[2] is None:
            raise _i.Undecided('iteration over a mapping after a deletion')
        segs = segs + (One(tup(e[1], e[2])),)
    if any(e[0] == 'loop' for e in I.state.symitems):
        pass
    return segs


def identity_src(segs):
    """src if the segments are exactly the elements of src, in order."""
    if len(segs) == 1 and isinstance(segs[0], Each):
        s = segs[0]
        if len(s.alts) == 1 and s.alts[0][0] == () and s.alts[0][1] == (One(App('at', s.src, s.b)),):
            return s.src
    return None


def identity_dict_src(segs):
    if len(segs) == 1 and isinstance(segs[0], Each):
        s = segs[0]
        k = App('at', s.src, s.b)
        if len(s.alts) == 1 and s.alts[0][0] == () and s.alts[0][1] == (One(tup(k, App('getitem', s.src, k))),):
            return s.src
    return None


def simp_tuple(I, segs):
    src = identity_src(segs)
    if src is not None and not isinstance(src, Frozen):
        return src
    return Tup(segs)


def simp_dict(I, segs):
    src = identity_dict_src(segs)
    if src is not None:
        return src
    return Frozen('dict', segs)


def strip_perm(segs):
    out = []
    for s in segs:
        if isinstance(s, Perm):
            out.extend(strip_perm(s.segs))
        else:
            out.append(s)
    return tuple(out)


# ------------------------------------------------------------------ text

def text(I, v, conv, node):
    v = I.resolve(v)
    if isinstance(v, App) and v.op == 'peg:node' and conv == 's':
        return peg.node_text(I, v)
    if conv in ('s', 'r') and isinstance(v, Ext) and isinstance(real(v), type) and v.path.startswith(('builtins.', 'collections.', 'datetime.', 'decimal.', 'fractions.')):
        return C(str(real(v)))
    if conv in ('s', 'r') and I.isobj(v, _i.ClassObj) and all(
            isinstance(c, Ext) and real(c) is not None or isinstance(c, Ref) and not getattr(I.o(c).node, 'keywords', None)
            for c in I.o(v).mro):
        return C("<class '%s.%s'>" % (I.o(v).module.strip('$<>'), I.o(v).qual.split('.', 1)[-1] if I.o(v).qual.startswith('<') else I.o(v).qual))
    if conv == 's':
        if isinstance(v, Const):
            return C(str(v.v))
        if isinstance(v, Tmpl):
            return v
        if I.isobj(v, _i.InstObj):
            o = I.o(v)
            f = I.class_lookup(o.cls, '__str__') or I.class_lookup(o.cls, '__repr__')
            if f is not None and isinstance(f[0], Ref):
                return text(I, I.call_method_desc(f[0], v, o.cls, [], [], node), 's', node)
        if isinstance(v, App) and v.op == 'exc' and isinstance(v.args[0], Ext) and v.args[0].path.startswith('builtins.') and \
                v.args[0].path[9:] in ('Exception', 'ImportError', 'ModuleNotFoundError', 'ValueError', 'TypeError', 'AttributeError', 'RuntimeError') and \
                all(isinstance(a, Val) and I.typeinfo(a).exact == T['str'] for a in v.args[1]) and len(v.args[1]) < 2:
            return text(I, v.args[1][0], 's', node) if v.args[1] else C('')
        m = sym_method(I, v, '__str__') or sym_method(I, v, '__repr__')
        if m is not None:
            return text(I, I.call(m, [v], [], node), 's', node)
        if I.typeinfo(v).exact == T['str']:
            return v
        return Tmpl((Hole(freeze_val(I, v), 's'),))
    if conv in ('r', 'a'):
        if isinstance(v, Const):
            return C(repr(v.v))
        if I.isobj(v, _i.InstObj):
            o = I.o(v)
            f = I.class_lookup(o.cls, '__repr__')
            if f is not None and isinstance(f[0], Ref):
                return text(I, I.call_method_desc(f[0], v, o.cls, [], [], node), 's', node)
        m = sym_method(I, v, '__repr__')
        if m is not None:
            return text(I, I.call(m, [v], [], node), 's', node)
        return Tmpl((Hole(freeze_val(I, v), 'r'),))
    if isinstance(v, Const):
        try:
            if conv.startswith('f:'):
                return C(format(v.v, conv[2:]))
            return C(('%' + conv) % (v.v,))
        except Exception:
            pass
    return Tmpl((Hole(freeze_val(I, v), conv),))


def sym_method(I, v, name):
    """The repository method a symbol of a known repository class would answer with, unbound."""
    if isinstance(v, (Sym, App)):
        ti = I.typeinfo(v)
        for t in ([ti.exact] if ti.exact is not None else []) + sorted(ti.isa, key=repr):
            if isinstance(t, Ref):
                f = I.class_lookup(t, name)
                if f is not None and I.isobj(f[0], _i.FuncObj):
                    return f[0]
    return None


def freeze_val(I, v):
    return I.freeze(v, shallow=True)


def concat(I, vals):
    parts = []

    def push(p):
        if isinstance(p, str):
            if not p:
                return
            if parts and isinstance(parts[-1], str):
                parts[-1] += p
                return
        parts.append(p)

    for v in vals:
        if isinstance(v, Const) and isinstance(v.v, str):
            push(v.v)
        elif isinstance(v, Tmpl):
            for p in v.parts:
                push(p)
        elif isinstance(v, Const):
            push(str(v.v))
        else:
            push(Hole(freeze_val(I, v), 's'))
    return untext(I, parts)


def untext(I, parts):
    if not parts:
        return C('')
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, str):
            return C(p)
        if isinstance(p, Hole) and p.conv == 's' and I.typeinfo(p.val).exact == T['str']:
            return p.val
    return Tmpl(tuple(parts))


def join(I, sep, segs, node):
    vals = ones(segs)
    if vals is not None:
        out = []
        for i, v in enumerate(vals):
            v = I.resolve(v)
            if isinstance(v, Const) and type(v.v) is not type(sep.v if isinstance(sep, Const) else '') or isinstance(v, (Tup, Ref)) and not I.isobj(v, _i.InstObj):
                I.throw('TypeError', node)
            if i:
                out.append(sep)
            out.append(v)
        return concat(I, out)
    if is_const(sep, str) and sep.v == '':
        # ''.join distributes over concatenation of segments
        out = []
        for s in segs:
            out.append(s.val if isinstance(s, One) else Tmpl((Join(sep, (s,)),)))
        return concat(I, out)
    return Tmpl((Join(sep, segs),))


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def percent(I, fmt, arg, node):
    """fmt: Const str."""
    s = fmt.v
    out = []
    pos = 0
    if isinstance(arg, Tup):
        vals = ones(arg.segs)
        if vals is None:
            return App('mod', fmt, arg)
    else:
        vals = None
    i = 0
    n_used = 0
    for m in _PCT.finditer(s):
        out.append(C(s[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(C('%'))
            continue
        if name is not None:
            v = get_item(I, arg, C(name), node)
        elif vals is not None:
            if i >= len(vals):
                I.throw('TypeError', node)
            v = vals[i]
            i += 1
        else:
            if n_used:
                I.throw('TypeError', node)
            v = arg
            n_used += 1
        spec = flags + (width or '') + ('.' + prec if prec else '')
        if conv in 'sra' and not spec:
            out.append(text(I, v, 's' if conv == 's' else 'r', node))
        else:
            out.append(text(I, v, spec + conv, node))
    out.append(C(s[pos:]))
    if vals is not None and i < len(vals):
        I.throw('TypeError', node)
    return concat(I, out)


def str_format(I, fmt, args, kw, node):
    import string
    out = []
    auto = 0
    kwd = {k: v for k, v in kw if k != '**'}
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(C(lit))
        if field is None:
            continue
        m = re.match(r'^(\w*)((?:\.\w+|\[\w+\])*)$', field)
        if m is None:
            return None
        head, rest = m.groups()
        if head == '':
            head = str(auto)
            auto += 1
        if head.isdigit():
            if int(head) >= len(args):
                I.throw('IndexError', node)
            v = args[int(head)]
        elif head in kwd:
            v = kwd[head]
        else:
            return None
        if isinstance(v, App) and v.op == 'star':
            return None
        for part in re.findall(r'\.\w+|\[\w+\]', rest):
            if part.startswith('.'):
                v = I.getattr(v, part[1:], node)
            else:
                key = part[1:-1]
                v = get_item(I, v, C(int(key) if key.isdigit() else key), node)
        c = {'r': 'r', 's': 's', 'a': 'r', None: 's'}[conv]
        if spec and spec not in ('s',):
            c = 'f:' + spec
        out.append(text(I, v, c, node))
    return concat(I, out)


# ------------------------------------------------------------------ operators

def is_strish(I, v):
    return I.typeinfo(v).exact == T['str']


def binop(I, op, l, r, node):
    if isinstance(op, ast.Mod) and is_const(l, str):
        return percent(I, l, r, node)
    if isinstance(l, Const) and isinstance(r, Const):
        try:
            a, b = l.v, r.v
            t = type(op)
            if t is ast.Add:
                return C(a + b)
            if t is ast.Sub:
                return C(a - b)
            if t is ast.Mult:
                return C(a * b)
            if t is ast.Div:
                return C(a / b)
            if t is ast.FloorDiv:
                return C(a // b)
            if t is ast.Mod:
                return C(a % b)
            if t is ast.Pow:
                return C(a ** b)
            if t is ast.BitOr:
                return C(a | b)
            if t is ast.BitAnd:
                return C(a & b)
        except TypeError:
            I.throw('TypeError', node)
        except Exception:
            pass
    if isinstance(op, ast.Add):
        if is_strish(I, l) or is_strish(I, r):
            for x in (l, r):
                if I.decide_isinstance(x, T['str']) is False:
                    I.throw('TypeError', node)
            if I.handlers and I.can_catch(T['TypeError']):
                for x in (l, r):
                    I.maybe_raise(['TypeError'], App('isinstance', x, T['str']), node)
            return concat(I, [l, r])
        if isinstance(l, Tup) and isinstance(r, Tup):
            return Tup(l.segs + r.segs)
        if I.isobj(l, _i.ListObj):
            if I.isobj(r, _i.ListObj):
                return I.new(_i.ListObj(I.o(l).segs + I.o(r).segs))
            if isinstance(r, (Sym, App)):
                return I.new(_i.ListObj(I.o(l).segs + I.iter_segs(r, node)))
            I.throw('TypeError', node)
        if I.isobj(r, _i.ListObj) and isinstance(l, (Sym, App)) and not (
                isinstance(l, App) and l.op == 'loopvar'):
            return I.new(_i.ListObj(I.iter_segs(l, node) + I.o(r).segs))
        if isinstance(l, Tup) and isinstance(r, (Sym, App)):
            return Tup(l.segs + I.iter_segs(r, node))
        if isinstance(r, Tup) and isinstance(l, (Sym, App)) and not (isinstance(l, App) and l.op == 'loopvar'):
            return Tup(I.iter_segs(l, node) + r.segs)
        return App('add', freeze_val(I, l) if not I.isobj(l, _i.ListObj) else l,
                   r if isinstance(r, Ref) else freeze_val(I, r))
    if isinstance(op, ast.BitOr):
        if I.isobj(l, _i.SetObj):
            return I.new(_i.SetObj(I.o(l).segs + strip_perm(I.iter_segs(r, node)), I.o(l).frozen))
        if I.isobj(l, _i.DictObj):
            return I.new(_i.DictObj(I.o(l).segs + tuple(pairs_of(I, r, node)), I.o(l).kind))
    if isinstance(op, (ast.Sub, ast.BitAnd)) and (I.isobj(l, _i.SetObj) or is_setlike(I, l)):
        want = isinstance(op, ast.BitAnd)
        lsegs = I.o(l).segs if isinstance(l, Ref) else strip_perm(I.iter_segs(l, node))

        def body(v, emit):
            if I.branch(contains(I, v, r, node)) == want:
                emit(v)
        return I.new(_i.SetObj(build(I, lsegs, body, node)))
    if isinstance(op, ast.Mult):
        for a, b in ((l, r), (r, l)):
            if I.isobj(a, _i.ListObj) and is_const(b, int):
                return I.new(_i.ListObj(I.o(a).segs * max(b.v, 0)))
            if isinstance(a, Tup) and is_const(b, int):
                return Tup(a.segs * max(b.v, 0))
    if isinstance(op, ast.Mod) and is_strish(I, l):
        return App('m:format', freeze_val(I, l), freeze_val(I, r))
    return App('op:' + type(op).__name__, freeze_val(I, l), freeze_val(I, r))


def is_setlike(I, v):
    ti = I.typeinfo(v)
    return any(t is not None and (I.issub(t, T['set']) or I.issub(t, T['frozenset']))
               for t in [ti.exact] + list(ti.isa) if t is not None)


def sort2(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def insides(I, v):
    """What an instance of a class derived from a builtin one compares as."""
    if not I.isobj(v, _i.InstObj):
        return v
    o = I.o(v)
    if o.payload is not None:
        return o.payload
    for c in I.o(o.cls).mro:
        r = real(c) if isinstance(c, Ext) else None
        if r is not None and r is not object and '__eq__' in vars(r) and isinstance(r, type) and issubclass(r, (str, bytes, int, float, complex, tuple)):
            raise Undecided('comparison of an instance of a class derived from %s' % r.__name__)
    return v


def is_deepcopy(v):
    return isinstance(v, App) and v.op == 'call' and v.args and v.args[0] in (Ext('copy.deepcopy'), Ext('copy.copy')) \
        and len(v.args[1]) == 1


def same(I, a, b, node):
    """Equality of the members of containers: the same object is always equal."""
    if isinstance(a, Ref) and a == b:
        return TRUE
    return eq(I, a, b, node)


def eq(I, a, b, node):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Const) and isinstance(b, Const):
        return C(a.v == b.v)
    if a == b and not isinstance(a, Ref):
        return TRUE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and isinstance(x.v, bool) and isinstance(y, App) and \
                y.op in ('is', 'in', 'isinstance', 'typeis', 'eq', 'not', 'truthy', 'hasattr'):
            return y if x.v else fold(I, App('not', y))
        if isinstance(x, App) and x.op == 'type' and (isinstance(y, Ext) or I.isobj(y, _i.ClassObj)):
            return fold(I, App('typeis', x.args[0], y))
    if isinstance(a, Tup) and isinstance(b, Tup):
        va, vb = ones(a.segs), ones(b.segs)
        if va is not None and vb is not None:
            if len(va) != len(vb):
                return FALSE
            for x, y in zip(va, vb):
                if not I.branch(same(I, x, y, node)):
                    return FALSE
            return TRUE
    for x, y in ((a, b), (b, a)):
        if I.isobj(x, _i.InstObj):
            o = I.o(x)
            f = I.class_lookup(o.cls, '__eq__')
            if f is not None and isinstance(f[0], Ref):
                return I.call_method_desc(f[0], x, o.cls, [y], [], node)
        m = sym_method(I, x, '__eq__')
        if m is not None:
            return I.call(m, [x, y], [], node)
    if a != b:
        pa, pb = insides(I, a), insides(I, b)
        if pa is not a or pb is not b:
            return eq(I, pa, pb, node)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return TRUE
        oa, ob = I.o(a), I.o(b)
        if type(oa) is not type(ob):
            return FALSE
        if isinstance(oa, (_i.FuncObj, _i.ClassObj, _i.PartialObj, _i.InstObj)):
            return FALSE
        if hasattr(oa, 'segs'):
            va, vb = ones(oa.segs), ones(ob.segs)
            if isinstance(oa, _i.SetObj) and va is not None and vb is not None and all(isinstance(x, Const) and x.v == x.v for x in list(va) + list(vb)):
                return C(set(x.v for x in va) == set(x.v for x in vb))
            if not isinstance(oa, _i.SetObj) and va is not None and vb is not None:
                if isinstance(oa, _i.ListObj) and len(va) != len(vb):
                    return FALSE
                if isinstance(oa, _i.ListObj):
                    for x, y in zip(va, vb):
                        if not I.branch(same(I, x, y, node)):
                            return FALSE
                    return TRUE
                if isinstance(oa, _i.DictObj):
                    da = [(pair_get(I, p, 0), pair_get(I, p, 1)) for p in va]
                    db = [(pair_get(I, p, 0), pair_get(I, p, 1)) for p in vb]
                    if all(isinstance(k, Const) for k, _ in da + db):
                        ka, kb = dict((k.v, v) for k, v in da), dict((k.v, v) for k, v in db)
                        if set(ka) != set(kb):
                            return FALSE
                        for k in ka:
                            if not I.branch(same(I, ka[k], kb[k], node)):
                                return FALSE
                        return TRUE
            if oa.segs == ob.segs:
                return TRUE
    if isinstance(a, Ext) and isinstance(b, Ext):
        return C(a == b)
    if isinstance(a, App) and isinstance(b, App) and a.op == b.op == 'idof':
        return C(a == b)
    if I.normal is not None and any(isinstance(x, (Ref, Frozen, Tup)) or is_deepcopy(x) for x in (a, b)) and \
            I.normal(a) == I.normal(b):
        return TRUE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (Ext, Ref)) and isinstance(y, Const):
            return FALSE
        if isinstance(x, Tup) and (isinstance(y, Const) or I.isobj(y, _i.ListObj) or I.isobj(y, _i.DictObj) or I.isobj(y, _i.SetObj)):
            return FALSE
        if I.isobj(x, _i.FuncObj) and isinstance(y, Ext):
            return FALSE
    # len against a constant
    for x, y in ((a, b), (b, a)):
        if isinstance(x, App) and x.op == 'len' and is_const(y, int):
            if y.v == 0:
                return neg(I, lit_val(I.literal_nonempty(x.args[0])))
            if y.v < 0:
                return FALSE
            if isinstance(x.args[0], Frozen) and min_len(x.args[0].k[1]) > y.v:
                return FALSE
    # ''
    for x, y in ((a, b), (b, a)):
        if is_const(y, str) and y.v == '' and I.typeinfo(x).exact == T['str']:
            return neg(I, lit_val(I.literal(x)))
    return fold(I, App('eq', *sort2(freeze_val(I, a), freeze_val(I, b))))


def min_len(segs):
    return sum(1 for s in segs if isinstance(s, One)) + sum(min_len(s.segs) for s in segs if isinstance(s, Perm))


def fold(I, atom):
    d = I.decide(atom)
    return atom if d is None else C(d)


def lit_val(l):
    if isinstance(l, bool):
        return C(l)
    return l[0] if l[1] else App('not', l[0])


def neg(I, v):
    if isinstance(v, Const):
        return C(not v.v)
    if isinstance(v, App) and v.op == 'not':
        return v.args[0]
    t = I.truth(v)
    if t is not None:
        return C(not t)
    l = I.literal(v)
    return App('not', l[0]) if l[1] else l[0]


def is_(I, a, b, node):
    a, b = I.resolve(a), I.resolve(b)
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            if x == NONE:
                return TRUE
            if isinstance(x, Ref) or isinstance(x, App) and x.op == 'peg:parser':
                return FALSE
            return fold(I, App('is', freeze_val(I, x), NONE))
    if isinstance(a, Const) and isinstance(b, Const):
        return C(type(a.v) is type(b.v) and a.v == b.v)
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, App) and x.op == 'type' and (isinstance(y, Ext) or I.isobj(y, _i.ClassObj)):
            return fold(I, App('typeis', x.args[0], y))
    if isinstance(a, (Ref, Ext)) and isinstance(b, (Ref, Ext)):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and isinstance(y, (Const, Tmpl, Tup)) or isinstance(x, Tup) and isinstance(y, Const) and y.v != ():
            return FALSE
        if isinstance(x, Ext) and isinstance(y, (Const, Tmpl, Tup)):
            return FALSE
        if isinstance(x, Ref) and x.id >= getattr(I, 'base_mark', 0) and isinstance(y, (Sym,)):
            return FALSE
        if isinstance(x, App) and x.op == 'freshobject' and (isinstance(y, (Sym, Const, Tup, Tmpl, Ref, Ext)) or isinstance(y, App) and (
                y.op == 'freshobject' or y.op in ('at', 'getitem', 'attr') and isinstance(y.args[0], Sym))):
            return FALSE        # an object the code made for itself is no input
    ta, tb = I.typeinfo(a).exact, I.typeinfo(b).exact
    if isinstance(ta, Ext) and isinstance(tb, Ext) and real(ta) is not None and real(tb) is not None and real(ta) is not real(tb):
        return FALSE
    # a symbol of known class cannot be a given class/function object
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Const) and isinstance(y.v, str) and len(y.v) > 1 and isinstance(x, Tmpl) and len(x.parts) > 1:
            return FALSE        # a text just made is no literal of the program
        if isinstance(y, Const) and isinstance(x, (Sym, App)):
            ti = I.typeinfo(x).exact
            if isinstance(ti, Ext) and real(ti) is not None and real(ti) is not type(y.v):
                return FALSE
            if isinstance(y.v, str) and peg.has_language(I, x):
                # a text just read is no literal of the program
                return FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Ext) and real(y) is not None and I.decide_isinstance(x, T['type']) is False:
            return FALSE
    return fold(I, App('is', *sort2(freeze_val(I, a), freeze_val(I, b))))


def compare(I, op, a, b, node):
    t = type(op)
    if t is ast.Eq:
        return eq(I, a, b, node)
    if t is ast.NotEq:
        ra, rb = I.resolve(a), I.resolve(b)
        for x, y in ((ra, rb), (rb, ra)):
            if I.isobj(x, _i.InstObj):
                f = I.class_lookup(I.o(x).cls, '__ne__')
                if f is not None and isinstance(f[0], Ref):
                    return I.call_method_desc(f[0], x, I.o(x).cls, [y], [], node)
        return neg(I, eq(I, a, b, node))
    if t is ast.Is:
        return is_(I, a, b, node)
    if t is ast.IsNot:
        return neg(I, is_(I, a, b, node))
    if t is ast.In:
        return contains(I, a, b, node)
    if t is ast.NotIn:
        return neg(I, contains(I, a, b, node))
    a, b = I.resolve(a), I.resolve(b)
    r = rich_order(I, t, a, b, node)
    if r is not None:
        return r
    if t is ast.Gt:
        a, b, t = b, a, ast.Lt
    elif t is ast.GtE:
        a, b, t = b, a, ast.LtE
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return C(a.v < b.v if t is ast.Lt else a.v <= b.v)
        except TypeError:
            I.throw('TypeError', node)
    if t is ast.Lt:
        if is_const(a, int) and isinstance(b, App) and b.op == 'len':       # c < len(x)
            if a.v < 0:
                return TRUE
            if a.v == 0:
                return lit_val(I.literal_nonempty(b.args[0]))
            if isinstance(b.args[0], Frozen) and min_len(b.args[0].k[1]) > a.v:
                return TRUE
        if is_const(b, int) and isinstance(a, App) and a.op == 'len':       # len(x) < c
            if b.v <= 0:
                return FALSE
            if b.v == 1:
                return neg(I, lit_val(I.literal_nonempty(a.args[0])))
    else:
        if is_const(a, int) and isinstance(b, App) and b.op == 'len':       # c <= len(x)
            if a.v <= 0:
                return TRUE
            if a.v == 1:
                return lit_val(I.literal_nonempty(b.args[0]))
        if is_const(b, int) and isinstance(a, App) and a.op == 'len':       # len(x) <= c
            if b.v < 0:
                return FALSE
            if b.v == 0:
                return neg(I, lit_val(I.literal_nonempty(a.args[0])))
    if I.isobj(a, _i.SetObj) and I.isobj(b, _i.SetObj) and ones(I.o(a).segs) is not None and ones(I.o(b).segs) is not None:
        r = setop_bool(I, a, 'issubset', [b], node)
        return r if t is ast.LtE or r == FALSE else neg(I, setop_bool(I, b, 'issubset', [a], node))
    a, b = freeze_val(I, a), freeze_val(I, b)
    if t is ast.LtE and linear.lin(I, a) is not None and linear.lin(I, b) is not None:
        return neg(I, fold(I, App('lt', b, a)))
    return fold(I, App('lt' if t is ast.Lt else 'le', a, b))


ORDER = {ast.Lt: ('__lt__', '__gt__'), ast.LtE: ('__le__', '__ge__'), ast.Gt: ('__gt__', '__lt__'), ast.GtE: ('__ge__', '__le__')}


def orderable(I, v):
    return I.isobj(v, _i.InstObj)


def partially_ordered(I, v):
    """Sets and nan, or tuples of known length that contain them."""
    v = I.resolve(v)
    return I.isobj(v, _i.SetObj) or isinstance(v, Const) and v.v != v.v or isinstance(v, Tup) and any(partially_ordered(I, x) for x in ones(v.segs) or ())


def rich_order(I, t, a, b, node):
    """Order comparisons that instances define, and the ones of tuples of known length that contain them."""
    if orderable(I, a) or orderable(I, b):
        for x, y, n in ((a, b, ORDER[t][0]), (b, a, ORDER[t][1])):
            if not orderable(I, x):
                continue
            f = I.class_lookup(I.o(x).cls, n)
            if f is not None and isinstance(f[0], Ref):
                r = I.call_method_desc(f[0], x, I.o(x).cls, [y], [], node)
                if r == Ext('builtins.NotImplemented'):
                    continue
                return r
            if f is not None:
                return None
        return None
    if isinstance(a, Tup) and isinstance(b, Tup):
        xs, ys = ones(a.segs), ones(b.segs)
        if xs is None or ys is None:
            return None
        for x, y in zip(xs, ys):
            if not I.branch(eq(I, x, y, node)):
                op = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
                return compare(I, op, x, y, node)
        n, m = len(xs), len(ys)
        return C({ast.Lt: n < m, ast.LtE: n <= m, ast.Gt: n > m, ast.GtE: n >= m}[t])
    return None


def rich_sorted(I, vals, key, rev, node):
    """The elements sorted, when they (or their keys) are instances that define an order."""
    ks = [I.resolve(v if key == NONE else I.call(key, [v], [], node)) for v in vals]
    if not any(orderable(I, k) or isinstance(k, Tup) and any(orderable(I, I.resolve(x)) for x in ones(k.segs) or ()) or partially_ordered(I, k) for k in ks):
        return None
    order = []
    for i in (reversed(range(len(vals))) if rev else range(len(vals))):
        n = len(order)
        while n and I.branch(compare(I, ast.Lt(), ks[i], ks[order[n - 1]], node)):
            n -= 1
        order.insert(n, i)
    return tuple(One(vals[i]) for i in (reversed(order) if rev else order))


def contains(I, x, c, node):
    """x in c"""
    c = I.resolve(c)
    x = I.resolve(x)
    if isinstance(c, Const):
        if isinstance(c.v, str) and is_const(x, str):
            return C(x.v in c.v)
        if isinstance(c.v, str):
            return fold(I, App('in', freeze_val(I, x), c))
        I.throw('TypeError', node)
    if isinstance(c, Tmpl):
        if is_const(x, str):
            for p in c.parts:
                if isinstance(p, str) and x.v in p:
                    return TRUE
        return fold(I, App('in', freeze_val(I, x), c))
    if isinstance(c, Tup):
        return contains_segs(I, x, c.segs, node)
    if isinstance(c, Ref):
        o = I.o(c)
        if isinstance(o, _i.DictObj):
            return contains_segs(I, x, map_segs(I, o.segs, lambda p: pair_get(I, p, 0)), node)
        if isinstance(o, (_i.ListObj, _i.SetObj)):
            return contains_segs(I, x, o.segs, node)
        if isinstance(o, _i.IterObj):
            return contains_segs(I, x, I.iter_segs(c, node), node)
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__contains__')
            if f is not None and isinstance(f[0], Ref):
                return I.call_method_desc(f[0], c, o.cls, [x], [], node)
            if o.payload is not None:
                return contains(I, x, o.payload, node)
            return contains_segs(I, x, I.iter_segs(c, node), node)
        I.throw('TypeError', node)
    I.ev('iter', (c, 'in'), node)
    for e in reversed(overlay(I, c)):
        if I.branch(eq(I, x, e[1], node)):
            return C(e[2] is not None)
    return fold(I, App('in', freeze_val(I, x), c))


def contains_segs(I, x, segs, node):
    segs = strip_perm(segs)
    if len(segs) == 1 and identity_src(segs) is not None:
        return fold(I, App('in', freeze_val(I, x), identity_src(segs)))
    for s in segs:
        if isinstance(s, One):
            if I.branch(same(I, x, s.val, node)):
                return TRUE
        elif isinstance(s, Each):
            m = match_each(I, x, s, node, lambda v: v, lambda v: TRUE)
            if m is not None:
                return TRUE
        else:
            if I.branch(fold(I, App('in', freeze_val(I, x), Frozen('opq', s)))):
                return TRUE
    return FALSE


def match_each(I, x, each, node, key, val):
    """Partition on whether some element of `each` has key x; returns val(element) if so."""
    for g, segs in each.alts:
        for s in segs:
            if not isinstance(s, One):
                atom = fold(I, App('in', freeze_val(I, x), Frozen('keys', (Each(each.b, each.src, ((g, (s,)),)),))))
                if I.branch(atom):
                    return App('lookup', Frozen('seq', (Each(each.b, each.src, ((g, (s,)),)),)), freeze_val(I, x))
                continue
            k = key(s.val)
            elem = App('at', each.src, each.b)
            if isinstance(k, App) and k.op == 'at' and k.args[1] == each.b:
                if isinstance(x, App) and x.op == 'at' and x.args[0] == k.args[0]:
                    mp = {each.b: x.args[1]}
                    ok = all(I.branch(lit_value(subst(a, mp), p)) for a, p in g)
                    if ok:
                        return subst(val(s.val), mp)
                    continue
                if not I.branch(fold(I, App('in', freeze_val(I, x), k.args[0]))):
                    continue
                mp = {k: x}
                lits = [(subst(a, mp), p) for a, p in g]
                v = subst(val(s.val), mp)
                if mentions(v, each.b) or any(mentions(a, each.b) for a, _ in lits):
                    j = App('indexof', k.args[0], x)
                    v = subst(v, {each.b: j})
                    lits = [(subst(a, {each.b: j}), p) for a, p in lits]
                if all(I.branch(lit_value(a, p)) for a, p in lits):
                    return v
                continue
            if not mentions(k, each.b):
                # same key for every element
                if I.branch(App('truthy', each.src)) and I.branch(eq(I, x, k, node)):
                    return App('lookup', Frozen('seq', (Each(each.b, each.src, ((g, (s,)),)),)), freeze_val(I, x))
                continue
            atom = fold(I, App('in', freeze_val(I, x), Frozen('keys', (Each(each.b, each.src, ((g, (One(k),)),)),))))
            if I.branch(atom):
                return App('lookup', Frozen('seq', (Each(each.b, each.src, ((g, (s,)),)),)), freeze_val(I, x))
    return None


def lit_value(atom, pol):
    return atom if pol else App('not', atom)


def dict_lookup(I, segs, k, node):
    """Value for key k in pair segments, or None if absent."""
    for s in reversed(segs):
        r = None
        if isinstance(s, One):
            if I.branch(eq(I, k, pair_get(I, s.val, 0), node)):
                return pair_get(I, s.val, 1)
        elif isinstance(s, Each):
            r = match_each(I, k, s, node, lambda p: pair_get(I, p, 0), lambda p: pair_get(I, p, 1))
        elif isinstance(s, Perm):
            r = dict_lookup(I, s.segs, k, node)
        elif s.k[0] == 'priorkey' and I.decide(App('eq', *sort2(freeze_val(I, k), s.k[3]))) is False:
            continue
        else:
            if I.branch(fold(I, App('in', freeze_val(I, k), Frozen('opq', s)))):
                r = App('getitem', Frozen('opq', s), freeze_val(I, k))
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------ items

def norm_index(n, i):
    return i + n if i < 0 else i


def get_item(I, v, k, node):
    if isinstance(k, App) and k.op == 'slc':
        return get_slice(I, v, k, node)
    if isinstance(v, Tup) or I.isobj(v, _i.ListObj):
        segs = v.segs if isinstance(v, Tup) else I.o(v).segs
        if is_const(k, int):
            vals = ones(segs)
            if vals is not None:
                if not -len(vals) <= k.v < len(vals):
                    I.throw('IndexError', node)
                return vals[k.v]
            if k.v >= 0 and all(isinstance(s, One) for s in segs[:k.v + 1]) and len(segs) > k.v:
                return segs[k.v].val
            if k.v < 0 and len(segs) >= -k.v and all(isinstance(s, One) for s in segs[k.v:]):
                return segs[k.v].val
        if isinstance(k, App) and k.op == 'idx':
            if isinstance(k.args[0], Frozen) and k.args[0].k[1] == segs and len(segs) == 1 \
                    and isinstance(segs[0], Each) and len(segs[0].alts) == 1 and len(segs[0].alts[0][1]) == 1:
                return subst(segs[0].alts[0][1][0].val, {segs[0].b: k.args[1]})
            src = identity_src(segs)
            if src is not None and src == k.args[0]:
                return App('at', src, k.args[1])
        if isinstance(k, Const) and not isinstance(k.v, int):
            I.throw('TypeError', node)
        src = identity_src(segs)
        if src is not None:
            return App('getitem', src, freeze_val(I, k))
        if is_const(k, int) and len(segs) == 1 and isinstance(segs[0], Perm) and segs[0].how[0] == 'reversed':
            src = identity_src(segs[0].segs)
            if src is not None:
                return App('getitem', src, C(-k.v - 1))
        return App('getitem', Frozen('seq', segs), freeze_val(I, k))
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.DictObj):
            r = dict_lookup(I, o.segs, k, node)
            if r is None:
                I.throw('KeyError', node)
            return r
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__getitem__')
            if f is not None and isinstance(f[0], Ref):
                return I.call_method_desc(f[0], v, o.cls, [k], [], node)
            if o.payload is not None:
                return get_item(I, o.payload, k, node)
        I.throw('TypeError', node)
    if isinstance(v, Const):
        if isinstance(v.v, str) and is_const(k, int):
            try:
                return C(v.v[k.v])
            except IndexError:
                I.throw('IndexError', node)
        if isinstance(v.v, (str, bytes)):
            if isinstance(k, Const):
                I.throw('TypeError', node)
        else:
            I.throw('TypeError', node)
    for e in reversed(overlay(I, v)):
        if I.branch(eq(I, k, e[1], node)):
            if e[2] is None:
                I.throw('KeyError', node)
            return e[2]
    m = sym_method(I, v, '__getitem__')
    if m is not None:
        return I.call(m, [v, k], [], node)
    ti = I.typeinfo(v)
    isdict = any(t is not None and I.issub(t, T['dict']) for t in [ti.exact] + list(ti.isa) if t is not None)
    isseq = any(t is not None and (I.issub(t, T['list']) or I.issub(t, T['tuple']) or I.issub(t, T['str']))
                for t in [ti.exact] + list(ti.isa) if t is not None)
    fk = freeze_val(I, k)
    if isinstance(k, App) and k.op == 'idx' and k.args[0] == v:
        return App('at', v, k.args[1])
    if isinstance(v, App) and v.op == 'slice' and is_const(k, int) and v.args[1:] == (NONE, NONE, C(-1)):
        return get_item(I, v.args[0], C(-k.v - 1), node)
    # pieces of a slice with a constant start are pieces of the whole
    if isinstance(v, App) and v.op == 'slice' and is_const(k, int) and k.v >= 0:
        lo, hi = v.args[1], v.args[2]
        if lo in (NONE, C(0)) and (hi == NONE or (is_const(hi, int) and hi.v > k.v >= 0)):
            return get_item(I, v.args[0], k, node)
    r = App('getitem', v, fk)
    if isdict:
        I.maybe_raise(['KeyError'], App('in', fk, v), node)
    elif isseq:
        if isinstance(k, Const) and not isinstance(k.v, int):
            I.throw('TypeError', node)
        I.maybe_raise(['IndexError'], App('inrange', v, fk), node)
    else:
        if ti.exact is not None and real(ti.exact) is not None and not hasattr(real(ti.exact), '__getitem__') \
                and ti.exact != T['type']:
            I.throw('TypeError', node)
        if not (isinstance(v, App) and v.op in ('call', 'mcall', 'slice')):
            I.maybe_raise(['TypeError'], App('subscriptable', v), node)
            I.maybe_raise(['KeyError'], App('in', fk, v), node)
            if not any(I.can_catch(T[t]) for t in ('KeyError',)):
                I.maybe_raise(['IndexError'], App('inrange', v, fk), node)
        elif I.can_catch(T['KeyError']):
            I.maybe_raise(['KeyError'], App('in', fk, v), node)
        elif I.can_catch(T['IndexError']):
            I.maybe_raise(['IndexError'], App('inrange', v, fk), node)
    I.ev('getitem', (v, fk), node)
    return r


def get_slice(I, v, k, node):
    lo, hi, st = k.args
    cs = [x.v if isinstance(x, Const) else 0 for x in (lo, hi, st)]
    allc = all(isinstance(x, Const) for x in (lo, hi, st))
    segs = v.segs if isinstance(v, Tup) else (I.o(v).segs if I.isobj(v, _i.ListObj) else None)
    if segs is not None:
        vals = ones(segs)
        res = None
        if allc and vals is not None:
            res = tuple(segs[slice(*cs)])
        elif (lo, hi, st) == (NONE, NONE, NONE) or (lo == C(0) and hi == NONE and st == NONE):
            res = segs
        elif (lo, hi) == (NONE, NONE) and st == C(-1):
            res = (Perm(('reversed',), segs),) if vals is None else tuple(reversed(segs))
        elif allc and st == NONE and hi == NONE and cs[0] is not None and cs[0] > 0 and \
                all(isinstance(s, One) for s in segs[:cs[0]]) and len(segs) >= cs[0]:
            res = segs[cs[0]:]
        if res is not None:
            return Tup(res) if isinstance(v, Tup) else I.new(_i.ListObj(res))
        base = identity_src(segs)
        base = base if base is not None else Frozen('seq', segs)
        r = App('slice', base, lo, hi) if st == NONE else App('slice', base, lo, hi, st)
        I.set_type(r, exact=T['tuple'] if isinstance(v, Tup) else T['list'])
        return r
    if is_const(v, str) and allc:
        return C(v.v[slice(*cs)])
    if isinstance(v, Tmpl) and allc and st == NONE:
        parts = list(v.parts)
        a, b = cs[0], cs[1]
        ok = True
        if a is not None and a > 0:
            if isinstance(parts[0], str) and len(parts[0]) >= a:
                parts[0] = parts[0][a:]
            else:
                ok = False
        elif a is not None and a < 0:
            ok = False
        if b is not None:
            if b < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -b:
                parts[-1] = parts[-1][:b]
            else:
                ok = False
        if ok:
            return untext(I, [p for p in parts if p != ''])
    if (lo, hi, st) == (NONE, NONE, NONE):
        ti = I.typeinfo(v)
        if ti.exact == T['list']:
            return I.new(_i.ListObj(I.iter_segs(v, node)))
        if ti.exact in (T['str'], T['tuple']):
            return v
    ti = I.typeinfo(v)
    if isinstance(v, App) and v.op == 'slice' and st == NONE and v.args[1] in (NONE, C(0)) and hi == NONE and \
            lo in (NONE, C(0)):
        return v
    r = App('slice', freeze_val(I, v), lo, hi) if st == NONE else App('slice', freeze_val(I, v), lo, hi, st)
    if ti.exact in (T['list'], T['tuple'], T['str']):
        I.set_type(r, exact=ti.exact)
    return r


def set_item(I, v, k, x, node):
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.DictObj):
            if getattr(o, 'live', False):
                return through(I, v, lambda: set_item(I, v, k, x, node))
            hash_keys(I, [One(k)], node)
            I.ev('w', (v, 'item', k, x), node)
            d = I.m(v)
            d.segs = tuple(s for s in d.segs if not (isinstance(s, Opq) and s.k[0] == 'priorkey' and s.k[3] == k))
            d.segs = merge_pairs(I, d.segs + (One(tup(k, x)),))
            return
        if isinstance(o, _i.ListObj):
            if isinstance(k, App) and k.op == 'slc':
                return set_slice(I, v, k, I.iter_segs(x, node), node)
            I.ev('w', (v, 'item', k, x), node)
            vals = ones(o.segs)
            if is_const(k, int) and vals is not None and not -len(vals) <= k.v < len(vals):
                I.throw('IndexError', node)
            if is_const(k, int) and vals is not None and -len(vals) <= k.v < len(vals):
                vals[k.v] = x
                I.m(v).segs = tuple(One(y) for y in vals)
                return
            I.m(v).segs = (_opq_after(I, 'set', o.segs, k, x),)
            return
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__setitem__')
            if f is not None and isinstance(f[0], Ref):
                I.call_method_desc(f[0], v, o.cls, [k, x], [], node)
                return
            if o.payload is not None:
                set_item(I, o.payload, k, x, node)
                return
        I.throw('TypeError', node)
    I.ev('w', (v, 'item', k, x), node)
    if isinstance(v, (Const, Tup, Tmpl)):
        I.throw('TypeError', node)
    I.state.symitems = I.state.symitems + ((v, k, x),)


def set_slice(I, v, k, new, node):
    """Replaces a slice of a list."""
    I.ev('w', (v, 'item', k), node)
    o = I.o(v)
    if all(isinstance(b, Const) for b in k.args) and k.args[2] in (NONE, C(1)):
        lo, hi = k.args[0].v, k.args[1].v
        if lo in (None, 0) and hi is None:
            I.m(v).segs = tuple(new)
            return
        vals = ones(o.segs)
        if vals is not None:
            segs = list(o.segs)
            segs[lo:hi] = list(new)
            I.m(v).segs = tuple(segs)
            return
    raise _i.Undecided('changes of slices')


def _opq_after(I, what, segs, *a):
    return Opq(what, segs, tuple(freeze_val(I, x) for x in a))


def del_item(I, v, k, node):
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.DictObj):
            if getattr(o, 'live', False):
                return through(I, v, lambda: del_item(I, v, k, node))
            r = dict_lookup(I, o.segs, k, node)
            if r is None:
                I.throw('KeyError', node)
            I.ev('w', (v, 'delitem', k), node)
            d = I.m(v)
            d.segs = dict_without(I, d.segs, k, node)
            return
        if isinstance(o, _i.ListObj):
            if isinstance(k, App) and k.op == 'slc':
                return set_slice(I, v, k, (), node)
            I.ev('w', (v, 'delitem', k), node)
            vals = ones(o.segs)
            if is_const(k, int) and vals is not None and not -len(vals) <= k.v < len(vals):
                I.throw('IndexError', node)
            if is_const(k, int) and vals is not None and -len(vals) <= k.v < len(vals):
                del vals[k.v]
                I.m(v).segs = tuple(One(y) for y in vals)
                return
            I.m(v).segs = (_opq_after(I, 'del', o.segs, k),)
            return
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__delitem__')
            if f is not None and isinstance(f[0], Ref):
                I.call_method_desc(f[0], v, o.cls, [k], [], node)
                return
            if o.payload is not None:
                del_item(I, o.payload, k, node)
                return
        I.throw('TypeError', node)
    I.maybe_raise(['KeyError'], App('in', freeze_val(I, k), v), node)
    I.ev('w', (v, 'delitem', k), node)
    I.state.symitems = I.state.symitems + ((v, k, None),)


def dict_without(I, segs, k, node):
    """Pair segments after deleting key k."""
    fk = freeze_val(I, k)
    out = []
    for s in segs:
        if isinstance(s, One):
            e = eq(I, k, pair_get(I, s.val, 0), node)
            if not I.branch(e):
                out.append(s)
        elif isinstance(s, Each):
            alts = []
            for g, sg in s.alts:
                for q in sg:
                    if isinstance(q, One):
                        kk = pair_get(I, q.val, 0)
                        e = App('eq', *sort2(fk, kk))
                        alts.append((g + ((e, False),), (q,)))
                    else:
                        alts.append((g, (_opq_after(I, 'del', (q,), k),)))
            out.append(Each(s.b, s.src, tuple(alts)))
        elif isinstance(s, Perm):
            out.append(Perm(s.how, dict_without(I, s.segs, k, node)))
        else:
            out.append(_opq_after(I, 'del', (s,), k))
    return tuple(out)


# ------------------------------------------------------------------ mutation helpers

def list_extend(I, ref, v, node):
    segs = I.iter_segs(v, node)
    I.ev('w', (ref, 'extend', v), node)
    I.m(ref).segs += tuple(segs)


def dict_update(I, ref, v, node, kw=()):
    segs = tuple(pairs_of(I, v, node)) if v is not None else ()
    for k, x in kw:
        if k == '**':
            segs += tuple(pairs_of(I, x, node))
        else:
            segs += (One(tup(C(k), x)),)
    I.ev('w', (ref, 'update', v, tuple(segs)), node)
    d = I.m(ref)
    allc = all(isinstance(s, One) and isinstance(pair_get(I, s.val, 0), Const) for s in d.segs + segs)
    if allc:
        cur = {}
        for s in d.segs + segs:
            cur[pair_get(I, s.val, 0)] = s
        d.segs = tuple(cur.values())
    else:
        d.segs = merge_pairs(I, d.segs + tuple(segs))


def set_update(I, ref, v, node):
    segs = strip_perm(I.iter_segs(v, node))
    I.ev('w', (ref, 'update', v), node)
    I.m(ref).segs += segs


def builtin_init(I, pay, args, kw, node):
    if not isinstance(pay, Ref):
        return
    o = I.o(pay)
    if isinstance(o, _i.DictObj):
        I.m(pay).segs = dict_segs(I, args, kw, node)
    elif isinstance(o, _i.ListObj):
        I.m(pay).segs = tuple(I.iter_segs(args[0], node)) if args else ()
    elif isinstance(o, _i.SetObj):
        I.m(pay).segs = strip_perm(I.iter_segs(args[0], node)) if args else ()


def dict_segs(I, args, kw, node):
    segs = ()
    if args:
        segs = tuple(pairs_of(I, args[0], node))
        if any(unhashable(I, pair_get(I, s.val, 0)) for s in segs if isinstance(s, One)):
            I.throw('TypeError', node)
    for k, v in kw:
        if k == '**':
            segs += tuple(pairs_of(I, v, node))
        else:
            segs += (One(tup(C(k), v)),)
    return segs


# ------------------------------------------------------------------ attributes

_CONT = None


def cont_type(I, v):
    if isinstance(v, Const):
        return type(v.v)
    if isinstance(v, Tmpl):
        return str
    if isinstance(v, Tup):
        return tuple
    o = I.obj(v)
    if isinstance(o, _i.ListObj):
        return list
    if isinstance(o, _i.DictObj):
        return real(o.kind) or dict
    if isinstance(o, _i.SetObj):
        return frozenset if o.frozen else set
    if isinstance(o, _i.IterObj):
        return type(iter(()))
    return None


def type_of(I, v):
    if I.isobj(v, _i.ClassObj) and I.o(v).meta is not None:
        return I.o(v).meta
    ti = I.typeinfo(v)
    if ti.exact is not None:
        return ti.exact
    return App('type', freeze_val(I, v))


BUILTIN_NAMES = frozenset(n for n in dir(builtins) if n.isidentifier())
_FRAMEINFO = {'frame': 0, 'filename': 1, 'lineno': 2, 'function': 3}
_ARGSPEC = {'args': 0, 'varargs': 1, 'varkw': 2, 'keywords': 2, 'defaults': 3, 'kwonlyargs': 4, 'kwonlydefaults': 5}
_ARGVALUES = {'args': 0, 'varargs': 1, 'keywords': 2, 'locals': 3}


def get_attr(I, v, name, node, default=None):
    if isinstance(v, App) and v.op == 'peg:node' and name != '__class__':
        return peg.node_attr(I, v, name, node)
    if isinstance(v, App) and v.op == 'peg:parser' and name == 'parse':
        return App('bmeth', v, name)
    if name == '__class__' and not I.isobj(v, _i.InstObj):
        return type_of(I, v)
    if isinstance(v, Tup) and (name in _FRAMEINFO and len(v.segs) == 6 or name in _ARGVALUES and len(v.segs) == 4) and \
            all(isinstance(q, One) for q in v.segs):
        # the named tuples of inspect
        return v.segs[(_FRAMEINFO if len(v.segs) == 6 else _ARGVALUES)[name]].val
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.ModObj):
            f = I.o(o.frame)
            if name in f.vars:
                x = f.vars[name]
                if isinstance(x, App) and x.op == 'undecided':
                    raise _i.Undecided(x.args[0])
                return x
            if I.module_file(o.name + '.' + name):
                return I.load_module(o.name + '.' + name)
            return missing(I, node, default)
        if isinstance(o, _i.FrameObj):
            return frame_attr(I, v, name, node)
        if isinstance(o, _i.FuncObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__qualname__':
                return C(I.qn.get((o.module, o.qual), o.name))
            if name == '__name__':
                return C(o.name)
            if name == '__module__':
                return C(o.module)
            if name == '__doc__':
                return C(ast.get_docstring(o.node, False) if not isinstance(o.node, ast.Lambda) and o.node is not None else None)
            if name == '__annotations__' and annotated(o.node) is False:
                return I.new(_i.DictObj(()))
            if name == '__defaults__':
                return tup(*o.defaults) if o.defaults else NONE
            if name == '__dict__':
                return live(I, _i.DictObj(One(tup(C(k), x)) for k, x in o.attrs.items() if k not in ASSIGNED))
            if name == '__closure__':
                names = free_names(I, o)
                return tup(*[App('cell', v, n) for n in sorted(names)]) if names else NONE
            if name in ('__code__', '__globals__', '__kwdefaults__', '__annotations__'):
                return App('attr', v, name)
            if name == '__call__':
                return v
            return missing(I, node, default)
        if isinstance(o, _i.ClassObj):
            if name == '__qualname__':
                return C(I.qn.get((o.module, o.qual), o.name))
            if name == '__name__':
                return C(o.name)
            if name == '__module__':
                return C(o.module)
            if name == '__mro__':
                return tup(*o.mro)
            if name == '__bases__':
                return tup(*o.bases)
            if name == '__dict__':
                return live(I, _i.DictObj(One(tup(C(k), x)) for k, x in namespace(I, v).items()))
            f = I.class_lookup(v, name)
            if f is not None:
                return I.bind_attr(f[0], None, v, node)
            if name == '__subclasses__':
                return App('subclassesof', v)
            if name.startswith('__'):
                return App('attr', v, name)
            return missing(I, node, default)
        if isinstance(o, _i.InstObj):
            return inst_attr(I, v, o, name, node, default)
        if isinstance(o, _i.PartialObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == 'func':
                return o.func
            if name == 'args':
                segs = []
                for a in o.args:
                    if isinstance(a, App) and a.op == 'star':
                        segs.extend(I.sym_segs(a.args[0]) if not isinstance(a.args[0], Tup) else a.args[0].segs)
                    else:
                        segs.append(One(a))
                return simp_tuple(I, tuple(segs))
            if name == 'keywords':
                if o.kwdict is None:
                    d = I.new(_i.DictObj(dict_segs(I, [], list(o.kwargs), node)))
                    I.m(v).kwdict = d
                    return d
                return o.kwdict
            if name == '__dict__':
                return live(I, _i.DictObj(One(tup(C(k), x)) for k, x in o.attrs.items()))
            if name in ('__call__', '__doc__'):
                return App('attr', v, name)
            return missing(I, node, default)
        if isinstance(o, _i.DescObj):
            if name in ('setter', 'getter', 'deleter'):
                return App('bmeth', v, name)
            if name in ('fget', '__func__'):
                return o.func
            return missing(I, node, default)
    if isinstance(v, App) and v.op == 'cell' and name == 'cell_contents':
        fr = I.o(v.args[0]).closure
        while fr is not None:
            if v.args[1] in I.o(fr).vars:
                return I.o(fr).vars[v.args[1]]
            fr = I.o(fr).parent
    ct = cont_type(I, v)
    if ct is not None:
        if _i.instance_has(ct, name):
            if isinstance(v, Const) and name in ('real', 'imag', 'numerator'):
                return C(getattr(v.v, name))
            if name == '__dict__':
                return missing(I, node, default)
            return App('bmeth', v, name)
        return missing(I, node, default)
    if isinstance(v, Ext):
        if v.path == 'scenario':
            x = I.o(I.scenario_frame).vars.get(name)
            return missing(I, node, default) if x is None else x
        if v.path in KNOWN_MODULES and not hasattr(KNOWN_MODULES[v.path], name):
            return missing(I, node, default)
        if real(v) is not None and not hasattr(real(v), name):
            return missing(I, node, default)
        if real(v) is not None and name == '__name__':
            return C(real(v).__name__)
        if name in ('__name__', '__qualname__') and v.path.startswith('builtins.') and v.path[9:] in BUILTIN_NAMES:
            return C(v.path[9:])
        if name == '__name__' and real(v) is None and v.path.split('.')[0] not in sys.stdlib_module_names and \
                v.path.rpartition('.')[2][:1].isupper():
            return C(v.path.rpartition('.')[2])       # a class of a library that is not analysed
        if name == '__module__' and v.path.startswith('builtins.') and isinstance(real(v), type):
            return C('builtins')
        r = I.ext_attr(v, name)
        if default is not None and real(v) is None:
            if not I.branch(fold(I, App('hasattr', v, name))):
                return default
        return r
    if isinstance(v, App):
        if v.op == 'super':
            return super_attr(I, v, name, node)
        if v.op == 'exc' and name == 'args':
            return tup(*[a for a in v.args[1]])
        if v.op == 'bound':
            if name == '__self__':
                return v.args[1]
            if name == '__func__':
                return v.args[0]
            return get_attr(I, v.args[0], name, node, default)
        if v.op == 'bmeth':
            if name == '__self__':
                return v.args[0]
            if name == '__name__':
                return C(v.args[1])
        if v.op == 'attr' and v.args[1] == '__code__' and I.isobj(v.args[0], _i.FuncObj):
            o = I.o(v.args[0])
            a = o.node.args
            if name == 'co_name':
                return C(o.name)
            if name == 'co_argcount':
                return C(len(getattr(a, 'posonlyargs', []) + a.args))
            if name == 'co_freevars':
                return tup(*[C(n) for n in sorted(free_names(I, o))])
        src = v.args[0] if v.op in ('getitem', 'at') else None
        if src is not None and isinstance(src, App) and src.op == 'call' and src.args[0] == Ext('inspect.stack') \
                and name in _FRAMEINFO:
            return App('getitem', v, C(_FRAMEINFO[name]))
        if v.op == 'call' and v.args[0] in (Ext('inspect.getfullargspec'), Ext('inspect.getargspec')) \
                and name in _ARGSPEC:
            return App('getitem', v, C(_ARGSPEC[name]))
        if v.op == 'call' and v.args[0] == Ext('inspect.getargvalues') and name in _ARGVALUES:
            return App('getitem', v, C(_ARGVALUES[name]))
        if v.op == 'type' and name in ('__name__', '__qualname__', '__module__', '__mro__'):
            return App('attr', v, name)
    # symbols and opaque values
    if (v, name) in I.state.symattr:
        return I.state.symattr[(v, name)]
    ti = I.typeinfo(v)
    for t in ([ti.exact] if ti.exact is not None else []) + sorted(ti.isa, key=repr):
        if isinstance(t, Ref):
            f = I.class_lookup(t, name)
            if f is not None:
                if isinstance(f[0], Ref) and isinstance(I.o(f[0]), (_i.FuncObj, _i.DescObj)):
                    return I.bind_attr(f[0], v, t, node)
            slots = class_slots(I, t)
            if name in slots:
                return App('attr', v, name)
            if ti.exact == t and f is None and slots and all(x == T['object'] or (
                    isinstance(x, Ref) and class_slots(I, x)) for x in I.o(t).mro):
                return missing(I, node, default)
        else:
            r = real(t)
            if r is not None:
                if _i.instance_has(r, name):
                    a = getattr(r, name)
                    if name in ('func', 'args', 'keywords', '__name__', '__dict__', '__closure__', '__code__',
                                '__defaults__', '__doc__', '__module__', '__self__', '__qualname__', '__func__'):
                        if name in ('func', 'args', 'keywords') and t == T['partial']:
                            x = App('attr', v, name)
                            if name == 'args':
                                I.set_type(x, exact=T['tuple'])
                            if name == 'keywords':
                                I.set_type(x, exact=T['dict'])
                            return x
                        return App('attr', v, name)
                    if callable(a):
                        return App('bmeth', v, name)
                elif t == ti.exact and I.decide(App('hasattr', v, name)) is False:
                    return missing(I, node, default)
    if default is not None:
        d = I.decide(App('hasattr', v, name))
        if d is None:
            if not I.branch(App('hasattr', v, name)):
                return default
        elif not d:
            return default
    else:
        d = I.decide(App('hasattr', v, name))
        if d is False:
            I.throw('AttributeError', node)
        I.maybe_raise(['AttributeError'], App('hasattr', v, name), node)
    return App('attr', v, name)


def free_names(I, o):
    """Names of the function that live in an enclosing function."""
    body = o.node.body if isinstance(o.node.body, list) else [o.node.body]
    names = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)}
    out = set()
    fr = o.closure
    while fr is not None:
        f = I.o(fr)
        if getattr(f, 'parent', None) is None or f.is_class:
            if not f.is_class:
                break
        else:
            out |= {n for n in names if n in f.vars and not n.startswith('$')}
        fr = f.parent
    a = o.node.args
    own = {x.arg for x in a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
    own |= {n.id for n in ast.walk(o.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return out - own


def class_slots(I, t):
    out = set()
    for c in I.o(t).mro:
        if isinstance(c, Ref):
            s = I.o(c).attrs.get('__slots__')
            if s is None:
                continue
            if is_const(s, str):
                out.add(s.v)
            else:
                segs = s.segs if isinstance(s, Tup) else I.o(s).segs
                out |= {x.v for x in (ones(segs) or ()) if isinstance(x, Const)}
    return out


def annotated(node):
    if isinstance(node, ast.Lambda):
        return False
    a = getattr(node, 'args', None)
    if a is None:
        return None
    return node.returns is not None or any(x is not None and x.annotation is not None
                                           for x in a.args + a.kwonlyargs + a.posonlyargs + [a.vararg, a.kwarg])


def live(I, d, owner=None):
    """The dictionary of an object: reading it is a snapshot, changing it changes the object."""
    d.live = True
    d.of = owner
    return I.new(d)


def through(I, ref, change):
    """Makes a change to the dictionary of an object, and to the object."""
    o = I.o(ref)
    owner = getattr(o, 'of', None)
    if owner is None:
        raise _i.Undecided('changes through __dict__')
    I.state.mut(ref.id).live = False
    r = change()
    o = I.state.mut(ref.id)
    o.live = True
    pairs = {}
    for s in o.segs:
        k = pair_get(I, s.val, 0) if isinstance(s, One) else None
        if not is_const(k, str):
            raise _i.Undecided('changes through __dict__')
        pairs[k.v] = pair_get(I, s.val, 1)
    slots = class_slots(I, I.o(owner).cls) if isinstance(I.o(owner).cls, Ref) else ()
    attrs = I.o(owner).attrs
    for n in set(attrs) | set(pairs):
        if n not in slots and attrs.get(n) != pairs.get(n):
            I.ev('w', (owner, 'attr', C(n), pairs.get(n) or NONE), None)
    attrs = {n: x for n, x in attrs.items() if n in slots}
    attrs.update(pairs)
    I.m(owner).attrs = attrs
    return r


def no_dict(I, cls):
    return all(('__slots__' in I.o(c).attrs) if isinstance(c, Ref) else c == T['object'] for c in I.o(cls).mro) \
        and '__dict__' not in class_slots(I, cls)


def missing(I, node, default):
    if default is not None:
        return default
    I.throw('AttributeError', node)


def inst_attr(I, v, o, name, node, default, raw=False):
    if not raw:
        g = I.class_lookup(o.cls, '__getattribute__')
        if g is not None and isinstance(g[0], Ref):
            return I.call_method_desc(g[0], v, o.cls, [C(name)], [], node)
    if name == '__class__':
        return o.cls
    f = I.class_lookup(o.cls, name)
    if f is not None and I.isobj(f[0], _i.DescObj) and I.o(f[0]).kind == 'property':
        return I.bind_attr(f[0], v, o.cls, node)
    if name in o.attrs:
        return o.attrs[name]
    if f is not None:
        if isinstance(f[0], App) and f[0].op == 'attr':
            return App('bmeth', v, name)
        return I.bind_attr(f[0], v, o.cls, node)
    if name == '__dict__':
        sl = class_slots(I, o.cls)
        if no_dict(I, o.cls):
            return missing(I, node, default)
        return live(I, _i.DictObj(One(tup(C(k), x)) for k, x in o.attrs.items() if k not in sl), v)
    if name in ('__eq__', '__hash__', '__str__', '__repr__', '__init__', '__doc__', '__module__', '__setattr__',
                '__getattribute__', '__reduce__'):
        return App('bmeth', v, name)
    ga = I.class_lookup(o.cls, '__getattr__')
    if ga is not None and isinstance(ga[0], Ref):
        return I.call_method_desc(ga[0], v, o.cls, [C(name)], [], node)
    return missing(I, node, default)


def super_attr(I, sup, name, node):
    cls, self_v = sup.args
    tcls = I.o(self_v).cls if I.isobj(self_v, _i.InstObj) else (
        self_v if I.isobj(self_v, _i.ClassObj) else cls)
    mro = list(I.o(tcls).mro) if isinstance(tcls, Ref) else []
    rest = mro[mro.index(cls) + 1:] if cls in mro else list(I.o(cls).mro)[1:]
    for c in rest:
        if isinstance(c, Ref):
            f = I.o(c).attrs.get(name)
            if f is not None:
                return I.bind_attr(f, self_v, tcls, node)
        elif c != T['object']:
            return App('sattr', sup, name)
    return App('sattr', sup, name)


def super_method(I, sup, name, args, kw, node):
    cls, self_v = sup.args
    if I.isobj(self_v, _i.InstObj):
        o = I.o(self_v)
        if o.payload is not None:
            if name == '__init__':
                builtin_init(I, o.payload, args, kw, node)
                return NONE
            return method(I, o.payload, name, args, kw, node)
        if name == '__getattribute__' and args and is_const(args[0], str):
            return inst_attr(I, self_v, o, args[0].v, node, None, raw=True)
        if name == '__setattr__' and len(args) == 2 and is_const(args[0], str):
            I.ev('w', (self_v, 'attr', args[0], args[1]), node)
            I.m(self_v).attrs[args[0].v] = args[1]
            return NONE
        if name == '__init__':
            if Ext('arpeggio.PTNodeVisitor') in I.o(o.cls).mro:
                I.setattr(self_v, 'defaults', kwget(args, kw, 0, 'defaults', TRUE), node)
            return NONE
    if name == '__new__':
        a = [x for x in args if I.isobj(x, _i.ClassObj)]
        if a:
            return I.new_instance(a[0])
    return I.opaque_call(App('attr', App('superof', freeze_val(I, self_v)), name), args, kw, node) \
        if False else App('call', App('sattr', freeze_val(I, self_v), name), tuple(freeze_val(I, x) for x in args),
                          tuple((k, freeze_val(I, x)) for k, x in kw))


# ------------------------------------------------------------------ methods of builtin objects

_UNBOUND = ('str', 'bytes', 'list', 'dict', 'set', 'frozenset', 'tuple', 'int', 'float', 'bool')
_WRITERS = frozenset(('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__',
                      'intersection_update', 'difference_update', 'symmetric_difference_update', 'move_to_end', '__init__', '__iadd__', '__ior__'))


def unbound_method(I, f, args, kw, node):
    """str.lower(x), dict.update(d, e)...: the method of a class called with the object; None when it is something else."""
    owner, _, name = f.path.rpartition('.')
    mod, _, cls = owner.rpartition('.')
    if not args or (mod, cls) != ('collections', 'OrderedDict') and (mod != 'builtins' or cls not in _UNBOUND):
        return None
    real_ = getattr(dict if mod == 'collections' else getattr(builtins, cls), name, None)
    if real_ is None or not callable(real_) or name in ('__new__', '__init_subclass__', '__subclasshook__', 'fromkeys', 'maketrans', 'fromhex', 'from_bytes'):
        return None
    x = I.resolve(args[0])
    t = Ext(owner)
    ok = fold(I, App('isinstance', x if isinstance(x, Ref) else freeze_val(I, x), t))
    if ok == TRUE:
        if I.isobj(x, _i.InstObj):
            if I.o(x).payload is None:
                return None
            return super_method(I, App('super', I.o(x).cls, x), name, list(args[1:]), kw, node)
        return method(I, x, name, list(args[1:]), kw, node)
    if ok == FALSE:
        I.throw('TypeError', node)
    if name in _WRITERS:
        raise _i.Undecided('%s of an object of unknown class' % f.path)
    return None


_STR_PURE = frozenset(n for n in dir(str) if not n.startswith('_'))


def method(I, obj, name, args, kw, node):
    obj = I.resolve(obj)
    if isinstance(obj, App) and obj.op == 'peg:parser':
        r = peg.parse_method(I, obj, name, args, kw, node)
        if r is not None:
            return r
    if isinstance(obj, App) and obj.op == 'desc' and name == '__get__' and args:
        if obj.args[2] == 'getset':
            return NONE
        return I.getattr(args[0], obj.args[1], node)
    if isinstance(obj, Ref):
        o = I.o(obj)
        if isinstance(o, _i.InstObj) and o.payload is not None and not (
                isinstance((I.class_lookup(o.cls, name) or (None,))[0], Ref)):
            return method(I, o.payload, name, args, kw, node)
        if isinstance(o, _i.ListObj):
            return list_method(I, obj, o, name, args, kw, node)
        if isinstance(o, _i.DictObj):
            return dict_method(I, obj, o, name, args, kw, node)
        if isinstance(o, _i.SetObj):
            return set_method(I, obj, o, name, args, kw, node)
        if isinstance(o, _i.IterObj):
            if name == '__next__':
                return m_next(I, [obj], [], node, None)
            if name in ('__iter__',):
                return obj
        if isinstance(o, _i.DescObj) and name in ('setter', 'getter', 'deleter'):
            d = _i.DescObj(o.kind, o.func)
            d.attrs = dict(o.attrs)
            d.attrs[name] = args[0]
            return I.new(d)
        if isinstance(o, _i.InstObj):
            if name == '__hash__':
                return m_hash(I, [obj], [], node, None)
            if name == '__setattr__':
                I.setattr(obj, args[0].v, args[1], node)
                return NONE
            if name == '__init__':
                return NONE
    if isinstance(obj, (Const, Tmpl)) or I.typeinfo(obj).exact == T['str']:
        r = str_method(I, obj, name, args, kw, node)
        if r is not None:
            return r
    if isinstance(obj, Tup):
        if name == 'index' or name == 'count':
            vals = ones(obj.segs)
            if name == 'index' and vals is not None:
                for i, x in enumerate(vals):
                    if I.branch(eq(I, args[0], x, node)):
                        return C(i)
                I.throw('ValueError', node)
            return App('mcall', obj, name, tuple(freeze_val(I, a) for a in args), ())
        if name == '__getitem__':
            return get_item(I, obj, args[0], node)
        if name == '__contains__':
            return contains(I, args[0], obj, node)
        if name == '__len__':
            return m_len(I, [obj], [], node, None)
        if name == '__iter__':
            return I.new(_i.IterObj(obj.segs))
        if name == 'copy':
            pass
        if name == 'isdisjoint':
            return setop_bool(I, obj, name, args, node)
    # opaque receivers of known type
    m = sym_method(I, obj, name)
    if m is not None:
        return I.call(m, [obj] + list(args), kw, node)
    ti = I.typeinfo(obj)
    ts = [t for t in [ti.exact] + list(ti.isa) if t is not None]
    isdict = any(I.issub(t, T['dict']) for t in ts)
    known_other = any(real(t) is not None and not I.issub(t, T['dict']) for t in ts if t != T['object'])
    if isdict or (not known_other and name in ('items', 'keys', 'values', 'iteritems') and not args and not kw
                  and not any(isinstance(t, Ref) for t in ts)):
        if name in ('items', 'iteritems', 'viewitems'):
            I.ev('iter', (obj, 'view'), node)
            return Tup(sym_pairs(I, obj))
        if name in ('keys', 'iterkeys', '__iter__'):
            I.ev('iter', (obj, 'view'), node)
            return Tup(map_segs(I, sym_pairs(I, obj), lambda p: pair_get(I, p, 0)))
        if name in ('values', 'itervalues'):
            I.ev('iter', (obj, 'view'), node)
            return Tup(map_segs(I, sym_pairs(I, obj), lambda p: pair_get(I, p, 1)))
        if name == 'copy' and not args:
            if ti.exact is not None and ti.exact in (T['dict'], T['OrderedDict']):
                return I.new(_i.DictObj(sym_pairs(I, obj), ti.exact))
    if isdict or name == 'get' and not known_other and len(args) in (1, 2):
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            if I.branch(contains(I, args[0], obj, node)):
                return get_item(I, obj, args[0], node)
            return d
    if isdict:
        if name == '__getitem__':
            return get_item(I, obj, args[0], node)
        if name == '__contains__':
            return contains(I, args[0], obj, node)
    if any(I.issub(t, s) for t in ts for s in (T['list'], T['set'], T['frozenset'])):
        if name == 'copy' and not args:
            if ti.exact == T['list']:
                return I.new(_i.ListObj(I.iter_segs(obj, node)))
            if ti.exact in (T['set'], T['frozenset']):
                return I.new(_i.SetObj(strip_perm(I.iter_segs(obj, node)), ti.exact == T['frozenset']))
    if name == '__contains__' and len(args) == 1:
        return contains(I, args[0], obj, node)
    if name == '__getitem__' and len(args) == 1:
        return get_item(I, obj, args[0], node)
    if is_setlike(I, obj) and name in ('union', 'difference', 'intersection'):
        return set_binary(I, strip_perm(I.iter_segs(obj, node)), name, args, node)
    fargs = tuple(I.freeze_arg(a) for a in args)
    fkw = tuple((k, I.freeze_arg(v)) for k, v in kw)
    r = App('mcall', freeze_val(I, obj), name, fargs, fkw)
    if name in MUTATORS:
        I.ev('w', (obj, name, tuple(args), tuple(kw)), node)
    if name == '__setitem__' and len(args) == 2:
        I.state.symitems = I.state.symitems + ((obj, args[0], args[1]),)
        return NONE
    if name == 'update' and (isdict or not known_other) and args:
        if isinstance(args[0], Ref):
            ps = pairs_of(I, args[0], node)
            for s in ps:
                if isinstance(s, One):
                    I.state.symitems = I.state.symitems + ((obj, pair_get(I, s.val, 0), pair_get(I, s.val, 1)),)
        return NONE
    I.ev('call', (App('attr', obj, name), tuple(args), tuple(kw), r), node)
    I.opaque_may_raise(App('attr', obj, name), r, node)
    return r


def str_method(I, obj, name, args, kw, node):
    if name == 'join' and len(args) == 1:
        return join(I, obj, I.iter_segs(args[0], node), node)
    if name == 'format' and is_const(obj, str):
        r = str_format(I, obj.v, args, kw, node)
        if r is not None:
            return r
    if name in ('__str__',):
        return obj
    if name == '__len__':
        return m_len(I, [obj], [], node, None)
    if name == '__mod__' and is_const(obj, str):
        return percent(I, obj, args[0], node)
    if name == '__contains__':
        return contains(I, args[0], obj, node)
    if name == '__add__':
        return concat(I, [obj, args[0]])
    if is_const(obj, str, bytes) and all(isinstance(a, Const) for a in args) and not kw and name in _STR_PURE:
        try:
            r = getattr(obj.v, name)(*[a.v for a in args])
        except Exception as e:
            I.throw(type(e).__name__ if type(e).__name__ in T else 'ValueError', node)
        if isinstance(r, (str, bool, int, bytes)):
            return C(r)
        if isinstance(r, tuple):
            return tup(*[C(x) for x in r])
        if isinstance(r, list):
            return I.new(_i.ListObj(One(C(x)) for x in r))
    if isinstance(obj, Const) and not isinstance(obj.v, (str, bytes)):
        return None
    if name in ('startswith', 'endswith') and len(args) == 1 and is_const(args[0], str):
        if args[0].v == '':
            return TRUE
        if isinstance(obj, Tmpl):
            p = obj.parts[0 if name == 'startswith' else -1]
            if isinstance(p, str) and len(p) >= len(args[0].v):
                return C(getattr(p, name)(args[0].v))
            if isinstance(p, str) and not getattr(args[0].v, name)(p):
                return FALSE
        if name == 'startswith':
            d = peg.starts(I, obj, args[0].v)
            if d is not None:
                return C(d)
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], Tup) and ones(args[0].segs):
        for x in ones(args[0].segs):
            if I.branch(str_method(I, obj, name, [x], kw, node)):
                return TRUE
        return FALSE
    if name in ('partition', 'rpartition') and len(args) == 1 and is_const(args[0], str) and args[0].v and isinstance(obj, Tmpl):
        sep = args[0].v
        parts = obj.parts if name == 'partition' else obj.parts[::-1]
        for i, p in enumerate(parts):
            if isinstance(p, str):
                if sep in p:
                    a, _, b = getattr(p, name)(sep)
                    k = i if name == 'partition' else len(parts) - 1 - i
                    return tup(untext(I, [x for x in list(obj.parts[:k]) + [a] if x != '']), C(sep),
                               untext(I, [x for x in [b] + list(obj.parts[k + 1:]) if x != '']))
                if set(sep) & set(p) and len(sep) > 1:
                    break
                continue
            lang = peg.language(I, p.val, p.conv) if isinstance(p, Hole) else None
            if lang is None and len(sep) == 1 and isinstance(p, Hole) and p.conv == 's' and I.decide(App('in', C(sep), p.val)) is False:
                continue
            if lang is None or set(sep) & lang.chars():
                break
        else:
            return tup(obj, C(''), C('')) if name == 'partition' else tup(C(''), C(''), obj)
    if name == 'replace' and len(args) == 2 and is_const(args[0], str) and args[0].v:
        lang = peg.language(I, obj, 's') if not isinstance(obj, Tmpl) else None
        if lang is not None and not set(args[0].v) <= lang.chars():
            return obj
        if isinstance(obj, Tmpl):
            langs = [None if isinstance(p, str) else peg.language(I, p.val, p.conv) for p in obj.parts]
            chars = [set(p) if isinstance(p, str) else l and l.chars() for p, l in zip(obj.parts, langs)]
            if None not in chars and not set(args[0].v) <= set().union(*chars):
                return obj
            if len(args[0].v) == 1 and is_const(args[1], str) and all(isinstance(p, str) or c is not None and args[0].v not in c
                                                                      for p, c in zip(obj.parts, chars)):
                return untext(I, [p.replace(args[0].v, args[1].v) if isinstance(p, str) else p for p in obj.parts])
    r = App('m:' + name, freeze_val(I, obj), *[freeze_val(I, a) for a in args])
    if name == 'find' or name == 'index':
        pass
    return fold(I, r)


def list_method(I, ref, o, name, args, kw, node):
    if name == 'append':
        I.ev('w', (ref, 'append', args[0]), node)
        I.m(ref).segs += (One(args[0]),)
        return NONE
    if name in ('extend', '__iadd__'):
        list_extend(I, ref, args[0], node)
        return NONE
    if name == 'copy':
        return I.new(_i.ListObj(o.segs))
    if name == 'sort':
        I.ev('w', (ref, 'sort'), node)
        I.m(ref).segs = sort_segs(I, o.segs, kw, node)
        return NONE
    if name == 'reverse':
        I.ev('w', (ref, 'reverse'), node)
        I.m(ref).segs = reverse_segs(o.segs)
        return NONE
    if name == 'clear':
        I.ev('w', (ref, 'clear'), node)
        I.m(ref).segs = ()
        return NONE
    vals = ones(o.segs)
    if name == 'pop':
        I.ev('w', (ref, 'pop'), node)
        if vals is not None:
            i = args[0] if args else C(-1)
            if is_const(i, int):
                if not -len(vals) <= i.v < len(vals):
                    I.throw('IndexError', node)
                x = vals.pop(i.v)
                I.m(ref).segs = tuple(One(y) for y in vals)
                return x
        I.m(ref).segs = (_opq_after(I, 'pop', o.segs),)
        return App('popped', Frozen('seq', o.segs), *[freeze_val(I, a) for a in args])
    if name == 'insert':
        I.ev('w', (ref, 'insert', args[0], args[1]), node)
        if is_const(args[0], int) and (vals is not None or args[0].v == 0):
            s = list(o.segs)
            s.insert(args[0].v, One(args[1]))
            I.m(ref).segs = tuple(s)
            return NONE
        I.m(ref).segs = (_opq_after(I, 'insert', o.segs, args[0], args[1]),)
        return NONE
    if name in ('index', 'remove', 'count'):
        if vals is not None and name != 'count':
            for i, x in enumerate(vals):
                if I.branch(eq(I, args[0], x, node)):
                    if name == 'index':
                        return C(i)
                    I.ev('w', (ref, 'remove', args[0]), node)
                    del vals[i]
                    I.m(ref).segs = tuple(One(y) for y in vals)
                    return NONE
            I.throw('ValueError', node)
        fo = Frozen('seq', o.segs)
        if name == 'index':
            I.maybe_raise(['ValueError'], contains_atom(I, args[0], o.segs), node)
            return App('indexof', fo, freeze_val(I, args[0]))
        if name == 'remove':
            I.maybe_raise(['ValueError'], contains_atom(I, args[0], o.segs), node)
            I.ev('w', (ref, 'remove', args[0]), node)
            I.m(ref).segs = (_opq_after(I, 'remove', o.segs, args[0]),)
            return NONE
        return App('mcall', fo, name, tuple(freeze_val(I, a) for a in args), ())
    if name == '__getitem__':
        return get_item(I, ref, args[0], node)
    if name == '__setitem__':
        set_item(I, ref, args[0], args[1], node)
        return NONE
    if name == '__contains__':
        return contains(I, args[0], ref, node)
    if name == '__len__':
        return m_len(I, [ref], [], node, None)
    if name == '__iter__':
        return I.new(_i.IterObj(o.segs))
    raise _i.Undecided('list.%s' % name)


def contains_atom(I, x, segs):
    src = identity_src(strip_perm(segs))
    return App('in', freeze_val(I, x), src if src is not None else Frozen('seq', segs))


def dict_method(I, ref, o, name, args, kw, node):
    if getattr(o, 'live', False) and name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
        return through(I, ref, lambda: dict_method(I, ref, I.o(ref), name, args, kw, node))
    if name in ('items', 'iteritems'):
        return Tup(o.segs)
    if name in ('keys', 'iterkeys'):
        return Tup(map_segs(I, o.segs, lambda p: pair_get(I, p, 0)))
    if name in ('values', 'itervalues'):
        return Tup(map_segs(I, o.segs, lambda p: pair_get(I, p, 1)))
    if name == 'get':
        r = dict_lookup(I, o.segs, args[0], node)
        return r if r is not None else (args[1] if len(args) > 1 else NONE)
    if name == 'copy':
        return I.new(_i.DictObj(o.segs, o.kind))
    if name == 'update':
        dict_update(I, ref, args[0] if args else None, node, kw)
        return NONE
    if name == 'pop':
        r = dict_lookup(I, o.segs, args[0], node)
        if r is None:
            if len(args) > 1:
                return args[1]
            I.throw('KeyError', node)
        I.ev('w', (ref, 'delitem', args[0]), node)
        I.m(ref).segs = dict_without(I, I.o(ref).segs, args[0], node)
        return r
    if name == 'setdefault':
        r = dict_lookup(I, o.segs, args[0], node)
        if r is None:
            r = args[1] if len(args) > 1 else NONE
            set_item(I, ref, args[0], r, node)
        return r
    if name == 'clear':
        I.ev('w', (ref, 'clear'), node)
        I.m(ref).segs = ()
        return NONE
    if name == 'popitem':
        I.ev('w', (ref, 'popitem'), node)
        I.m(ref).segs = (_opq_after(I, 'popitem', o.segs),)
        return App('popped', Frozen('seq', o.segs))
    if name in ('__getitem__',):
        return get_item(I, ref, args[0], node)
    if name == '__setitem__':
        set_item(I, ref, args[0], args[1], node)
        return NONE
    if name == '__delitem__':
        del_item(I, ref, args[0], node)
        return NONE
    if name == '__contains__':
        return contains(I, args[0], ref, node)
    if name == '__len__':
        return m_len(I, [ref], [], node, None)
    if name == '__iter__':
        return I.new(_i.IterObj(I.iter_segs(ref, node)))
    if name == '__init__':
        I.m(ref).segs = dict_segs(I, args, kw, node)
        return NONE
    if name == 'fromkeys':
        return m_fromkeys(I, args, kw, node, None)
    raise _i.Undecided('dict.%s' % name)


def setop_bool(I, obj, name, args, node):
    segs = I.o(obj).segs if isinstance(obj, Ref) else obj.segs
    if name == 'isdisjoint':
        def body(v):
            if I.branch(contains(I, v, args[0], node)):
                raise _i.BreakEx()
        try:
            I.run_segs(segs, body, node)
        except _i.BreakEx:
            return FALSE
        return TRUE
    if name == 'issubset':
        def body(v):
            if not I.branch(contains(I, v, args[0], node)):
                raise _i.BreakEx()
        try:
            I.run_segs(segs, body, node)
        except _i.BreakEx:
            return FALSE
        return TRUE
    return App('mcall', freeze_val(I, obj), name, tuple(freeze_val(I, a) for a in args), ())


def set_binary(I, segs, name, args, node):
    if name == 'union':
        for a in args:
            segs = segs + strip_perm(I.iter_segs(a, node))
        return I.new(_i.SetObj(segs))
    want = name == 'intersection'
    for a in args:
        def body(v, emit, a=a):
            if I.branch(contains(I, v, a, node)) == want:
                emit(v)
        segs = build(I, segs, body, node)
    return I.new(_i.SetObj(segs))


def set_method(I, ref, o, name, args, kw, node):
    if name == 'add':
        I.ev('w', (ref, 'add', args[0]), node)
        I.m(ref).segs += (One(args[0]),)
        return NONE
    if name == 'update':
        for a in args:
            set_update(I, ref, a, node)
        return NONE
    if name in ('discard', 'remove'):
        I.ev('w', (ref, name, args[0]), node)
        x = args[0]

        def body(v, emit):
            if not I.branch(eq(I, v, x, node)):
                emit(v)
        I.m(ref).segs = build(I, o.segs, body, node)
        return NONE
    if name == 'copy':
        return I.new(_i.SetObj(o.segs, o.frozen))
    if name in ('union', 'difference', 'intersection'):
        return set_binary(I, o.segs, name, args, node)
    if name in ('isdisjoint', 'issubset'):
        return setop_bool(I, ref, name, args, node)
    if name == 'clear':
        I.ev('w', (ref, 'clear'), node)
        I.m(ref).segs = ()
        return NONE
    if name == '__contains__':
        return contains(I, args[0], ref, node)
    if name == '__len__':
        return m_len(I, [ref], [], node, None)
    if name in ('difference_update', 'intersection_update'):
        I.ev('w', (ref, name), node)
        r = set_binary(I, o.segs, name.split('_')[0], args, node)
        I.m(ref).segs = I.o(r).segs
        return NONE
    return App('mcall', freeze_val(I, ref), name, tuple(freeze_val(I, a) for a in args), ())


# ------------------------------------------------------------------ sorting

class Unordered(object):
    """Something known that has no order, but can be in front of what decides the order of two tuples."""
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Unordered) and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.v)


def known_key(k):
    """The known start of a sort key, and whether that is all of it (and it is no tuple)."""
    if isinstance(k, Const):
        return k.v, 'const'
    if isinstance(k, Ext) or isinstance(k, Frozen) and k.k[0] in ('class', 'func'):
        return Unordered(k), 'const'
    if isinstance(k, Tup):
        out = []
        for s in k.segs:
            x, kind = known_key(s.val) if isinstance(s, One) else (None, 'part')
            if kind == 'part':
                return tuple(out) + ((x,) if x else ()), 'part'
            out.append(x)
            if kind == 'text':
                return tuple(out[:-1]), 'part'
        return tuple(out), 'tuple'
    if isinstance(k, Tmpl) and isinstance(k.parts[0], str):
        return k.parts[0], 'text'
    return (), 'part'


def decided_order(a, b):
    """Whether the order of two known keys is decided by what is known of them."""
    (x, kx), (y, ky) = a, b
    if 'text' in (kx, ky):
        # decided by the first characters that differ
        return isinstance(x, str) and isinstance(y, str) and any(p != q for p, q in zip(x, y))
    if 'const' in (kx, ky):
        return kx == ky and not isinstance(x, Unordered) and not isinstance(y, Unordered)

    def go(x, y):
        for p, q in zip(x, y):
            if isinstance(p, tuple) and isinstance(q, tuple) and p != q:
                return go(p, q)
            if p != q:
                return not isinstance(p, Unordered) and not isinstance(q, Unordered)
        return None
    r = go(x, y)
    return bool(r) or (kx == ky == 'tuple')


def sort_segs(I, segs, kw, node):
    kwd = dict(kw)
    key = I.resolve(kwd.get('key', NONE))
    rev = kwd.get('reverse', FALSE)
    vals = ones(segs)
    if vals is not None and len(vals) <= 1:
        return tuple(segs)
    if not segs:
        return ()
    if vals is not None and key == NONE and all(isinstance(v, Const) for v in vals) and isinstance(rev, Const):
        try:
            vs = sorted((v.v for v in vals), reverse=bool(rev.v))
            return tuple(One(C(v)) for v in vs)
        except TypeError:
            I.throw('TypeError', node)
    if vals is not None and len(vals) <= 12 and isinstance(rev, Const):
        r = rich_sorted(I, vals, key, bool(rev.v), node)
        if r is not None:
            return r
    # what the order is decided by: (element, key) for each kind of element, before any later mapping
    inner = strip_perm(segs)

    def key_of(v):
        return freeze_val(I, v if key == NONE else I.call(key, [v], [], node))

    def thunk():
        ds = []

        def add(v):
            d = (freeze_val(I, v), key_of(v))
            if d not in ds:
                ds.append(d)
        for s in inner:
            if isinstance(s, One):
                add(s.val)
            elif isinstance(s, Each):
                for g, sg in s.alts:
                    for q in sg:
                        if isinstance(q, One):
                            add(q.val)
                        else:
                            ds.append((q, App('unknown', 'key')))
            else:
                ds.append((s, App('unknown', 'key')))
        return tuple(ds)
    mixed = any(isinstance(s, Perm) for s in segs)
    vals = ones(inner)
    if vals is not None and any(isinstance(s, Perm) and s.how[0] == 'unordered' for s in segs) and any(partially_ordered(I, v if key == NONE else I.call(key, [v], [], node)) for v in vals):
        raise _i.Undecided('order: elements without a total order')
    if vals is not None and isinstance(rev, Const):
        # with no ties, the previous order does not matter
        ks = [key_of(v) for v in vals]
        if all(isinstance(k, Frozen) and k.k[0] == 'list' and len(k.k) == 2 and isinstance(k.k[1], tuple) for k in ks):
            ks = [Tup(k.k[1]) for k in ks]      # lists and lists compare as tuples and tuples
        ks = [known_key(k) for k in ks]
        if all(decided_order(a, b) and not (mixed and a == b and vals[n] != vals[m]) for n, a in enumerate(ks) for m, b in enumerate(ks[:n])):
            try:
                order = sorted(range(len(vals)), key=lambda i: ks[i][0], reverse=bool(rev.v))
            except TypeError:
                I.throw('TypeError', node)
            return tuple(One(vals[i]) for i in order)
    if key == NONE:
        desc = thunk()
    else:
        ds = []
        for o in I.explore(thunk):
            if o.kind == 'return' and o.val not in ds:
                ds.append(o.val)
        desc = ds[0] if len(ds) == 1 else (('many',) + tuple(ds))
        I.ev('sortkey', (key,), node)
    out = []
    inner = []
    for s in segs:
        inner.extend(s.segs if isinstance(s, Perm) and s.how[0] == 'unordered' else (s,))
    return (Perm(('sorted', desc, rev), tuple(inner)),)


def reverse_segs(segs):
    vals = ones(segs)
    if vals is not None:
        return tuple(reversed(segs))
    if len(segs) == 1 and isinstance(segs[0], Perm) and segs[0].how[0] == 'reversed':
        return segs[0].segs
    return (Perm(('reversed',), tuple(segs)),)


# ------------------------------------------------------------------ builtin functions

MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def kwget(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    for k, v in kw:
        if k == name:
            return v
    return default


def natural(vs):
    try:
        sorted(vs)
        return True
    except TypeError:
        return None


def comparable(I, segs, key):
    """Sorting certainly raises nothing."""
    if key in (T['str'], Ext('builtins.repr')):
        return True
    segs = strip_perm(segs)
    if key != NONE or not all(isinstance(s, One) for s in segs):
        return False
    xs = [ones(s.val.segs) if isinstance(s.val, Tup) else None for s in segs]
    if xs and all(x for x in xs):       # pairs told apart by their constant starts
        if all(isinstance(x[0], Const) for x in xs) and len({x[0].v for x in xs}) == len(xs):
            return natural([x[0].v for x in xs])
    def sets(vs):
        return bool(vs) and all(I.isobj(v, _i.SetObj) for v in vs)
    if sets([s.val for s in segs]):
        return True
    if xs and all(x for x in xs) and sets([x[0] for x in xs]) and all(eq(I, x[0], y[0], None) == FALSE for i, x in enumerate(xs) for y in xs[:i]):
        return True
    if segs and all(isinstance(s.val, Const) for s in segs):
        return natural([s.val.v for s in segs])
    ts = {I.typeinfo(s.val).exact for s in segs}
    return ts <= {T['int'], T['float'], T['bool']} or ts in ({T['str']}, {T['bytes']})


@model('builtins.sorted')
def m_sorted(I, args, kw, node, frame):
    segs = I.iter_segs(args[0], node)
    ok = comparable(I, segs, dict(kw).get('key', NONE))
    if ok is None:
        I.throw('TypeError', node)
    if not ok:
        I.opaque_may_raise(Ext('builtins.sorted'), App('sortable', Frozen('seq', strip_perm(segs))), node)
    return I.new(_i.ListObj(sort_segs(I, segs, kw, node)))


@model('builtins.map', 'future.builtins.map', 'builtins.imap', 'itertools.imap')
def m_map(I, args, kw, node, frame):
    f = args[0]
    if len(args) == 2:
        src, segs = I.gen_source(args[1], node)
        if src is not None:
            return I.new(_i.GenObj(src, ('map', f)))
        return I.new(_i.IterObj(build(I, segs, lambda v, emit: emit(I.call(f, [v], [], node)), node)))
    z = m_zip(I, args[1:], [], node, frame)

    def body(v, emit):
        vs = ones(v.segs)
        emit(I.call(f, vs, [], node))
    return I.new(_i.IterObj(build(I, I.iter_segs(z, node), body, node)))


@model('builtins.ord', 'builtins.chr')
def m_ordchr(I, args, kw, node, frame):
    if isinstance(args[0], Const) and isinstance(args[0].v, (str, int)):
        try:
            return C(ord(args[0].v) if isinstance(args[0].v, str) else chr(args[0].v))
        except (TypeError, ValueError) as e:
            I.throw(type(e).__name__, node)
    return App('call', Ext('builtins.ord'), (freeze_val(I, args[0]),), ())


@model('itertools.starmap')
def m_starmap(I, args, kw, node, frame):
    def body(v, emit):
        emit(I.call(args[0], I.star_args(v, node), [], node))
    return I.new(_i.IterObj(build(I, I.iter_segs(args[1], node), body, node)))


@model('builtins.filter', 'itertools.ifilter')
def m_filter(I, args, kw, node, frame):
    f = I.resolve(args[0])

    def body(v, emit):
        if I.branch(v if f == NONE else I.call(f, [v], [], node)):
            emit(v)
    src, segs = I.gen_source(args[1], node)
    if src is not None:
        return I.new(_i.GenObj(src, ('filter', f, True)))
    return I.new(_i.IterObj(build(I, segs, body, node)))


@model('itertools.filterfalse')
def m_filterfalse(I, args, kw, node, frame):
    f = I.resolve(args[0])

    def body(v, emit):
        if not I.branch(v if f == NONE else I.call(f, [v], [], node)):
            emit(v)
    src, segs = I.gen_source(args[1], node)
    if src is not None:
        return I.new(_i.GenObj(src, ('filter', f, False)))
    return I.new(_i.IterObj(build(I, segs, body, node)))


def generic(I, segs):
    """(binder, src, value, how) of a one-element-per-source collection."""
    how = None
    if len(segs) == 1 and isinstance(segs[0], Perm):
        how = segs[0].how
        segs = segs[0].segs
    if len(segs) == 1 and isinstance(segs[0], Each):
        s = segs[0]
        if len(s.alts) == 1 and s.alts[0][0] == () and len(s.alts[0][1]) == 1 and isinstance(s.alts[0][1][0], One):
            return s.b, s.src, s.alts[0][1][0].val, how
    return None


@model('builtins.zip', 'itertools.izip')
def m_zip(I, args, kw, node, frame):
    if any(isinstance(a, App) and a.op == 'star' for a in args):
        r = App('call', Ext('builtins.zip'), tuple(freeze_val(I, a) for a in args), ())
        I.ev('call', (Ext('builtins.zip'), tuple(args), (), r), node)
        return r
    allsegs = [I.iter_segs(a, node) for a in args]
    lists = [ones(s) for s in allsegs]
    if all(l is not None for l in lists):
        return I.new(_i.IterObj(One(tup(*t)) for t in zip(*lists)))
    if any(l == [] for l in lists):
        return I.new(_i.IterObj())
    gs = [generic(I, s) for s in allsegs]
    if all(g is not None for g in gs) and len({g[3] for g in gs}) == 1:
        b0 = gs[0][0]
        vals = [subst(v, {b: b0}) for b, src, v, how in gs]
        srcs = [src for b, src, v, how in gs]
        src = srcs[0] if all(s == srcs[0] for s in srcs) else App('zip', *srcs)
        seg = Each(b0, src, (((), (One(tup(*vals)),)),))
        if gs[0][3] is not None:
            seg = Perm(gs[0][3], (seg,))
        return I.new(_i.IterObj((seg,)))
    # sources that are not aligned element by element
    b = I.fresh_b()
    srcs = [Frozen('seq', s) for s in allsegs]
    vals = []
    for s, l in zip(srcs, lists):
        vals.append(App('at', s, b))
    return I.new(_i.IterObj((Each(b, App('zip', *srcs), (((), (One(tup(*vals)),)),)),)))


@model('builtins.enumerate')
def m_enumerate(I, args, kw, node, frame):
    start = kwget(args, kw, 1, 'start', C(0))
    segs = I.iter_segs(args[0], node)
    vals = ones(segs)
    if vals is not None and is_const(start, int):
        return I.new(_i.IterObj(One(tup(C(start.v + i), v)) for i, v in enumerate(vals)))
    g = generic(I, segs)
    if g is not None and start == C(0):
        b, src, v, how = g
        if how is None:
            return I.new(_i.IterObj((Each(b, src, (((), (One(tup(App('idx', src, b), v)),)),)),)))
        sq = Frozen('seq', segs)
        return I.new(_i.IterObj((Perm(how, (Each(b, src, (((), (One(tup(App('idx', sq, b), v)),)),)),)),)))
    sq = Frozen('seq', segs)
    return I.new(_i.IterObj(map_segs(I, segs, lambda v: tup(App('count', sq, start, freeze_val(I, v)), v))))


@model('builtins.range', 'builtins.xrange')
def m_range(I, args, kw, node, frame):
    if all(is_const(a, int) for a in args):
        r = range(*[a.v for a in args])
        if len(r) <= 64:
            return I.new(_i.ListObj(One(C(i)) for i in r))
    hi = args[0] if len(args) == 1 else (args[1] if args[0] == C(0) and len(args) == 2 else None)
    if isinstance(hi, App) and hi.op == 'len':
        src = hi.args[0]
        b = I.fresh_b()
        if isinstance(src, Frozen):
            segs = src.k[1]
            g = generic(I, segs)
            if g is not None and g[3] is None:
                return I.new(_i.ListObj((Each(g[0], g[1], (((), (One(App('idx', src, g[0])),)),)),)))
        return I.new(_i.ListObj((Each(b, src, (((), (One(App('idx', src, b)),)),)),)))
    r = App('call', Ext('builtins.range'), tuple(freeze_val(I, a) for a in args), ())
    return r


@model('builtins.reversed')
def m_reversed(I, args, kw, node, frame):
    return I.new(_i.IterObj(reverse_segs(I.iter_segs(args[0], node))))


@model('builtins.iter')
def m_iter(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if I.isobj(v, _i.IterObj):
        return v
    if isinstance(v, (Sym, App)):
        d = I.decide(App('iterable', v))
        if d is False:
            I.throw('TypeError', node)
        if I.typeinfo(v).exact in (T['list'], T['tuple'], T['dict'], T['set'], T['frozenset'], T['str']):
            return I.new(_i.IterObj(I.iter_segs(v, node)))
        I.maybe_raise(['TypeError'], App('iterable', v), node)
        I.ev('probe', (v,), node)
        return App('iterof', v)
    if I.isobj(v, _i.InstObj) and I.class_lookup(I.o(v).cls, '__iter__') is None and I.o(v).payload is None and \
            I.class_lookup(I.o(v).cls, '__getitem__') is not None:
        return App('iterof', v)
    return I.new(_i.IterObj(I.iter_segs(v, node)))


@model('builtins.next')
def m_next(I, args, kw, node, frame):
    v = args[0]
    if I.lazy(v):
        x = I.gen_next(v)
        if x is not None:
            return x
        if len(args) > 1:
            return args[1]
        I.throw('StopIteration', node)
    if I.isobj(v, _i.IterObj):
        o = I.o(v)
        if o.segs and isinstance(o.segs[0], One):
            x = o.segs[0].val
            I.m(v).segs = o.segs[1:]
            return x
        segs = o.segs
        if any(isinstance(q, Opq) and q.k[0] == 'rest' for q in segs):
            raise _i.Undecided('what is left in an iterator')
        known = I.segs_truth(segs)
        src = identity_src(segs)
        if src is not None and (len(args) > 1 or I.decide(App('truthy', src))):
            for t in ('list', 'tuple'):
                if I.decide_isinstance(src, T[t]):
                    if not I.branch(App('truthy', src)):
                        return args[1]
                    I.m(v).segs = (Opq('rest', segs),)
                    return App('getitem', src, C(0))
        I.m(v).segs = (Opq('rest', segs),) if segs else ()

        class Found(Exception):
            pass
        hold = I.new(_i.ListObj())

        def body(x):
            I.m(hold).segs = (One(x),)
            raise _i.BreakEx()
        try:
            I.run_segs(segs, body, node)
        except _i.BreakEx:
            return I.o(hold).segs[0].val
        I.m(v).segs = ()
        if isinstance(known, tuple) and isinstance(known[0], App) and known[0].op == 'truthy' and isinstance(known[0].args[0], (Sym, App)):
            I.assume(known[0], not known[1])
        if len(args) > 1:
            return args[1]
        I.throw('StopIteration', node)
    if isinstance(v, App) and v.op == 'iterof':
        I.ev('iter', (v.args[0], 'next'), node)
        if len(args) > 1:
            if not I.branch(App('truthy', v.args[0])):
                return args[1]
        return App('at', v.args[0], App('first'))
    I.ev('iter', (v, 'next'), node)
    return App('call', Ext('builtins.next'), tuple(freeze_val(I, a) for a in args), ())


@model('builtins.list')
def m_list(I, args, kw, node, frame):
    if not args:
        return I.new(_i.ListObj())
    return I.new(_i.ListObj(I.iter_segs(unwrap_iter(I, args[0], node), node)))


def unwrap_iter(I, v, node):
    return v.args[0] if isinstance(v, App) and v.op == 'iterof' else v


@model('builtins.tuple')
def m_tuple(I, args, kw, node, frame):
    if not args:
        return Tup(())
    v = I.resolve(unwrap_iter(I, args[0], node))
    if isinstance(v, (Sym, App)) and I.typeinfo(v).exact == T['tuple']:
        return v
    return Tup(I.iter_segs(v, node))


@model('builtins.set')
def m_set(I, args, kw, node, frame):
    if not args:
        return I.new(_i.SetObj())
    return I.new(_i.SetObj(hash_keys(I, strip_perm(I.iter_segs(unwrap_iter(I, args[0], node), node)), node)))


@model('builtins.frozenset')
def m_frozenset(I, args, kw, node, frame):
    if not args:
        return I.new(_i.SetObj((), True))
    return I.new(_i.SetObj(hash_keys(I, strip_perm(I.iter_segs(unwrap_iter(I, args[0], node), node)), node), True))


@model('builtins.dict')
def m_dict(I, args, kw, node, frame):
    r = I.new(_i.DictObj())
    dict_update_fresh(I, r, args, kw, node)
    return r


def same_key(a, b):
    """Whether two keys are the same key of a dictionary: identical, or constants as equal as 1, True and 1.0 are."""
    if a == b:
        return True
    try:
        return isinstance(a, Const) and isinstance(b, Const) and a.v == b.v and hash(a.v) == hash(b.v)
    except TypeError:
        return False


def merge_pairs(I, segs):
    """The pairs, with the first of the keys that are the same, and the last of their values; only pairs between which
    no key comes that could also be the same are merged."""
    out = []

    def same_at(k):
        for i in range(len(out) - 1, -1, -1):
            if not isinstance(out[i], One):
                return None
            q = pair_get(I, out[i].val, 0)
            if same_key(q, k):
                return i
            if not (isinstance(q, Const) and isinstance(k, Const)):
                return None
        return None
    for s in segs:
        i = same_at(pair_get(I, s.val, 0)) if isinstance(s, One) else None
        if i is None:
            out.append(s)
        else:
            out[i] = One(tup(pair_get(I, out[i].val, 0), pair_get(I, s.val, 1)))
    return tuple(out)


def dict_update_fresh(I, r, args, kw, node):
    I.m(r).segs = merge_pairs(I, dict_segs(I, args, kw, node))


@model('collections.OrderedDict')
def m_odict(I, args, kw, node, frame):
    r = I.new(_i.DictObj((), T['OrderedDict']))
    dict_update_fresh(I, r, args, kw, node)
    return r


def fromkeys(I, args, kw, node, cls):
    v = args[1] if len(args) > 1 else NONE
    r = I.new(_i.DictObj((), T[cls]))
    dict_update_fresh(I, r, [I.new(_i.IterObj(map_segs(I, I.iter_segs(args[0], node), lambda k: tup(k, v))))], {}, node)
    return r


@model('builtins.dict.fromkeys')
def m_fromkeys(I, args, kw, node, frame):
    return fromkeys(I, args, kw, node, 'dict')


@model('collections.OrderedDict.fromkeys')
def m_ofromkeys(I, args, kw, node, frame):
    return fromkeys(I, args, kw, node, 'OrderedDict')


@model('builtins.str', 'builtins.unicode')
def m_str(I, args, kw, node, frame):
    if not args:
        return C('')
    if len(args) > 1:
        return App('m:decode', freeze_val(I, args[0]))
    return text(I, args[0], 's', node)


@model('builtins.repr', 'builtins.ascii')
def m_repr(I, args, kw, node, frame):
    return text(I, args[0], 'r', node)


@model('builtins.bool')
def m_bool(I, args, kw, node, frame):
    if not args:
        return FALSE
    t = I.truth(args[0])
    if t is not None:
        return C(t)
    return lit_val(I.literal(args[0]))


@model('builtins.int', 'builtins.float')
def m_int(I, args, kw, node, frame):
    e = node
    which = 'int'
    return I.opaque_call(Ext('builtins.int'), args, kw, node)


def _mk_num(name):
    def f(I, args, kw, node, frame):
        if len(args) == 1 and isinstance(args[0], Const) and not kw:
            try:
                return C({'int': int, 'float': float}[name](args[0].v))
            except ValueError:
                I.throw('ValueError', node)
            except TypeError:
                I.throw('TypeError', node)
        if len(args) == 1 and isinstance(args[0], Tmpl) and len(args[0].parts) == 1 and not kw:
            h = args[0].parts[0]
            if isinstance(h, Hole) and h.conv in ('s', 'r') and I.typeinfo(h.val).exact in (T['int'], T['float']):
                # the text of a number read back
                if I.typeinfo(h.val).exact == T[name]:
                    return h.val
                if name == 'int':
                    I.throw('ValueError', node)
        fargs = tuple(I.freeze_arg(a) for a in args)
        r = App('call', Ext('builtins.' + name), fargs, ())
        I.state.types[r] = TypeInfo(exact=T[name])
        I.ev('call', (Ext('builtins.' + name), tuple(args), tuple(kw), r), node)
        if args and I.typeinfo(args[0]).exact not in (T['int'], T['bool'], T['float']):
            I.maybe_raise(['ValueError'], App('ok', r, T['ValueError']), node)
        return r
    return f


MODELS['builtins.int'] = _mk_num('int')
MODELS['builtins.float'] = _mk_num('float')


def all_distinct(I, segs):
    vs = [s.val for s in segs]
    if all(isinstance(x, Const) for x in vs):
        return len({x.v for x in vs}) == len(vs)
    return all(isinstance(x, Const) and isinstance(y, Const) and x.v != y.v or I.decide(App('eq', *sort2(freeze_val(I, x), freeze_val(I, y)))) is False
               for i, x in enumerate(vs) for y in vs[:i])


@model('builtins.len')
def m_len(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            return C(len(v.v))
        I.throw('TypeError', node)
    segs = None
    if isinstance(v, Tup):
        segs = v.segs
    elif isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__len__')
            if f is not None and isinstance(f[0], Ref):
                return I.call_method_desc(f[0], v, o.cls, [], [], node)
            if o.payload is not None:
                return m_len(I, [o.payload], kw, node, frame)
        if isinstance(o, (_i.ListObj, _i.DictObj, _i.SetObj)):
            segs = o.segs
        else:
            I.throw('TypeError', node)
    if segs is not None:
        segs = strip_perm(segs)
        if I.isobj(v, _i.SetObj) and ones(segs) is not None and all(isinstance(x.val, Const) for x in segs):
            return C(len({x.val for x in segs}))
        if len(segs) == 1 and not I.isobj(v, _i.SetObj) and not I.isobj(v, _i.DictObj):
            known = _i.known_rows(segs[0])
            if known is not None:
                return C(len(known))
        if I.isobj(v, _i.SetObj) and len(segs) > 1 and ones(segs) is not None and all(I.isobj(x.val, _i.InstObj) for x in segs):
            return C(len(distinct_objects(I, segs, node)))
        if ones(segs) is not None and (not (I.isobj(v, _i.SetObj) and len(segs) > 1) or all_distinct(I, segs)):
            if not I.isobj(v, _i.DictObj) or all_distinct(I, [One(pair_get(I, q.val, 0)) for q in segs]):
                return C(len(segs))
        src = identity_src(segs) or identity_dict_src(segs)
        if I.isobj(v, (_i.SetObj, _i.DictObj)) and segs and not (src is not None and I.typeinfo(src).exact in (T['set'], T['frozenset'], T['dict'])):
            fr = freeze_val(I, v)                           # there may be fewer than were put in
            return App('len', Frozen('set', fr.k[1]) if isinstance(fr, Frozen) and fr.k[0] == 'frozenset' else fr)
        return App('len', src if src is not None else Frozen('seq', segs))
    I.ev('len', (v,), node)
    return App('len', freeze_val(I, v))


def disguise(I, v, t, node):
    """isinstance asks for __class__ when the type does not tell, whatever that does."""
    cls = I.o(v).cls
    if I.issub(cls, t) is not False:
        return None
    g = I.class_lookup(cls, '__getattribute__')
    if g is None or not isinstance(g[0], Ref):
        f = I.class_lookup(cls, '__class__')
        if f is None or not isinstance(f[0], Ref):
            return None
    try:
        c = I.getattr(v, '__class__', node)
    except _i.RaiseEx as e:
        if I.issub(e.cls, T['AttributeError']):
            return FALSE
        raise
    r = I.issub(c, t) if isinstance(c, (Ref, Ext)) else None
    return C(r) if r is not None else None


@model('builtins.isinstance')
def m_isinstance(I, args, kw, node, frame):
    v, t = I.resolve(args[0]), I.resolve(args[1])
    if isinstance(t, Tup):
        vals = ones(t.segs)
        if vals is None:
            return fold(I, App('isinstance', freeze_val(I, v), t))
        for x in vals:
            if I.branch(m_isinstance(I, [v, x], [], node, frame)):
                return TRUE
        return FALSE
    if isinstance(t, (Ext, Ref)):
        if I.isobj(t, _i.InstObj):
            I.throw('TypeError', node)
        if I.isobj(v, _i.InstObj):
            c = disguise(I, v, t, node)
            if c is not None:
                return c
        return fold(I, App('isinstance', freeze_val(I, v) if not isinstance(v, Ref) else v, t))
    if isinstance(t, Const):
        I.throw('TypeError', node)
    return fold(I, App('isinstance', freeze_val(I, v), t))


@model('builtins.undecidable__')
def m_undecidable(I, args, kw, node, frame):
    """For the obligations: what they model has been asked for something that they do not model."""
    raise _i.Undecided('not modelled: %s' % (args[0].v if args and is_const(args[0]) else '?'))


@model('builtins.issubclass')
def m_issubclass(I, args, kw, node, frame):
    a, b = args
    bs = ones(b.segs) if isinstance(b, Tup) else [b]
    for x in bs or [b]:
        if isinstance(a, App) and a.op == 'type' and isinstance(x, (Ext, Ref)):
            if I.branch(fold(I, App('isinstance', a.args[0], x))):
                return TRUE
            continue
        if isinstance(a, (Ext, Ref)) and isinstance(x, (Ext, Ref)):
            r = I.issub(a, x)
            if r is not None:
                if r:
                    return TRUE
                continue
        if I.branch(App('issubclass', freeze_val(I, a), x)):
            return TRUE
    return FALSE


@model('builtins.type')
def m_type(I, args, kw, node, frame):
    if len(args) == 1:
        return type_of(I, I.resolve(args[0]))
    bases = I.resolve(args[1]) if len(args) == 3 and not kw else None
    ns = I.obj(args[2]) if len(args) == 3 else None
    entries = ones(ns.segs) if isinstance(ns, _i.DictObj) else None
    if is_const(args[0], str) and isinstance(bases, Tup) and ones(bases.segs) is not None and entries is not None:
        entries = [(x.segs[0].val, x.segs[1].val) for x in entries]
        if all(is_const(k, str) for k, _ in entries) and all(isinstance(b, Ext) or I.isobj(b, _i.ClassObj) for b in ones(bases.segs)):
            return I.new_class(args[0].v, list(ones(bases.segs)), I.o(frame).module if frame is not None else '?', None, args[0].v,
                               {k.v: x for k, x in entries})
    return I.opaque_call(Ext('builtins.type'), args, kw, node)


@model('builtins.hasattr')
def m_hasattr(I, args, kw, node, frame):
    v, n = I.resolve(args[0]), args[1]
    if not is_const(n, str):
        return fold(I, App('hasattr', freeze_val(I, v), n))
    name = n.v
    if isinstance(v, Const):
        return C(hasattr(v.v, name))
    if isinstance(v, (Sym, App)) and not (isinstance(v, App) and v.op in ('bound', 'bmeth', 'super')):
        if sym_method(I, v, name) is not None:
            return TRUE
        return fold(I, App('hasattr', v, name))
    try:
        I.no_implicit += 1
        try:
            get_attr(I, v, name, node)
        finally:
            I.no_implicit -= 1
    except _i.RaiseEx as e:
        if I.issub(e.cls, T['AttributeError']):
            return FALSE
        raise
    if isinstance(v, Ext) and real(v) is None:
        return fold(I, App('hasattr', v, name))
    return TRUE


@model('builtins.getattr')
def m_getattr(I, args, kw, node, frame):
    v, n = I.resolve(args[0]), args[1]
    if not is_const(n, str):
        if I.isobj(v, _i.InstObj):
            g = I.class_lookup(I.o(v).cls, '__getattribute__')
            if g is not None and isinstance(g[0], Ref):
                return I.call_method_desc(g[0], v, I.o(v).cls, [n], [], node)
        r = App('getattr', freeze_val(I, v), freeze_val(I, n))
        if len(args) > 2:
            if not I.branch(App('hasattr', freeze_val(I, v), freeze_val(I, n))):
                return args[2]
            return r
        I.maybe_raise(['AttributeError'], App('hasattr', freeze_val(I, v), freeze_val(I, n)), node)
        return r
    if len(args) > 2:
        if I.isobj(v, _i.InstObj) or (isinstance(v, Ref)):
            try:
                return I.getattr(v, n.v, node, args[2])
            except _i.RaiseEx as e:
                if I.issub(e.cls, T['AttributeError']):
                    return args[2]
                raise
        return I.getattr(v, n.v, node, args[2])
    return I.getattr(v, n.v, node)


@model('builtins.setattr')
def m_setattr(I, args, kw, node, frame):
    if is_const(args[1], str):
        I.setattr(args[0], args[1].v, args[2], node)
    else:
        I.ev('w', (args[0], 'attr', args[1], args[2]), node)
    return NONE


@model('builtins.delattr')
def m_delattr(I, args, kw, node, frame):
    I.ev('w', (args[0], 'delattr', args[1]), node)
    return NONE


@model('builtins.callable')
def m_callable(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, (_i.FuncObj, _i.ClassObj, _i.PartialObj)):
            return TRUE
        if isinstance(o, _i.InstObj):
            return C(I.class_lookup(o.cls, '__call__') is not None)
        return FALSE
    if isinstance(v, (Const, Tup, Tmpl)):
        return FALSE
    if isinstance(v, App) and v.op in ('bound', 'bmeth'):
        return TRUE
    return fold(I, App('callable', freeze_val(I, v)))


def _anyall(I, segs, want, node):
    def body(v):
        if I.branch(v) == want:
            raise _i.BreakEx()
    try:
        I.run_segs(segs, body, node)
    except _i.BreakEx:
        return C(want)
    return C(not want)


@model('builtins.any')
def m_any(I, args, kw, node, frame):
    return _anyall(I, args[0] if I.lazy(args[0]) else I.iter_segs(args[0], node), True, node)


@model('builtins.all')
def m_all(I, args, kw, node, frame):
    return _anyall(I, args[0] if I.lazy(args[0]) else I.iter_segs(args[0], node), False, node)


def _mk_pure(path):
    """Builtin functions of numbers and collections: folded on constants, uninterpreted otherwise."""
    fn = {'sum': sum, 'min': min, 'max': max, 'abs': abs, 'round': round, 'divmod': divmod}[path.split('.')[1]]

    def f(I, args, kw, node, frame):
        vals = [I.resolve(a) for a in args]
        if not kw and all(isinstance(v, Const) and isinstance(v.v, (int, float)) for v in vals):
            if len(vals) > 1 or path in ('builtins.abs', 'builtins.round'):
                try:
                    r = fn(*[v.v for v in vals])
                except (ZeroDivisionError, TypeError) as e:
                    I.throw(type(e).__name__, node)
                return tup(*map(C, r)) if isinstance(r, tuple) else C(r)
        if not kw and len(vals) == 1 and path in ('builtins.sum', 'builtins.min', 'builtins.max') and not isinstance(vals[0], (Const, Sym)):
            segs = I.iter_segs(vals[0], node)
            known = ones(segs)
            if known is not None and all(isinstance(v, Const) and isinstance(v.v, (int, float)) for v in known):
                if not known and path != 'builtins.sum':
                    I.throw('ValueError', node)
                return C(fn([v.v for v in known]))
            return App('call', Ext(path), (Frozen('seq', tuple(freeze_val(I, x) for x in known)) if known is not None else freeze_val(I, vals[0]),), ())
        return App('call', Ext(path), tuple(freeze_val(I, a) for a in args), tuple((k, freeze_val(I, v)) for k, v in kw))
    return f


for _n in ('sum', 'min', 'max', 'abs', 'round', 'divmod'):
    MODELS['builtins.' + _n] = _mk_pure('builtins.' + _n)


@model('functools.reduce')
def m_reduce(I, args, kw, node, frame):
    known = ones(I.iter_segs(args[1], node))
    if known is None:
        raise _i.Undecided('reduce of a collection of unknown size')
    known = list(args[2:3]) + list(known)
    if not known:
        I.throw('TypeError', node)
    r = known[0]
    for x in known[1:]:
        r = I.call(args[0], [r, x], [], node)
    return r


@model('builtins.print')
def m_print(I, args, kw, node, frame):
    return NONE


@model('builtins.hash')
def m_hash(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if I.isobj(v, _i.InstObj):
        o = I.o(v)
        f = I.class_lookup(o.cls, '__hash__')
        if f is not None and I.isobj(f[0], _i.FuncObj):
            return I.call_method_desc(f[0], v, o.cls, [], [], node)
        if f is None or f[0] == NONE:
            if I.class_lookup(o.cls, '__eq__') is not None:
                I.throw('TypeError', node)
    if unhashable(I, v):
        I.throw('TypeError', node)
    return I.opaque_call(Ext('builtins.hash'), args, kw, node)


def hash_keys(I, segs, node):
    if any(unhashable(I, s.val) for s in segs if isinstance(s, One)):
        I.throw('TypeError', node)
    seen = []
    for s in segs:
        if isinstance(s, One) and isinstance(s.val, Const):
            if any(s.val.v == x for x in seen):
                return hash_keys(I, distinct(segs), node)
            seen.append(s.val.v)
    if len(segs) > 1 and any(I.isobj(s.val, _i.InstObj) for s in segs if isinstance(s, One)) and ones(segs) is not None:
        return distinct_objects(I, segs, node)
    return segs


def distinct_objects(I, segs, node):
    """Elements that are not the same as one before, as their own comparison and hash tell."""
    out = []
    for s in segs:
        for t in out:
            if s.val == t.val or I.branch(same(I, s.val, t.val, node)) and (
                    I.branch(eq(I, m_hash(I, [s.val], [], node, None), m_hash(I, [t.val], [], node, None), node))):
                break
        else:
            out.append(s)
    return tuple(out)


def distinct(segs):
    out, seen = [], []
    for s in segs:
        if isinstance(s, One) and isinstance(s.val, Const):
            if any(s.val.v == x for x in seen):
                continue
            seen.append(s.val.v)
        out.append(s)
    return tuple(out)


def unhashable(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref):
        o = I.o(v)
        return isinstance(o, (_i.ListObj, _i.DictObj)) or isinstance(o, _i.SetObj) and not o.frozen
    if isinstance(v, Tup):
        return any(unhashable(I, s.val) for s in v.segs if isinstance(s, One))
    if isinstance(v, (Sym, App)):
        return I.typeinfo(v).exact in (T['list'], T['dict'], T['set'])
    return False


@model('builtins.id')
def m_id(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, Ref):
        I.ev('cached', ('id', v), node)
        r = App('idof', C(v.id))
        I.set_type(r, exact=T['int'])
        return r
    return I.opaque_call(Ext('builtins.id'), args, kw, node)


@model('builtins.super')
def m_super(I, args, kw, node, frame):
    if args:
        return App('super', args[0], args[1])
    cur = frame
    while cur is not None:
        f = I.o(cur)
        if '$self' in f.vars:
            return App('super', f.vars['$owner'], f.vars['$self'])
        cur = f.parent
    raise _i.Undecided('super()')


@model('builtins.property')
def m_property(I, args, kw, node, frame):
    return I.new(_i.DescObj('property', args[0] if args else NONE))


@model('builtins.staticmethod')
def m_static(I, args, kw, node, frame):
    return I.new(_i.DescObj('staticmethod', args[0]))


@model('builtins.classmethod')
def m_class(I, args, kw, node, frame):
    return I.new(_i.DescObj('classmethod', args[0]))


@model('builtins.vars')
def m_vars(I, args, kw, node, frame):
    if not args:
        raise _i.Undecided('vars()')
    v = I.getattr(args[0], '__dict__', node, default=C(None))
    if v == C(None):
        I.throw('TypeError', node)
    return v


@model('functools.partial')
def m_partial(I, args, kw, node, frame):
    if not args:
        I.throw('TypeError', node)
    f = args[0]
    rest, kws = list(args[1:]), list(kw)
    if I.isobj(f, _i.PartialObj) and not I.o(f).attrs:
        o = I.o(f)
        names = {k for k, _ in kws if k != '**'}
        return I.new(_i.PartialObj(o.func, list(o.args) + rest,
                                   [(k, v) for k, v in I.partial_kwargs(o) if k == '**' or k not in names] + kws))
    return I.new(_i.PartialObj(f, rest, kws))


@model('itertools.chain')
def m_chain(I, args, kw, node, frame):
    segs = ()
    for a in args:
        if isinstance(a, App) and a.op == 'star':
            return m_chain_fi(I, [a.args[0]], [], node, frame)
        segs += tuple(I.iter_segs(a, node))
    return I.new(_i.IterObj(segs))


@model('itertools.chain.from_iterable')
def m_chain_fi(I, args, kw, node, frame):
    out = I.new(_i.ListObj())

    def body(v):
        I.run_segs(I.iter_segs(v, node), inner, node)

    def inner(v):
        I.m(out).segs += (One(v),)
    I.run_segs(I.iter_segs(args[0], node), body, node)
    return I.new(_i.IterObj(I.o(out).segs))


@model('itertools.tee')
def m_tee(I, args, kw, node, frame):
    segs = I.iter_segs(args[0], node)
    n = kwget(args, kw, 1, 'n', C(2))
    return tup(*[I.new(_i.IterObj(segs)) for _ in range(n.v)])


@model('itertools.islice')
def m_islice(I, args, kw, node, frame):
    segs = I.iter_segs(args[0], node)
    vals = ones(segs)
    if vals is not None and all(isinstance(a, Const) for a in args[1:]):
        import itertools
        return I.new(_i.IterObj(One(x) for x in itertools.islice(vals, *[a.v for a in args[1:]])))
    src = identity_src(segs)
    base = src if src is not None else Frozen('seq', segs)
    r = App('slice', base, *(list(args[1:]) if len(args) > 2 else [NONE, args[1]]))
    return I.new(_i.IterObj(I.sym_segs(r)))


@model('copy.copy')
def m_copy(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, Ref):
        o = I.o(v)
        if isinstance(o, (_i.ListObj, _i.DictObj, _i.SetObj)):
            return I.new(o.clone())
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__copy__')
            if f is not None:
                return I.call_method_desc(f[0], v, o.cls, [], [], node)
            n = _i.InstObj(o.cls)
            n.attrs = dict(o.attrs)
            n.payload = I.new(I.o(o.payload).clone()) if isinstance(o.payload, Ref) else o.payload
            return I.new(n)
        return v
    if isinstance(v, (Const, Tup, Tmpl, Ext)):
        return v
    ti = I.typeinfo(v)
    if ti.exact in (T['list'],):
        return I.new(_i.ListObj(I.iter_segs(v, node)))
    if ti.exact in (T['dict'], T['OrderedDict']):
        return I.new(_i.DictObj(sym_pairs(I, v), ti.exact))
    r = App('call', Ext('copy.copy'), (freeze_val(I, v),), ())
    if v in I.state.types:
        I.state.types[r] = I.state.types[v]
    I.ev('call', (Ext('copy.copy'), (v,), (), r), node)
    return r


def deep(I, v, memo=None):
    """A deep copy: fresh containers all the way down, an uninterpreted copy of what is unknown."""
    memo = {} if memo is None else memo
    v = I.resolve(v)
    if isinstance(v, (Const, Ext, Tmpl, Bnd)):
        return v
    if isinstance(v, Tup):
        return Tup(map_segs(I, v.segs, lambda x: deep(I, x, memo)))
    if isinstance(v, Ref):
        o = I.o(v)
        if v.id in memo:
            return memo[v.id]
        if isinstance(o, (_i.ListObj, _i.SetObj, _i.DictObj)):
            n = o.clone()
            memo[v.id] = r = I.new(n)
            if isinstance(o, _i.DictObj):
                segs = map_segs(I, o.segs, lambda p: tup(pair_get(I, p, 0), deep(I, pair_get(I, p, 1), memo)))
            else:
                segs = map_segs(I, o.segs, lambda x: deep(I, x, memo))
            I.m(r).segs = segs
            return r
        if isinstance(o, _i.InstObj):
            f = I.class_lookup(o.cls, '__deepcopy__')
            if f is not None and isinstance(f[0], Ref):
                return I.call_method_desc(f[0], v, o.cls, [I.new(_i.DictObj())], [], None)
            n = _i.InstObj(o.cls)
            memo[v.id] = r = I.new(n)
            attrs = {k: deep(I, x, memo) for k, x in o.attrs.items()}
            I.m(r).attrs = attrs
            if o.payload is not None:
                I.m(r).payload = deep(I, o.payload, memo)
            return r
        return v
    ti = I.typeinfo(v)
    if ti.exact in (T['str'], T['int'], T['float'], T['bool'], T['NoneType'], T['function'], T['type'], T['complex']):
        return v
    if ti.exact in (T['dict'], T['OrderedDict']):
        return I.new(_i.DictObj(map_segs(I, sym_pairs(I, v), lambda p: tup(pair_get(I, p, 0), deep(I, pair_get(I, p, 1), memo))),
                                ti.exact))
    r = App('call', Ext('copy.deepcopy'), (freeze_val(I, v),), ())
    if v in I.state.types:
        I.state.types[r] = I.state.types[v]
    return r


@model('copy.deepcopy')
def m_deepcopy(I, args, kw, node, frame):
    return deep(I, args[0])


@model('operator.itemgetter')
def m_itemgetter(I, args, kw, node, frame):
    return I.new(_i.PartialObj(Ext('$itemgetter'), [tup(*args)], []))


@model('$itemgetter')
def m_itemgetter_call(I, args, kw, node, frame):
    keys, v = ones(args[0].segs), args[1]
    if len(keys) == 1:
        return I.getitem(v, keys[0], node)
    return tup(*[I.getitem(v, k, node) for k in keys])


@model('operator.attrgetter')
def m_attrgetter(I, args, kw, node, frame):
    return I.new(_i.PartialObj(Ext('$attrgetter'), [tup(*args)], []))


@model('$attrgetter')
def m_attrgetter_call(I, args, kw, node, frame):
    keys, v = ones(args[0].segs), args[1]
    rs = []
    for k in keys:
        x = v
        for part in k.v.split('.'):
            x = I.getattr(x, part, node)
        rs.append(x)
    return rs[0] if len(rs) == 1 else tup(*rs)


@model('operator.methodcaller')
def m_methodcaller(I, args, kw, node, frame):
    return I.new(_i.PartialObj(Ext('$methodcaller'), [tup(*args)], kw))


@model('$methodcaller')
def m_methodcaller_call(I, args, kw, node, frame):
    a = ones(args[0].segs)
    return I.call(I.getattr(args[1], a[0].v, node), a[1:], kw, node)


@model('operator.getitem')
def m_op_getitem(I, args, kw, node, frame):
    return I.getitem(args[0], args[1], node)


@model('operator.contains')
def m_op_contains(I, args, kw, node, frame):
    return contains(I, args[1], args[0], node)


@model('operator.eq')
def m_op_eq(I, args, kw, node, frame):
    return eq(I, args[0], args[1], node)


@model('functools.update_wrapper')
def m_update_wrapper(I, args, kw, node, frame):
    wrapper = kwget(args, kw, 0, 'wrapper')
    wrapped = kwget(args, kw, 1, 'wrapped')
    I.ev('update_wrapper', (wrapper, wrapped, tuple(kw)), node)
    if I.isobj(wrapper, _i.FuncObj):
        names = kwget(args, kw, 2, 'assigned')
        names = known_names(I, names) if names is not None else list(ASSIGNED)
        if names is None:
            raise _i.Undecided('update_wrapper of unknown names')
        upd = kwget(args, kw, 3, 'updated')
        upd = known_names(I, upd) if upd is not None else ['__dict__']
        got = {}
        for n in names:
            x = I.getattr(wrapped, n, node, default=MISSING)
            if x is not MISSING:
                got[n] = x
        if upd and isinstance(I.obj(wrapped), (_i.FuncObj, _i.PartialObj, _i.InstObj)):
            got.update((k, v) for k, v in I.o(wrapped).attrs.items() if not special(k))
        got['__wrapped__'] = wrapped
        I.m(wrapper).attrs.update(got)
    return wrapper


MISSING = C('<missing>')


def special(n):
    return n in ASSIGNED or n in ('__defaults__', '__kwdefaults__')


def known_names(I, v):
    v = I.resolve(v)
    if isinstance(v, Ext) and v.path.endswith('WRAPPER_ASSIGNMENTS'):
        return list(ASSIGNED)
    segs = v.segs if isinstance(v, Tup) else I.o(v).segs if I.isobj(v, _i.ListObj) else None
    xs = ones(segs) if segs is not None else None
    return [x.v for x in xs] if xs is not None and all(is_const(x, str) for x in xs) else None


@model('functools.wraps')
def m_wraps(I, args, kw, node, frame):
    return I.new(_i.PartialObj(Ext('functools.update_wrapper'), [], [('wrapped', args[0])] + list(kw)))


@model('functools.lru_cache', 'functools.cache')
def m_lru_cache(I, args, kw, node, frame):
    if args and I.isobj(args[0], _i.FuncObj):
        I.m(args[0]).cached = True
        return args[0]
    return Ext('functools.cache')       # lru_cache(...), to be applied to the function


def _isa(path):
    def f(I, args, kw, node, frame):
        return m_isinstance(I, [args[0], Ext(path)], [], node, frame)
    return f


MODELS['inspect.isfunction'] = _isa('types.FunctionType')
MODELS['inspect.isbuiltin'] = _isa('types.BuiltinFunctionType')
MODELS['inspect.isclass'] = _isa('builtins.type')
MODELS['inspect.ismodule'] = _isa('types.ModuleType')
MODELS['inspect.ismethod'] = _isa('types.MethodType')


@model('inspect.getfullargspec')
def m_argspec(I, args, kw, node, frame):
    f = I.resolve(args[0])
    if I.isobj(f, _i.FuncObj):
        o = I.o(f)
        a = o.node.args
        params = [C(p.arg) for p in getattr(a, 'posonlyargs', []) + a.args]
        return tup(I.new(_i.ListObj(One(p) for p in params)),
                   C(a.vararg.arg) if a.vararg else NONE, C(a.kwarg.arg) if a.kwarg else NONE,
                   tup(*o.defaults) if o.defaults else NONE,
                   I.new(_i.ListObj(One(C(p.arg)) for p in a.kwonlyargs)),
                   NONE, I.new(_i.DictObj()))
    fargs = (freeze_val(I, f),)
    r = App('call', Ext('inspect.getfullargspec'), fargs, ())
    I.ev('call', (Ext('inspect.getfullargspec'), (f,), (), r), node)
    I.opaque_may_raise(Ext('inspect.getfullargspec'), r, node)
    for i, (exact, isa) in enumerate((('list', None), (None, None), (None, None), (None, None))):
        if exact:
            I.state.types.setdefault(App('getitem', r, C(i)), TypeInfo(exact=T[exact]))
    return r


@model('importlib.import_module', 'builtins.__import__')
def m_import_module(I, args, kw, node, frame):
    r = App('call', Ext('importlib.import_module'), tuple(freeze_val(I, a) for a in args), ())
    I.ev('call', (Ext('importlib.import_module'), tuple(args), tuple(kw), r), node)
    if args[0] == C(''):
        I.throw('ValueError', node)
    if is_const(args[0], str) and len(args) == 1 and \
            (args[0].v in KNOWN_MODULES or args[0].v == 'scenario' or I.module_known(args[0].v)):
        return I.import_name(args[0].v)
    if is_const(args[0], str) and len(args) == 1 and (args[0].v.split('.')[0] == I.package):
        return I.import_name(args[0].v)      # raises
    I.opaque_may_raise(Ext('importlib.import_module'), r, node)
    if is_const(args[0], str):
        return I.import_name(args[0].v)
    return r


@model('types.MethodType')
def m_methodtype(I, args, kw, node, frame):
    return App('bound', args[0], args[1])


@model('builtins.object')
def m_object(I, args, kw, node, frame):
    r = App('freshobject', I.fresh_b())
    I.set_type(r, exact=T['object'])
    return r


@model('builtins.locals')
def m_locals(I, args, kw, node, frame):
    raise _i.Undecided('locals()')


@model('builtins.globals')
def m_globals(I, args, kw, node, frame):
    raise _i.Undecided('globals()')


# --- the stack

def frames(I):
    """The running functions that are known, innermost first."""
    return [f for f in reversed(I.fstack) if f.frame is not None]


def frame_attr(I, v, name, node):
    fs = frames(I)
    at = next((i for i, f in enumerate(fs) if f.frame == v), None)
    if at is None:
        return App('attr', v, name)
    f = I.o(fs[at].func)
    if name == 'f_locals':
        # one dictionary per call, brought up to date whenever asked for
        fr = I.o(v)
        names = dict((n, x) for n, x in fr.vars.items() if not n.startswith('$'))
        up = I.o(v).parent
        for n in sorted(free_names(I, f)):
            p = up
            while isinstance(p, Ref):
                po = I.o(p)
                if n in po.vars and not po.is_class:
                    names.setdefault(n, po.vars[n])
                    break
                p = po.parent
        d = fr.vars.get('$f_locals')
        if d is None:
            d = I.new(_i.DictObj(()))
            I.m(v).vars['$f_locals'] = d
        keep = tuple(s for s in I.o(d).segs if not (isinstance(s, One) and isinstance(s.val, Tup) and any(
            s.val.segs[0] == One(C(n)) for n in names)))
        I.m(d).segs = tuple(One(tup(C(n), x)) for n, x in names.items()) + keep
        return d
    if name == 'f_back':
        return fs[at + 1].frame if at + 1 < len(fs) else App('attr', v, name)
    if name == 'f_code':
        return App('attr', fs[at].func, '__code__')
    return App('attr', v, name)


def frame_info(I, f):
    o = I.o(f.func)
    return tup(f.frame, App('attr', f.frame, 'filename'), App('attr', f.frame, 'f_lineno'), C(o.name), NONE, NONE)


@model('inspect.stack', 'inspect.getouterframes')
def m_stack(I, args, kw, node, frame):
    fs = frames(I)
    if args and isinstance(args[0], Ref) and I.isobj(args[0], _i.FrameObj):
        at = [i for i, f in enumerate(fs) if f.frame == args[0]]
        fs = fs[at[0]:] if at else []
    if not fs:
        return I.opaque_call(Ext('inspect.stack'), [], [], node)
    return I.new(_i.ListObj(tuple(One(frame_info(I, f)) for f in fs) + (Opq(App('callers', 'of'), I.fresh_b()),)))


@model('inspect.getargvalues')
def m_argvalues(I, args, kw, node, frame):
    v = I.resolve(args[0])
    f = next((f for f in frames(I) if f.frame == v), None) if isinstance(v, Ref) else None
    if f is None:
        return I.opaque_call(Ext('inspect.getargvalues'), args, kw, node)
    a = I.o(f.func).node.args
    names = [p.arg for p in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    return tup(I.new(_i.ListObj(One(C(n)) for n in names)), C(a.vararg.arg) if a.vararg else NONE,
               C(a.kwarg.arg) if a.kwarg else NONE, frame_attr(I, v, 'f_locals', node))


@model('sys._getframe', 'inspect.currentframe')
def m_getframe(I, args, kw, node, frame):
    d = I.resolve(args[0]) if args else C(0)
    fs = frames(I)
    if isinstance(d, Const) and isinstance(d.v, int) and 0 <= d.v < len(fs):
        return fs[d.v].frame
    return App('getitem', App('getitem', App('call', Ext('inspect.stack'), (), ()), freeze_val(I, d)), C(0))


@model('builtins.object.__new__')
def m_object_new(I, args, kw, node, frame):
    if I.isobj(args[0], _i.ClassObj):
        return I.new_instance(args[0])
    return App('freshobject', I.fresh_b())


@model('future.utils.with_metaclass', 'six.with_metaclass')
def m_with_metaclass(I, args, kw, node, frame):
    return App('withmeta', *args)


@model('builtins.type.__new__')
def m_type_new(I, args, kw, node, frame):
    bases = I.resolve(args[2]) if len(args) == 4 and not kw else None
    ns = I.obj(args[3]) if len(args) == 4 else None
    entries = ones(ns.segs) if isinstance(ns, _i.DictObj) else None
    if is_const(args[1] if len(args) > 1 else None, str) and isinstance(bases, Tup) and ones(bases.segs) is not None and entries is not None:
        entries = [(x.segs[0].val, x.segs[1].val) for x in entries]
        if all(is_const(k, str) for k, _ in entries):
            module, n, qual = I.classing[-1] if I.classing else ('?', None, args[1].v)
            v = I.new_class(args[1].v, list(ones(bases.segs)), module, n, qual, {k.v: x for k, x in entries})
            if I.isobj(args[0], _i.ClassObj):
                I.m(v).meta = args[0]
            return v
    raise _i.Undecided('type.__new__')


@model('toolz.should_curry')
def m_should_curry(I, args, kw, node, frame):
    """toolz: whether more arguments could make right a call that was not."""
    f = I.resolve(args[0])
    n, segs = ones(I.resolve(args[1]).segs), ones(I.obj(args[2]).segs)
    if I.isobj(f, _i.InstObj):
        c = I.class_lookup(I.o(f).cls, '__call__')
        f, n = c[0], [f] + list(n)
    while isinstance(f, App) and f.op == 'bound':
        n = [f.args[1]] + list(n)
        f = f.args[0]
    if not I.isobj(f, _i.FuncObj) or n is None or segs is None:
        raise _i.Undecided('signature for curry')
    a = I.o(f).node.args
    names = [x.segs[0].val for x in segs]
    if not all(is_const(k, str) for k in names):
        raise _i.Undecided('keywords for curry')
    names = [k.v for k in names]
    params = [x.arg for x in a.posonlyargs + a.args]
    given = params[:len(n)]
    if len(n) > len(params) and a.vararg is None or set(given) & set(names) or \
            a.kwarg is None and set(names) - set(params) - {x.arg for x in a.kwonlyargs}:
        return FALSE
    if a.vararg is not None:
        return TRUE
    optional = params[len(params) - len(a.defaults):]
    missing = [x for x in params if x not in given and x not in names and x not in optional]
    missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in names]
    return C(bool(missing))


@model('builtins.object.__init__')
def m_object_init(I, args, kw, node, frame):
    return NONE


def decorate(I, dv, v, node):
    if isinstance(dv, Ext) and dv.path not in MODELS:
        return v
    if isinstance(dv, (Sym,)):
        return v
    if isinstance(dv, App) and dv.op not in ('bound', 'bmeth'):
        return v
    return I.call(dv, [v], [], node)


# ------------------------------------------------------------------ while loops written over an index

def while_as_for(s):
    """`while i < len(X): ...; i += 1` -> (assign i over range(len(X))).  None when it is not that."""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, r, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, ast.Gt):
        l, r, op = r, l, ast.Lt()
    if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name)):
        return None
    if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'len' and len(r.args) == 1):
        return None
    if not s.body:
        return None
    last = s.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == l.id
            and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    for st in s.body[:-1]:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id == l.id and isinstance(n.ctx, ast.Store):
                return None
            if isinstance(n, ast.Continue):
                return None
    return ast.Name(id=l.id, ctx=ast.Store(), lineno=s.lineno, col_offset=s.col_offset), \
        ast.copy_location(ast.fix_missing_locations(ast.Call(
            func=ast.Name(id='range', ctx=ast.Load()), args=[r], keywords=[])), s), s.body[:-1], None


def segs_of_indexable(I, v):
    if isinstance(v, Ref) and isinstance(I.o(v), _i.ListObj):
        return I.o(v).segs
    return None


def while_next(s):
    """`while True: try: x = next(it) except StopIteration: break; ...` -> (x, it, body), the loop `for x in it`."""
    if not (isinstance(s.test, ast.Constant) and s.test.value) or s.orelse or not s.body or not isinstance(s.body[0], ast.Try):
        return None
    t = s.body[0]
    if t.finalbody or len(t.handlers) != 1 or not t.body:
        return None
    h, a = t.handlers[0], t.body[0]
    if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
        return None
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name)
            and a.value.func.id == 'next' and len(a.value.args) == 1 and not a.value.keywords and isinstance(a.value.args[0], ast.Name)) \
            or len(t.body) > 1:
        return None
    it = a.value.args[0]
    for st in t.orelse + s.body[1:]:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id == it.id:
                return None
    return a.targets[0], it, t.orelse + s.body[1:]


# ------------------------------------------------------------------ descriptors of known classes

OBJECT_MEMBERS = tuple(sorted(n for n in dir(object)))


NO_DATA_DESCRIPTORS = (T['list'], T['tuple'], T['dict'], T['set'], T['frozenset'], T['str'], T['OrderedDict'],
                       T['NoneType'], T['bytes'])


@model('inspect.getmembers')
def m_getmembers(I, args, kw, node, frame):
    cls = I.resolve(args[0])
    pred = kwget(args, kw, 1, 'predicate')
    if pred == C(None):
        pred = None
    if pred == Ext('inspect.isdatadescriptor') and cls in NO_DATA_DESCRIPTORS:
        return I.new(_i.ListObj())
    if not I.isobj(cls, _i.ClassObj) or pred not in (None, Ext('inspect.isdatadescriptor')) or \
            any(not isinstance(c, Ref) and c != T['object'] and (pred is None or c not in NO_DATA_DESCRIPTORS)
                for c in I.o(cls).mro):
        return I.opaque_call(Ext('inspect.getmembers'), args, kw, node)
    if pred is None:
        found = {n: App('classmember', cls, n) for n in OBJECT_MEMBERS + ('__dict__', '__weakref__', '__module__')}
        for c in reversed(I.o(cls).mro):
            if isinstance(c, Ref):
                found.update((n, v) for n, v in namespace(I, c, cls).items() if n not in ('__dict__', '__weakref__'))
        return I.new(_i.ListObj(tuple(One(tup(C(n), found[n])) for n in sorted(found))))
    found = {}
    for c in reversed(I.o(cls).mro):
        if not isinstance(c, Ref):
            continue
        o = I.o(c)
        if '__slots__' not in o.attrs:
            found['__weakref__'] = App('desc', cls, '__weakref__', 'getset')
        for n, v in o.attrs.items():
            d = I.obj(v)
            if isinstance(d, _i.DescObj) and d.kind == 'property':
                found[n] = App('desc', cls, n, 'property')
            elif n in found:
                del found[n]
        for n in class_slots(I, c) if '__slots__' in o.attrs else ():
            if own_slot(I, o, n):
                found[n] = App('desc', cls, n, 'slot')
    out = tuple(One(tup(C(n), found[n])) for n in sorted(found))
    return I.new(_i.ListObj(out))


def namespace(I, c, cls=None):
    """The entries of the dictionary of a class, descriptors included."""
    o = I.o(c)
    cls = cls or c
    found = {} if '__slots__' in o.attrs else {'__weakref__': App('desc', cls, '__weakref__', 'getset')}
    for n, v in o.attrs.items():
        d = I.obj(v)
        found[n] = App('desc', cls, n, 'property') if isinstance(d, _i.DescObj) and d.kind == 'property' else v
    for n in class_slots(I, c) if '__slots__' in o.attrs else ():
        if own_slot(I, o, n):
            found[n] = App('desc', cls, n, 'slot')
    return found


def own_slot(I, o, n):
    s = o.attrs.get('__slots__')
    if is_const(s, str):
        return s.v == n
    segs = s.segs if isinstance(s, Tup) else I.o(s).segs
    return any(x == C(n) for x in (ones(segs) or ()))


@model('inspect.isdatadescriptor')
def m_isdata(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, App) and v.op == 'desc':
        return TRUE
    o = I.obj(v)
    if isinstance(o, _i.DescObj):
        return C(o.kind == 'property')
    if o is not None and not isinstance(o, _i.InstObj) or isinstance(v, (Const, Tup, Sym)):
        return FALSE                 # values held by classes are taken to be data
    return I.opaque_call(Ext('inspect.isdatadescriptor'), args, kw, node)


@model('inspect.ismemberdescriptor')
def m_ismember(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, App) and v.op == 'desc':
        return C(v.args[2] == 'slot')
    return I.opaque_call(Ext('inspect.ismemberdescriptor'), args, kw, node)


@model('inspect.isgetsetdescriptor')
def m_isgetset(I, args, kw, node, frame):
    v = I.resolve(args[0])
    if isinstance(v, App) and v.op == 'desc':
        return C(v.args[2] == 'getset')
    return I.opaque_call(Ext('inspect.isgetsetdescriptor'), args, kw, node)


from . import peg  # noqa: E402  (models of arpeggio)
