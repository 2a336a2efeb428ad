"""Tells abstract values apart by a valuation of their free symbols.

The normal forms the comparison cannot separate structurally (text transformations, digests, order of
integers) are terms over known pure operations of the standard library and uninterpreted functions.  A
valuation gives every symbol and every uninterpreted application a value of its abstract type; when the
literals of the partition hold under it and both terms have a value, and the values differ, the partition
is feasible and the results differ for that input.  Only terms are evaluated here: no code of the analysed
package is.
"""
import hashlib
import random
import time

from .values import (Val, Const, Sym, Bnd, Ext, App, Ref, Tup, Frozen, Tmpl, Hole, Join, One, Each, Perm, Opq, walk)
from .types_ import T
from . import linear


class Unknown(Exception):
    pass


class Reject(Exception):
    pass


class Obj(object):
    """A caller object nothing is known about."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'obj<%s>' % self.n

    __repr__ = __str__


TEXTS = ('a', 'b', 'ab', '', 'B', "it's", 'x y', ' pad ', 'caf\xe9', '_z', 'z_', '10', 'None', 'out', 'a,b', 'q"q',
         'what', '\xe9t\xe9_', 'A', 'aa', '__', 'a(b=1)', 'name', '2', '\t', 'a.b', 'seq')
STR_OK = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'swapcase', 'encode',
          'startswith', 'endswith', 'split', 'rsplit', 'partition', 'rpartition', 'join', 'find', 'rfind', 'count',
          'casefold', 'zfill', 'ljust', 'rjust', 'isdigit', 'isalpha', 'isidentifier', 'isupper', 'islower',
          'isspace', 'isalnum', 'removeprefix', 'removesuffix', 'splitlines', 'decode', 'hexdigest', 'center', 'index'}
FREE_BOOLS = {'hasattr', 'callable', 'iterable', 'ok', 'issubclass', 'isinstance', 'typeis', 'in', 'eq', 'is', 'truthy'}


def hashable(x):
    if isinstance(x, tuple):
        return all(hashable(y) for y in x)
    return not isinstance(x, (list, dict, VSet))


def comparable(k):
    return isinstance(k, (str, bool, int)) or isinstance(k, (tuple, list)) and all(comparable(x) for x in k)


class Model(object):

    def __init__(self, I, cmp_, seed, consts):
        self.I = I
        self.cmp = cmp_
        self.rnd = random.Random(seed)
        self.syms = {}
        self.fun = {}
        self.bools = {}
        self.ids = 0
        self.consts = consts
        self.texts = []
        self.few = self.rnd.random() < 0.5
        self.steps = 0

    # --- choice of values

    def text(self):
        t = self.near(self.rnd.choice(self.texts)) if self.texts and self.rnd.random() < 0.25 else self.text_()
        self.texts.append(t)
        return t

    def near(self, t):
        k = self.rnd.randrange(7)
        return (t.swapcase(), t + '1', ' ' + t, t[:1], '_' + t, t + '_', t + t)[k]

    def text_(self):
        if self.consts[0] and self.rnd.random() < 0.3:
            c = self.rnd.choice(self.consts[0])
            k = self.rnd.random()
            return c if k < 0.5 else self.rnd.choice('ab') + c[:3] + self.rnd.choice('12') if k < 0.9 else c + 'a'
        return self.rnd.choice(TEXTS[:4] if self.few else TEXTS)

    def integer(self):
        if self.consts[1] and self.rnd.random() < 0.4:
            return self.rnd.choice(self.consts[1]) + self.rnd.choice((-1, 0, 0, 1))
        return self.rnd.choice((-1, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 20, 40, 50, 200))

    def obj(self):
        self.ids += 1
        return Obj(self.ids)

    def many(self, f):
        return [f() for _ in range(self.rnd.choice((0, 1, 1, 2, 2, 3)))]

    def of_type(self, v, plain=None):
        ti = self.I.typeinfo(v)
        e = ti.exact
        if e is None and ti.isa:
            for t in ti.isa:
                if t not in (T['object'],):
                    raise Unknown('a subclass')
        if e is None:
            if plain is not None:
                return plain()
            if T['str'] not in ti.nota and self.rnd.random() < 0.3:
                return self.text()
            return self.obj()
        if e == T['str']:
            return self.text()
        if e == T['int']:
            return self.integer()
        if e == T['bool']:
            return self.rnd.random() < 0.5
        if e == T['NoneType']:
            return None
        if e == T['list']:
            return [self.elem() for _ in range(self.rnd.choice((0, 1, 2, 2, 3)))]
        if e == T['tuple']:
            return tuple(self.elem() for _ in range(self.rnd.choice((0, 1, 2, 2, 3))))
        if e in (T['set'], T['frozenset']):
            r = frozenset(self.many(self.text))
            return r if e == T['frozenset'] else VSet(r)
        if e == T['dict']:
            return dict((k, self.elem()) for k in self.many(self.text))
        if e in (T['object'], T['function']) or isinstance(e, Ref):
            return self.obj()
        raise Unknown('a value of %s' % (e,))

    def elem(self):
        return self.text() if self.rnd.random() < 0.6 else self.obj()

    # --- evaluation

    def ev(self, v, env):
        self.steps += 1
        if self.steps > 20000:
            raise Unknown('too long')
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Sym):
            if v not in self.syms:
                self.syms[v] = self.of_type(v)
            return self.syms[v]
        if isinstance(v, Bnd):
            if v in env:
                return env[v]
            raise Unknown('unbound')
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, Tup):
            return tuple(self.segs(v.segs, env))
        if isinstance(v, Tmpl):
            return ''.join(self.part(p, env) for p in v.parts)
        if isinstance(v, Hole):
            return self.part(v, env)
        if isinstance(v, Frozen):
            return self.frozen(v, env)
        if isinstance(v, App):
            return self.app(v, env)
        raise Unknown(type(v).__name__)

    def frozen(self, v, env):
        k = v.k[0]
        if k in ('list', 'iter', 'seq'):
            return list(self.segs(v.k[1], env))
        if k in ('set', 'frozenset'):
            r = frozenset(hashable(x) for x in self.segs(v.k[1], env))
            return r if k == 'frozenset' else VSet(r)
        if k == 'dict':
            return {hashable(a): b for a, b in self.pairs(v.k[1], env)}
        if k in ('class', 'func', 'cycle'):
            return ('frozen', v)
        if k == 'inst':
            return ('frozen', ('inst', self.ev(v.k[1], env),
                               tuple(sorted((n, ident(self.ev(x, env))) for n, x in ((y[0], y[1]) if isinstance(y, tuple) else
                                            (y.segs[0].val.v, y.segs[1].val) for y in v.k[2])))))
        raise Unknown('snapshot %s' % k)

    def pairs(self, segs, env):
        for x in self.segs(segs, env):
            if not isinstance(x, tuple) or len(x) != 2:
                raise Unknown('entry')
            yield x

    def part(self, p, env):
        if isinstance(p, str):
            return p
        if isinstance(p, Hole):
            x = self.ev(p.val, env)
            if isinstance(x, (Obj, frozenset, set)) or isinstance(x, tuple) and x and x[0] in ('ext', 'frozen'):
                if isinstance(x, Obj) and p.conv in ('s', 'r'):
                    return '%s!%s' % (x, p.conv)
                raise Unknown('text of an object')
            if not plain(x):
                raise Unknown('text of a collection')
            if p.conv == 's':
                return str(x)
            if p.conv == 'r':
                return repr(x)
            if p.conv == 'd' and isinstance(x, int):
                return '%d' % x
            raise Unknown('conversion')
        if isinstance(p, Join):
            xs = list(self.segs(p.segs, env))
            sep = self.ev(p.sep, env) if isinstance(p.sep, Val) else p.sep
            if not all(isinstance(x, str) for x in xs + [sep]):
                raise Unknown('join of non text')
            return sep.join(xs)
        raise Unknown('part')

    def iterate(self, src, env):
        if isinstance(src, Frozen) and src.k[0] in ('seq', 'list', 'iter'):
            return list(self.segs(src.k[1], env))
        x = self.ev(src, env)
        if isinstance(x, (list, tuple, dict)):
            return list(x)
        if isinstance(x, (set, frozenset)):
            return sorted(x, key=repr)
        raise Unknown('iteration')

    def rows(self, s, env):
        """(environment, segments) of each round of a summarised loop."""
        for x in self.iterate(s.src, env):
            e2 = dict(env)
            e2[s.b] = x
            e2[('at', s.src)] = s.b
            for g, sg in s.alts:
                if all(self.holds(a, e2) == p for a, p in g):
                    yield e2, sg
                    break

    def segs(self, segs, env):
        for s in segs:
            if isinstance(s, One):
                yield self.ev(s.val, env)
            elif isinstance(s, Each):
                for e2, sg in self.rows(s, env):
                    for x in self.segs(sg, e2):
                        yield x
            elif isinstance(s, Perm):
                for x in self.perm(s, env):
                    yield x
            else:
                raise Unknown('unknown content')

    def perm(self, p, env):
        if p.how[0] == 'reversed':
            return list(self.segs(p.segs, env))[::-1]
        if p.how[0] != 'sorted':
            raise Unknown('order')
        rows = []
        flat = list(self.cmp.flat(p.segs))
        keys = p.how[1]
        if isinstance(keys, tuple) and keys and keys[0] == 'ones':
            return self.perm_ones(flat, keys[1:], p.how[2], env)
        if not isinstance(keys, tuple) or not keys or isinstance(keys[0], str) or len(keys) != 1:
            raise Unknown('sort keys')
        key = keys[0]
        if isinstance(key, tuple):
            raise Unknown('sort keys')
        for s in flat:
            if isinstance(s, Each):
                for e2, sg in self.rows(s, env):
                    if not all(isinstance(q, One) for q in sg):
                        raise Unknown('nested order')
                    for q in sg:
                        rows.append((self.ev(key, e2), self.ev(q.val, e2)))
            else:
                raise Unknown('order of known elements')
        ks = [k for k, _ in rows]
        if not all(isinstance(k, str) for k in ks) and not all(type(k) is int for k in ks):
            raise Unknown('order of objects')
        rev = p.how[2]
        rev = bool(rev.v) if isinstance(rev, Const) else bool(rev) if not isinstance(rev, Val) else None
        if rev is None:
            raise Unknown('direction')
        return [x for _, x in sorted(rows, key=lambda r: r[0], reverse=rev)]

    def perm_ones(self, flat, keys, rev, env):
        rows = []
        if all(isinstance(s, One) for s in flat) and len(flat) == len(keys):
            for k, s in zip(keys, flat):
                rows.append((self.ev(k, env), [self.ev(s.val, env)]))
        elif len(flat) == 1 and isinstance(flat[0], Each) and len(flat[0].src.k[1]) == len(keys):
            s = flat[0]
            for i, (k, one) in enumerate(zip(keys, s.src.k[1])):
                e2 = dict(env)
                e2[s.b] = self.ev(one.val, env)
                e2[('ix', s.b)] = i
                for g, sg in s.alts:
                    if all(self.holds(a, e2) == q for a, q in g):
                        rows.append((self.ev(k, env), list(self.segs(sg, e2))))
                        break
        else:
            raise Unknown('sort keys')
        if not all(comparable(k) for k, _ in rows):
            raise Unknown('order of objects')
        if isinstance(rev, Val) and not isinstance(rev, Const):
            raise Unknown('direction')
        try:
            rows.sort(key=lambda r: r[0], reverse=bool(rev.v if isinstance(rev, Const) else rev))
        except TypeError:
            raise Unknown('order of objects')
        return [x for _, r in rows for x in r]

    # booleans

    def holds(self, a, env):
        if isinstance(a, Const):
            return bool(a.v)
        return bool(self.ev(a, env))

    def free_bool(self, v, env, want=None):
        if not all(self.cmp.rigid(x) for x in v.args if isinstance(x, Val)):
            raise Unknown('condition')
        key = (v.op,) + tuple(self.key(x, env) for x in v.args)
        if key not in self.bools:
            self.bools[key] = (self.rnd.random() < 0.5) if want is None else want
        return self.bools[key]

    def key(self, x, env):
        if isinstance(x, tuple):
            return tuple(self.key(y, env) for y in x)
        if not isinstance(x, Val):
            return x
        return ident(self.ev(x, env))

    def app(self, v, env):
        op, a = v.op, v.args
        if op == 'at':
            if isinstance(a[1], Bnd) and a[1] in env:
                return env[a[1]]
            raise Unknown('element')
        if op == 'segat':
            i = a[1].v if isinstance(a[1], Const) else a[1]
            if ('ix', a[0]) in env:
                return env[('ix', a[0])] == i
            raise Unknown('element')
        if op == 'idx':
            raise Unknown('index')
        if op == 'not':
            return not self.holds(a[0], env)
        if op == 'eq' or op == 'is':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if op == 'is' and not (x is None or y is None or isinstance(x, (bool, Obj)) or isinstance(y, (bool, Obj))):
                raise Unknown('identity')
            if isinstance(x, Obj) and isinstance(y, Obj):
                return x is y
            if isinstance(x, Obj) or isinstance(y, Obj):
                return False
            return ident(x, True) == ident(y, True)
        if op == 'in':
            x, c = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(c, str):
                if not isinstance(x, str):
                    raise Unknown('in text')
                return x in c
            if isinstance(c, (list, tuple, dict, set, frozenset)):
                return any(ident(x, True) == ident(y, True) for y in c)
            return self.free_bool(v, env)
        if op == 'truthy':
            x = self.ev(a[0], env)
            if isinstance(x, Obj):
                return self.free_bool(v, env)
            if isinstance(x, tuple) and x[:1] in (('ext',), ('frozen',)):
                raise Unknown('truth')
            return bool(x)
        if op == 'len':
            x = self.ev(a[0], env)
            if isinstance(x, (str, bytes, list, tuple, dict, set, frozenset)):
                return len(x)
            raise Unknown('len')
        if op in ('lt', 'le', 'add', 'sub', 'mul'):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            ok = (int, bool, float)
            if isinstance(x, ok) and isinstance(y, ok) or isinstance(x, str) and isinstance(y, str):
                if op == 'lt':
                    return x < y
                if op == 'le':
                    return x <= y
                if op == 'add':
                    return x + y
                if op == 'sub' and not isinstance(x, str):
                    return x - y
            raise Unknown(op)
        if op in ('isinstance', 'typeis'):
            d = self.I.decide(v)
            x = self.ev(a[0], env)
            if isinstance(x, Obj):
                return bool(d) if d is not None else self.free_bool(v, env)
            t = a[1]
            if isinstance(t, Ext) and t.path.startswith('builtins.'):
                return isinstance(x, getattr(__import__('builtins'), t.path[9:])) if op == 'isinstance' else \
                    type(x).__name__ == t.path[9:]
            raise Unknown(op)
        if op == 'getitem':
            x, k = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, dict):
                if hashable(k) not in x:
                    raise Reject()
                return x[hashable(k)]
            if isinstance(x, (list, tuple, str)) and type(k) is int:
                if not -len(x) <= k < len(x):
                    raise Reject()
                return x[k]
            return self.free(v, env)
        if op == 'slice':
            x = self.ev(a[0], env)
            b = [self.ev(y, env) if isinstance(y, Val) else y for y in a[1:]]
            if isinstance(x, (str, bytes, list, tuple)) and all(y is None or type(y) is int for y in b):
                return x[slice(*b)]
            raise Unknown('slice')
        if op == 'mcall' and isinstance(a[0], App) and a[0].op == 'call' and isinstance(a[0].args[0], Ext) and \
                a[0].args[0].path.startswith('hashlib.') and a[1] == 'hexdigest':
            return self.digest(a[0], env)
        if op.startswith('m:') and op[2:] in STR_OK:
            xs = [self.ev(y, env) for y in a]
            if isinstance(xs[0], (str, bytes)) and all(isinstance(x, (str, int, bytes, type(None), tuple, list)) for x in xs[1:]):
                try:
                    return getattr(xs[0], op[2:])(*xs[1:])
                except UnicodeError:
                    raise Fails()
                except Exception:
                    raise Unknown(op)
            raise Unknown(op)
        if op == 'mcall' and not self.cmp.rigid(v):
            x = self.ev(a[0], env)
            xs = [self.ev(y, env) for y in a[2]] if isinstance(a[2], tuple) else None
            if xs is not None and not a[3] and type(x) in PURE and a[1] in PURE[type(x)] and all(plain(y) or isinstance(y, (tuple, list)) for y in xs):
                try:
                    return getattr(x, a[1])(*xs)
                except UnicodeError:
                    raise Fails()
                except Exception:
                    raise Unknown(op)
            raise Unknown(op)
        if op == 'ok':
            try:
                self.ev(a[0], env)
                return True
            except Fails:
                return False
        if op == 'desc' or op == 'classmember':
            return ('frozen', (op, self.ev(a[0], env)) + a[1:])
        if op in ('hasattr', 'callable', 'iterable', 'issubclass'):
            d = self.I.decide(v)
            if d is not None:
                return d
            return self.free_bool(v, env)
        if op in ('attr', 'call', 'mcall', 'type') or op in self.cmp.opaque_ops:
            if op == 'call' and a[0] == Ext('builtins.hash') and len(a[1]) == 1:
                x = self.ev(a[1][0], env)
                if not hashable(x):
                    raise Fails()
                return ('hash', ident(x))
            if op == 'call' and isinstance(a[0], Ext) and a[0].path.startswith('builtins.'):
                raise Unknown(a[0].path)
            return self.free(v, env)
        raise Unknown(op)

    def digest(self, c, env):
        name = c.args[0].path[8:]
        args = c.args[1]
        if name not in ('sha1', 'md5', 'sha256', 'sha512', 'sha224', 'sha384') or len(args) != 1:
            raise Unknown('digest')
        x = self.ev(args[0], env)
        if not isinstance(x, bytes):
            raise Unknown('digest of text')
        return getattr(hashlib, name)(x).hexdigest()

    def free(self, v, env):
        if not self.cmp.rigid(v):
            raise Unknown('term %s' % v.op)
        key = (v.op,) + tuple(self.key(x, env) for x in v.args)
        if key not in self.fun:
            self.fun[key] = self.of_type(v)
        return self.fun[key]


PURE = {str: STR_OK | {'count', 'index', 'find', 'rfind', 'split', 'rsplit', 'partition', 'rpartition', 'splitlines', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'casefold'},
        list: {'count', 'index'}, tuple: {'count', 'index'}, int: {'bit_length'}, float: {'is_integer'}}


class Fails(Exception):
    """The operation raises an error for this valuation."""


class VSet(frozenset):
    """A mutable set."""


def plain(x):
    return x is None or isinstance(x, (str, int, float, bool, bytes))


def hashable(x):
    if isinstance(x, (list, dict, VSet)):
        raise Unknown('unhashable')
    return x


def ident(x, loose=False):
    """A comparable rendering of a value: by type and content (by content when loose)."""
    if isinstance(x, Obj):
        return ('obj', x.n)
    if isinstance(x, (list, tuple)):
        return (('list' if isinstance(x, list) else 'tuple'), tuple(ident(y, loose) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set' if loose else type(x).__name__, frozenset(ident(y, loose) for y in x))
    if isinstance(x, dict):
        return ('dict', frozenset((ident(k, loose), ident(y, loose)) for k, y in x.items()))
    if isinstance(x, (bool, int, float)) and loose:
        return ('num', float(x) if abs(x) < 1e15 else x)
    return (type(x).__name__, x)


def constants(vals):
    texts, ints = [], []
    for v in vals:
        for x in walk(v):
            if isinstance(x, Const) and type(x.v) is str and len(x.v) < 20 and x.v not in texts:
                texts.append(x.v)
            elif isinstance(x, Const) and type(x.v) is int and x.v not in ints:
                ints.append(x.v)
    return texts, ints


def search(I, cmp_, lits, got, want, tries=4000, enough=250, seconds=2.0):
    """(witness, agreeing): a valuation telling got from want, and how many valuations did not."""
    agree = unknown = 0
    consts = constants([a for a, _ in lits] + [got, want])
    end = time.time() + seconds
    for seed in range(tries):
        if agree >= enough or (seed >= 300 and time.time() > end):
            break
        m = Model(I, cmp_, seed, consts)
        try:
            ok = True
            for a, p in lits:
                m.steps = 0
                if not force(m, a, p):
                    ok = False
                    break
            if not ok:
                continue
            m.steps = 0
            x = outcome(m, got)
            y = outcome(m, want)
            if x != y:
                return m, agree
            agree += 1
        except Reject:
            continue
        except Unknown:
            unknown += 1
            if unknown > 12 and not agree:
                break
        except Fails:
            continue
    return None, agree


def force(m, a, p):
    """The literal holds, choosing the open conditions so that it does."""
    if isinstance(a, App) and a.op in ('hasattr', 'callable', 'iterable', 'issubclass') and m.cmp.free_atom(a):
        return m.free_bool(a, {}, p) == p
    if isinstance(a, App) and a.op == 'ok' and m.cmp.free_atom(a):
        try:
            return bool(m.ev(a, {})) == p
        except Unknown:
            return m.free_bool(a, {}, p) == p
    if isinstance(a, App) and a.op in ('isinstance', 'typeis', 'is', 'truthy', 'in', 'eq'):
        d = m.I.decide(a)
        try:
            return bool(m.ev(a, {})) == p
        except Unknown:
            if m.cmp.free_atom(a) and not isinstance(a.args[0], (Tmpl, Const)) and a.op in ('isinstance', 'typeis'):
                return d == p or d is None
            raise
    return bool(m.ev(a, {})) == p


def outcome(m, v):
    if v is None:
        return None
    try:
        return ident(m.ev(v, {}))
    except Fails:
        return ('raises',)


def feasible(I, cmp_, lits, tries=3000, seconds=1.5):
    """A valuation under which the literals hold, or None."""
    consts = constants([a for a, _ in lits])
    unknown = 0
    end = time.time() + seconds
    for seed in range(tries):
        if seed >= 300 and time.time() > end:
            break
        m = Model(I, cmp_, seed, consts)
        try:
            if all(force(m, a, p) for a, p in lits):
                return m
        except (Reject, Fails):
            continue
        except Unknown:
            unknown += 1
            if unknown > 12:
                return None
    return None


def describe(m):
    return ', '.join('%s=%r' % (s.name, x) for s, x in sorted(m.syms.items(), key=lambda t: repr(t[0])))[:300]
