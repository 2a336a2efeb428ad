"""Three-valued comparison of abstract values within one partition.

SAME: equal for every concretisation; DIFF: some concretisation of the (free) symbols tells them
apart; UNK: the analysis cannot tell (a term it does not interpret is involved).  Only DIFF is ever
reported.  DIFF is concluded only over *rigid* terms: constants, caller symbols and free projections
or applications of them, for which distinct normal forms have distinguishing concretisations.
"""
from .interp import Infeasible, Undecided
from .values import mentions
from .values import (Val, Const, Sym, Bnd, Ext, App, Ref, Tup, Frozen, Tmpl, Hole, Join, One, Each, Perm, Opq,
                     NONE, C, walk, subst, rebuild)
from .types_ import T
from . import linear

SAME, DIFF, UNK = 'same', 'diff', 'unk'

COPIES = (Ext('copy.deepcopy'), Ext('copy.copy'))
RIGID_OPS = {'at', 'getitem', 'attr', 'bs', 'mcall', 'call', 'type', 'idx'}
FREE_ATOMS = {'lt', 'le', 'in', 'isinstance', 'typeis', 'truthy', 'is', 'eq', 'hasattr', 'callable', 'iterable', 'ok', 'issubclass', 'textsplit'}
FREE_TRUTHY = {'m:startswith', 'm:endswith', 'call', 'mcall', 'attr', 'getitem', 'at'}
BOOLS = {'in', 'isinstance', 'typeis', 'truthy', 'is', 'eq', 'hasattr', 'callable', 'iterable', 'not', 'ok',
         'issubclass', 'lt', 'le', 'inrange'}


BUILTIN_KINDS = {'num', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'NoneType', 'bool'}


def meet(*rs):
    """Componentwise: any definite difference wins over unknown."""
    if DIFF in rs:
        return DIFF
    if UNK in rs:
        return UNK
    return SAME


class Comparer(object):

    def __init__(self, I, rigid_calls=(), opaque_ops=(), unordered_src=True):
        self.I = I
        self.rigid_calls = set(rigid_calls)     # Ext paths whose results are free
        self.opaque_ops = set(opaque_ops)       # scenario declared uninterpreted operators
        self.why = None
        self.n = 0

    # ------------------------------------------------------------ canonical form

    def canon(self, v):
        v = self.I.freeze(v)
        v = self.rewrite(v)
        v = self.norm(v, 0)
        return v

    def rewrite(self, v):
        """Equalities known on this partition."""
        m = {}
        for members in set(self.I.eq_classes().values()):
            txt = [x for x in members if isinstance(x, (Sym, App)) and self.exact(x) in (T['str'], T['int'])]
            if len(txt) > 1 and len(set(self.exact(x) for x in txt)) == 1:
                txt.sort(key=repr)
                for x in txt[1:]:
                    m[x] = txt[0]
        for a, pol in self.I.state.facts.items():
            if pol and isinstance(a, App) and a.op == 'eq':
                x, y = a.args
                if isinstance(x, Const) and not isinstance(y, Const):
                    x, y = y, x
                if isinstance(y, Const) and isinstance(y.v, str) and isinstance(x, (Sym, App)):
                    m[x] = y
            if pol and isinstance(a, App) and a.op == 'is' and a.args[1] == NONE and isinstance(a.args[0], (Sym, App)):
                m[a.args[0]] = NONE
        for s, ti in self.I.state.types.items():
            if ti.exact == T['NoneType'] and isinstance(s, (Sym, App)):
                m[s] = NONE
        return subst(v, m) if m else v

    def norm(self, v, depth):
        if isinstance(v, tuple):
            return tuple(self.norm(x, depth) for x in v)
        if not isinstance(v, Val) or isinstance(v, (Const, Sym, Bnd, Ext, Ref)):
            return v
        if isinstance(v, Tup):
            segs = self.norm_segs(v.segs, depth)
            src = self.identity(segs)
            if src is not None and self.exact(src) == T['tuple']:
                return src
            return Tup(segs)
        if isinstance(v, Frozen):
            if v.k[0] in ('list', 'iter', 'set', 'frozenset', 'dict'):
                segs = self.norm_segs(v.k[1], depth)
                if v.k[0] == 'dict':
                    segs = self.norm_dict(segs)
                elif v.k[0] in ('set', 'frozenset'):
                    segs = tuple(s for i, s in enumerate(segs) if not isinstance(s, One) or s not in segs[:i])
                src = self.identity_dict(segs) if v.k[0] == 'dict' else self.identity(segs)
                if src is not None and self.exact(src) == T.get(v.k[0]):
                    return src
                return Frozen(v.k[0], segs)
            return Frozen(*self.norm(v.k, depth))
        if isinstance(v, Tmpl):
            return self.norm_text(v, depth)
        if isinstance(v, Join):
            return Join(self.norm(v.sep, depth), self.norm_segs(v.segs, depth))
        if isinstance(v, (One, Each, Perm, Opq)):
            r = self.norm_segs((v,), depth)
            return r[0] if len(r) == 1 else Tup(r)
        if isinstance(v, App):
            if v.op == 'call' and v.args[0] in COPIES and len(v.args[1]) == 1:
                return self.norm(v.args[1][0], depth)      # a copy says the same
            return App(v.op, *self.norm(v.args, depth))
        return type(v)(*self.norm(v.k, depth))

    def norm_text(self, t, depth):
        parts = []
        for p in t.parts:
            if isinstance(p, str):
                q = [p]
            elif isinstance(p, Hole):
                x = self.norm(p.val, depth)
                if p.conv == 's' and isinstance(x, Const):
                    q = [str(x.v)]
                elif p.conv == 'r' and isinstance(x, Const):
                    q = [repr(x.v)]
                elif p.conv == 's' and isinstance(x, Tmpl):
                    q = list(x.parts)
                else:
                    q = [Hole(x, p.conv)]
            else:
                j = self.norm(p, depth)
                if isinstance(j, Join) and not j.segs:
                    q = []
                elif isinstance(j, Join) and len(j.segs) == 1 and isinstance(j.segs[0], One):
                    x = j.segs[0].val
                    q = list(x.parts) if isinstance(x, Tmpl) else [str(x.v)] if isinstance(x, Const) else [Hole(x, 's')]
                else:
                    q = [j]
            for y in q:
                if isinstance(y, str) and not y:
                    continue
                if isinstance(y, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += y
                else:
                    parts.append(y)
        if not parts:
            return C('')
        if len(parts) == 1 and isinstance(parts[0], str):
            return C(parts[0])
        if len(parts) == 1 and isinstance(parts[0], Hole) and parts[0].conv == 's' and \
                self.exact(parts[0].val) == T['str']:
            return parts[0].val
        return Tmpl(tuple(parts))

    def exact(self, v):
        try:
            return self.I.typeinfo(v).exact
        except Exception:
            return None

    @staticmethod
    def identity(segs):
        if len(segs) == 1 and isinstance(segs[0], Each):
            s = segs[0]
            if len(s.alts) == 1 and s.alts[0][0] == () and s.alts[0][1] == (One(App('at', s.src, s.b)),):
                return s.src
        return None

    @staticmethod
    def identity_dict(segs):
        if len(segs) == 1 and isinstance(segs[0], Each):
            s = segs[0]
            k = App('at', s.src, s.b)
            if len(s.alts) == 1 and s.alts[0][0] == () and \
                    s.alts[0][1] == (One(Tup((One(k), One(App('getitem', s.src, k))))),):
                return s.src
        return None

    def norm_segs(self, segs, depth):
        out = []
        for s in segs:
            if isinstance(s, One):
                out.append(One(self.norm(s.val, depth)))
            elif isinstance(s, Each):
                src = self.norm(s.src, depth)
                if self.empty_src(src):
                    continue
                nb = Bnd('d%d' % depth)
                alts = []
                m = {s.b: nb}
                m.update((b, nb) for b in self.seq_bound(s.src))
                for g, sg in s.alts:
                    g = tuple((self.norm(subst(a, m), depth + 1), p) for a, p in g)
                    g2, dead = [], False
                    for a, p in g:
                        d = a.v if isinstance(a, Const) else self.I.decide(a)
                        if d is None:
                            g2.append((a, p))
                        elif bool(d) != p:
                            dead = True
                    if dead:
                        continue
                    alts.append((tuple(g2), self.norm_segs(subst(sg, m), depth + 1)))
                if all(not sg for _, sg in alts):
                    continue
                if all(sg == alts[0][1] for _, sg in alts[1:]) and len(alts) > 1 and self.I.alts_total(alts):
                    alts = [((), alts[0][1])]
                out.append(Each(nb, src, tuple(alts)))
            elif isinstance(s, Perm):
                m = {}
                for q in self.flat(s.segs):
                    if isinstance(q, Each):
                        m[q.b] = Bnd('d%d' % depth)
                        m.update((b, m[q.b]) for b in self.seq_bound(q.src))
                inner = self.norm_segs(s.segs, depth)
                if not inner:
                    continue
                if len(inner) == 1 and isinstance(inner[0], One):
                    out.append(inner[0])
                    continue
                how = s.how
                if how[0] == 'sorted':
                    desc = self.norm(subst(how[1], m), depth + 1)
                    inner = tuple(self.flat(inner))
                    known = self.sorted_ones(desc, inner)
                    if known is not None:
                        keys, inner = known
                        how = ('sorted', ('ones',) + keys, how[2])
                    else:
                        how = ('sorted', self.order(desc), how[2])
                elif how[0] == 'unordered':
                    inner = self.unseq(tuple(self.flat(inner)))
                    if len(inner) == 1 and isinstance(inner[0], One):
                        out.append(inner[0])
                        continue
                out.append(Perm(how, inner))
            else:
                out.append(type(s)(*self.norm(s.k, depth)))
        return tuple(out)

    @staticmethod
    def unseq(inner):
        """A loop over given elements, each with its own outcome, as these outcomes (in no special order)."""
        if len(inner) != 1 or not isinstance(inner[0], Each) or not isinstance(inner[0].src, Frozen) or inner[0].src.k[0] != 'seq':
            return inner
        out = []
        for g, sg in inner[0].alts:
            if len(g) != 1 or not isinstance(g[0][0], App) or g[0][0].op != 'segat' or not g[0][1] or mentions(sg, inner[0].b):
                return inner
            out.extend(sg)
        return tuple(out)

    def sorted_ones(self, desc, inner):
        """The sort of a few given elements: keys and segments, in a canonical order when no two elements tie."""
        if not isinstance(desc, tuple) or not desc or not all(
                isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], Val) for d in desc):
            return None
        n = len(desc)
        loop = None
        if all(isinstance(q, One) for q in inner):
            items = inner
        elif len(inner) == 1 and isinstance(inner[0], Each) and isinstance(inner[0].src, Frozen) and \
                inner[0].src.k[0] == 'seq' and all(isinstance(q, One) for q in inner[0].src.k[1]):
            loop = inner[0]
            items = loop.src.k[1]
        else:
            return None
        if len(items) != n:
            return None
        keys = tuple(k for _, k in desc)
        for i in range(n):
            for j in range(i):
                if not (items[i] == items[j] and loop is None) and not self.untied(desc[i], desc[j]):
                    return keys, inner
        rank = sorted(range(n), key=lambda i: (repr(desc[i][0]), i))
        keys = tuple(keys[i] for i in rank)
        if loop is None:
            return keys, tuple(inner[i] for i in rank)
        pos = dict((i, j) for j, i in enumerate(rank))
        alts = []
        for g, sg in loop.alts:
            if not g or not isinstance(g[0][0], App) or g[0][0].op != 'segat' or not g[0][1]:
                return tuple(k for _, k in desc), inner
            a = g[0][0]
            i = a.args[1].v if isinstance(a.args[1], Const) else a.args[1]
            alts.append((pos[i], ((App('segat', a.args[0], pos[i]), True),) + g[1:], sg))
        alts.sort(key=lambda t: t[0])
        src = Frozen('seq', tuple(items[i] for i in rank))
        old = loop.src
        return keys, (Each(loop.b, src, tuple((subst(g, {old: src}), subst(sg, {old: src})) for _, g, sg in alts)),)

    def untied(self, d, e):
        """Two sorted elements have different keys, or are the same whenever their keys are."""
        (x, k), (y, m) = d, e
        if x == k and y == m and self.exact(x) == T['str'] and self.exact(y) == T['str']:
            return True
        if isinstance(k, Tup) and isinstance(m, Tup) and k.segs and m.segs and isinstance(k.segs[0], One) and \
                isinstance(m.segs[0], One):
            k, m = k.segs[0].val, m.segs[0].val
        return self.I.decide(App('eq', k, m)) is False or self.I.decide(App('eq', m, k)) is False

    def seq_bound(self, src):
        """The generic elements a sequence of several segments is made of."""
        if isinstance(src, Frozen) and src.k[0] == 'seq':
            return [q.b for q in self.flat(src.k[1]) if isinstance(q, Each)]
        return []

    def flat(self, segs):
        for s in segs:
            if isinstance(s, Perm):
                for q in self.flat(s.segs):
                    yield q
            else:
                yield s

    def order(self, desc):
        """Keys deciding a sort, reduced when their first component already is unique."""
        if not isinstance(desc, tuple) or (desc and isinstance(desc[0], str)):
            return desc
        keys = []
        for d in desc:
            if not (isinstance(d, tuple) and len(d) == 2):
                return desc
            elem, key = d
            if isinstance(key, Tup) and key.segs and isinstance(key.segs[0], One) and len(key.segs) == 2:
                k = key.segs[0].val
                rest = key.segs[1].val if isinstance(key.segs[1], One) else None
                if isinstance(k, App) and k.op == 'at' and isinstance(rest, App) and \
                        rest == App('getitem', k.args[0], k):
                    key = k
            if key not in keys:
                keys.append(key)
        return tuple(keys)

    def empty_src(self, src):
        if isinstance(src, (Sym, App)):
            return self.I.decide(App('truthy', src)) is False
        if isinstance(src, Frozen) and src.k[0] in ('seq', 'list', 'dict', 'set'):
            return len(src.k) > 1 and src.k[1] == ()
        return False

    def norm_dict(self, segs):
        out = []
        for s in segs:
            if isinstance(s, One) and isinstance(s.val, Tup) and len(s.val.segs) == 2 \
                    and all(isinstance(q, One) for q in s.val.segs):
                k, v = s.val.segs[0].val, s.val.segs[1].val
                # a[k] = a[k] over a copy of a
                if any(isinstance(q, Each) and self.identity_dict((q,)) is not None and v == App('getitem', q.src, k)
                       and self.I.decide(App('in', k, q.src)) for q in out):
                    continue
                # last value wins
                out = [q for q in out if not (isinstance(q, One) and isinstance(q.val, Tup) and q.val.segs and
                                              q.val.segs[0] == One(k))]
            out.append(s)
        return tuple(out)

    # ------------------------------------------------------------ rigidity

    def rigid(self, v):
        if isinstance(v, tuple):
            return all(self.rigid(x) for x in v)
        if not isinstance(v, Val):
            return True
        if isinstance(v, (Const, Sym, Bnd, Ext)):
            return True
        if isinstance(v, Ref):
            return False
        if isinstance(v, App):
            if v.op == 'mutated':
                return False
            if v.op == 'call':
                f = v.args[0]
                if isinstance(f, Ext) and f.path not in self.rigid_calls:
                    return False
                return self.rigid(v.args)
            if v.op == 'mcall' and self.kind(v.args[0]) in BUILTIN_KINDS:
                return False        # a method of a builtin class, that is not interpreted: not free
            if v.op in RIGID_OPS or v.op in self.opaque_ops:
                return self.rigid(v.args)
            if v.op in BOOLS:
                return self.free_atom(v)
            return False
        if isinstance(v, (Tup, Tmpl, Hole, Join, One)):
            return self.rigid(v.k)
        if isinstance(v, Each):
            return self.rigid(v.src) and all(
                all(self.free_atom(a) for a, _ in g) and self.rigid(sg) for g, sg in v.alts)
        if isinstance(v, Perm):
            return v.how[0] in ('sorted', 'reversed', 'unordered') and self.rigid(v.segs)
        if isinstance(v, Frozen):
            return v.k[0] in ('list', 'dict', 'set', 'frozenset', 'class', 'func', 'iter') and self.rigid(v.k)
        return False

    def free_atom(self, a):
        if isinstance(a, Const):
            return True
        if not isinstance(a, App):
            return False
        if a.op == 'not':
            return self.free_atom(a.args[0])
        if a.op not in FREE_ATOMS:
            return False
        if a.op == 'textsplit':
            return True
        if not any(isinstance(x, (Sym, Bnd)) or (isinstance(x, Ext) and x.path.count('.') == 0) for x in walk(a)):
            return False
        if a.op == 'truthy':
            x = a.args[0]
            if isinstance(x, App) and x.op not in FREE_TRUTHY and x.op not in self.opaque_ops:
                return False
            if isinstance(x, App) and x.op in ('m:startswith', 'm:endswith'):
                return all(self.rigid(y) for y in x.args)
            return self.rigid(x)
        if a.op in ('lt', 'le'):
            return all(linear.lin(self.I, x) is not None and self.rigid_int(x) for x in a.args)
        if a.op == 'ok':
            return True
        return all(self.rigid(x) for x in a.args)

    def rigid_int(self, x):
        if isinstance(x, App) and x.op in ('add', 'sub'):
            return all(self.rigid_int(y) for y in x.args)
        if isinstance(x, App) and x.op == 'len':
            return self.rigid(x.args[0])
        return self.rigid(x)

    # ------------------------------------------------------------ comparison

    def compare(self, a, b):
        self.why = None
        a, b = self.canon(a), self.canon(b)
        return self.cmp(a, b)

    def say(self, r, a, b):
        if r == DIFF and self.why is None:
            self.why = (a, b)
        return r

    def generic(self, a, b):
        if self.rigid(a) and self.rigid(b):
            return self.say(DIFF, a, b)
        return UNK

    def cmp(self, a, b):
        self.n += 1
        if a == b:
            return SAME
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return UNK
            return meet(*[self.cmp(x, y) for x, y in zip(a, b)])
        if not isinstance(a, Val) or not isinstance(b, Val):
            return DIFF if type(a) is type(b) else UNK
        if self.boolish(a) and self.boolish(b):
            return self.cmp_bool(a, b)
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != kb:
            if 'iter' in (ka, kb):
                return UNK
            return self.say(DIFF, a, b)
        if (ka == 'str' or kb == 'str') and (isinstance(a, (Tmpl, Const)) or isinstance(b, (Tmpl, Const))):
            r = self.cmp_text(a, b)
            # a value and its text are the same only where the value is text
            return r if r != SAME or ka == kb else self.generic(a, b)
        if isinstance(a, Const) and isinstance(b, Const):
            return self.say(DIFF, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.cmp_segs(a.segs, b.segs)
        if isinstance(a, Frozen) and isinstance(b, Frozen) and a.k[0] == b.k[0]:
            if a.k[0] in ('list', 'iter'):
                return self.cmp_segs(a.k[1], b.k[1])
            if a.k[0] == 'dict':
                return self.cmp_dict(a.k[1], b.k[1])
            if a.k[0] in ('set', 'frozenset'):
                return self.cmp_bag(a.k[1], b.k[1])
            if a.k[0] == 'inst':
                if a.k[1] != b.k[1]:
                    return UNK
                da, db = dict(a.k[2]), dict(b.k[2])
                r = meet(SAME, *[self.cmp(da[k], db[k]) for k in da if k in db])
                return r if set(da) == set(db) or r == DIFF else UNK
            if a.k[0] in ('class', 'func'):
                return self.say(DIFF, a, b) if a.k[0] == 'class' else UNK
            return UNK
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and len(a.args) == len(b.args) and \
                (a.op in RIGID_OPS or a.op in self.opaque_ops):
            rs = [self.cmp(x, y) for x, y in zip(a.args, b.args)]
            if all(r == SAME for r in rs):
                return SAME
            if DIFF in rs and self.rigid(a) and self.rigid(b):
                return DIFF
            return UNK
        return self.generic(a, b)

    def boolish(self, v):
        return (isinstance(v, Const) and isinstance(v.v, bool)) or (isinstance(v, App) and v.op in BOOLS)

    def kind(self, v):
        """A coarse kind two values of which can never be equal."""
        if isinstance(v, Const):
            if isinstance(v.v, (bool, int, float)):
                return 'num'
            return type(v.v).__name__
        if isinstance(v, (Tmpl, Hole)):
            return 'str'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Frozen):
            k = v.k[0]
            return {'list': 'list', 'dict': 'dict', 'set': 'set', 'frozenset': 'set', 'inst': 'inst', 'iter': 'iter',
                    'class': 'class', 'func': 'func'}.get(k)
        e = self.exact(v)
        if e is not None:
            for t in ('str', 'list', 'tuple', 'dict'):
                if e == T[t]:
                    return t
            if e in (T['set'], T['frozenset']):
                return 'set'
            if e == T['NoneType']:
                return 'NoneType'
            if e in (T['int'], T['float'], T['bool']):
                return 'num'
        return None

    # --- booleans: truth tables over the literals involved

    def cmp_bool(self, a, b):
        def leaf():
            x, y = self.I.truth(a), self.I.truth(b)
            if x is None or y is None:
                return None
            return SAME if x == y else self.say(DIFF, a, b)

        def pick():
            for v in (a, b):
                if self.I.truth(v) is None:
                    return self.I.literal(v)[0]
        return self.split(leaf, pick, self.free_atom(a) and self.free_atom(b))

    def split(self, leaf, pick, definite, budget=14):
        """Branches on literals until leaf() answers; DIFF only if every literal is free."""
        r = leaf()
        if r is not None:
            return r if definite or r == SAME else UNK
        if budget == 0:
            return UNK
        atom = pick()
        if atom is None:
            return UNK
        if self.I.decide(atom) is not None:
            return UNK
        definite = definite and self.free_atom(atom)
        rs = []
        saved = self.I.state
        for pol in (True, False):
            self.I.state = saved.fork()
            try:
                self.I.assume(atom, pol)
                rs.append(self.split(leaf, pick, definite, budget - 1))
            except Infeasible:
                pass
            finally:
                self.I.state = saved
        return meet(*rs)

    # --- text

    def parts(self, v):
        if isinstance(v, Const):
            return [v.v] if v.v else []
        if isinstance(v, Tmpl):
            return list(v.parts)
        return [Hole(v, 's')]

    def cmp_text(self, a, b):
        pa, pb = self.parts(a), self.parts(b)
        a0, b0 = a, b

        def strip(pa, pb):
            while pa and pb:
                x, y = pa[0], pb[0]
                if isinstance(x, str) and isinstance(y, str):
                    n = 0
                    while n < min(len(x), len(y)) and x[n] == y[n]:
                        n += 1
                    if n == 0:
                        return
                    for p, z in ((pa, x), (pb, y)):
                        if n == len(z):
                            del p[0]
                        else:
                            p[0] = z[n:]
                elif not isinstance(x, str) and not isinstance(y, str) and x == y:
                    del pa[0], pb[0]
                else:
                    return

        def rev(ps):
            return [p[::-1] if isinstance(p, str) else p for p in reversed(ps)]
        strip(pa, pb)
        ra, rb = rev(pa), rev(pb)
        strip(ra, rb)
        if not ra and not rb:
            return SAME
        pa, pb = rev(ra), rev(rb)
        for x, y in ((pa, pb), (ra, rb)):
            if x and y and isinstance(x[0], str) and isinstance(y[0], str) and x[0][:1] != y[0][:1]:
                return self.say(DIFF, a0, b0)
        if (not pa and any(isinstance(p, str) for p in pb)) or (not pb and any(isinstance(p, str) for p in pa)):
            return self.say(DIFF, a0, b0)
        # aligned pieces
        if len(pa) == len(pb) and all(type(x) is type(y) for x, y in zip(pa, pb)) and \
                all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
            rs = []
            for x, y in zip(pa, pb):
                if isinstance(x, str):
                    continue
                if isinstance(x, Hole):
                    if x.conv != y.conv:
                        rs.append(self.cmp_conv(x, y))
                    else:
                        rs.append(self.cmp(x.val, y.val))
                elif isinstance(x, Join):
                    rs.append(meet(self.cmp(x.sep, y.sep), self.cmp_segs(x.segs, y.segs)))
                else:
                    rs.append(UNK)
            r = meet(*rs)
            if r != DIFF:
                return r
            if len(rs) == 1 or (self.rigid(tuple(pa)) and self.rigid(tuple(pb))):
                return self.say(DIFF, a0, b0)
            if rs.count(DIFF) and UNK not in rs:
                return self.say(DIFF, a0, b0)
            return UNK
        if self.rigid(tuple(p for p in pa if not isinstance(p, str))) and \
                self.rigid(tuple(p for p in pb if not isinstance(p, str))):
            return self.say(DIFF, a0, b0)
        return UNK

    def cmp_conv(self, x, y):
        if not (self.rigid(x.val) and self.rigid(y.val)):
            return UNK
        e = self.exact(x.val)
        if {x.conv, y.conv} <= {'s', 'r', 'd', 'a'}:
            if e in (T['int'], T['bool'], T['NoneType']) and 'd' not in (x.conv, y.conv):
                return SAME if x.val == y.val else UNK
            if e in (T['int'],):
                return SAME if x.val == y.val else UNK
            if e == T['float'] and {x.conv, y.conv} == {'s', 'r'}:
                return SAME if x.val == y.val else UNK
            if e == T['str'] and {x.conv, y.conv} == {'s', 'r'}:
                return self.say(DIFF, x, y)
            return self.generic(x, y) if {x.conv, y.conv} == {'s', 'r'} and e is None else UNK
        return self.generic(x, y)

    # --- sequences

    def cmp_segs(self, sa, sb):
        sa, sb = list(sa), list(sb)
        while sa and sb and self.cmp_seg(sa[0], sb[0], True) == SAME:
            del sa[0], sb[0]
        while sa and sb and self.cmp_seg(sa[-1], sb[-1], True) == SAME:
            del sa[-1], sb[-1]
        if not sa and not sb:
            return SAME
        if len(sa) == len(sb):
            rs = [self.cmp_seg(x, y) for x, y in zip(sa, sb)]
            if all(isinstance(x, One) for x in sa + sb):
                return meet(*rs)
            if len(rs) == 1:
                return rs[0]
            if DIFF in rs and self.rigid(tuple(sa)) and self.rigid(tuple(sb)):
                return DIFF
            return UNK
        if all(isinstance(x, One) for x in sa + sb):
            return self.say(DIFF, Tup(sa), Tup(sb))
        if not sa or not sb:
            left = sa or sb
            if any(isinstance(x, One) for x in left):
                return self.say(DIFF, Tup(sa), Tup(sb))
        if self.rigid(tuple(sa)) and self.rigid(tuple(sb)):
            return self.say(DIFF, Tup(sa), Tup(sb))
        for p, q in ((sa, sb), (sb, sa)):
            # some elements in the order of a set, where a definite order is due
            if all(isinstance(x, One) for x in q) and any(isinstance(x, Perm) and x.how[0] == 'unordered' and len(x.segs) > 1 and all(
                    isinstance(y, One) for y in x.segs) and self.cmp(x.segs[0].val, x.segs[1].val) == DIFF for x in p):
                return self.say(DIFF, Tup(sa), Tup(sb))
        return UNK

    def cmp_seg(self, x, y, quiet=False):
        why = self.why
        r = self._cmp_seg(x, y)
        if quiet:
            self.why = why
        return r

    def _cmp_seg(self, x, y):
        if x == y:
            return SAME
        if isinstance(x, One) and isinstance(y, One):
            return self.cmp(x.val, y.val)
        if isinstance(x, Each) and isinstance(y, Each):
            return self.cmp_each(x, y)
        if isinstance(x, Perm) and isinstance(y, Perm):
            return self.cmp_perm(x, y)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Perm):
                if p.how[0] == 'sorted' and isinstance(q, Each) and self.rigid(q) and self.rigid(p.segs):
                    return self.say(DIFF, x, y)
                return UNK
        return self.generic(x, y)

    def cmp_perm(self, x, y):
        if x.how[0] == 'unordered' and y.how[0] == 'unordered':
            return self.cmp_bag(x.segs, y.segs)
        inner = self.cmp_segs(x.segs, y.segs) if x.how[0] == 'reversed' else self.cmp_bag(x.segs, y.segs)
        if x.how[0] != y.how[0]:
            return self.generic(x, y)
        if x.how[0] == 'reversed':
            return inner
        if x.how[0] == 'sorted':
            ho = SAME
            if x.how[2] != y.how[2]:
                if isinstance(x.how[2], Const) and isinstance(y.how[2], Const):
                    ho = SAME if bool(x.how[2].v) == bool(y.how[2].v) else self.say(DIFF, x, y)
                else:
                    ho = UNK
            k1, k2 = x.how[1], y.how[1]
            hk = SAME
            if k1 != k2:
                hk = UNK
                if all(isinstance(k, tuple) and len(k) == 1 and not isinstance(k[0], str) for k in (k1, k2)):
                    a, b = k1[0], k2[0]
                    sa, sb = self.strkey(a), self.strkey(b)
                    if sa == sb:
                        hk = UNK if a != b else SAME
                    else:
                        hk = self.cmp(a, b)
                        if hk == SAME:
                            hk = UNK
            return meet(inner, ho, hk)
        return UNK

    @staticmethod
    def strkey(k):
        if isinstance(k, Tmpl) and len(k.parts) == 1 and isinstance(k.parts[0], Hole):
            return k.parts[0].val
        return k

    def cmp_each(self, x, y, extra=()):
        src = self.cmp(x.src, y.src)
        if src != SAME:
            if src == DIFF and self.rigid(x) and self.rigid(y):
                return DIFF
            self.why = None if src == DIFF else self.why
            return UNK
        if x.b != y.b:
            return UNK

        def chosen(e):
            """The segments of the alternative that applies, None if a literal is still open, () if none applies."""
            open_ = False
            for g, sg in e.alts:
                ds = [(self.I.decide(a) if not isinstance(a, Const) else bool(a.v), p) for a, p in g]
                if any(d is not None and d != p for d, p in ds):
                    continue
                if all(d == p for d, p in ds):
                    return sg if not open_ else None
                open_ = True
            return None if open_ else ()

        def leaf():
            sa, sb = chosen(x), chosen(y)
            if sa is None or sb is None:
                return None
            sa, sb = (self.rewrite(s) for s in (sa, sb))
            if not sa and not sb:
                return SAME
            r = self.cmp_segs(sa, sb)
            if r == DIFF:
                self.why = (Tup(sa), Tup(sb)) if self.why is None else self.why
            return r

        def pick():
            for e in (x, y):
                if chosen(e) is None:
                    for g, sg in e.alts:
                        ds = [(a, self.I.decide(a) if not isinstance(a, Const) else bool(a.v), p) for a, p in g]
                        if any(d is not None and d != p for a, d, p in ds):
                            continue
                        for a, d, p in ds:
                            if d is None:
                                return a
            return None
        saved = self.I.state
        self.I.state = saved.fork()
        try:
            for a, p in extra:
                try:
                    self.I.assume(a, p)
                except Infeasible:
                    pass
            self.I.active_b.append((x.b, x.src))
            try:
                return self.split(leaf, pick, True)
            finally:
                self.I.active_b.pop()
        finally:
            self.I.state = saved

    # --- unordered collections

    def cmp_bag(self, sa, sb):
        sa, sb = list(self.flat(sa)), list(self.flat(sb))
        for x in list(sa):
            for y in list(sb):
                if self.cmp_seg(x, y, True) == SAME:
                    sa.remove(x)
                    sb.remove(y)
                    break
        # repeated elements do not matter for sets
        if not sa and not sb:
            return SAME
        if len(sa) == 1 and len(sb) == 1:
            return self.cmp_seg(sa[0], sb[0])
        if self.rigid(tuple(sa)) and self.rigid(tuple(sb)):
            return self.say(DIFF, Tup(sa), Tup(sb))
        return UNK

    def cmp_dict(self, sa, sb):
        sa, sb = list(self.flat(sa)), list(self.flat(sb))
        keys = [self.pair(s)[0] for s in sa + sb if self.pair(s)]

        def disjoint(s, t):
            p, q = self.pair(s), self.pair(t)
            if p and q:
                return self.I.decide(App('eq', *sorted((p[0], q[0]), key=repr))) is False or \
                    (isinstance(p[0], Const) and isinstance(q[0], Const) and p[0] != q[0])
            for p, e in ((p, t), (q, s)):
                if p and isinstance(e, Each):
                    if self.I.decide(App('in', p[0], e.src)) is False:
                        return True
            return False

        def extra(rest, s):
            """Keys written later: this segment's entries with them do not matter."""
            out = []
            if isinstance(s, Each):
                k = App('at', s.src, s.b)
                for t in rest:
                    p = self.pair(t)
                    if p:
                        out.append((App('eq', *sorted((k, p[0]), key=repr)), False))
            return out

        def same(i, j):
            x, y = sa[i], sb[j]
            if isinstance(x, Each) and isinstance(y, Each):
                why = self.why
                r = self.cmp_each(x, y, extra(sa[i + 1:], x) + extra(sb[j + 1:], y))
                self.why = why
                return r
            return self.cmp_seg(x, y, True)
        i = 0
        while i < len(sa):
            hit = False
            for j in range(len(sb)):
                if same(i, j) == SAME and all(disjoint(sb[j], t) for t in sb[:j]):
                    del sa[i], sb[j]
                    hit = True
                    break
            if not hit:
                break
        while sa and sb and same(len(sa) - 1, len(sb) - 1) == SAME:
            del sa[-1], sb[-1]
        if not sa and not sb:
            return SAME
        if all(self.pair(s) and isinstance(self.pair(s)[0], Const) for s in sa + sb):
            da, db = (dict(self.pair(s) for s in ss) for ss in (sa, sb))
            if set(da) != set(db):
                return self.say(DIFF, Frozen('dict', tuple(sa)), Frozen('dict', tuple(sb)))
            return meet(*[self.cmp(da[k], db[k]) for k in da])
        if len(sa) == 1 and len(sb) == 1:
            if isinstance(sa[0], Each) and isinstance(sb[0], Each):
                return self.cmp_each(sa[0], sb[0])
            return self.cmp_seg(sa[0], sb[0])
        if self.rigid(tuple(sa)) and self.rigid(tuple(sb)):
            return self.say(DIFF, Frozen('dict', tuple(sa)), Frozen('dict', tuple(sb)))
        return UNK

    @staticmethod
    def pair(s):
        if isinstance(s, One) and isinstance(s.val, Tup) and len(s.val.segs) == 2 and \
                all(isinstance(q, One) for q in s.val.segs):
            return s.val.segs[0].val, s.val.segs[1].val
        return None
