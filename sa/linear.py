"""Order between integer terms: linear constraints over symbols known to be int and lengths."""
from fractions import Fraction
from .values import Const, App, Sym, Tmpl, Frozen, Tup, One
from .types_ import T


def lin(I, v):
    """Linear form ({atom: coefficient}, constant) of an integer term, or None."""
    if isinstance(v, Const):
        return ({}, v.v) if type(v.v) is int else None
    if isinstance(v, App) and v.op in ('op:Add', 'op:Sub') and len(v.args) == 2:
        a, b = lin(I, v.args[0]), lin(I, v.args[1])
        if a is None or b is None:
            return None
        return plus(a, b, 1 if v.op == 'op:Add' else -1)
    if isinstance(v, App) and v.op == 'len':
        if I.normal is not None and not isinstance(v.args[0], Sym):
            v = App('len', I.normal(v.args[0]))
        return {v: 1}, 0
    if isinstance(v, (Sym, App)) and I.typeinfo(v).exact == T['int']:
        return {v: 1}, 0
    return None


def plus(a, b, k=1):
    d = dict(a[0])
    for x, c in b[0].items():
        d[x] = d.get(x, 0) + k * c
        if not d[x]:
            del d[x]
    return d, a[1] + k * b[1]


def le0(a, b, strict):
    """a <= b (a < b when strict) as a form that is <= 0."""
    f = plus(a, b, -1)
    return f[0], f[1] + (1 if strict else 0)


def min_chars(x):
    if isinstance(x, Tmpl):
        return sum(len(p) for p in x.parts if isinstance(p, str))
    if isinstance(x, Const) and isinstance(x.v, str):
        return len(x.v)
    if isinstance(x, Tup):
        return sum(1 for s in x.segs if isinstance(s, One))
    if isinstance(x, Frozen) and isinstance(x.k[1], tuple):
        return sum(1 for s in x.k[1] if isinstance(s, One))
    return 0


def facts(I, extra=()):
    out, seen = [], set()

    def note(f):
        for x in f[0]:
            if isinstance(x, App) and x.op == 'len' and x not in seen:
                seen.add(x)
                out.append(({x: -1}, min_chars(x.args[0])))
    for f in extra:
        note(f)
        out.append(f)
    for a, pol in I.state.facts.items():
        if not isinstance(a, App):
            continue
        if a.op in ('lt', 'le') or a.op == 'eq' and pol:
            p, q = lin(I, a.args[0]), lin(I, a.args[1])
            if p is None or q is None or not (p[0] or q[0]):
                continue
            if a.op == 'eq':
                fs = [le0(p, q, False), le0(q, p, False)]
            elif pol:
                fs = [le0(p, q, a.op == 'lt')]
            else:
                fs = [le0(q, p, a.op == 'le')]
            for f in fs:
                note(f)
                out.append(f)
        elif a.op == 'truthy':
            x = a.args[0]
            if not pol:
                p = lin(I, x)
                if p is not None and p[0]:
                    out.extend([p, ({k: -c for k, c in p[0].items()}, -p[1])])
    for x in list(seen):
        t = I.state.facts.get(App('truthy', x.args[0]))
        if t is True:
            out.append(({x: -1}, 1))
        elif t is False:
            out.append(({x: 1}, 0))
    return out


def feasible(cs, cap=400):
    """Fourier-Motzkin over the rationals; None when it grows too much."""
    cs = [(dict(d), Fraction(c)) for d, c in cs]
    while True:
        rest = []
        for d, c in cs:
            if not d:
                if c > 0:
                    return False
            else:
                rest.append((d, c))
        if not rest:
            return True
        count = {}
        for d, c in rest:
            for x in d:
                count[x] = count.get(x, 0) + 1
        x = min(count, key=lambda y: count[y])
        pos = [(d, c) for d, c in rest if d.get(x, 0) > 0]
        neg = [(d, c) for d, c in rest if d.get(x, 0) < 0]
        new = [(d, c) for d, c in rest if x not in d]
        for d, c in pos:
            for e, f in neg:
                k, m = Fraction(-e[x]), Fraction(d[x])
                g = {}
                for y in set(d) | set(e):
                    val = d.get(y, 0) * k + e.get(y, 0) * m
                    if val and y != x:
                        g[y] = val
                new.append((g, c * k + f * m))
        if len(new) > cap:
            return None
        cs = new


def decide(I, op, a, b):
    p, q = lin(I, a), lin(I, b)
    if p is None or q is None:
        return None
    if op == 'eq':
        f = plus(p, q, -1)
        if not f[0]:
            return f[1] == 0
        if infeasible(I, [f, ({k: -c for k, c in f[0].items()}, -f[1])]):
            return False
        if infeasible(I, [le0(p, q, True)]) and infeasible(I, [le0(q, p, True)]):
            return True
        return None
    strict = op == 'lt'
    yes, no = le0(p, q, strict), le0(q, p, not strict)
    if not yes[0]:
        return yes[1] <= 0
    if infeasible(I, [no]):
        return True
    if infeasible(I, [yes]):
        return False
    return None


def infeasible(I, extra):
    """The constraints contradict the facts, also over the integers told apart by what they are known not to be."""
    cs = facts(I, extra)
    if feasible(cs) is False:
        return True
    known = set(k for d, _ in cs for k in d)
    splits = []
    for a, pol in I.state.facts.items():
        if not pol and isinstance(a, App) and a.op == 'eq':
            p, q = lin(I, a.args[0]), lin(I, a.args[1])
            if p is not None and q is not None and (p[0] or q[0]) and set(p[0]) | set(q[0]) <= known:
                splits.append((le0(p, q, True), le0(q, p, True)))
    if not splits or len(splits) > 4:
        return False
    cases = [cs]
    for lo, hi in splits:
        cases = [c + [s] for c in cases for s in (lo, hi)]
    return all(feasible(c) is False for c in cases)


def mentioned(I, v):
    t = App('len', v)
    return any(isinstance(a, App) and a.op in ('lt', 'le', 'eq') and t in a.args for a in I.state.facts)


def sign(I, v):
    """Truth of an integer term under the order facts."""
    p = lin(I, v)
    if p is None or not p[0]:
        return None
    zero = ({}, 0)
    if feasible(facts(I, [le0(p, zero, True)])) is False and feasible(facts(I, [le0(zero, p, True)])) is False:
        return False
    if feasible(facts(I, [p, ({k: -c for k, c in p[0].items()}, -p[1])])) is False:
        return True
    return None
