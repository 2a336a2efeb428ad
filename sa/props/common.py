from ..harness import (S, T, last_arg, make_opaque, bound_args, typed, repo_class, ev_where, is_fresh, DIFF, UNK, SAME, Comparer,
                       TypeInfo, Infeasible, foreign_writes)
from ..values import *
from ..models import freeze_val
from . import ob

PM = 'whatami.plugins'
BS = {(PM, 'WhatamiPluginManager.build_string'): last_arg('bs', T['str'])}
WHAT = dict(name='str', conf='dict', nik='set', out='str')
WHAT_CLS = 'whatami.what:What'
BSREF = "from whatami.plugins import WhatamiPluginManager as M\nbs = M.build_string\n"


def atom(op, *a):
    return App(op, *[S(x) if isinstance(x, str) else x for x in a])


def has(sym, name):
    return App('hasattr', S(sym), name)


def no_none(*names):
    return [(App('is', S(n), NONE), False) for n in names]


def var(I, frame, n):
    return I.o(frame).vars.get(n)


def not_what(sym='v'):
    def f(I):
        I.assume(App('isinstance', S(sym), repo_class(I, 'whatami.what', 'What')), False)
    return f


PLAIN = [(has('v', n), False) for n in ('what', 'func', 'args', 'keywords', '_partial', '__call__')]


def nested(op='bs', sym='v'):
    """build_string, interpreted for the symbol itself and uninterpreted for what it contains."""
    key = (PM, 'WhatamiPluginManager.build_string')
    leaf = last_arg(op, T['str'])

    def f(I, args, kw, node):
        if I.phase == 'do' and (args[-1] if args else kw[0][1]) == S(sym) and \
                not any(q[0] == key[1] for q in I.fstack):
            return NotImplemented
        return leaf(I, args, kw, node)
    return {key: f}


def inner_bs(op='bs'):
    """build_string interpreted once, uninterpreted from then on and for the reference."""
    key = (PM, 'WhatamiPluginManager.build_string')
    leaf = last_arg(op, T['str'])

    def f(I, args, kw, node):
        if I.phase == 'do' and not any(q[0] == key[1] for q in I.fstack):
            return NotImplemented
        return leaf(I, args, kw, node)
    return {key: f}


# --- subclasses of builtin types, without pinning a concrete class

def proper(base, *nots, **kw):
    """Setup: the symbol is an instance of a proper subclass of a builtin type."""
    sym = S(kw.get('sym', 'v'))

    def f(I):
        I.set_type(sym, isa=frozenset([T[base]]), nota=frozenset([T[n] for n in nots] + [repo_class(I, 'whatami.what', 'What')]))
        I.assume(App('typeis', sym, T[base]), False)
        I.assume(App('hasattr', sym, 'what'), False)
    return f


# --- order of iteration

LOSSY = {'len', 'type', 'm:lower', 'm:upper', 'm:strip', 'first', 'hash'}


def key_kind(key, elem):
    """'total': distinct elements have distinct keys; 'lossy': they can tie; None: unknown."""
    if key == elem:
        return 'total'
    if isinstance(key, Const):
        return 'lossy'
    if isinstance(key, App):
        if key.op in LOSSY:
            return 'lossy'
        if key.op == 'at':
            return 'total'
        if key.op == 'getitem' and isinstance(key.args[1], App) and key.args[1].op == 'at':
            return 'lossy'      # the value of an entry: different entries can have the same one
        if key.op == 'bs':
            return 'total' if mentions(key, next(iter(ats(elem)), None)) else None
    if isinstance(key, Tup):
        ks = [key_kind(s.val, elem) for s in key.segs if isinstance(s, One)]
        if 'total' in ks:
            return 'total'
        if ks and len(ks) == len(key.segs) and all(k == 'lossy' for k in ks):
            return None
    if isinstance(key, Tmpl):
        # a text starting with the whole element / key
        return 'total' if any(isinstance(p, Hole) and key_kind(p.val, elem) == 'total' for p in key.parts) else None
    return None


def ats(v):
    return [x for x in walk(v) if isinstance(x, App) and x.op == 'at']


def orders(v, src, under=()):
    """How the elements of src reach v: one entry per summarised loop, with the permutations around it."""
    out = []

    def go(x, under):
        if isinstance(x, tuple):
            for y in x:
                go(y, under)
        elif isinstance(x, Perm):
            go(x.segs, under + (x,))
        elif isinstance(x, Each):
            if x.src == src or (isinstance(x.src, Frozen) and x.src.k[0] == 'seq' and mentions(x.src, src)) \
                    or is_view(x.src, src):
                if any(sg for _, sg in x.alts):
                    out.append((x, under))
            else:
                go(x.src, under)
            for g, sg in x.alts:
                go(sg, ())
        elif isinstance(x, Join):
            go(x.segs, ())
        elif isinstance(x, Frozen) and x.k[0] in ('set', 'frozenset', 'dict'):
            pass        # unordered themselves
        elif isinstance(x, (App, Tup, Frozen, Tmpl, Hole, One)):
            for y in x.k:
                go(y, under if isinstance(x, One) else ())
    go(v, under)
    return out


def is_view(x, src):
    return isinstance(x, App) and x.op in ('mcall', 'bmeth', 'bound') and x.args and x.args[0] == src


def order_free(*names, **kw):
    """The results do not depend on the order in which the unordered source is iterated."""
    src = kw['src']

    def eff(I, frame, trace, exc):
        out = []
        if exc is not None:
            return [(UNK, 'raises', None)]
        seen = 0
        for n in names:
            v = var(I, frame, n)
            if v is None:
                out.append((UNK, '%s missing' % n, None))
                continue
            v = I.freeze(v)
            for each, perms in orders(v, S(src)):
                seen += 1
                srt = [p for p in perms if p.how[0] == 'sorted']
                if not srt:
                    if all(g == () and all(isinstance(q, One) and not mentions(q, each.b) for q in sg) for g, sg in each.alts):
                        continue
                    if single(I, S(src)):
                        continue
                    out.append((DIFF if not perms or all(p.how[0] in ('reversed', 'unordered') for p in perms) else UNK,
                                'the elements of %s reach the result in iteration order: %s' % (src, show(each)[:200]),
                                None))
                    continue
                found = []
                for p in srt:
                    desc = p.how[1]
                    for d in desc if isinstance(desc, tuple) else ():
                        if not (isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], Val)):
                            found.append((UNK, 'sort key not understood', None))
                            continue
                        k = key_kind(d[1], d[0])
                        if k == 'lossy':
                            found.append((DIFF, 'sorted by %s, that can tie: ties stay in iteration order' % show(d[1]),
                                          None))
                        elif k is None:
                            found.append((UNK, 'sort key %s' % show(d[1])[:80], None))
                        elif k == 'total':
                            found = None
                            break
                    if found is None:
                        break
                if found and any(r == UNK for r, _, _ in found):
                    found = [f for f in found if f[0] == UNK]
                out.extend(found or ())
            if not seen and not kw.get('optional') and I.decide(App('truthy', S(src))) is not False:
                out.append((UNK, 'the elements of %s are not found in %s: %s' % (src, n, show(v)[:200]), None))
        return out
    return eff


def single(I, s):
    return False


def order_kept(*names, **kw):
    """The elements of the source reach the result in their order, all of them, once."""
    src = kw['src']

    def eff(I, frame, trace, exc):
        out = []
        if exc is not None:
            return [(UNK, 'raises', None)]
        for n in names:
            v = I.freeze(var(I, frame, n))
            found = orders(v, S(src))
            if not found and I.decide(App('truthy', S(src))) is False:
                continue
            if not found:
                if any(isinstance(x, Frozen) and x.k[0] in ('set', 'frozenset') and any(
                        isinstance(y, Each) and y.src == S(src) for y in x.k[1]) for x in walk(v)):
                    out.append((DIFF, 'the elements of %s go through a set' % src, None))
                else:
                    out.append((UNK, 'the elements of %s are not found in %s: %s' % (src, n, show(v)[:200]), None))
            for each, perms in found:
                if any(p.how[0] == 'sorted' for p in perms):
                    out.append((DIFF, 'the elements of %s are sorted, their order is lost' % src, None))
                elif any(p.how[0] == 'unordered' for p in perms):
                    out.append((DIFF, 'the elements of %s lose their order' % src, None))
                elif perms:
                    rev = sum(1 for p in perms if p.how[0] == 'reversed')
                    if rev % 2:
                        pass    # reversed keeps the information, not the order: a shape question
        return out
    return eff


def presence(src):
    """Only which elements of the source are there, not how they are shown nor in which order."""
    def view(I, n, v):
        found = orders(I.freeze(v), S(src))
        segs = []
        for each, perms in found:
            e = Each(each.b, S(src), tuple((g, tuple(One(C(1)) for q in sg[:1])) for g, sg in each.alts))
            if e not in segs:
                segs.append(e)
        return Tup(tuple(segs))
    return view


def parsed_from_scenario(I, args, kw, node):
    """Stands for parsing: the id `X` gives a fresh configuration, made by the function t_X of the scenario."""
    text = I.resolve(bound_args(I, args, kw, node)[0][1])
    f = I.o(I.scenario_frame).vars.get('t_%s' % text.v) if isinstance(text, Const) else None
    if f is None:
        f = I.o(I.scenario_frame).vars.get('t_any')     # for any other text, given to it
        if f is not None:
            return I.call(f, [text], [], node)
        return App('parse', freeze_val(I, text))
    return I.call(f, [], [], node)


PARSED = {('whatami.parsers', 'parse_whatid'): parsed_from_scenario}


# the base of what stands for objects of other libraries: asked for more than is modelled, there is no answer
UNMODELLED = """
class Unmodelled(object):
    def __getattr__(self, name):
        undecidable__(name)
"""
for _n, _a in (('len', ''), ('iter', ''), ('contains', ', v'), ('getitem', ', k'), ('setitem', ', k, v'), ('delitem', ', k'), ('call', ', *a, **k'), ('add', ', v'), ('radd', ', v'), ('sub', ', v'), ('mul', ', v'),
               ('or', ', v'), ('and', ', v'), ('lt', ', v'), ('le', ', v'), ('gt', ', v'), ('ge', ', v'), ('enter', ''), ('float', ''), ('int', '')):
    UNMODELLED += "    def __%s__(self%s):\n        undecidable__('%s')\n" % (_n, _a, _n)
