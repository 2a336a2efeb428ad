"""Obligations: one driver program over the public surface of the analysed package against one
reference program, both interpreted abstractly in the same partition of the same abstract state.

Nothing of the analysed package is executed: both programs are text, parsed and interpreted over
symbols that stand for every possible argument.
"""
import ast
import time

from .interp import (Interp, Undecided, Budget, Infeasible, RaiseEx, ReturnEx, BreakEx, ContinueEx, State, FrameObj, InstObj, ClassObj,
                     FuncObj, ListObj, DictObj, SetObj, _FS)
from .compare import Comparer, SAME, DIFF, UNK, meet
from .values import *
from .types_ import T, TypeInfo
from . import witness

MODULES = ['whatami', 'whatami.misc', 'whatami.what', 'whatami.plugins', 'whatami.parsers', 'whatami.whatutils',
           'whatami.registry', 'whatami.minijoblib.hashing', 'whatami.wrappers.what_sklearn']


def S(n):
    return Sym(n)


class Result(object):
    def __init__(self, ob):
        self.ob = ob
        self.partitions = 0
        self.same = 0
        self.diffs = []      # (what, message, where)
        self.unks = []       # messages
        self.functions = set()
        self.events = 0
        self.call_sites = 0
        self.wall = 0.0

    @property
    def status(self):
        return DIFF if self.diffs else UNK if self.unks else SAME


UNMODIFIED = {'C04', 'C05', 'C07', 'C19', 'C26'}


class Ob(object):
    """One obligation.

    do/ref: program texts.  Every name r<X> bound by `do` is compared with e<X> bound by `ref`.
    vars: {symbol name: type spec}; facts: list of (atom builder, polarity); setup: f(I).
    opaque: {(module, qual): operator name} functions kept uninterpreted.
    effects: predicates over the trace of `do`.
    """

    def __init__(self, prop, key, anchor, do, ref='', vars=None, facts=(), setup=None, opaque=None, effects=(),
                 writes_ok=None, rigid_calls=(), opaque_ops=(), trust=(), tier='quick', rec=1, claim='',
                 limit=40.0, budget=4000, exc='class', may_raise=False, view=None, witness=True, importer=None):
        if writes_ok is None:
            # writes to state that is not the scenario's own only matter where the property says that nothing is modified
            writes_ok = prop not in UNMODIFIED
        self.__dict__.update(locals())
        del self.__dict__['self']


def typed(I, sym, spec):
    if spec in (None, 'any'):
        return
    if spec.startswith('?'):
        return
    if spec in T:
        I.set_type(sym, exact=T[spec])
        return
    if ':' in spec:                     # repository class module:Name
        mod, name = spec.split(':')
        I.set_type(sym, exact=repo_class(I, mod, name))
        return
    if spec.startswith('isa '):
        I.set_type(sym, isa=frozenset([T[spec[4:]]]))
        return
    raise ValueError(spec)


def repo_class(I, mod, name):
    fr = I.o(I.load_module(mod))
    return I.o(fr.frame).vars[name]


def loose(x):
    """Whether a value depends on the content of a variable in some iteration of a loop, other than by the history of the loop."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, App) and y.op == 'last':
            continue
        elif isinstance(y, App) and y.op == 'loopvar':
            return True
        elif isinstance(y, Val) and not isinstance(y, (Const, Sym, Bnd, Ext, Ref)):
            stack.extend(y.k)
    return False


class Runner(object):

    def __init__(self, repo, only=None):
        self.repo = repo
        self.I = Interp(repo)
        self.load_errors = []
        for m in MODULES:
            if only is None or m in only:
                self.I.load_module(m)
        self.I.freeze_base()
        self.I.base_mark = getattr(self.I, 'base_mark', self.I.next_id)

    def cls(self, mod, name):
        return repo_class(self.I, mod, name)

    # ------------------------------------------------------------------

    def run(self, ob):
        """The obligation, with deeper recursion when a difference is found past a summarised recursive call."""
        res = self.run_once(ob, ob.rec)
        if res.status == UNK and any(u.startswith(('Budget', 'order: ')) or 'order: elements' in u for u in res.unks):
            # sets in each of their orders rather than in an unknown one
            self.I.each_order = True
            try:
                more = self.run_once(ob, ob.rec)
            finally:
                self.I.each_order = False
            more.wall += res.wall
            if more.status != UNK:
                res = more
            else:
                res.unks += ['sets in each order: ' + u for u in more.unks]
        if res.status == DIFF and self.I.rec_hit:
            deep = self.run_once(ob, ob.rec + 5)
            if deep.status == DIFF or not (deep.unks and self.I.rec_hit):
                deep.wall += res.wall
                return deep
            res.unks += ['past recursion that is summarised: %s' % (d[0],) for d in res.diffs]
            res.diffs = []
        return res

    def run_once(self, ob, rec):
        I = self.I
        I.rec_hit = False
        res = Result(ob)
        t0 = time.time()
        I.state = State(I.base)
        I.stats = {'calls': 0, 'paths': 0, 'functions': set(), 'loops': 0, 'call_sites': set()}
        I.opaque_funcs = {}
        ops = set(ob.opaque_ops)
        for k, op in (ob.opaque or {}).items():
            if callable(op):
                I.opaque_funcs[k] = op
            else:
                ops.add(op)
                I.opaque_funcs[k] = make_opaque(op)
        missing = [k for k in I.opaque_funcs if not self.exists(k)]
        if missing:
            res.unks.append('not found in the tree: %s' % ', '.join('%s.%s' % k for k in missing))
        I.rec_limit = rec
        I.deadline = t0 + ob.limit
        cmp_ = Comparer(I, ob.rigid_calls, ops)
        I.normal = cmp_.canon
        do, ref = ast.parse(ob.do), ast.parse(ob.ref)
        I.scenario_mark = I.next_id
        I.budget = ob.budget
        I.importer = ob.importer
        env = {n: S(n) for n in (ob.vars or {})}

        def thunk():
            I.bcount = 100000
            frame = I.new(FrameObj(None, '$scenario', '<scenario>'))
            I.m(frame).vars.update(env)
            I.scenario_frame = frame
            for n, spec in (ob.vars or {}).items():
                typed(I, S(n), spec)
            for a, p in ob.facts:
                I.assume(a, p)
            if ob.setup is not None:
                ob.setup(I)
            I.state.lits = []
            I.fstack = [_FS(('<scenario>', '<scenario>'), None)]
            mark = len(I.state.trace)
            exc = None
            I.phase = 'do'
            try:
                I.exec_block(do.body, frame)
            except RaiseEx as e:
                exc = e
                I.fstack = [_FS(('<scenario>', '<scenario>'), None)]
            trace = I.state.trace[mark:]
            see = ob.view or (lambda I, n, v: v)
            got = {n: cmp_.canon(see(I, n, v)) for n, v in I.o(frame).vars.items()
                   if n[0] == 'r' and n not in env and not n.startswith('$') and isinstance(v, Val)} if exc is None else {}
            nl = len(I.state.lits)
            checks = []
            for eff in ob.effects:
                checks.extend(eff(I, frame, trace, exc) or ())
            if not ob.writes_ok:
                checks.extend(foreign_writes(I, frame, trace, exc))
            rexc = None
            I.phase = 'ref'
            if ob.ref:
                try:
                    I.exec_block(ref.body, frame)
                except RaiseEx as e:
                    rexc = e
            want = {n: cmp_.canon(see(I, n, v)) for n, v in I.o(frame).vars.items()
                    if n[0] == 'e' and n not in env and isinstance(v, Val)} if rexc is None else {}
            return self.judge(ob, cmp_, exc, rexc, got, want, checks, nl), len(trace)

        def guarded():
            try:
                return thunk()
            except Budget:
                raise
            except (Undecided, RecursionError) as e:
                return '%s: %s' % (type(e).__name__, str(e)[:900]), 0
            except (RaiseEx, ReturnEx, BreakEx, ContinueEx, Infeasible):
                raise
            except Exception as e:
                # a construct the interpreter does not handle: no verdict
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                return 'internal %s: %s (%s:%s)' % (type(e).__name__, str(e)[:150], tb.filename[-20:], tb.lineno), 0

        outs = []
        try:
            I.explore(guarded, outs)
            if not outs:
                res.unks.append('no feasible partition')
        except (Undecided, RecursionError) as e:
            res.unks.append('%s: %s' % (type(e).__name__, str(e)[:900]))
        for o in outs:
            res.partitions += 1
            if o.kind != 'return':
                res.unks.append('unexpected outcome %s' % o.kind)
                continue
            verdicts, nev = o.val
            if isinstance(verdicts, str):
                res.unks.append(verdicts)
                continue
            res.events += nev
            bad = False
            for r, msg, where in verdicts:
                lits = ' & '.join(('' if p else 'not ') + show(a) for a, p in o.state.lits)
                if r == DIFF:
                    res.diffs.append((msg, where, lits))
                    bad = True
                elif r == UNK:
                    res.unks.append('%s  [%s]' % (msg, lits[:300]))
                    bad = True
            if not bad:
                res.same += 1
        I.importer = None
        res.functions = set(I.stats['functions'])
        res.wall = time.time() - t0
        I.deadline = None
        return res

    def exists(self, key):
        mod, qual = key
        if mod.split('.')[0] != self.I.package:
            return True     # of the standard library
        try:
            m = self.I.modules.get(mod) or self.I.load_module(mod)
            cur = self.I.o(self.I.o(m).frame).vars
            for i, p in enumerate(qual.split('.')):
                v = cur.get(p)
                if v is None:
                    return '<locals>' in qual
                o = self.I.obj(v)
                if isinstance(o, ClassObj):
                    cur = o.attrs
                else:
                    cur = {}
            return True
        except Exception:
            return False

    def contradicts_loops(self):
        """Whether an element known on this partition would have stopped a loop that is known to have run to its end."""
        I = self.I
        done = [a.args for a, p in I.state.facts.items() if p and isinstance(a, App) and a.op == 'loopdone']
        if not done:
            return False
        for b, src, bodies in done:
            items = []
            for a, p in I.state.facts.items():
                if not isinstance(a, App) or a.op == 'loopdone':
                    continue
                if p and a.op == 'in' and a.args[1] == src:
                    items.append(a.args[0])
                items += [v for v in walk(a) if isinstance(v, App) and v.op == 'at' and v.args[0] == src]
            here = App('at', src, b)

            def holds(atom, pol):
                if isinstance(atom, App) and atom.op == 'in' and \
                        isinstance(atom.args[0], App) and atom.args[0].op == 'at' and atom.args[0].args[0] == atom.args[1]:
                    return pol
                return I.decide(atom) == pol
            for e in dict.fromkeys(items):
                for body in bodies:
                    body = subst(body, {here: e})
                    if not mentions(body, b) and all(holds(atom, pol) for atom, pol in body):
                        return True
        return False

    def judge(self, ob, cmp_, exc, rexc, got, want, checks, nl):
        I = self.I
        out = []
        if self.contradicts_loops():
            return out
        free = all(cmp_.free_atom(a) or self.trusted(ob, a) for a, p in I.state.lits)

        def literals():
            return [(cmp_.norm(a, 0), p) for a, p in list(I.state.facts.items())
                    if not (isinstance(a, App) and a.op == 'eq' and a.args[0] == a.args[1])]

        def add(r, msg, where, sure=False):
            if r == DIFF and not free and not sure and ob.witness:
                try:
                    w = witness.feasible(I, cmp_, literals())
                except RecursionError:
                    w = None
                if w is not None:
                    sure = True
                    msg += ' (for instance when %s)' % witness.describe(w)
            if r == DIFF and not free and not sure:
                r, msg = UNK, 'on a partition the analysis cannot show feasible: ' + msg
            out.append((r, msg, where))
        for r, msg, where in checks:
            add(r, msg, where)
        if not ob.ref:
            if exc is not None and not ob.may_raise:
                add(DIFF, 'raises %s' % show(exc.cls), where_of(exc))
            return out
        if exc is not None and rexc is not None:
            if ob.exc == 'any' or I.issub(exc.cls, rexc.cls):
                return out
            r = I.issub(exc.cls, rexc.cls)
            add(DIFF if r is False and isinstance(exc.cls, (Ext, Ref)) else UNK,
                'raises %s where %s is due' % (name_of(I, exc.cls), name_of(I, rexc.cls)), where_of(exc))
            return out
        if exc is not None and ob.may_raise:
            return out
        if exc is not None:
            add(DIFF, 'raises %s where a result is due' % name_of(I, exc.cls), where_of(exc))
            return out
        if rexc is not None:
            add(DIFF, 'returns where %s is due' % name_of(I, rexc.cls), None)
            return out
        for n in sorted(got):
            e = 'e' + n[1:]
            if e not in want:
                continue
            r = cmp_.cmp(got[n], want[e])
            why = cmp_.why
            cmp_.why = None
            if r != SAME:
                a, b = (got[n], want[e]) if why is None else why
                msg, sure = '%s: %s where %s is due' % (n, show(a)[:400], show(b)[:400]), False
                if ob.witness:
                    try:
                        w, agree = witness.search(I, cmp_, literals(), got[n], want[e])
                    except RecursionError:
                        w, agree = None, 0
                    if w is not None:
                        r, sure = DIFF, True
                        msg += ' (for instance when %s)' % witness.describe(w)
                    elif agree >= 60 and r == DIFF:
                        r = UNK
                        msg = 'no valuation tells them apart: ' + msg
                if r == DIFF and (loose(cmp_.norm(got[n], 0)) or loose(cmp_.norm(want[e], 0))):
                    r, sure, msg = UNK, False, 'depends on what a loop left in a variable: ' + msg
                add(r, msg, None, sure)
        for n in want:
            if 'r' + n[1:] not in got:
                add(UNK, 'result r%s was not produced' % n[1:], None)
        return out

    def trusted(self, ob, a):
        if isinstance(a, App) and a.op in ob.trust:
            return True
        if isinstance(a, App) and a.op == 'truthy' and isinstance(a.args[0], App) and a.args[0].op in ob.trust:
            return True
        return False


def bound_args(I, args, kw, node):
    """Arguments of an uninterpreted repository function by parameter, defaults filled in."""
    ref = I.opaque_ref
    o = I.o(ref)
    frame = I.new(FrameObj(o.closure, o.module, o.qual))
    I.bind(o, args, kw, frame, node)
    a = o.node.args
    names = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    names += [a.vararg.arg] if a.vararg else []
    names += [x.arg for x in a.kwonlyargs]
    names += [a.kwarg.arg] if a.kwarg else []
    vs = I.o(frame).vars
    return [(n, vs[n]) for n in names if n in vs]


def make_opaque(op, exact=None):
    def f(I, args, kw, node):
        r = App(op, *[I.freeze_arg(v) for _, v in bound_args(I, args, kw, node)])
        if exact is not None:
            I.set_type(r, exact=exact)
        I.ev('opq', (op, tuple(args), tuple(kw), r), node)
        return r
    return f


def last_arg(op, exact=None):
    """An uninterpreted method of which only the last positional argument matters."""
    def f(I, args, kw, node):
        r = App(op, I.freeze_arg(args[-1] if args else kw[0][1]))
        if exact is not None:
            I.set_type(r, exact=exact)
        I.ev('opq', (op, tuple(args), tuple(kw), r), node)
        return r
    return f


def name_of(I, c):
    if isinstance(c, Ref):
        o = I.o(c)
        return getattr(o, 'name', str(c))
    return show(c)


def where_of(e):
    fn = getattr(e, 'fn', None)
    ln = getattr(e.node, 'lineno', None)
    return (fn[1] if fn else '?', fn[0] if fn else '?', ln)


def ev_where(ev):
    return (ev.mod, ev.fn, getattr(ev.node, 'lineno', None))


def is_fresh(I, v):
    return isinstance(v, Ref) and v.id >= I.base_mark


def foreign_writes(I, frame, trace, exc, allow=()):
    """Writes to objects the analysed code does not own: caller symbols, module or class state, globals."""
    out = []
    for ev in trace:
        if ev.fn == '<scenario>':
            continue
        if ev.kind == 'gw':
            out.append((DIFF, 'writes the global %s' % (ev.a[1],), ev_where(ev)))
        elif ev.kind == 'w':
            tgt = ev.a[0]
            if isinstance(tgt, Ref):
                if tgt.id < I.base_mark:
                    out.append((DIFF, 'writes module or class state: %s %s' % (
                        getattr(I.o(tgt), 'name', type(I.o(tgt)).__name__), show(ev.a[1:])[:80]), ev_where(ev)))
            elif isinstance(tgt, (Sym,)) or (isinstance(tgt, App) and tgt.op in ('attr', 'getitem', 'at')):
                root = tgt
                while isinstance(root, App) and root.args and root.op in ('attr', 'getitem', 'at'):
                    root = root.args[0]
                if isinstance(root, Sym):
                    out.append((DIFF, 'writes the caller object %s: %s' % (show(tgt), show(ev.a[1:])[:80]), ev_where(ev)))
    return out
