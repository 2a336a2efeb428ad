"""Abstract interpreter for the Python subset used by the repository.

Nothing of the repository is executed or imported: modules are parsed with `ast` on every run and
their bodies are evaluated over the abstract domain of `values`.  Branches on undecided conditions
partition the trace (each partition keeps its literals as path facts); loops over collections of
unknown size are summarised by one evaluation of their body on a generic element.  No solver is
involved: facts are looked up syntactically, with a few built in implications about types.
"""
import ast
import time
import builtins
import itertools
import os
import sys
import warnings

from .values import *
from .types_ import T, TypeInfo, real, real_by_name, disjoint_real, one_method
from . import linear
from . import prelude

warnings.simplefilter('ignore')


class Undecided(Exception):
    """The analysis cannot follow the code here."""


class Infeasible(Exception):
    pass


class Budget(Undecided):
    pass


class Ctl(Exception):
    pass


class ReturnEx(Ctl):
    def __init__(self, v):
        self.v = v


class BreakEx(Ctl):
    pass


class ContinueEx(Ctl):
    pass


# classes of the libraries used
EXT_BASES = {'arpeggio.NoMatch': Ext('builtins.Exception'), 'arpeggio.ArpeggioError': Ext('builtins.Exception'),
             'arpeggio.GrammarError': Ext('arpeggio.ArpeggioError'), 'arpeggio.SemanticError': Ext('arpeggio.ArpeggioError')}



def bound_names(st):
    out = set()
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, ast.Global):
            out |= set(n.names)
    return out


class RaiseEx(Ctl):
    """An exception of the analysed program. cls: Ext/Ref/unknown Val; val: the exception value."""

    def __init__(self, cls, val=None, node=None, implicit=False):
        self.cls = cls
        self.val = val if val is not None else App('exc', cls, ())
        self.node = node
        self.implicit = implicit
        self.fn = None


# --- heap objects

class Obj(object):
    tok = None
    attrs = None

    def clone(self):
        o = object.__new__(type(self))
        for k, v in self.__dict__.items():
            o.__dict__[k] = dict(v) if isinstance(v, dict) else v
        return o


class FrameObj(Obj):
    def __init__(self, parent, module, name, is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.name = name
        self.globals_ = frozenset()
        self.nonlocals_ = frozenset()
        self.is_class = is_class


class ModObj(Obj):
    def __init__(self, name, frame):
        self.name = name
        self.frame = frame


class FuncObj(Obj):
    def __init__(self, node, name, module, closure, defaults, kwdefaults, qual):
        self.node = node
        self.name = name
        self.module = module
        self.closure = closure
        self.defaults = tuple(defaults)
        self.kwdefaults = dict(kwdefaults)
        self.qual = qual
        self.attrs = {}
        self.owner = None
        self.cached = False
        self.memo = ()


class ClassObj(Obj):
    def __init__(self, name, bases, module, node, qual):
        self.name = name
        self.bases = tuple(bases)
        self.module = module
        self.node = node
        self.qual = qual
        self.attrs = {}
        self.mro = ()
        self.meta = None


class InstObj(Obj):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.payload = None


class ListObj(Obj):
    def __init__(self, segs=()):
        self.segs = tuple(segs)


class DictObj(Obj):
    """segs are pairs, later pairs override earlier ones."""

    def __init__(self, segs=(), kind=None):
        self.segs = tuple(segs)
        self.kind = kind or T['dict']


class SetObj(Obj):
    def __init__(self, segs=(), frozen=False):
        self.segs = tuple(segs)
        self.frozen = frozen
        self.order = None       # in which its elements come, where it has been chosen


class IterObj(Obj):
    def __init__(self, segs=()):
        self.segs = tuple(segs)
        self.used = False


class GenObj(IterObj):
    """A generator over known elements, worked out as it is consumed.

    src: the values left, or another such generator; step: ('gen', expression, frame), ('map', f) or ('filter', f, wanted)."""
    def __init__(self, src, step):
        self.src, self.step, self.done, self.got, self.used = src, step, False, (), False

    @property
    def segs(self):
        if not self.done:
            raise Undecided('a generator still to be consumed')
        return self.got

    @segs.setter
    def segs(self, segs):
        self.done, self.got, self.src = True, tuple(segs), ()


class PartialObj(Obj):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = tuple(args)
        self.kwargs = tuple(kwargs)
        self.attrs = {}
        self.kwdict = None


class DescObj(Obj):
    def __init__(self, kind, func):
        self.kind = kind
        self.func = func
        self.attrs = {}


class Ev(object):
    """Something the analysed code does. kind: w (write), call, iter, loop, raise, reccall, gw."""
    __slots__ = ('kind', 'a', 'node', 'fn', 'mod')

    def __init__(self, kind, a, node, fn, mod):
        self.kind, self.a, self.node, self.fn, self.mod = kind, a, node, fn, mod

    def where(self):
        return '%s:%s (%s)' % (self.mod, getattr(self.node, 'lineno', '?'), self.fn)

    def __repr__(self):
        return 'Ev(%s, %s @%s)' % (self.kind, self.a, self.where())


class State(object):
    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.facts = {}
        self.types = {}
        self.lits = []
        self.trace = []
        self.symattr = {}
        self.symitems = ()
        self.tok = object()

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.types = dict(self.types)
        s.lits = list(self.lits)
        s.trace = list(self.trace)
        s.symattr = dict(self.symattr)
        s.symitems = self.symitems
        s.tok = object()
        self.tok = object()
        return s

    def get(self, i):
        o = self.heap.get(i)
        return o if o is not None else self.base[i]

    def mut(self, i):
        o = self.heap.get(i)
        if o is None:
            o = self.base[i]
        if o.tok is not self.tok:
            o = o.clone()
            o.tok = self.tok
            self.heap[i] = o
        return o


class Oracle(object):
    def __init__(self, prefix, pending):
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = pending


class Outcome(object):
    """One partition: kind is return | raise | break | continue | undecided."""

    def __init__(self, kind, val, state):
        self.kind = kind
        self.val = val
        self.state = state

    def __repr__(self):
        return 'Outcome(%s, %s)' % (self.kind, self.val)


_ASSUMED_TRUE_IMPORT = True


class Interp(object):
    each_order = False
    MAX_PATHS = 6000
    MAX_DEPTH = 60

    def __init__(self, repo, package='whatami', shadow=None):
        from . import models
        self.models = models
        self.repo = repo
        self.package = package
        self.base = {}
        self.next_id = 0
        self.bcount = 0
        self.modules = {}
        self.preludes = {}
        self.classing = []
        self.state = State(self.base)
        self.oracle = Oracle([], [])
        self.loading = 0
        self.fstack = []        # (qual, module file) of active functions
        self.depth = 0
        self.handlers = []
        self.active_b = []
        self.budget = 0
        self.consulted = {}
        self.scenario_mark = 0
        self.may_raise_calls = False
        self.qn = {}             # (module, qual) -> __qualname__
        self.opaque_funcs = {}   # (module, qual) -> callable(interp, args, kw, node) overriding a repo function
        self.stats = {'calls': 0, 'paths': 0, 'functions': set(), 'loops': 0, 'call_sites': set()}
        self.rec_limit = 1
        self.no_implicit = 0
        self.deadline = None
        self.normal = None

    # ---------------------------------------------------------------- heap

    def new(self, obj):
        i = self.next_id
        self.next_id += 1
        obj.tok = self.state.tok
        self.state.heap[i] = obj
        return Ref(i)

    def o(self, ref):
        o = self.state.get(ref.id)
        if type(o) is GenObj and not o.done:
            vals = []
            while True:
                v = self.gen_next(ref)
                if v is None:
                    break
                vals.append(One(v))
            self.m(ref).segs = vals
            return self.state.get(ref.id)
        return o

    def lazy(self, v):
        """Whether v is a generator that can be consumed element by element."""
        return isinstance(v, Ref) and type(self.state.get(v.id)) is GenObj

    def gen_next(self, ref):
        """The next element of a generator over known elements; None when there are no more."""
        while True:
            o = self.state.get(ref.id)
            if o.done:
                if not o.got:
                    return None
                if not isinstance(o.got[0], One):
                    raise Undecided('what is left in an iterator')
                self.m(ref).got = o.got[1:]
                return o.got[0].val
            if isinstance(o.src, Ref):
                v = self.gen_next(o.src)
                if v is None:
                    return None
            else:
                if not o.src:
                    return None
                v = o.src[0]
                self.m(ref).src = o.src[1:]
            kind = o.step[0]
            if kind == 'gen':
                e, cf = o.step[1:]
                g = e.generators[0]
                self.assign(g.target, v, cf)
                if all(self.branch(self.eval(c, cf)) for c in g.ifs):
                    return self.eval(e.elt, cf)
            elif kind == 'map':
                return self.call(o.step[1], [v], [], None)
            elif self.branch(v if o.step[1] == NONE else self.call(o.step[1], [v], [], None)) == o.step[2]:
                return v

    def gen_source(self, v, node):
        """What a generator over v takes its elements from, when they are known one by one; else (None, segments)."""
        v = self.resolve(v)
        if self.lazy(v):
            return v, None
        segs = self.iter_segs(v, node)
        vals = ones(segs)
        return (None, segs) if vals is None else (tuple(vals), segs)

    def run_gen(self, ref, body):
        while True:
            v = self.gen_next(ref)
            if v is None:
                return
            body(v)

    def m(self, ref):
        if getattr(self.state.get(ref.id), 'live', False):
            raise Undecided('changes through __dict__')
        return self.state.mut(ref.id)

    def obj(self, v):
        return self.state.get(v.id) if isinstance(v, Ref) else None

    def isobj(self, v, cls):
        return isinstance(v, Ref) and isinstance(self.state.get(v.id), cls)

    def fresh_b(self):
        self.bcount += 1
        return Bnd(self.bcount)

    # ---------------------------------------------------------------- events

    def ev(self, kind, a, node=None):
        fn, mod = self.fstack[-1] if self.fstack else ('<module>', '?')
        e = Ev(kind, a, node, fn, mod)
        self.state.trace.append(e)
        return e

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('out of time')

    # ---------------------------------------------------------------- partitions

    def choose(self, n):
        self.tick()
        o = self.oracle
        if self.loading:
            return 0
        if o.pos < len(o.prefix):
            c = o.prefix[o.pos]
        else:
            self.budget -= 1
            if self.budget < 0:
                raise Budget('too many partitions')
            c = 0
            for alt in range(n - 1, 0, -1):
                o.pending.append(o.prefix[:o.pos] + [alt])
            o.prefix.append(0)
        o.pos += 1
        return c

    def note_split(self):
        """The partition now holds some of the texts only; the first such division is exact."""
        n = sum(1 for a, _ in self.state.lits if isinstance(a, App) and a.op.startswith('textsplit'))
        self.state.lits.append((App('textsplit' if not n else 'textsplit_more', C(n)), True))

    def explore(self, thunk, outs=None):
        """All partitions of thunk from the current state (the current state is left untouched)."""
        saved_oracle, saved_state = self.oracle, self.state
        saved_misc = (list(self.fstack), self.depth, list(self.handlers), list(self.active_b))
        pending = [[]]
        outs = [] if outs is None else outs
        try:
            while pending:
                prefix = pending.pop()
                self.oracle = Oracle(prefix, pending)
                self.state = saved_state.fork()
                self.fstack, self.depth, self.handlers, self.active_b = (
                    list(saved_misc[0]), saved_misc[1], list(saved_misc[2]), list(saved_misc[3]))
                try:
                    v = thunk()
                    outs.append(Outcome('return', v, self.state))
                except ReturnEx as e:
                    outs.append(Outcome('return!', e.v, self.state))
                except RaiseEx as e:
                    outs.append(Outcome('raise', e, self.state))
                except BreakEx:
                    outs.append(Outcome('break', None, self.state))
                except ContinueEx:
                    outs.append(Outcome('return', None, self.state))
                except Infeasible:
                    continue
                self.stats['paths'] += 1
                if len(outs) > self.MAX_PATHS:
                    raise Budget('too many partitions')
        finally:
            self.oracle, self.state = saved_oracle, saved_state
            self.fstack, self.depth, self.handlers, self.active_b = saved_misc
        return outs

    # ---------------------------------------------------------------- types and facts

    def typeinfo(self, v):
        if isinstance(v, Const):
            return TypeInfo(exact=Ext('builtins.' + type(v.v).__name__))
        if isinstance(v, (Tmpl, Hole)):
            return TypeInfo(exact=T['str'])
        if isinstance(v, Tup):
            return TypeInfo(exact=T['tuple'])
        if isinstance(v, Ref):
            o = self.o(v)
            if isinstance(o, ListObj):
                return TypeInfo(exact=T['list'])
            if isinstance(o, DictObj):
                return TypeInfo(exact=o.kind)
            if isinstance(o, SetObj):
                return TypeInfo(exact=T['frozenset'] if o.frozen else T['set'])
            if isinstance(o, FuncObj):
                return TypeInfo(exact=T['function'])
            if isinstance(o, ClassObj):
                return TypeInfo(exact=T['type'])
            if isinstance(o, InstObj):
                return TypeInfo(exact=o.cls)
            if isinstance(o, PartialObj):
                return TypeInfo(exact=T['partial'])
            if isinstance(o, ModObj):
                return TypeInfo(exact=T['module'])
            if isinstance(o, DescObj):
                return TypeInfo(exact=Ext('builtins.' + o.kind))
            if isinstance(o, IterObj):
                return TypeInfo(exact=Ext('types.GeneratorType'))
        if isinstance(v, Ext):
            r = real(v)
            if r is not None:
                return TypeInfo(exact=T['type'])
            if v.path.startswith('builtins.'):
                return TypeInfo(exact=T['builtin'])
            if v.path in sys.stdlib_module_names:
                return TypeInfo(exact=T['module'])
            return self.state.types.get(v, TypeInfo(nota=(T['NoneType'],)))
        ti = self.state.types.get(v)
        if ti is not None:
            return ti
        if isinstance(v, App):
            return self.app_type(v)
        return TypeInfo()

    _BOOL_OPS = frozenset(('eq', 'in', 'is', 'not', 'isinstance', 'typeis', 'hasattr', 'truthy', 'lt', 'le',
                           'callable', 'iterable', 'issubclass'))

    def app_type(self, v):
        op = v.op
        if op in self._BOOL_OPS:
            return TypeInfo(exact=T['bool'])
        if op == 'len':
            return TypeInfo(exact=T['int'])
        if op == 'type':
            return TypeInfo(isa=(T['type'],))
        if op == 'bound':
            return TypeInfo(exact=T['method'])
        if op == 'bmeth':
            return TypeInfo(exact=T['builtin'])
        if op in ('m:replace', 'm:strip', 'm:lower', 'm:upper', 'm:lstrip', 'm:rstrip', 'm:hexdigest', 'm:join',
                  'm:format', 'm:decode', 'm:title', 'm:capitalize', 'm:zfill', 'strof', 'm:casefold',
                  'm:ljust', 'm:rjust', 'm:expandtabs', 'm:translate', 'm:removeprefix', 'm:removesuffix',
                  'fold'):
            return TypeInfo(exact=T['str'])
        if op in ('m:encode', 'm:digest'):
            return TypeInfo(exact=T['bytes'])
        if op in ('m:startswith', 'm:endswith', 'm:isdigit', 'm:isalpha', 'm:isidentifier', 'm:isupper',
                  'm:islower', 'm:isspace', 'm:issubset', 'm:isdisjoint', 'm:issuperset'):
            return TypeInfo(exact=T['bool'])
        if op == 'mcall' and v.args[1] in ('hexdigest', 'digest') and isinstance(v.args[0], App) and v.args[0].op == 'call' and \
                isinstance(v.args[0].args[0], Ext) and v.args[0].args[0].path.startswith('hashlib.'):
            return TypeInfo(exact=T['str' if v.args[1] == 'hexdigest' else 'bytes'])
        if op == 'exc':
            return TypeInfo(isa=(v.args[0],))
        if op == 'attr' and v.args[1] in ('__name__', '__qualname__', '__module__'):
            return TypeInfo(exact=T['str'])
        if op == 'attr' and v.args[1] == '__dict__':
            return TypeInfo(isa=(T['dict'],))
        if op == 'slice':
            ti = self.typeinfo(v.args[0])
            if ti.exact in (T['str'], T['list'], T['tuple']):
                return ti
        if op == 'call' and isinstance(v.args[0], Ext):
            t = self.models.RESULT_TYPES.get(v.args[0].path)
            if t is not None:
                return TypeInfo(exact=T[t])
        return TypeInfo()

    def mro(self, t):
        """List of type values above t (inclusive)."""
        if isinstance(t, Ref):
            return list(self.o(t).mro)
        r = real(t)
        if r is not None:
            return [t] + [x for x in (Ext(_path_of(c)) for c in r.__mro__[1:])]
        return [t, T['object']]

    def issub(self, a, b):
        """True/False/None: is class a a subclass of class b."""
        if a == b or b == T['object']:
            return True
        if isinstance(a, Ref):
            if not isinstance(self.o(a), ClassObj):
                return None
            unknown = False
            name = one_method(b)
            if name:
                for c in self.o(a).mro:
                    if c == b:
                        return True
                    if isinstance(c, Ref):
                        attrs = self.o(c).attrs
                        if name in attrs:
                            return attrs[name] != NONE
                        if name == '__hash__' and '__eq__' in attrs:
                            return False
                    else:
                        rc = real(c)
                        if rc is None:
                            return None
                        if name in vars(rc):
                            return vars(rc)[name] is not None
                return False
            for c in self.o(a).mro:
                if c == b:
                    return True
                if isinstance(c, Ext):
                    r = self.issub(c, b)
                    if r:
                        return True
                    if r is None:
                        unknown = True
            return None if unknown else False
        ra, rb = real(a), real(b)
        if ra is None and isinstance(a, Ext) and a.path in EXT_BASES and b != a:
            return EXT_BASES[a.path] == b or self.issub(EXT_BASES[a.path], b)
        if ra is not None and rb is not None:
            return issubclass(ra, rb)
        if ra is not None and isinstance(b, (Ref, Ext)):
            return False     # a builtin class does not derive from repository / third party classes
        if isinstance(a, Ext) and isinstance(b, Ref):
            return False
        return None

    def disjoint(self, a, b):
        ra, rb = real(a), real(b)
        if ra is not None and rb is not None:
            return disjoint_real(ra, rb)
        final = (T['NoneType'], T['bool'], T['function'], T['builtin'], T['method'])
        if ra is not None and a in final and self.issub(a, b) is False:
            return True
        if rb is not None and b in final and self.issub(b, a) is False:
            return True
        return False

    def decide_isinstance(self, v, t):
        if t == T['object']:
            return True
        if isinstance(v, Frozen) and v.k[0] in ('list', 'dict', 'set', 'frozenset', 'inst', 'func', 'class', 'iter'):
            if t == T['NoneType']:
                return False
        ti = self.typeinfo(v)
        if ti.exact is not None:
            r = self.issub(ti.exact, t)
            if r is not None:
                return r
        for i in ti.isa:
            if self.issub(i, t):
                return True
        for n in ti.nota:
            if self.issub(t, n):
                return False
        for i in ti.isa:
            if self.disjoint(i, t):
                return False
        return self.state.facts.get(App('isinstance', v, t))

    def eq_classes(self):
        """Congruence classes of the equalities known on this partition, by member."""
        cls = {}
        for fa, pol in self.state.facts.items():
            if pol and isinstance(fa, App) and fa.op == 'eq':
                p, q = fa.args
                cp, cq = cls.get(p, (p,)), cls.get(q, (q,))
                if cp is cq:
                    continue
                c = cp + tuple(m for m in cq if m not in cp)
                for m in c:
                    cls[m] = c
        return cls

    def eq_closure(self, x, y):
        cls = self.eq_classes()
        if not cls:
            return None
        cx, cy = cls.get(x, (x,)), cls.get(y, (y,))
        if y in cx:
            return True
        if len(cx) == 1 and len(cy) == 1:
            return None
        for p in cx:
            for q in cy:
                if isinstance(p, Const) and isinstance(q, Const) and type(p.v) is type(q.v):
                    if p.v != q.v:
                        return False
                for f in (App('eq', p, q), App('eq', q, p)):
                    if self.state.facts.get(f) is False:
                        return False
        return None

    def decide(self, atom):
        """Truth of an atom under the facts of this partition: True, False or None."""
        f = self.state.facts.get(atom)
        if f is not None:
            return f
        if not isinstance(atom, App):
            return None
        op, a = atom.op, atom.args
        if op == 'isinstance':
            return self.decide_isinstance(a[0], a[1])
        if op == 'typeis':
            ti = self.typeinfo(a[0])
            if ti.exact is not None:
                if ti.exact == a[1]:
                    return True
                if isinstance(ti.exact, (Ext, Ref)) and isinstance(a[1], (Ext, Ref)):
                    return False
            if self.decide_isinstance(a[0], a[1]) is False:
                return False
            return None
        if op == 'is' and a[1] == NONE:
            return self.decide_isinstance(a[0], T['NoneType'])
        if op == 'eq':
            x, y = a
            if x == y:
                return True
            r = self.eq_closure(x, y)
            if r is not None:
                return r
            for p, q in ((x, y), (y, x)):
                if isinstance(p, Frozen) and p.k[0] in ('class', 'func') and (
                        isinstance(q, (Ext, Const, Tmpl, Tup)) or isinstance(q, Frozen) and q.k[0] != 'cycle'):
                    return False
                if isinstance(q, Const):
                    if q == NONE:
                        r = self.decide_isinstance(p, T['NoneType'])
                        if r is not None:
                            return r
                    for fa, pol in self.state.facts.items():
                        if pol and isinstance(fa, App) and fa.op == 'eq' and p in fa.args:
                            other = fa.args[1] if fa.args[0] == p else fa.args[0]
                            if isinstance(other, Const) and other.v != q.v:
                                return False
                    ti = self.typeinfo(p)
                    if ti.exact is not None and type(q.v) in (str, bytes) and real(ti.exact) is not None \
                            and not issubclass(real(ti.exact), type(q.v)):
                        return False
            if isinstance(x, App) and x.op == 'len' or isinstance(y, App) and y.op == 'len':
                return linear.decide(self, op, x, y)
            return None
        if op in ('lt', 'le'):
            return linear.decide(self, op, a[0], a[1])
        if op == 'truthy':
            v = a[0]
            if self.decide_isinstance(v, T['NoneType']):
                return False
            if isinstance(v, (Sym, App)) and self.typeinfo(v).exact == T['int']:
                r = linear.sign(self, v)
                if r is not None:
                    return r
            if isinstance(v, Tmpl) and any(isinstance(p, Hole) and (p.conv == 'r' or self.typeinfo(p.val).exact in (
                    T['int'], T['float'], T['bool'], T['complex'], T['NoneType'])) for p in v.parts):
                return True
            if isinstance(v, (Sym, App)) and linear.mentioned(self, v):
                r = linear.decide(self, 'lt', C(0), App('len', v))
                if r is not None:
                    return r
            ti = self.typeinfo(v)
            if ti.exact in (T['function'], T['type'], T['method'], T['module'], T['builtin'], T['partial']):
                return True
            for fa, pol in self.state.facts.items():
                if pol and isinstance(fa, App) and fa.op == 'in' and fa.args[1] == v:
                    return True
                if pol and isinstance(fa, App) and fa.op == 'eq' and v in fa.args:
                    other = fa.args[1] if fa.args[0] == v else fa.args[0]
                    if isinstance(other, Const):
                        return bool(other.v)
            for b in self.active_b:
                if b[1] == v:
                    return True
            return None
        if op == 'in':
            x, c = a
            if isinstance(x, App) and x.op == 'at' and x.args[0] == c:
                return True
            if isinstance(c, Const) and c.v == '':
                return False
            if self.state.facts.get(App('truthy', c)) is False:
                return False
            if isinstance(x, Const) and isinstance(x.v, str) and isinstance(c, Tmpl):
                if any(isinstance(p, str) and x.v in p for p in c.parts):
                    return True
                if ' ' in x.v and len(c.parts) == 1 and isinstance(c.parts[0], Hole) and c.parts[0].conv in ('s', 'r') \
                        and self.typeinfo(c.parts[0].val).exact in (T['int'], T['float'], T['bool'], T['complex']):
                    return False
            return None
        if op == 'iterable':
            ti = self.typeinfo(a[0])
            if ti.exact is not None:
                r = real(ti.exact)
                if r is not None:
                    return hasattr(r, '__iter__')
            for i in ti.isa:
                r = real(i)
                if r is not None and hasattr(r, '__iter__'):
                    return True
            return None
        if op == 'callable':
            ti = self.typeinfo(a[0])
            for t in ([ti.exact] if ti.exact is not None else []) + list(ti.isa):
                r = real(t)
                if r is not None and instance_has(r, '__call__'):
                    return True
                if r is not None and t == ti.exact:
                    return False
            return None
        if op == 'hasattr':
            v, n = a
            if (v, n) in self.state.symattr:
                return True
            if isinstance(v, App) and v.op == 'desc':
                return n in ('__get__', '__set__') or None
            ti = self.typeinfo(v)
            for t in ([ti.exact] if ti.exact is not None else []) + list(ti.isa):
                r = real(t)
                if r is not None and instance_has(r, n):
                    return True
                if r is not None and t == ti.exact and r is not type and (not r.__dictoffset__ or n in DUNDERS):
                    return False
            return None
        return None

    def assume(self, atom, pol):
        d = self.decide(atom)
        if d is not None:
            if d != pol:
                raise Infeasible()
            return
        st = self.state
        st.facts[atom] = pol
        st.lits.append((atom, pol))
        if isinstance(atom, App):
            op, a = atom.op, atom.args
            if op == 'isinstance':
                ti = self.typeinfo(a[0])
                if not isinstance(a[0], (Const, Ref, Tup, Tmpl)):
                    st.types[a[0]] = TypeInfo(ti.exact, ti.isa | {a[1]} if pol else ti.isa,
                                              ti.nota if pol else ti.nota | {a[1]})
            elif op == 'typeis':
                ti = self.typeinfo(a[0])
                if pol and not isinstance(a[0], (Const, Ref, Tup, Tmpl)):
                    st.types[a[0]] = TypeInfo(a[1], ti.isa, ti.nota)
            elif op == 'is' and a[1] == NONE:
                ti = self.typeinfo(a[0])
                if not isinstance(a[0], (Const, Ref, Tup, Tmpl)):
                    if pol:
                        st.types[a[0]] = TypeInfo(T['NoneType'], ti.isa, ti.nota)
                    else:
                        st.types[a[0]] = TypeInfo(ti.exact, ti.isa, ti.nota | {T['NoneType']})

    def set_type(self, v, exact=None, isa=(), nota=()):
        self.state.types[v] = TypeInfo(exact, isa, nota)

    def resolve(self, v):
        """Replaces a symbol known to be None on this partition by None."""
        if isinstance(v, (Sym, App)) and v in self.state.types and self.state.types[v].exact == T['NoneType']:
            return NONE
        return v

    # truth value of a value: bool or (atom, polarity)
    def literal(self, v):
        v = self.resolve(v)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tmpl):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return (App('truthy', v), True)
        if isinstance(v, Tup):
            return self.segs_truth(v.segs)
        if isinstance(v, Ref):
            o = self.o(v)
            if isinstance(o, (ListObj, DictObj, SetObj)):
                return self.segs_truth(o.segs)
            if isinstance(o, InstObj):
                f = self.class_lookup(o.cls, '__bool__') or self.class_lookup(o.cls, '__len__')
                if f is not None and isinstance(f[0], Ref):
                    return self.literal(self.call_method_desc(f[0], v, o.cls, [], [], None))
                if o.payload is not None:
                    return self.literal(o.payload)
            return True
        if isinstance(v, Ext):
            return True
        if isinstance(v, App):
            if v.op == 'not':
                r = self.literal(v.args[0])
                return (not r) if isinstance(r, bool) else (r[0], not r[1])
            if v.op in self._BOOL_OPS:
                return (v, True)
            if v.op == 'len':
                return self.literal_nonempty(v.args[0])
            if v.op in ('bound', 'bmeth'):
                return True
        ti = self.typeinfo(v)
        if ti.exact == T['bool']:
            return (v, True)
        return (App('truthy', v), True)

    def literal_nonempty(self, x):
        if isinstance(x, Tup):
            return self.segs_truth(x.segs)
        if isinstance(x, Frozen):
            return self.segs_truth(x.k[1])
        return (App('truthy', x), True)

    def segs_truth(self, segs):
        if not segs:
            return False
        if any(isinstance(s, One) for s in segs):
            return True
        if len(segs) == 1:
            s = segs[0]
            if isinstance(s, Perm):
                return self.segs_truth(s.segs)
            known = known_rows(s)
            if known is not None:
                return bool(known)
            if isinstance(s, Each) and all(any(isinstance(q, One) for q in sg) for g, sg in s.alts) \
                    and self.alts_total(s.alts):
                return (App('truthy', s.src), True)
        return (App('truthy', Frozen('seq', segs)), True)

    def alts_total(self, alts):
        return alts_equiv_true([g for g, _ in alts])

    def truth(self, v):
        l = self.literal(v)
        if isinstance(l, bool):
            return l
        d = self.decide(l[0])
        if d is None:
            return None
        return d == l[1]

    def branch(self, v):
        l = self.literal(v)
        if isinstance(l, bool):
            return l
        atom, pol = l
        d = self.decide(atom)
        if d is not None:
            return d == pol
        c = self.choose(2)
        val = (c == 0)
        self.assume(atom, val == pol)
        return val

    # ---------------------------------------------------------------- exceptions

    def can_catch(self, cls):
        for types, _ in self.handlers:
            for t in types:
                if t is None or self.issub(cls, t):
                    return True
        return False

    def throw(self, tname, node=None, implicit=True, args=()):
        cls = T.get(tname) or Ext('builtins.' + tname)
        e = RaiseEx(cls, App('exc', cls, tuple(args)), node, implicit)
        e.fn = self.fstack[-1] if self.fstack else None
        raise e

    def maybe_raise(self, tnames, atom, node):
        """Partition on an operation that can fail when someone on the stack would handle it.
        atom true means success."""
        if self.no_implicit:
            return
        if not any(self.can_catch(T[t]) for t in tnames):
            return
        d = self.decide(atom)
        if d is True:
            return
        caught = [t for t in tnames if self.can_catch(T[t])]
        if d is False:
            if len(caught) > 1:
                k = self.choose(len(caught))
                self.throw(caught[k], node)
            self.throw(caught[0], node)
        c = self.choose(1 + len(caught))
        if c == 0:
            self.assume(atom, True)
        else:
            self.assume(atom, False)
            self.throw(caught[c - 1], node)

    # ---------------------------------------------------------------- modules

    def module_file(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    importer = None     # of libraries that are not analysed, by the scenario

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        fn = self.module_file(name)
        if fn is None:
            raise Undecided('no module %s' % name)
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        if '.' in name:
            self.load_module(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        self.consulted[os.path.relpath(fn, self.repo)] = src
        tree = ast.parse(src)
        frame = self.new(FrameObj(None, name, '<module>'))
        ref = self.new(ModObj(name, frame))
        self.modules[name] = ref
        fr = self.m(frame)
        fr.vars['__name__'] = C(name)
        is_pkg = fn.endswith('__init__.py')
        fr.vars['__package__'] = C(name if is_pkg else name.rpartition('.')[0])
        fr.vars['__file__'] = C(fn)
        self.loading += 1
        self.fstack.append(('<module>', os.path.relpath(fn, self.repo)))
        try:
            for st in tree.body:
                why = None
                try:
                    self.exec_stmt(st, frame)
                except RaiseEx as e:
                    why = 'module %s raises %s at load' % (name, e.cls)
                except (Undecided, RecursionError) as e:
                    why = 'loading module %s: %s' % (name, e)
                if why is not None:
                    # what uses these names is undecided
                    for n in bound_names(st):
                        self.m(frame).vars[n] = App('undecided', why)
        finally:
            self.fstack.pop()
            self.loading -= 1
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            self.m(self.o(self.modules[parent]).frame).vars.setdefault(leaf, ref)
        return ref

    def prelude(self, path):
        text = prelude.MODULES[path]
        frame = self.preludes.get(text)
        if frame is None:
            frame = self.new(FrameObj(None, path, '<module>'))
            self.m(frame).vars['should_curry'] = Ext('toolz.should_curry')
            for st in ast.parse(text).body:
                self.exec_stmt(st, frame)
            self.preludes[text] = frame
        return frame

    def freeze_base(self):
        for path in prelude.MODULES:
            self.prelude(path)
        """Everything allocated so far becomes the pre-existing world."""
        self.base.update(self.state.heap)
        for o in self.base.values():
            o.tok = None
        self.state = State(self.base)
        self.base_mark = self.next_id

    def module_known(self, name):
        return (name == self.package or name.startswith(self.package + '.')) and bool(self.module_file(name))

    def import_name(self, name):
        """Value of `import name`."""
        if name == self.package or name.startswith(self.package + '.'):
            if self.module_file(name):
                return self.load_module(name)
            self.throw('ImportError')
        if self.importer is not None and not self.loading:
            v = self.importer(self, name)
            if v is not None:
                return v
        return Ext(name)

    # ---------------------------------------------------------------- environment

    def lookup(self, name, frame):
        v = self.lookup_(name, frame)
        if isinstance(v, App) and v.op == 'undecided':
            raise Undecided(v.args[0])
        return v

    def lookup_(self, name, frame):
        f = self.o(frame)
        mod = f.module
        if name in f.globals_:
            f = None
        cur = frame
        first = True
        while f is not None:
            if name in f.vars and (first or not f.is_class):
                v = f.vars[name]
                if v is None:
                    break
                return v
            first = False
            cur = f.parent
            f = self.o(cur) if cur is not None else None
        if mod in self.modules:
            v = self.o(self.o(self.modules[mod]).frame).vars.get(name)
            if v is not None:
                return v
        if hasattr(builtins, name) or name == 'undecidable__':
            if name in ('True', 'False', 'None'):
                return C(getattr(builtins, name))
            return Ext('builtins.' + name)
        if name == '__class__':
            return App('unknown', '__class__')
        return None

    def assign_name(self, name, v, frame, node=None):
        f = self.o(frame)
        if name in f.globals_:
            mf = self.o(self.modules[f.module]).frame
            self.ev('gw', (f.module, name, v), node)
            self.m(mf).vars[name] = v
            return
        if name in f.nonlocals_:
            cur = f.parent
            while cur is not None:
                pf = self.o(cur)
                if name in pf.vars:
                    self.ev('nlw', (cur, name, v), node)
                    self.m(cur).vars[name] = v
                    return
                cur = pf.parent
        self.m(frame).vars[name] = v

    # ---------------------------------------------------------------- statements

    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec_stmt(s, frame)

    def exec_stmt(self, s, frame):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        return m(s, frame)

    def st_Expr(self, s, frame):
        self.eval(s.value, frame)

    def st_Pass(self, s, frame):
        pass

    def st_Return(self, s, frame):
        raise ReturnEx(NONE if s.value is None else self.eval(s.value, frame))

    def st_Break(self, s, frame):
        raise BreakEx()

    def st_Continue(self, s, frame):
        raise ContinueEx()

    def st_Global(self, s, frame):
        f = self.m(frame)
        f.globals_ = f.globals_ | set(s.names)

    def st_Nonlocal(self, s, frame):
        f = self.m(frame)
        f.nonlocals_ = f.nonlocals_ | set(s.names)

    def st_Import(self, s, frame):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.import_dotted(a.name), frame, s)
            else:
                top = a.name.split('.')[0]
                self.import_dotted(a.name)
                self.assign_name(top, self.import_name(top), frame, s)

    def import_dotted(self, name):
        return self.import_name(name)

    def st_ImportFrom(self, s, frame):
        base = s.module or ''
        if s.level:
            fr = self.o(frame)
            pkgv = self.o(self.o(self.modules[fr.module]).frame).vars['__package__'].v
            parts = pkgv.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base == '__future__':
            return
        mod = self.import_name(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(mod, Ref):
                    mf = self.o(self.o(mod).frame)
                    allv = mf.vars.get('__all__')
                    if allv is not None:
                        names = [x.v for x in (ones(self.o(allv).segs if isinstance(allv, Ref) else allv.segs) or ())
                                 if isinstance(x, Const)]
                    else:
                        names = [n for n in mf.vars if not n.startswith('_')]
                    for n in names:
                        if n in mf.vars:
                            self.assign_name(n, mf.vars[n], frame, s)
                continue
            if self.isobj(mod, ModObj):
                v = self.o(self.o(mod).frame).vars.get(a.name)
                if v is None:
                    if self.module_file(base + '.' + a.name):
                        v = self.load_module(base + '.' + a.name)
                    else:
                        self.throw('ImportError', s)
            elif isinstance(mod, Ext):
                v = self.ext_attr(mod, a.name)
            else:
                v = self.getattr(mod, a.name, s)
            self.assign_name(a.asname or a.name, v, frame, s)

    def st_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def st_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame)
            if cur is None:
                self.throw('NameError', s)
            self.assign(t, self.iop(s.op, cur, self.eval(s.value, frame), s), frame)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            cur = self.getattr(o, t.attr, s)
            self.setattr(o, t.attr, self.iop(s.op, cur, self.eval(s.value, frame), s), s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            k = self.eval_index(t.slice, frame)
            cur = self.getitem(o, k, s)
            self.setitem(o, k, self.iop(s.op, cur, self.eval(s.value, frame), s), s)
        else:
            raise Undecided('augassign')

    def iop(self, op, cur, v, node):
        """In place operator: mutates known/possibly mutable left operands."""
        if isinstance(op, ast.Add):
            if self.isobj(cur, ListObj):
                self.models.list_extend(self, cur, v, node)
                return cur
            ti = self.typeinfo(cur)
            if isinstance(cur, (Sym, App)) and not (ti.exact in (T['str'], T['int'], T['float'], T['tuple'], T['bool'])):
                if self.decide_isinstance(cur, T['list']) is not False and ti.exact is None or ti.exact == T['list']:
                    self.ev('w', (cur, 'iadd', v), node)
        elif isinstance(op, ast.BitOr) and isinstance(cur, Ref):
            if isinstance(self.o(cur), DictObj):
                self.models.dict_update(self, cur, v, node)
                return cur
            if isinstance(self.o(cur), SetObj) and not self.o(cur).frozen:
                self.models.set_update(self, cur, v, node)
                return cur
        elif isinstance(op, (ast.Sub, ast.BitAnd)) and self.isobj(cur, SetObj) and not self.o(cur).frozen:
            r = self.binop(op, cur, v, node)
            self.ev('w', (cur, 'iop', v), node)
            self.m(cur).segs = self.o(r).segs
            return cur
        elif isinstance(cur, (Sym, App)) and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            ti = self.typeinfo(cur)
            if ti.exact in (T['set'], T['dict'], T['list']) or ti.exact is None:
                self.ev('w', (cur, 'iop', v), node)
        return self.binop(op, cur, v, node)

    def st_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.m(frame).vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, frame), self.eval_index(t.slice, frame), s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, frame)
                self.ev('w', (o, 'delattr', C(t.attr)), s)
                if isinstance(o, Ref) and self.o(o).attrs is not None:
                    self.m(o).attrs.pop(t.attr, None)
            else:
                raise Undecided('del')

    def st_If(self, s, frame):
        if self.branch(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def st_Assert(self, s, frame):
        if not self.branch(self.eval(s.test, frame)):
            self.throw('AssertionError', s, implicit=False)

    def st_Raise(self, s, frame):
        if s.exc is None:
            if self.cur_exc:
                raise self.cur_exc[-1]
            raise Undecided('bare raise')
        v = self.eval(s.exc, frame)
        self.throw_value(v, s)

    def throw_value(self, v, node):
        if isinstance(v, App) and v.op == 'exc':
            cls, val = v.args[0], v
        elif isinstance(v, Ext) or self.isobj(v, ClassObj):
            cls = v
            val = App('exc', v, ()) if not isinstance(v, Ref) else self.call(v, [], [], node)
        elif self.isobj(v, InstObj):
            cls, val = self.o(v).cls, v
        else:
            ti = self.typeinfo(v)
            cls = ti.exact or (sorted(ti.isa, key=repr) or [T['Exception']])[0]
            val = v
        e = RaiseEx(cls, val, node)
        e.fn = self.fstack[-1] if self.fstack else None
        raise e

    cur_exc = ()

    def handler_types(self, h, frame):
        if h.type is None:
            return [None]
        v = self.eval(h.type, frame)
        if isinstance(v, Tup):
            return ones(v.segs) or [None]
        if v == Ext('builtins.BaseException') or v == Ext('builtins.Exception'):
            return [v]
        return [v]

    def st_Try(self, s, frame):
        if s.finalbody:
            try:
                self.try_inner(s, frame)
            except (Ctl,) as e:
                self.exec_block(s.finalbody, frame)
                raise e
            self.exec_block(s.finalbody, frame)
        else:
            self.try_inner(s, frame)

    def try_inner(self, s, frame):
        types = []
        if s.handlers:
            for h in s.handlers:
                types.extend(self.handler_types(h, frame))
            self.handlers.append((types, len(self.fstack)))
        n = len(self.handlers)
        try:
            try:
                self.exec_block(s.body, frame)
            finally:
                if s.handlers:
                    del self.handlers[n - 1:]
        except RaiseEx as e:
            for h in s.handlers:
                hit = False
                for t in self.handler_types(h, frame):
                    if t is None:
                        hit = True
                        break
                    r = self.issub(e.cls, t)
                    if r is None:
                        r = self.branch(App('issubclass', e.cls, t))
                    if r:
                        hit = True
                        break
                if hit:
                    self.ev('caught', (e.cls, e.node), h)
                    if h.name:
                        self.assign_name(h.name, e.val, frame)
                    saved = self.cur_exc
                    self.cur_exc = tuple(saved) + (e,)
                    try:
                        self.exec_block(h.body, frame)
                    finally:
                        self.cur_exc = saved
                    return
            raise
        else:
            self.exec_block(s.orelse, frame)

    def st_With(self, s, frame):
        sup = []
        for it in s.items:
            v = self.eval(it.context_expr, frame)
            if isinstance(v, App) and v.op == 'call' and v.args[0] == Ext('contextlib.suppress'):
                sup.extend(v.args[1])
                v = NONE
            if it.optional_vars is not None:
                self.assign(it.optional_vars, App('enter', v), frame)
        if sup:
            self.handlers.append((list(sup), len(self.fstack)))
            n = len(self.handlers)
            try:
                self.exec_block(s.body, frame)
            except RaiseEx as e:
                if not any(self.issub(e.cls, t) for t in sup):
                    raise
            finally:
                del self.handlers[n - 1:]
        else:
            self.exec_block(s.body, frame)

    def st_FunctionDef(self, s, frame):
        f = self.make_func(s, frame)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, frame)
            v = self.models.decorate(self, dv, v, s)
        self.assign_name(s.name, v, frame, s)

    def st_ClassDef(self, s, frame):
        bases = [self.eval(b, frame) for b in s.bases]
        fr = self.o(frame)
        qual = s.name if fr.name == '<module>' else fr.name + '.' + s.name
        self.qualname(fr, qual, s.name)
        cf = self.new(FrameObj(frame, fr.module, qual, is_class=True))
        self.exec_block(s.body, cf)
        nb, meta = [], None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.eval(k.value, frame)
        for b in bases:
            if isinstance(b, App) and b.op == 'withmeta':
                nb.extend(b.args[1:])
                meta = b.args[0]
                continue
            nb.append(b)
            if meta is None and self.isobj(b, ClassObj):
                meta = self.o(b).meta
        attrs = {'__doc__': C(ast.get_docstring(s, False))}
        attrs.update(self.o(cf).vars)
        v = self.make_class(meta, s.name, nb, fr.module, s, qual, attrs)
        for d in reversed(s.decorator_list):
            v = self.models.decorate(self, self.eval(d, frame), v, s)
        self.assign_name(s.name, v, frame, s)

    def make_class(self, meta, name, bases, module, node, qual, attrs):
        meta = None if meta is None else self.resolve(meta)
        new = self.class_lookup(meta, '__new__') if self.isobj(meta, ClassObj) else None
        if meta is None or meta == T['type'] or self.isobj(meta, ClassObj) and (new is None or not isinstance(new[0], Ref)):
            v = self.new_class(name, bases, module, node, qual, attrs)
        elif self.isobj(meta, ClassObj):
            ns = self.new(DictObj())
            self.m(ns).segs = tuple(One(tup(C(k), x)) for k, x in attrs.items())
            f = new[0]
            f = self.o(f).func if self.isobj(f, DescObj) else f
            self.classing.append((module, node, qual))
            try:
                v = self.resolve(self.call(f, [meta, C(name), tup(*bases), ns], [], node))
            finally:
                self.classing.pop()
            if not self.isobj(v, ClassObj):
                raise Undecided('metaclass of %s: %s' % (name, meta))
        else:
            raise Undecided('metaclass of %s: %s' % (name, meta))
        if meta is not None:
            self.m(v).meta = meta
            for x in attrs.values():
                x = self.o(x).func if self.isobj(x, DescObj) else x
                if self.isobj(x, FuncObj) and self.o(x).owner is None:
                    self.m(x).owner = v
            init = self.class_lookup(meta, '__init__') if self.isobj(meta, ClassObj) else None
            if init is not None and isinstance(init[0], Ref):
                self.call(init[0], [v, C(name), tup(*bases), self.new(DictObj())], [], node)
        return v

    def new_class(self, name, bases, module, node, qual, attrs):
        c = ClassObj(name, list(bases) or [T['object']], module, node, qual)
        c.attrs = dict(attrs)
        ref = self.new(c)
        self.m(ref).mro = tuple(self.compute_mro(ref))
        for n, v in c.attrs.items():
            f = v
            if self.isobj(f, DescObj):
                f = self.o(f).func
            if self.isobj(f, FuncObj) and self.o(f).owner is None:
                self.m(f).owner = ref
        return ref

    def compute_mro(self, ref):
        c = self.o(ref)
        out = [ref]
        for b in c.bases:
            bm = self.mro(b) if isinstance(b, (Ref, Ext)) else [b]
            for x in bm:
                if x in out:
                    continue
                out.append(x)
        if T['object'] in out:
            out.remove(T['object'])
        return out + [T['object']]

    def st_While(self, s, frame):
        conv = self.models.while_as_for(s)
        if conv is not None:
            target, src, body, pre = conv
            srcv = self.eval(src, frame)
            segs = self.models.segs_of_indexable(self, srcv)
            if segs is not None:
                self.for_loop(segs, target, body, s.orelse, frame, s)
                return
        conv = self.models.while_next(s)
        if conv is not None:
            target, src, body = conv
            srcv = self.eval(src, frame)
            if self.isobj(srcv, IterObj):
                segs = self.iter_segs(srcv, src)
                self.for_loop(segs, target, body, [], frame, s)
                return
        # generic: unroll while the condition is decided, otherwise give up
        for _ in range(200):
            v = self.eval(s.test, frame)
            t = self.truth(v)
            if t is None:
                raise Undecided('while loop with undecided condition at line %d' % s.lineno)
            if not t:
                self.exec_block(s.orelse, frame)
                return
            try:
                self.exec_block(s.body, frame)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Undecided('while loop does not settle at line %d' % s.lineno)

    def st_For(self, s, frame):
        it = self.eval(s.iter, frame)
        segs = it if self.lazy(it) else self.iter_segs(it, s.iter)
        self.for_loop(segs, s.target, s.body, s.orelse, frame, s)

    def for_loop(self, segs, target, stmts, orelse, frame, node):
        def body(v):
            if target is not None:
                if callable(target):
                    target(v)
                else:
                    self.assign(target, v, frame)
            try:
                self.exec_block(stmts, frame)
            except ContinueEx:
                pass
        try:
            self.run_segs(segs, body, node)
        except BreakEx:
            return
        self.exec_block(orelse, frame)

    # ---------------------------------------------------------------- loops

    def run_segs(self, segs, body, node, own=None):
        if isinstance(segs, Ref):
            return self.run_gen(segs, body)
        for s in segs:
            if isinstance(s, One):
                body(s.val)
            elif own is not None and isinstance(s, Perm) and s.how[0] == 'unordered' and self.run_unordered(s, body, own):
                pass
            elif isinstance(s, Each):
                self.run_each(s, body, node, None)
            elif isinstance(s, Perm):
                self.run_perm(s, body, node)
            elif isinstance(s, Opq):
                b = self.fresh_b()
                src = Frozen('opq', s)
                self.run_each(Each(b, src, (((), (One(App('at', src, b)),)),)), body, node, None)
            else:
                raise Undecided('segment')

    def run_unordered(self, perm, body, own):
        """A few known elements in unknown order, when all the body does is adding to what it builds."""
        vals = ones(perm.segs)
        if vals is None or not 2 <= len(vals) <= 5:
            return False
        saved, mark = self.state.fork(), self.next_id
        try:
            for v in vals:
                body(v)
        except (BreakEx, ContinueEx, ReturnEx, RaiseEx):
            self.state = saved
            return False
        now = self.state
        todo = []
        for d in self.diff(saved, [Outcome('return', None, now)], mark):
            if d[0] == 'var' and d[1] == own:
                continue
            pre = (saved.heap.get(d[1]) or saved.base.get(d[1])) if d[0] == 'segs' else None
            n = len(pre.segs) if pre is not None else 0
            if pre is None or isinstance(pre, FrameObj) or now.get(d[1]).segs[:n] != pre.segs:
                self.state = saved
                return False
            todo.append((d[1], n))
        for i, n in todo:
            o = now.mut(i)
            new = o.segs[n:]
            if len(new) > 1:
                o.segs = o.segs[:n] + (Perm(('unordered',), new),)
        return True

    def run_perm(self, perm, body, node):
        """A loop over a permuted collection: the permuted elements are visited as one generic element."""
        segs = perm.segs
        if len(segs) == 1 and isinstance(segs[0], Each):
            self.run_each(segs[0], body, node, perm.how)
            return
        vals = ones(segs)
        if vals is not None and len(vals) <= 1:
            self.run_segs(segs, body, node)
            return
        if len(segs) == 1 and isinstance(segs[0], Perm):
            # outer permutation decides the order
            if perm.how[0] == 'sorted':
                how = perm.how
                if segs[0].how[0] == 'sorted':      # stable: both keys count
                    how = ('sorted', ('many', how[1], segs[0].how[1]), how[2])
                self.run_perm(Perm(how, segs[0].segs), body, node)
                return
            if perm.how[0] == 'reversed':
                inner = segs[0]
                if inner.how[0] == 'reversed':
                    self.run_segs(inner.segs, body, node)
                    return
                self.run_perm(Perm(('reversed',) + (inner.how,), inner.segs), body, node)
                return
            self.run_perm(Perm(perm.how, segs[0].segs), body, node)
            return
        # several segments: generic element over the frozen sequence
        b = self.fresh_b()
        alts = []
        for s in segs:
            if isinstance(s, One):
                alts.append((((App('segat', b, len(alts)), True),), (s,)))
            elif isinstance(s, Each):
                for g, sg in s.alts:
                    alts.append((((App('segat', b, len(alts)), True),) + g, sg))
            else:
                alts.append((((App('segat', b, len(alts)), True),), (One(App('at', Frozen('opq', s), b)),)))
        self.run_each(Each(b, Frozen('seq', segs), tuple(alts)), body, node, perm.how)

    def run_each(self, each, body, node, how):
        self.stats['loops'] += 1
        b, src, alts = each.b, each.src, each.alts
        if any(x[0] == b for x in self.active_b):
            nb = self.fresh_b()
            alts = subst(alts, {b: nb})
            b = nb
        base = self.state
        mark = self.next_id
        loopid = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), b.k[0])

        def thunk():
            self.active_b.append((b, src))
            try:
                k = self.choose(len(alts)) if len(alts) > 1 else 0
                if alts:
                    g, segs = alts[k]
                    for a, p in g:
                        self.assume(a, p)
                    self.run_segs(segs, body, node)
            finally:
                self.active_b.pop()

        dirty = {}
        for _ in range(6):
            st = base.fork()
            self.havoc(st, dirty, loopid, base)
            self.state = st
            try:
                outs = self.explore(thunk)
            finally:
                self.state = base
            new = self.diff(st, outs, mark)
            settled = all(d in dirty for d in new)
            for d in new:
                ks = self.written_keys(d, st, outs, b, loopid) if d[0] == 'segs' else None
                if d not in dirty:
                    dirty[d] = ks
                elif dirty[d] is not None and (ks is None or not ks <= dirty[d]):
                    dirty[d] = None if ks is None else dirty[d] | ks
                    settled = False
            if settled:
                break
        else:
            raise Undecided('loop does not settle')
        nexts = [o for o in outs if o.kind == 'return']
        exits = [o for o in outs if o.kind != 'return']
        n0 = len(st.lits)
        t0 = len(st.trace)
        summary = []
        for o in nexts:
            summary.append((tuple(o.state.lits[n0:]), o.state.trace[t0:]))
        loop_ev = None
        if any(tr for _, tr in summary):
            fn, mod = self.fstack[-1] if self.fstack else ('<module>', '?')
            loop_ev = Ev('loop', (b, src, how, summary), node, fn, mod)
        c = self.choose(1 + len(exits)) if exits else 0
        if c == 0:
            self.state = base
            if loop_ev is not None:
                base.trace.append(loop_ev)
            self.merge(base, st, nexts, dirty, mark, b, src, how, n0, loopid, exits)
            if exits:
                base.facts[App('loopdone', b, src, tuple(sorted(
                    (tuple(o.state.lits[n0:]) for o in exits), key=repr)))] = True
            return
        o = exits[c - 1]
        self.state = o.state
        if loop_ev is not None:
            o.state.trace[t0:t0] = [loop_ev]
        # re-anchor: replay the literals of the exit on the enclosing partition
        if o.kind == 'raise':
            raise o.val
        if o.kind == 'return!':
            raise ReturnEx(o.val)
        raise BreakEx()

    def havoc(self, st, dirty, loopid, base):
        for d in dirty:
            kind, i = d[0], d[1]
            if kind == 'segs':
                o = st.mut(i)
                if dirty[d] is not None:
                    o.segs = o.segs + tuple(Opq('priorkey', loopid, i, k) for k in sorted(dirty[d], key=repr))
                else:
                    o.segs = o.segs + (Opq('prior', loopid, i),)
            elif kind == 'var':
                st.mut(i).vars[d[2]] = App('loopvar', loopid, d[2], i)
            elif kind == 'attr':
                st.mut(i).attrs[d[2]] = App('loopvar', loopid, d[2], i)
            elif kind == 'symattr':
                st.symattr[(i, d[2])] = App('loopvar', loopid, d[2], 0)

    def written_keys(self, d, st, outs, b, loopid):
        """The keys the iterations write to a dictionary, when they are the same in all of them; else None."""
        i = d[1]
        ks = set()
        for o in outs:
            ob = o.state.heap.get(i)
            if ob is None:
                continue
            if not isinstance(ob, DictObj):
                return None
            pre = tuple(x for x in (st.heap.get(i) or st.base.get(i)).segs if not is_priorkey(x, loopid))
            post = tuple(x for x in ob.segs if not is_priorkey(x, loopid))
            if post[:len(pre)] != pre:
                return None
            for x in post[len(pre):]:
                if not (isinstance(x, One) and isinstance(x.val, Tup) and len(x.val.segs) == 2):
                    return None
                k = x.val.segs[0].val
                if isinstance(k, Ref) or mentions(k, b) or any(
                        isinstance(y, App) and y.op in ('loopvar', 'last') for y in walk(k)):
                    return None
                ks.add(k)
        return frozenset(ks)

    def diff(self, st, outs, mark):
        """What the body changes among the objects that existed before the loop."""
        res = set()
        for o in outs:
            s = o.state
            for i, ob in s.heap.items():
                if i >= mark:
                    continue
                pre = st.heap.get(i) or st.base.get(i)
                if pre is ob or pre is None:
                    continue
                if hasattr(ob, 'segs') and ob.segs != pre.segs:
                    res.add(('segs', i))
                if isinstance(ob, FrameObj):
                    for n, v in ob.vars.items():
                        if pre.vars.get(n) != v:
                            res.add(('var', i, n))
                elif ob.attrs is not None:
                    for n, v in ob.attrs.items():
                        if pre.attrs.get(n) != v:
                            res.add(('attr', i, n))
            for k, v in s.symattr.items():
                if st.symattr.get(k) != v:
                    res.add(('symattr', k[0], k[1]))
        return res

    def merge(self, base, st, nexts, dirty, mark, b, src, how, n0, loopid, exits):
        for o in nexts:
            for i, ob in o.state.heap.items():
                if i >= mark:
                    base.heap[i] = ob
                    ob.tok = None

        def wrap(seg):
            return seg if how is None else Perm(how, (seg,))

        flags = self.flags(base, dirty, nexts, n0, loopid)
        for d in sorted(dirty, key=repr):
            kind, i = d[0], d[1]
            if kind == 'segs':
                pre = st.get(i).segs
                alts, ok = [], True
                if dirty[d] is not None:
                    pre = tuple(x for x in pre if not is_priorkey(x, loopid))
                for o in nexts:
                    post = o.state.get(i).segs
                    if dirty[d] is not None:
                        post = tuple(x for x in post if not is_priorkey(x, loopid))
                    if post[:len(pre)] != pre:
                        ok = False
                        break
                    alts.append((tuple(o.state.lits[n0:]), post[len(pre):]))
                ob = base.mut(i)
                if not ok:
                    ob.segs = (Opq('rewritten', loopid, ob.segs),)
                    continue
                alts = merge_alts(alts)
                if any(sg for _, sg in alts):
                    if isinstance(ob, IterObj):
                        ob.segs = (Opq('iter', loopid),)
                    else:
                        ob.segs = ob.segs + (wrap(Each(b, src, tuple(alts))),)
                elif isinstance(ob, IterObj):
                    pass
            elif kind in ('var', 'attr'):
                def get(s):
                    ob = s.get(i)
                    return (ob.vars if kind == 'var' else ob.attrs).get(d[2])
                lv = App('loopvar', loopid, d[2], i)
                alts = [(tuple(o.state.lits[n0:]), get(o.state)) for o in nexts]
                init = get(base)
                v = self.fold_loopvar(base, lv, init, alts, b, src, how, loopid, flags)
                ob = base.mut(i)
                tgt = ob.vars if kind == 'var' else ob.attrs
                if v is None:
                    tgt.pop(d[2], None)
                else:
                    tgt[d[2]] = v
            elif kind == 'symattr':
                base.symattr[(i, d[2])] = App('unknown', 'loop', loopid, d[2])
        items = set(o.state.symitems for o in nexts)
        if items != {st.symitems} and items:
            base.symitems = base.symitems + (('loop', loopid),)

    def flags(self, base, dirty, nexts, n0, loopid):
        """Variables that the iterations leave alone or set to one constant, other than the first."""
        out = []
        for d in dirty:
            if d[0] != 'var':
                continue
            init = base.get(d[1]).vars.get(d[2])
            lv = App('loopvar', loopid, d[2], d[1])
            vals = [o.state.get(d[1]).vars.get(d[2]) for o in nexts]
            new = set(v for v in vals if v != lv)
            if isinstance(init, Const) and len(new) == 1 and isinstance(list(new)[0], Const) and bool(init.v) != bool(list(new)[0].v):
                out.append((App('truthy', lv), bool(init.v), [v != lv for v in vals]))
        return out

    def separated(self, parts, flags):
        """(separator, parts without it) when text is accumulated with a separator before each but the first."""
        for atom, first, sets in flags:
            groups = {}
            for (g, segs), s in zip(parts, sets):
                side = [p for a, p in g if a == atom]
                rest = frozenset((a, p) for a, p in g if a != atom)
                for p in (side[:1] or [first, not first]):
                    if (rest, p == first) in groups or (p == first and bool(segs) != s):
                        groups = None
                        break
                    groups[rest, p == first] = (tuple((a, p2) for a, p2 in g if a != atom), segs)
                if groups is None:
                    break
            if not groups or set(r for r, f in groups if f) != set(r for r, f in groups if not f):
                continue
            seps, out = set(), []
            for (rest, f), (g, segs) in groups.items():
                if f:
                    other = groups[rest, False][1]
                    if segs and other:
                        x, y = self.text_parts(segs[0].val), self.text_parts(other[0].val)
                        if y[len(y) - len(x):] == x and len(y) == len(x) + 1 and isinstance(y[0], str):
                            seps.add(y[0])
                        elif len(x) == len(y) and x and isinstance(x[0], str) and isinstance(y[0], str) and x[1:] == y[1:] and y[0].endswith(x[0]):
                            seps.add(y[0][:len(y[0]) - len(x[0])])
                        else:
                            seps.add(None)
                    elif segs or other:
                        seps.add(None)
                    out.append((g, segs))
            if len(seps) == 1 and None not in seps:
                return C(seps.pop()), out
        return None

    def text_parts(self, v):
        return v.parts if isinstance(v, Tmpl) else (v.v,) if isinstance(v, Const) else (Hole(v, 's'),)

    def fold_loopvar(self, base, lv, init, alts, b, src, how, loopid, flags=()):
        vals = [v for _, v in alts]
        if not vals or all(v == lv for v in vals):
            return init

        def wrap(seg):
            return seg if how is None else Perm(how, (seg,))

        def joined(parts):
            return self.models.concat(self, [init, Tmpl((Join(C(''), (wrap(Each(b, src, tuple(merge_alts(parts)))),)),))])

        # text accumulation
        if init is not None and self.typeinfo(init).exact == T['str']:
            parts = []
            ok = True
            for g, v in alts:
                if v == lv:
                    parts.append((g, ()))
                elif isinstance(v, Tmpl) and isinstance(v.parts[0], Hole) and v.parts[0] == Hole(lv, 's') \
                        and not any(mentions(p, lv) for p in v.parts[1:] if not isinstance(p, str)):
                    parts.append((g, (One(Tmpl(v.parts[1:])),)))
                elif isinstance(v, App) and v.op == 'add' and v.args[0] == lv and not mentions(v.args[1], lv):
                    parts.append((g, (One(v.args[1]),)))
                else:
                    ok = False
            if ok:
                sep = self.separated(parts, flags)
                if sep is not None:
                    return self.models.concat(self, [init, Tmpl((Join(sep[0], (wrap(Each(b, src, tuple(merge_alts(sep[1])))),)),))])
                return joined(parts)
        # list accumulation by rebinding
        if init is not None and (isinstance(init, Tup) or self.isobj(init, ListObj)):
            parts = []
            ok = True
            for g, v in alts:
                if v == lv:
                    parts.append((g, ()))
                elif isinstance(v, App) and v.op == 'add' and v.args[0] == lv and not mentions(v.args[1], lv):
                    x = v.args[1]
                    if isinstance(x, Tup):
                        parts.append((g, x.segs))
                    elif isinstance(x, Ref) and isinstance(base.get(x.id), ListObj):
                        parts.append((g, base.get(x.id).segs))
                    else:
                        ok = False
                else:
                    ok = False
            if ok:
                seg = wrap(Each(b, src, tuple(merge_alts(parts))))
                if isinstance(init, Tup):
                    return Tup(init.segs + (seg,))
                saved = self.state
                self.state = base
                try:
                    return self.new(ListObj(base.get(init.id).segs + (seg,)))
                finally:
                    self.state = saved
        return App('last', loopid, b, src, init if init is not None else NONE,
                   tuple((g, v if v is not None else NONE) for g, v in alts))

    # ---------------------------------------------------------------- iteration

    def iter_segs(self, v, node=None):
        """Segments visited when iterating over v (consumes iterators)."""
        v = self.resolve(v)
        if isinstance(v, Tup):
            return v.segs
        if isinstance(v, Const):
            if isinstance(v.v, (str, bytes)):
                return tuple(One(C(c)) for c in v.v)
            self.throw('TypeError', node)
        if isinstance(v, Ref):
            o = self.o(v)
            if isinstance(o, ListObj):
                return o.segs
            if isinstance(o, DictObj):
                return self.models.map_segs(self, o.segs, lambda p: self.models.pair_get(self, p, 0))
            if isinstance(o, SetObj):
                if not o.segs or (len(o.segs) == 1 and isinstance(o.segs[0], One)):
                    return o.segs
                segs = tuple(s for i, s in enumerate(o.segs) if not isinstance(s, One) or s not in o.segs[:i])
                if self.each_order and 2 <= len(segs) <= 3 and ones(segs) is not None:
                    if o.order is None or o.order[0] != segs:
                        orders = list(itertools.permutations(segs))
                        self.m(v).order = (segs, orders[self.choose(len(orders))])
                    return self.o(v).order[1]
                return (Perm(('unordered',), segs),) if len(segs) > 1 or not isinstance(segs[0], One) else segs
            if isinstance(o, IterObj):
                segs = o.segs
                self.ev('consume', (v,), node)
                self.m(v).segs = ()
                self.m(v).used = True
                return segs
            if isinstance(o, InstObj):
                f = self.class_lookup(o.cls, '__iter__')
                if f is not None and isinstance(f[0], Ref):
                    return self.iter_segs(self.call_method_desc(f[0], v, o.cls, [], [], node), node)
                if o.payload is not None:
                    return self.iter_segs(o.payload, node)
                if f is None and self.class_lookup(o.cls, '__getitem__') is not None:
                    raise Undecided('iteration by position')
            self.throw('TypeError', node)
        if isinstance(v, Ext):
            if self.typeinfo(v).exact in (T['type'], T['builtin']):
                self.throw('TypeError', node)
        if self.decide(App('iterable', v)) is False:
            self.throw('TypeError', node)
        self.maybe_raise(['TypeError'], App('iterable', v), node)
        self.ev('iter', (v,), node)
        return self.sym_segs(v)

    def sym_segs(self, v):
        b = self.fresh_b()
        if isinstance(v, Frozen) and v.k[0] == 'seq':
            return v.k[1]
        elem = App('at', v, b)
        return (Each(b, v, (((), (One(elem),)),)),)

    # ---------------------------------------------------------------- assignment

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, frame, t)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, frame), self.eval_index(t.slice, frame), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, frame, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame)
        else:
            raise Undecided('assignment target')

    def unpack(self, elts, v, frame, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = None
        if isinstance(v, Tup):
            vals = ones(v.segs)
        elif isinstance(v, Ref):
            vals = ones(self.iter_segs(v, node))
        elif isinstance(v, Const) and isinstance(v.v, str):
            vals = [C(c) for c in v.v]
        if vals is not None:
            if star:
                i = star[0]
                tail = len(elts) - i - 1
                mid = vals[i:len(vals) - tail]
                for e, x in zip(elts[:i], vals[:i]):
                    self.assign(e, x, frame)
                self.assign(elts[i], self.new(ListObj(One(x) for x in mid)), frame)
                for e, x in zip(elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, frame)
                return
            if len(vals) != len(elts):
                self.throw('ValueError', node)
            for e, x in zip(elts, vals):
                self.assign(e, x, frame)
            return
        if star:
            raise Undecided('starred unpacking of unknown')
        for i, e in enumerate(elts):
            self.assign(e, self.getitem(v, C(i), node), frame)

    # ---------------------------------------------------------------- expressions

    def eval(self, e, frame):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, frame)

    def ex_Constant(self, e, frame):
        return C(e.value)

    def ex_Name(self, e, frame):
        v = self.lookup(e.id, frame)
        if v is None:
            self.throw('NameError', e)
        return v

    def ex_Attribute(self, e, frame):
        return self.getattr(self.eval(e.value, frame), e.attr, e)

    def eval_index(self, e, frame):
        if isinstance(e, ast.Slice):
            return App('slc', *[NONE if x is None else self.eval(x, frame) for x in (e.lower, e.upper, e.step)])
        return self.eval(e, frame)

    def ex_Slice(self, e, frame):
        return self.eval_index(e, frame)

    def ex_Subscript(self, e, frame):
        o = self.eval(e.value, frame)
        return self.getitem(o, self.eval_index(e.slice, frame), e)

    def elts_segs(self, elts, frame):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, frame), x))
            else:
                segs.append(One(self.eval(x, frame)))
        return tuple(segs)

    def ex_Tuple(self, e, frame):
        return Tup(self.elts_segs(e.elts, frame))

    def ex_List(self, e, frame):
        return self.new(ListObj(self.elts_segs(e.elts, frame)))

    def ex_Set(self, e, frame):
        return self.new(SetObj(self.models.hash_keys(self, self.elts_segs(e.elts, frame), e)))

    def ex_Dict(self, e, frame):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                segs.extend(self.models.pairs_of(self, self.eval(v, frame), e))
            else:
                kk = self.eval(k, frame)
                segs.append(One(tup(kk, self.eval(v, frame))))
        return self.new(DictObj(self.models.merge_pairs(self, segs)))

    def ex_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            b = self.branch(v)
            if isand and not b or (not isand and b):
                return self.coerced(v, b)
        return v

    def coerced(self, v, b):
        """The value of a tested operand, as a constant when it is a truth value."""
        if self.typeinfo(v).exact == T['bool']:
            return C(b)
        return v

    def ex_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return C(not t)
            l = self.literal(v)
            return App('not', l[0]) if l[1] else l[0]
        if isinstance(v, Const):
            try:
                if isinstance(e.op, ast.USub):
                    return C(-v.v)
                if isinstance(e.op, ast.UAdd):
                    return C(+v.v)
                return C(~v.v)
            except TypeError:
                self.throw('TypeError', e)
        return App('neg' if isinstance(e.op, ast.USub) else type(e.op).__name__, v)

    def ex_BinOp(self, e, frame):
        return self.binop(e.op, self.eval(e.left, frame), self.eval(e.right, frame), e)

    def binop(self, op, l, r, node):
        return self.models.binop(self, op, self.resolve(l), self.resolve(r), node)

    def ex_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        res = None
        n = len(e.ops)
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rx, frame)
            res = self.models.compare(self, op, left, right, e)
            if i == n - 1:
                return res
            if not self.branch(res):
                return FALSE
            left = right
        return res

    def ex_IfExp(self, e, frame):
        return self.eval(e.body if self.branch(self.eval(e.test, frame)) else e.orelse, frame)

    def ex_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        f = frame
        self.assign(e.target, v, f)
        return v

    def ex_Lambda(self, e, frame):
        return self.make_func(e, frame)

    def ex_JoinedStr(self, e, frame):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.eval(x.value, frame)
                conv = {115: 's', 114: 'r', 97: 'a'}.get(x.conversion, 's')
                if x.format_spec is not None:
                    spec = self.eval(x.format_spec, frame)
                    conv = 'f:' + (str(spec.v) if isinstance(spec, Const) else '?')
                    if conv == 'f:':
                        conv = 's'
                parts.append(self.models.text(self, v, conv, x))
        return self.models.concat(self, parts)

    def ex_FormattedValue(self, e, frame):
        return self.models.text(self, self.eval(e.value, frame), 's', e)

    def ex_Starred(self, e, frame):
        return App('star', self.eval(e.value, frame))

    def ex_ListComp(self, e, frame):
        return self.comp(e, frame, 'list')

    def ex_SetComp(self, e, frame):
        return self.comp(e, frame, 'set')

    def ex_GeneratorExp(self, e, frame):
        return self.comp(e, frame, 'gen')

    def ex_DictComp(self, e, frame):
        return self.comp(e, frame, 'dict')

    def comp(self, e, frame, kind):
        fr = self.o(frame)
        cf = self.new(FrameObj(frame, fr.module, fr.name))
        first = None
        if kind == 'gen' and len(e.generators) == 1:
            src, first = self.gen_source(self.eval(e.generators[0].iter, frame), e.generators[0].iter)
            if src is not None:
                return self.new(GenObj(src, ('gen', e, cf)))
        out = self.new({'list': ListObj, 'gen': ListObj, 'set': SetObj, 'dict': DictObj}[kind]())

        def go(i):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.eval(e.key, cf)
                    v = self.eval(e.value, cf)
                    self.m(out).segs += (One(tup(k, v)),)
                else:
                    self.m(out).segs += (One(self.eval(e.elt, cf)),)
                return
            g = e.generators[i]
            if first is not None:
                segs = first
            else:
                it = self.eval(g.iter, frame if i == 0 else cf)
                segs = it if self.lazy(it) else self.iter_segs(it, g.iter)

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.branch(self.eval(c, cf)):
                        return
                go(i + 1)
            self.run_segs(segs, body, g.iter, cf.id)
        go(0)
        if kind == 'gen':
            return self.new(IterObj(self.o(out).segs))
        if kind == 'dict':
            self.m(out).segs = self.models.merge_pairs(self, self.o(out).segs)
        return out

    def ex_Await(self, e, frame):
        raise Undecided('await')

    def ex_Yield(self, e, frame):
        v = NONE if e.value is None else self.eval(e.value, frame)
        y = self.o(frame).vars.get('$yield')
        if y is None:
            raise Undecided('yield')
        self.m(y).segs += (One(v),)
        return NONE

    def ex_YieldFrom(self, e, frame):
        v = self.eval(e.value, frame)
        y = self.o(frame).vars.get('$yield')
        self.m(y).segs += tuple(self.iter_segs(v, e))
        return NONE

    def ex_Call(self, e, frame):
        f = self.eval(e.func, frame)
        args, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.eval(a.value, frame)
                args.extend(self.star_args(sv, a))
            else:
                args.append(self.eval(a, frame))
        for k in e.keywords:
            v = self.eval(k.value, frame)
            if k.arg is None:
                kw.extend(self.star_kwargs(v, e))
            else:
                kw.append((k.arg, v))
        self.stats['call_sites'].add((self.fstack[-1] if self.fstack else None, e.lineno, e.col_offset))
        return self.call(f, args, kw, e, frame)

    def star_args(self, sv, node):
        if isinstance(sv, (Sym, App)):
            ti = self.typeinfo(sv)
            if ti.exact == T['tuple'] or ti.exact is None:
                return [App('star', sv)]
        segs = self.iter_segs(sv, node)
        out = []
        pend = []
        for s in segs:
            if isinstance(s, One) and not pend:
                out.append(s.val)
            else:
                pend.append(s)
        if pend:
            out.append(App('star', self.models.simp_tuple(self, tuple(pend))))
        return out

    def star_kwargs(self, v, node):
        if isinstance(v, (Sym, App)):
            return [('**', v)]
        segs = self.models.pairs_of(self, v, node)
        out = []
        for s in segs:
            p = s.val if isinstance(s, One) else None
            if isinstance(p, Tup) and ones(p.segs) and isinstance(p.segs[0].val, Const):
                if not isinstance(p.segs[0].val.v, str):
                    self.throw('TypeError', node)
                out.append((p.segs[0].val.v, p.segs[1].val))
            else:
                out.append(('**', self.models.simp_dict(self, (s,))))
        return out

    # ---------------------------------------------------------------- functions

    def qualname(self, fr, qual, name):
        if fr.name not in ('<module>', '<scenario>'):
            name = self.qn.get((fr.module, fr.name), fr.name) + ('.' if fr.is_class else '.<locals>.') + name
        self.qn[(fr.module, qual)] = name

    def make_func(self, node, frame):
        fr = self.o(frame)
        a = node.args
        defaults = [self.eval(d, frame) for d in a.defaults]
        kwd = {k.arg: self.eval(d, frame) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = '<lambda>' if isinstance(node, ast.Lambda) else node.name
        qual = name if fr.name == '<module>' else fr.name + '.' + name
        self.qualname(fr, qual, name)
        return self.new(FuncObj(node, name, fr.module, frame, defaults, kwd, qual))

    def file_of(self, module):
        fn = self.module_file(module) if module else None
        return os.path.relpath(fn, self.repo) if fn else '<scenario>'

    def call(self, f, args, kw, node, frame=None):
        f = self.resolve(f)
        self.stats['calls'] += 1
        if isinstance(f, Ref):
            o = self.o(f)
            if isinstance(o, FuncObj):
                return self.call_func(f, o, args, kw, node)
            if isinstance(o, ClassObj):
                return self.instantiate(f, o, args, kw, node)
            if isinstance(o, PartialObj):
                kws = self.partial_kwargs(o)
                names = {k for k, _ in kw if k != '**'}
                kws = [(k, v) for k, v in kws if k == '**' or k not in names] + list(kw)
                return self.call(o.func, list(o.args) + list(args), kws, node, frame)
            if isinstance(o, InstObj):
                c = self.class_lookup(o.cls, '__call__')
                if c is not None and isinstance(c[0], Ref):
                    return self.call_method_desc(c[0], f, o.cls, args, kw, node)
                self.throw('TypeError', node)
            if isinstance(o, DescObj) and o.kind in ('staticmethod',):
                return self.call(o.func, args, kw, node, frame)
            self.throw('TypeError', node)
        if isinstance(f, App):
            if f.op == 'bound':
                return self.call(f.args[0], [f.args[1]] + list(args), kw, node, frame)
            if f.op == 'subclassesof' and not args and not kw:
                subs = [i for h in (self.base, self.state.heap) for i, x in h.items() if isinstance(x, ClassObj) and f.args[0] in x.bases]
                return self.new(ListObj(One(Ref(i)) for i in sorted(set(subs))))
            if f.op == 'bmeth':
                return self.models.method(self, f.args[0], f.args[1], args, kw, node)
            if f.op == 'sattr':
                return self.models.super_method(self, f.args[0], f.args[1], args, kw, node)
        if isinstance(f, Ext):
            if self.opaque_funcs and not self.loading:
                mod, _, name = f.path.rpartition('.')
                g = self.opaque_funcs.get((mod, name))
                if g is not None:
                    r = g(self, args, kw, node)
                    if r is not NotImplemented:
                        return r
            m = self.models.MODELS.get(f.path)
            if m is not None:
                return m(self, args, kw, node, frame)
            r = real(f)
            if r is not None and isinstance(r, type) and issubclass(r, BaseException):
                return App('exc', f, tuple(args))
            m = self.models.unbound_method(self, f, args, kw, node)
            if m is not None:
                return m
            return self.opaque_call(f, args, kw, node)
        if isinstance(f, (Const, Tup, Tmpl)):
            self.throw('TypeError', node)
        return self.opaque_call(f, args, kw, node)

    def opaque_call(self, f, args, kw, node, result=None):
        if isinstance(f, App) and f.op == 'attr':
            # method of an opaque object
            return self.models.method(self, f.args[0], f.args[1], args, kw, node)
        fargs = tuple(self.freeze_arg(a) for a in args)
        fkw = tuple((k, self.freeze_arg(v)) for k, v in kw)
        r = result if result is not None else App('call', f, fargs, fkw)
        self.ev('call', (f, tuple(args), tuple(kw), r), node)
        self.opaque_may_raise(f, r, node)
        return r

    def opaque_may_raise(self, f, r, node):
        if self.no_implicit or self.loading:
            return
        if isinstance(f, Ext):
            decl = self.models.RAISES.get(f.path)
            if decl is not None:
                for t in decl:
                    self.maybe_raise([t], App('ok', r, t), node)
                return
        x = r
        while isinstance(x, App) and x.op in ('mcall', 'call', 'mutated', 'attr'):
            x = x.args[0]
        if isinstance(x, Ext) and x.path.startswith('hashlib.'):
            return
        # an unknown callee can raise whatever a handler in this very function is written for
        if self.handlers and self.handlers[-1][1] == len(self.fstack):
            types = []
            for ts, d in reversed(self.handlers):
                if d != len(self.fstack):
                    break
                types.extend(ts)
            done = set()
            for t in types:
                t = T['Exception'] if t is None else t
                if t in done or not isinstance(t, (Ext, Ref)):
                    continue
                done.add(t)
                atom = App('ok', r, t)
                d = self.decide(atom)
                if d is True:
                    continue
                if d is None:
                    if self.choose(2) == 0:
                        self.assume(atom, True)
                        continue
                    self.assume(atom, False)
                e = RaiseEx(t, App('exc', t, (r,)), node, True)
                e.fn = self.fstack[-1] if self.fstack else None
                raise e

    def freeze_arg(self, v):
        """Argument as recorded in an opaque term: containers by structure, other objects by identity."""
        return self.freeze(v, shallow=True)

    def freeze(self, v, shallow=False, seen=()):
        """Deep structural snapshot."""
        if isinstance(v, Ref):
            if v.id in seen:
                return Frozen('cycle')
            o = self.o(v)
            s2 = seen + (v.id,)
            if isinstance(o, ListObj):
                return Frozen('list', self.freeze(o.segs, shallow, s2))
            if isinstance(o, IterObj):
                return Frozen('iter', self.freeze(o.segs, shallow, s2))
            if isinstance(o, DictObj):
                return Frozen('dict', self.freeze(o.segs, shallow, s2))
            if isinstance(o, SetObj):
                return Frozen('frozenset' if o.frozen else 'set', self.freeze(o.segs, shallow, s2))
            if isinstance(o, PartialObj) and not shallow:
                return Frozen('partial', self.freeze(o.func, shallow, s2), self.freeze(o.args, shallow, s2),
                              tuple((k, self.freeze(x, shallow, s2)) for k, x in self.partial_kwargs(o)))
            if isinstance(o, FuncObj) and o.name != '<lambda>':
                return Frozen('func', o.module, o.qual) if v.id < getattr(self, 'base_mark', 0) else v
            if isinstance(o, ClassObj):
                return Frozen('class', o.module, o.qual)
            if isinstance(o, InstObj) and not shallow:
                return Frozen('inst', self.freeze(o.cls), tuple(
                    (n, self.freeze(x, shallow, s2)) for n, x in sorted(o.attrs.items())))
            return v
        if isinstance(v, tuple):
            return tuple([self.freeze(x, shallow, seen) for x in v])
        if not isinstance(v, Val) or not v._r:
            return v
        nk = tuple(self.freeze(x, shallow, seen) for x in v.k)
        if nk == v.k:
            return v
        if isinstance(v, App):
            return App(nk[0], *nk[1])
        if isinstance(v, (Tup, Tmpl)):
            return type(v)(nk[0])
        return type(v)(*nk)

    def call_func(self, ref, o, args, kw, node):
        self.tick()
        key = (o.module, o.qual)
        if key in self.opaque_funcs and not self.loading:
            self.opaque_ref = ref
            r = self.opaque_funcs[key](self, args, kw, node)
            if r is not NotImplemented:
                return r
        if o.cached and not self.loading:
            key = (tuple(args), tuple(sorted(kw, key=lambda p: p[0])))
            for a in key[0] + tuple(v for _, v in key[1]):
                if self.models.unhashable(self, a):
                    self.throw('TypeError', node)
            for k, v in o.memo:
                if k == key:
                    return v
            self.ev('cached', (ref, tuple(args), tuple(kw)), node)
            r = self.run_func(ref, o, args, kw, node)
            self.m(ref).memo += ((key, r),)
            return r
        return self.run_func(ref, o, args, kw, node)

    def run_func(self, ref, o, args, kw, node):
        active = sum(1 for q in self.fstack if len(q) > 2 and q[2] is o.node) if o.module not in prelude.MODULES else 0
        if active >= self.rec_limit + 1 or self.depth > self.MAX_DEPTH:
            return self.recursive_call(ref, o, args, kw, node)
        if active >= self.rec_limit and self.generic_recursion(args):
            return self.recursive_call(ref, o, args, kw, node)
        frame = self.new(FrameObj(o.closure, o.module, o.qual))
        self.bind(o, args, kw, frame, node)
        self.stats['functions'].add((self.file_of(o.module), o.qual))
        self.fstack.append(_FS((o.qual, self.file_of(o.module)), o.node, frame, ref))
        fr = self.m(frame)
        if o.owner is not None:
            fr.vars['$owner'] = o.owner
            if args and isinstance(o.node, (ast.FunctionDef,)):
                fr.vars['$self'] = args[0]
        self.depth += 1
        hsave = self.handlers
        try:
            if isinstance(o.node, ast.Lambda):
                return self.eval(o.node.body, frame)
            gen = is_generator(o.node)
            if gen:
                y = self.new(ListObj())
                self.m(frame).vars['$yield'] = y
            try:
                self.exec_block(o.node.body, frame)
                r = NONE
            except ReturnEx as e:
                r = e.v
            if gen:
                return self.new(IterObj(self.o(self.o(frame).vars['$yield']).segs))
            return r
        finally:
            self.depth -= 1
            self.fstack.pop()

    def generic_recursion(self, args):
        return True

    def recursive_call(self, ref, o, args, kw, node):
        """Recursion is summarised: an opaque result, and unknown additions to the collections passed."""
        fargs = tuple(self.freeze_arg(a) for a in args)
        fkw = tuple((k, self.freeze_arg(v)) for k, v in kw)
        self.rec_hit = True
        self.ev('reccall', (ref, tuple(args), tuple(kw)), node)
        ro = read_only_params(o.node)
        names = [p.arg for p in getattr(o.node.args, 'posonlyargs', []) + o.node.args.args]
        for n, a in list(zip(names + [None] * len(args), args)) + list(kw):
            if isinstance(a, Ref) and isinstance(self.o(a), (ListObj, DictObj, SetObj)) and n not in ro:
                self.m(a).segs += (Opq('rec', o.qual, a.id, fargs, fkw),)
        return App('reccall', Frozen('func', o.module, o.qual), fargs, fkw)

    def bind(self, o, args, kw, frame, node):
        a = o.node.args
        vars_ = {}
        params = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        nd = len(o.defaults)
        args = list(args)
        i = 0
        extra = []
        star = None
        while args:
            x = args.pop(0)
            if isinstance(x, App) and x.op == 'star':
                star = x.args[0]
                if args:
                    if a.vararg is not None and i >= len(params):
                        extra.append(x)
                        continue
                    raise Undecided('positional after unknown star')
                break
            if i < len(params):
                vars_[params[i]] = x
                i += 1
            else:
                extra.append(x)
        if extra and a.vararg is None:
            self.throw('TypeError', node)
        star_left = star
        kws = {}
        dstars = []
        for k, v in kw:
            if k == '**':
                dstars.append(v)
            elif k in kws:
                self.throw('TypeError', node)
            else:
                kws[k] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        for k in list(kws):
            if k in params:
                if k in vars_:
                    self.throw('TypeError', node)
                vars_[k] = kws.pop(k)
            elif k in kwonly:
                vars_[k] = kws.pop(k)
        if kws and a.kwarg is None:
            self.throw('TypeError', node)
        # unknown positional arguments: how many there are decides what they reach
        given = 0
        if star is not None:
            slen = self.models.m_len(self, [star], [], node, frame)
            room = len(params) - i
            while given < room and self.branch(self.models.compare(self, ast.Lt(), C(given), slen, node)):
                given += 1
            if given == room and a.vararg is None and \
                    self.branch(self.models.compare(self, ast.Lt(), C(room), slen, node)):
                self.throw('TypeError', node)
            star_left = None
            if given == room and a.vararg is not None:
                star_left = star if not room else App('slice', star, C(room), NONE)
        for j, p in enumerate(params):
            dj = j - (len(params) - nd)
            if i <= j < i + given:
                if p in vars_:
                    self.throw('TypeError', node)
                vars_[p] = self.models.get_item(self, star, C(j - i), node) if isinstance(star, Tup) else \
                    App('getitem', star, C(j - i))
                continue
            if p in vars_:
                continue
            v = self._from_dstar(p, dstars, o.defaults[dj] if dj >= 0 else None)
            if v is None:
                self.throw('TypeError', node)
            vars_[p] = v
        for p in kwonly:
            if p not in vars_:
                v = self._from_dstar(p, dstars, o.kwdefaults.get(p))
                if v is None:
                    self.throw('TypeError', node)
                vars_[p] = v
        if a.vararg is not None:
            segs = []
            for x in extra:
                if isinstance(x, App) and x.op == 'star':
                    segs.extend(self.sym_segs(x.args[0]) if not isinstance(x.args[0], Tup) else x.args[0].segs)
                else:
                    segs.append(One(x))
            if star_left is not None:
                if not segs:
                    vars_[a.vararg.arg] = star_left
                else:
                    vars_[a.vararg.arg] = Tup(tuple(segs) + tuple(
                        star_left.segs if isinstance(star_left, Tup) else self.sym_segs(star_left)))
            else:
                vars_[a.vararg.arg] = Tup(segs)
        if a.kwarg is not None:
            segs = [One(tup(C(k), v)) for k, v in kws.items()]
            for d in dstars:
                segs = list(self.models.pairs_of(self, d, node)) + segs
            vars_[a.kwarg.arg] = self.new(DictObj(segs))
        self.m(frame).vars.update(vars_)

    def _from_dstar(self, p, dstars, default):
        for d in dstars:
            if isinstance(d, Frozen) and d.k[0] == 'dict':
                continue
            atom = App('in', C(p), d)
            if self.branch(atom):
                return App('getitem', d, C(p))
        return default

    # ---------------------------------------------------------------- classes

    def instantiate(self, ref, o, args, kw, node):
        if self.issub(ref, Ext('builtins.BaseException')):
            inst = InstObj(ref)
            r = self.new(inst)
            self.m(r).attrs['args'] = Tup(One(a) for a in args if not (isinstance(a, App) and a.op == 'star'))
            init = self.class_lookup(ref, '__init__')
            if init is not None and self.isobj(init[0], FuncObj):
                self.call_func(init[0], self.o(init[0]), [r] + list(args), kw, node)
            return r
        new = self.class_lookup(ref, '__new__')
        if new is not None and isinstance(new[0], Ref):
            f = new[0]
            if isinstance(self.o(f), DescObj):
                f = self.o(f).func
            r = self.call(f, [ref] + list(args), kw, node)
            if not (self.isobj(r, InstObj) and self.o(r).cls == ref):
                return r
        else:
            r = self.new_instance(ref)
            if self.o(r).payload is None and T['tuple'] in o.mro and len(args) < 2 and not (
                    args and isinstance(args[0], App) and args[0].op == 'star'):
                self.m(r).payload = self.models.m_tuple(self, list(args), [], node, None)
        init = self.class_lookup(ref, '__init__')
        if init is not None and isinstance(init[0], Ref):
            self.call_method_desc(init[0], r, ref, args, kw, node)
        else:
            pay = self.o(r).payload
            if pay is not None:
                self.models.builtin_init(self, pay, args, kw, node)
            elif not any(isinstance(c, Ext) and c != T['object'] for c in o.mro):
                if args or kw:
                    self.throw('TypeError', node)
        return r

    def partial_kwargs(self, o):
        """The keyword arguments of a partial, as its dictionary of keywords tells if somebody has it."""
        if o.kwdict is None:
            return list(o.kwargs)
        segs = self.o(o.kwdict).segs
        if all(isinstance(s, One) and isinstance(s.val, Tup) and isinstance(self.models.pair_get(self, s.val, 0), Const) for s in segs):
            return [(self.models.pair_get(self, s.val, 0).v, self.models.pair_get(self, s.val, 1)) for s in segs]
        return [('**', o.kwdict)]

    def new_instance(self, ref):
        inst = InstObj(ref)
        r = self.new(inst)
        for c in self.o(ref).mro:
            rc = real(c) if isinstance(c, Ext) else None
            if rc is not None and issubclass(rc, dict):
                self.m(r).payload = self.new(DictObj((), c))
                break
            if rc is not None and issubclass(rc, list):
                self.m(r).payload = self.new(ListObj())
                break
            if rc is not None and issubclass(rc, (set, frozenset)):
                self.m(r).payload = self.new(SetObj((), issubclass(rc, frozenset)))
                break
        return r

    def class_lookup(self, cls, name, start=None):
        """(value, defining class) along the mro, or None."""
        if not isinstance(cls, Ref):
            return None
        mro = self.o(cls).mro
        if start is not None:
            mro = mro[list(mro).index(start) + 1:] if start in mro else mro
        for c in mro:
            if isinstance(c, Ref):
                v = self.o(c).attrs.get(name)
                if v is not None:
                    return v, c
            elif isinstance(c, Ext) and c != T['object']:
                r = real(c)
                if r is None:
                    if name.startswith('__') and name.endswith('__'):
                        continue
                    return App('attr', c, name), c
                if hasattr(r, name) and not hasattr(object, name):
                    return App('attr', c, name), c
        return None

    def call_method_desc(self, f, self_v, cls, args, kw, node):
        """Calls class attribute f as a method of self_v."""
        if isinstance(f, Ref):
            o = self.o(f)
            if isinstance(o, DescObj):
                if o.kind == 'staticmethod':
                    return self.call(o.func, args, kw, node)
                if o.kind == 'classmethod':
                    return self.call(o.func, [cls] + list(args), kw, node)
                return self.call(self.call(o.func, [self_v], [], node), args, kw, node)
            if isinstance(o, FuncObj):
                return self.call(f, [self_v] + list(args), kw, node)
            if isinstance(o, InstObj):
                return self.call(self.bind_attr(f, self_v, cls, node), args, kw, node)
        return self.call(f, args, kw, node)

    def bind_attr(self, f, self_v, cls, node):
        """Descriptor protocol for class attribute f read through self_v (None: read on the class)."""
        if isinstance(f, Ref):
            o = self.o(f)
            if isinstance(o, DescObj):
                if o.kind == 'staticmethod':
                    return o.func
                if o.kind == 'classmethod':
                    return App('bound', o.func, cls)
                if o.kind == 'property':
                    if self_v is None:
                        return f
                    return self.call(o.func, [self_v], [], node)
            if isinstance(o, FuncObj) and self_v is not None:
                return App('bound', f, self_v)
            if isinstance(o, InstObj):
                g = self.class_lookup(o.cls, '__get__')
                if g is not None and isinstance(g[0], Ref):
                    return self.call_method_desc(g[0], f, o.cls, [NONE if self_v is None else self_v, NONE if cls is None else cls], [], node)
        return f

    # ---------------------------------------------------------------- attributes and items

    def ext_attr(self, v, name):
        if v.path in prelude.MODULES:
            x = self.o(self.prelude(v.path)).vars.get(name)
            if x is not None and name != 'partial':
                return x
        return self.models.EXT_ALIAS.get(v.path + '.' + name) or Ext(v.path + '.' + name)

    def getattr(self, v, name, node, default=None):
        return self.models.get_attr(self, self.resolve(v), name, node, default)

    def setattr(self, v, name, x, node):
        v = self.resolve(v)
        if isinstance(v, Ref):
            o = self.o(v)
            if isinstance(o, InstObj):
                f = self.class_lookup(o.cls, name)
                if f is not None and self.isobj(f[0], DescObj) and self.o(f[0]).kind == 'property':
                    setter = self.o(f[0]).attrs.get('setter')
                    if setter is not None:
                        self.call(setter, [v, x], [], node)
                        return
                    self.throw('AttributeError', node)
                g = self.class_lookup(o.cls, '__setattr__')
                if g is not None and isinstance(g[0], Ref):
                    self.call_method_desc(g[0], v, o.cls, [C(name), x], [], node)
                    return
                if self.models.no_dict(self, o.cls) and name not in self.models.class_slots(self, o.cls):
                    self.throw('AttributeError', node)
            if isinstance(o, ModObj):
                self.ev('w', (v, 'attr', C(name), x), node)
                self.m(o.frame).vars[name] = x
                return
            if o.attrs is None:
                self.throw('AttributeError', node)
            self.ev('w', (v, 'attr', C(name), x), node)
            if isinstance(o, FuncObj) and name in ('__defaults__', '__code__', '__kwdefaults__', '__globals__', '__closure__'):
                x = self.resolve(x)
                if name != '__defaults__' or x != NONE and not (isinstance(x, Tup) and all(isinstance(s, One) for s in x.segs)):
                    raise Undecided('assignment to %s of a function' % name)
                self.m(v).defaults = () if x == NONE else tuple(s.val for s in x.segs)
                return
            if isinstance(o, (InstObj, FuncObj)) and name == '__dict__':
                x = self.resolve(x)
                if not self.isobj(x, DictObj) or not all(isinstance(s, One) and isinstance(self.models.pair_get(self, s.val, 0), Const) for s in self.o(x).segs):
                    raise Undecided('assignment to __dict__')
                self.m(v).attrs = {self.models.pair_get(self, s.val, 0).v: self.models.pair_get(self, s.val, 1) for s in self.o(x).segs}
                return
            if isinstance(o, InstObj) and name == '__class__':
                if not self.isobj(x, ClassObj) or o.payload is not None:
                    raise Undecided('assignment to __class__')
                self.m(v).cls = self.resolve(x)
                return
            self.m(v).attrs[name] = x
            return
        if isinstance(v, App) and v.op == 'bound':
            self.throw('AttributeError', node)
        t = self.typeinfo(v).exact
        t = real(t) if t is not None else None
        if isinstance(v, (Const, Tup)) or t is not None and not t.__dictoffset__ and not hasattr(t, name):
            self.throw('AttributeError', node)
        self.ev('w', (v, 'attr', C(name), x), node)
        self.maybe_raise(['AttributeError'], App('settable', v, name), node)
        self.state.symattr[(v, name)] = x

    def getitem(self, v, k, node):
        return self.models.get_item(self, self.resolve(v), self.resolve(k), node)

    def setitem(self, v, k, x, node):
        self.models.set_item(self, self.resolve(v), self.resolve(k), x, node)

    def delitem(self, v, k, node):
        self.models.del_item(self, self.resolve(v), self.resolve(k), node)

    # ---------------------------------------------------------------- scenarios

    def run(self, src, env=None, setup=None, budget=60000):
        """All partitions of a driver program (text) with the given symbols bound."""
        tree = ast.parse(src)
        self.scenario_mark = self.next_id
        self.budget = budget

        def thunk():
            self.bcount = 100000
            frame = self.new(FrameObj(None, '$scenario', '<scenario>'))
            self.m(frame).vars.update(env or {})
            if setup is not None:
                setup(self)
            self.fstack = [_FS(('<scenario>', '<scenario>'), None)]
            self.exec_block(tree.body, frame)
            return frame
        return self.explore(thunk)


def is_priorkey(x, loopid):
    return isinstance(x, Opq) and x.k[0] == 'priorkey' and x.k[1] == loopid


DUNDERS = {'__call__', '__len__', '__iter__', '__getitem__', '__contains__', '__func__', '__self__', '__closure__',
           '__code__', '__slots__', '__defaults__', '__name__'}


def instance_has(r, n):
    """Instances of the class have the attribute because of the class."""
    return any(n in k.__dict__ for k in r.__mro__)


class _FS(tuple):
    """Function stack entry (qual, file), with the node."""

    def __new__(cls, t, node, frame=None, func=None):
        s = tuple.__new__(cls, t)
        s.node = node
        s.frame = frame
        s.func = func
        return s

    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i == 2:
            return self.node
        return tuple.__getitem__(self, i)

    def __iter__(self):
        return iter((tuple.__getitem__(self, 0), tuple.__getitem__(self, 1)))


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _path_of(c):
    m = c.__module__
    return '%s.%s' % (m, c.__qualname__)


# --- guards

def merge_alts(alts):
    """Joins alternatives with the same content; drops literals that do not matter."""
    groups = []
    for g, segs in alts:
        for gr in groups:
            if gr[0] == segs:
                gr[1].append(g)
                break
        else:
            groups.append((segs, [g]))
    out = []
    for segs, gs in groups:
        for g in simplify_dnf(gs):
            out.append((g, segs))
    return out


def simplify_dnf(gs):
    gs = [frozenset(g) for g in gs]
    changed = True
    while changed:
        changed = False
        for i in range(len(gs)):
            for j in range(i + 1, len(gs)):
                a, b = gs[i], gs[j]
                if a <= b:
                    del gs[j]
                    changed = True
                    break
                if b <= a:
                    del gs[i]
                    changed = True
                    break
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1:
                    (x, p), (y, q) = list(d1)[0], list(d2)[0]
                    if x == y and p != q:
                        gs[i] = a & b
                        del gs[j]
                        changed = True
                        break
                # absorption of the complement: a & x | b with b <= a | !x  ->  handled for single literals
                if len(d1) == 1 and len(d2) > 1:
                    (x, p), = d1
                    if (x, not p) in b and (a - d1) <= b:
                        gs[j] = b - {(x, not p)}
                        changed = True
                        break
                if len(d2) == 1 and len(d1) > 1:
                    (x, p), = d2
                    if (x, not p) in a and (b - d2) <= a:
                        gs[i] = a - {(x, not p)}
                        changed = True
                        break
            if changed:
                break
    return [tuple(sorted(g, key=repr)) for g in gs]


def alts_equiv_true(guards):
    gs = simplify_dnf(guards)
    return any(len(g) == 0 for g in gs)


def known_rows(s):
    """What a loop over a few given elements yields, in the order of the elements; None when it depends on guards."""
    if not (isinstance(s, Each) and isinstance(s.src, Frozen) and s.src.k[0] == 'seq' and
            all(isinstance(q, One) for q in s.src.k[1])):
        return None
    out, at = [], 0
    for g, sg in s.alts:
        if len(g) != 1 or not g[0][1] or not isinstance(g[0][0], App) or g[0][0].op != 'segat':
            return None
        i = g[0][0].args[1]
        if (i.v if isinstance(i, Const) else i) != at or not all(isinstance(q, One) for q in sg):
            return None
        at += 1
        out.extend(sg)
    return out if at == len(s.src.k[1]) else None


PURE_CALLS = {'isinstance', 'len', 'sorted', 'enumerate', 'list', 'tuple', 'set', 'dict', 'hasattr', 'type', 'str',
              'repr', 'id', 'bool', 'any', 'all', 'zip', 'frozenset', 'reversed', 'callable', 'min', 'max', 'sum', 'map'}
READ_METHODS = {'items', 'keys', 'values', 'get', 'copy', 'index', 'count', 'startswith', 'endswith', 'join', 'format'}
_RO = {}


def read_only_params(node):
    """The parameters a function only reads: never stored, aliased, mutated or handed to unknown code."""
    if node in _RO:
        return _RO[node]
    params = {p.arg for p in getattr(node.args, 'posonlyargs', []) + node.args.args}
    parents = {}
    for x in ast.walk(node):
        for c in ast.iter_child_nodes(x):
            parents[c] = x
    bad = set()
    for x in ast.walk(node):
        if not (isinstance(x, ast.Name) and x.id in params):
            continue
        if not isinstance(x.ctx, ast.Load):
            bad.add(x.id)
            continue
        p = parents[x]
        if isinstance(p, ast.Call) and x in p.args and isinstance(p.func, ast.Name) and p.func.id in PURE_CALLS:
            if p.func.id == 'map' and x is p.args[0]:
                bad.add(x.id)
        elif isinstance(p, ast.Attribute):
            g = parents.get(p)
            if not isinstance(p.ctx, ast.Load):
                bad.add(x.id)
            elif isinstance(g, ast.Call) and g.func is p and p.attr not in READ_METHODS:
                bad.add(x.id)
        elif isinstance(p, (ast.Compare, ast.BoolOp, ast.For, ast.comprehension)):
            if isinstance(p, ast.BoolOp):
                bad.add(x.id)
        elif isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Load):
            pass
        else:
            bad.add(x.id)
    _RO[node] = params - bad
    return _RO[node]
