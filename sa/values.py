"""Abstract values of the analysis.

The domain is a Herbrand (value numbering) domain with provenance: a value is either a known
constant, an opaque caller owned symbol, an uninterpreted application over other values, a text
template, or a reference to an object allocated by the analysed code.  Collections are described
by *segments* (one known element / one generic element per element of a source / a permutation of
other segments / unknown content), so a loop over a collection of any size is a single summary.
"""


def has_ref(x):
    for y in x:
        if isinstance(y, Val):
            if y._r:
                return True
        elif isinstance(y, tuple) and has_ref(y):
            return True
    return False


class Val(object):
    __slots__ = ('k', '_h', '_r')

    def __init__(self, *k):
        self.k = k
        self._r = has_ref(k)     # whether there is a reference to an object inside
        self._h = hash((type(self).__name__,) + k)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return type(self) is type(other) and self._h == other._h and self.k == other.k

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return show(self)


class Const(Val):
    """A known immutable scalar (None, bool, number, str, bytes, Ellipsis)."""
    __slots__ = ()

    def __init__(self, v):
        Val.__init__(self, type(v).__name__, repr(v) if isinstance(v, float) else v)

    @property
    def v(self):
        return float(self.k[1]) if self.k[0] == 'float' else self.k[1]


class Sym(Val):
    """An opaque value owned by the caller of the analysed code."""
    __slots__ = ()

    @property
    def name(self):
        return self.k[0]


class Bnd(Val):
    """The generic index bound by a summarised loop."""
    __slots__ = ()


class Ext(Val):
    """Something that lives outside the analysed repository, by canonical dotted path."""
    __slots__ = ()

    @property
    def path(self):
        return self.k[0]


class App(Val):
    """Uninterpreted application."""
    __slots__ = ()

    def __init__(self, op, *args):
        Val.__init__(self, op, args)

    @property
    def op(self):
        return self.k[0]

    @property
    def args(self):
        return self.k[1]


class Ref(Val):
    """Reference to a heap object."""
    __slots__ = ()

    def __init__(self, i):
        Val.__init__(self, i)
        self._r = True

    @property
    def id(self):
        return self.k[0]


class Tup(Val):
    """A tuple; the only field is a tuple of segments."""
    __slots__ = ()

    def __init__(self, segs):
        Val.__init__(self, tuple(segs))

    @property
    def segs(self):
        return self.k[0]


class Frozen(Val):
    """Structural snapshot of a heap object: (kind, payload...)."""
    __slots__ = ()


class Tmpl(Val):
    """Text: a tuple of str | Hole | Join."""
    __slots__ = ()

    def __init__(self, parts):
        Val.__init__(self, tuple(parts))

    @property
    def parts(self):
        return self.k[0]


class Hole(Val):
    """A piece of text obtained from a value ('s': str(), 'r': repr(), else a format spec)."""
    __slots__ = ()

    def __init__(self, val, conv='s'):
        Val.__init__(self, val, conv)

    @property
    def val(self):
        return self.k[0]

    @property
    def conv(self):
        return self.k[1]


class Join(Val):
    __slots__ = ()

    def __init__(self, sep, segs):
        Val.__init__(self, sep, tuple(segs))

    @property
    def sep(self):
        return self.k[0]

    @property
    def segs(self):
        return self.k[1]


# --- segments

class One(Val):
    __slots__ = ()

    @property
    def val(self):
        return self.k[0]


class Each(Val):
    """For each element of src (generic index b): the first matching alternative's segments.

    alts: tuple of (guard, segs); a guard is a tuple of (atom, polarity).
    """
    __slots__ = ()

    def __init__(self, b, src, alts):
        Val.__init__(self, b, src, tuple(alts))

    @property
    def b(self):
        return self.k[0]

    @property
    def src(self):
        return self.k[1]

    @property
    def alts(self):
        return self.k[2]


class Perm(Val):
    """A permutation of segs; how: ('sorted', key value, reverse) | ('unordered',) | ('reversed',)."""
    __slots__ = ()

    def __init__(self, how, segs):
        Val.__init__(self, how, tuple(segs))

    @property
    def how(self):
        return self.k[0]

    @property
    def segs(self):
        return self.k[1]


class Opq(Val):
    """Unknown content."""
    __slots__ = ()


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def C(v):
    return Const(v)


def tup(*vals):
    return Tup(tuple(One(v) for v in vals))


def is_const(v, *types):
    return isinstance(v, Const) and (not types or isinstance(v.v, types))


def ones(segs):
    """List of values if every segment is a known element, else None."""
    if all(isinstance(s, One) for s in segs):
        return [s.val for s in segs]
    return None


# --- traversals

def rebuild(x, f):
    """Bottom-up map over a value/segment/python tuple; f is applied to rebuilt Vals."""
    if isinstance(x, tuple):
        return tuple(rebuild(y, f) for y in x)
    if not isinstance(x, Val):
        return x
    if isinstance(x, (Const, Sym, Bnd, Ext, Ref)):
        return f(x)
    nk = tuple(rebuild(y, f) for y in x.k)
    if nk != x.k:
        if isinstance(x, App):
            x = App(nk[0], *nk[1])
        elif isinstance(x, (Tup, Tmpl)):
            x = type(x)(nk[0])
        else:
            x = type(x)(*nk)
    return f(x)


def subst(x, mapping):
    if not mapping:
        return x
    return rebuild(x, lambda v: mapping.get(v, v))


def walk(x):
    """All values nested in x (pre-order)."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(reversed(y))
        elif isinstance(y, Val):
            yield y
            if not isinstance(y, (Const, Sym, Bnd, Ext, Ref)):
                stack.extend(reversed(y.k))


def mentions(x, y):
    return any(v == y for v in walk(x))


def refs_in(x):
    return [v for v in walk(x) if isinstance(v, Ref)]


# --- display

def show(x, depth=0):
    if depth > 9:
        return '...'
    d = depth + 1
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show(y, d) for y in x)
    if not isinstance(x, Val):
        return repr(x)
    if isinstance(x, Const):
        return repr(x.v)
    if isinstance(x, Sym):
        return '$' + '.'.join(map(str, x.k))
    if isinstance(x, Bnd):
        return '#%s' % (x.k[0],)
    if isinstance(x, Ext):
        return x.path[9:] if x.path.startswith('builtins.') else x.path
    if isinstance(x, Ref):
        return '&%s' % x.id
    if isinstance(x, Tup):
        return 'T(%s)' % ', '.join(show(s, d) for s in x.segs)
    if isinstance(x, Tmpl):
        return '`%s`' % ''.join(p if isinstance(p, str) else show(p, d) for p in x.parts)
    if isinstance(x, Hole):
        return '{%s%s}' % (show(x.val, d), '' if x.conv == 's' else '!' + str(x.conv))
    if isinstance(x, Join):
        return '{%s.join(%s)}' % (show(x.sep, d), ' ++ '.join(show(s, d) for s in x.segs))
    if isinstance(x, One):
        return show(x.val, d)
    if isinstance(x, Each):
        return 'each(#%s in %s: %s)' % (x.b, show(x.src, d), ' | '.join(
            '%s=> %s' % (' & '.join(('' if p else '!') + show(a, d) for a, p in g) + ' ' if g else '',
                         ', '.join(show(s, d) for s in segs)) for g, segs in x.alts))
    if isinstance(x, Perm):
        return 'perm[%s](%s)' % (', '.join(show(h, d) for h in x.how), ', '.join(show(s, d) for s in x.segs))
    if isinstance(x, App):
        if x.op == 'at':
            return '%s[%s]' % (show(x.args[0], d), show(x.args[1], d))
        if x.op == 'attr':
            return '%s.%s' % (show(x.args[0], d), x.args[1])
        return '%s(%s)' % (x.op, ', '.join(show(a, d) for a in x.args))
    return '%s(%s)' % (type(x).__name__, ', '.join(show(a, d) for a in x.k))
