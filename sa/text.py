"""Regular languages over a finite representative alphabet, and matching of terminals over texts
of which only the layout is known: literal pieces and pieces drawn from a regular language.
"""
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:       # pragma: no cover
    import sre_parse
    import sre_constants as sc

# every character the languages at hand can tell apart: all of ASCII and one per wider class
WIDE = 'é٣\u2003€'      # letter, digit, space, none of them
ALPHABET = [chr(i) for i in range(128)] + list(WIDE)
ALL = frozenset(ALPHABET)


class Unsupported(Exception):
    pass


def rep(ch):
    """The representative of a character."""
    if ch in ALL:
        return ch
    return WIDE[1] if ch.isdecimal() else WIDE[2] if ch.isspace() else WIDE[0] if ch.isalnum() else WIDE[3]


def category(c):
    n = str(c).rsplit('_', 1)[-1].lower()
    neg = 'NOT' in str(c)
    f = {'digit': lambda x: x.isdecimal(), 'space': lambda x: x.isspace(), 'word': lambda x: x.isalnum() or x == '_'}.get(n)
    if f is None:
        raise Unsupported('regular expression category %s' % c)
    return frozenset(x for x in ALPHABET if f(x) != neg)


def bothcases(cs, fold):
    return cs | frozenset(y for x in cs if x in ALPHABET for y in (x.lower(), x.upper()) if y in ALPHABET) if fold else cs


def charset(op, av, fold=False):
    if op is sc.LITERAL:
        return bothcases(frozenset([rep(chr(av))]), fold)
    if op is sc.NOT_LITERAL:
        return ALL - bothcases(frozenset([rep(chr(av))]), fold) if av < 128 else ALL
    if op is sc.ANY:
        return ALL - frozenset('\n')
    if op is sc.IN:
        out, neg = frozenset(), False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out |= frozenset([rep(chr(a))])
            elif o is sc.RANGE:
                lo, hi = a
                if hi > 127 and (lo > 128 or hi < 0x2fff):
                    raise Unsupported('regular expression range')
                out |= frozenset(x for x in ALPHABET if lo <= ord(x) <= hi)
            elif o is sc.CATEGORY:
                out |= category(a)
            else:
                raise Unsupported('regular expression set %s' % o)
        out = bothcases(out, fold)
        return ALL - out if neg else out
    return None


class Prog(object):
    """A program with priorities, as a backtracking matcher would try it."""

    def __init__(self, pattern, dotall=False, fold=False):
        self.code = []
        self.dotall = dotall
        self.fold = fold
        try:
            tree = sre_parse.parse(pattern)
        except Exception as e:
            raise Unsupported('regular expression %r: %s' % (pattern, e))
        self.seq(tree)
        self.code.append(('match',))
        self.start = self.close([0])

    def emit(self, *i):
        self.code.append(i)
        return len(self.code) - 1

    def seq(self, tree):
        for op, av in tree:
            self.item(op, av)

    def item(self, op, av):
        cs = charset(op, av, self.fold)
        if op is sc.ANY and self.dotall:
            cs = ALL
        if cs is not None:
            self.emit('char', cs)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('regular expression flags')
            self.seq(av[3])
        elif op is sc.BRANCH:
            ends = []
            for i, alt in enumerate(av[1]):
                if i < len(av[1]) - 1:
                    s = self.emit('split', None, None)
                    self.seq(alt)
                    ends.append(self.emit('jmp', None))
                    self.code[s] = ('split', s + 1, len(self.code))
                else:
                    self.seq(alt)
            for e in ends:
                self.code[e] = ('jmp', len(self.code))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 50 or (hi is not sc.MAXREPEAT and hi > 50):
                raise Unsupported('regular expression repetition')
            first = (lambda a, b: ('split', a, b)) if op is sc.MAX_REPEAT else (lambda a, b: ('split', b, a))
            for _ in range(lo):
                self.seq(sub)
            if hi is sc.MAXREPEAT:
                s = self.emit('split', None, None)
                self.seq(sub)
                self.emit('jmp', s)
                self.code[s] = first(s + 1, len(self.code))
            else:
                ss = []
                for _ in range(hi - lo):
                    ss.append(self.emit('split', None, None))
                    self.seq(sub)
                for s in ss:
                    self.code[s] = first(s + 1, len(self.code))
        else:
            raise Unsupported('regular expression construct %s' % op)

    def close(self, pcs):
        """Threads in priority order; those after a match are cut."""
        out, seen = [], set()

        def add(pc):
            if pc in seen:
                return True
            seen.add(pc)
            i = self.code[pc]
            if i[0] == 'jmp':
                return add(i[1])
            if i[0] == 'split':
                return add(i[1]) and add(i[2])
            out.append(pc)
            return i[0] != 'match'
        for pc in pcs:
            if not add(pc):
                break
        return tuple(out)

    def step(self, threads, ch):
        return self.close([pc + 1 for pc in threads if self.code[pc][0] == 'char' and ch in self.code[pc][1]])

    def matched(self, threads):
        return bool(threads) and self.code[threads[-1]][0] == 'match'

    def alive(self, threads):
        return any(self.code[pc][0] == 'char' for pc in threads)


class Lang(object):
    """A deterministic automaton; state 0 is never entered again. No dead states."""

    def __init__(self, trans, accept):
        n = len(trans)
        back = [set() for _ in range(n)]
        for s, t in enumerate(trans):
            for q in t.values():
                back[q].add(s)
        live, todo = set(accept), list(accept)
        while todo:
            for p in back[todo.pop()]:
                if p not in live:
                    live.add(p)
                    todo.append(p)
        self.trans = [{c: q for c, q in t.items() if q in live} if s in live else {} for s, t in enumerate(trans)]
        self.accept = frozenset(accept)

    @staticmethod
    def build(start, step, accepting):
        """From a step function over hashable states (None is dead)."""
        index, trans, accept, todo = {('entry', start): 0}, [None], set(), [(0, start)]
        if accepting(start):
            accept.add(0)
        while todo:
            i, s = todo.pop()
            t = {}
            for c in ALPHABET:
                q = step(s, c)
                if q is None:
                    continue
                if q not in index:
                    index[q] = len(trans)
                    trans.append(None)
                    todo.append((index[q], q))
                    if accepting(q):
                        accept.add(index[q])
                    if len(trans) > 3000:
                        raise Unsupported('language too large')
                t[c] = index[q]
            trans[i] = t
        return Lang(trans, accept)

    @staticmethod
    def of(pattern):
        # longest match semantics: all threads are kept
        p = Prog(pattern, dotall=True)

        def allstates(pcs):
            out, seen, todo = set(), set(), list(pcs)
            while todo:
                pc = todo.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                i = p.code[pc]
                if i[0] in ('jmp', 'split'):
                    todo.extend(i[1:])
                else:
                    out.add(pc)
            return frozenset(out)

        def step(s, c):
            q = allstates([pc + 1 for pc in s if p.code[pc][0] == 'char' and c in p.code[pc][1]])
            return q or None
        return Lang.build(allstates([0]), step, lambda s: any(p.code[pc][0] == 'match' for pc in s))

    def without(self, words):
        """The language but for some words (of plain ASCII)."""
        words = [w for w in words]

        def step(s, c):
            q, left = s
            if c not in self.trans[q]:
                return None
            return self.trans[q][c], tuple(w[1:] for w in left if w and w[0] == c)
        return Lang.build((0, tuple(words)), step, lambda s: s[0] in self.accept and '' not in s[1])

    def replaced(self, old, new):
        """The image of the language when a character is replaced by a text."""
        if len(old) != 1 or old not in ALL or any(c not in ALL for c in new):
            raise Unsupported('replacement')
        if not new:
            raise Unsupported('removal')

        def step(s, c):
            out = set()
            for q, rest in s:
                if rest:
                    if rest[0] == c:
                        out.add((q, rest[1:]))
                    continue
                for d, t in self.trans[q].items():
                    if d == old:
                        if new[0] == c:
                            out.add((t, new[1:]))
                    elif d == c:
                        out.add((t, ''))
            return frozenset(out) or None
        return Lang.build(frozenset([(0, '')]), step, lambda s: any(q in self.accept and not r for q, r in s))

    def chars(self):
        seen, todo, out = {0}, [0], set()
        while todo:
            for c, q in self.trans[todo.pop()].items():
                out.add(c)
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
        return out

    def words(self, limit=3):
        """Some words, shortest first."""
        out, todo = [], [(0, '')]
        while todo and len(out) < limit:
            nxt = []
            for q, w in todo:
                if q in self.accept:
                    out.append(w)
                for c, t in sorted(self.trans[q].items()):
                    nxt.append((t, w + c))
            todo = nxt[:400]
        return out[:limit]


IDENT = r'[A-Za-z_][A-Za-z0-9_]*'
INT = r'-?(0|[1-9][0-9]*)'
FLOAT = r'-?([0-9]+\.[0-9]+(e[+-][0-9][0-9]+)?|[1-9]e[+-][0-9][0-9]+)'


class Text(object):
    """pieces: literal str, or (Lang, payload). Positions are sets of points (piece, state or offset)."""

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p != '']

    def norm(self, i, s):
        """Points at the end of a literal are the start of the next piece."""
        while i < len(self.pieces) and isinstance(self.pieces[i], str) and s == len(self.pieces[i]):
            i, s = i + 1, 0
        return i, s

    def origin(self):
        return frozenset([self.norm(0, 0)])

    def over(self, p):
        """The point and those at the same place where the piece has ended."""
        out = [p]
        i, s = p
        if i < len(self.pieces) and not isinstance(self.pieces[i], str) and s in self.pieces[i][0].accept:
            out += self.over(self.norm(i + 1, 0))
        return out

    def next(self, p):
        """(character, point) for each character that may come, None at the end."""
        i, s = p
        if i >= len(self.pieces):
            return None
        x = self.pieces[i]
        if isinstance(x, str):
            return [(rep(x[s]), self.norm(i, s + 1))]
        return [(c, (i, q)) for c, q in x[0].trans[s].items()]

    def at_end(self, pos):
        out = set()
        for p in pos:
            for q in self.over(p):
                if q[0] >= len(self.pieces):
                    out.add(True)
                elif self.next(q):
                    out.add(False)
        return out

    def match(self, prog, pos):
        """(may fail, {end points}) of matching at a position."""
        ends, fails, seen = set(), False, set()
        todo = []
        for p in pos:
            todo += [(q, prog.start, None) for q in self.over(p)]
        while todo:
            cfg = todo.pop()
            if cfg in seen:
                continue
            seen.add(cfg)
            if len(seen) > 60000:
                raise Unsupported('match too large')
            p, th, last = cfg
            here = prog.matched(th)
            if here:
                last = p
            nx = self.next(p)
            if nx is None or not prog.alive(th):
                # nothing more to read, or to match
                if nx is not None and not nx:
                    continue        # (an empty piece, left through over())
                if last is None:
                    fails = True
                else:
                    ends.add(last)
                continue
            for c, q in nx:
                t2 = prog.step(th, c)
                if not t2:
                    if last is None:
                        fails = True
                    else:
                        ends.add(last)
                    continue
                for r in self.over(q):
                    todo.append((r, t2, last))
        return fails, frozenset(ends)

    def boundary(self, pos):
        """The only point of a position if it lies between pieces or inside a literal, else None."""
        if len(pos) != 1:
            return None
        (i, s), = pos
        if i < len(self.pieces) and not isinstance(self.pieces[i], str) and s != 0:
            return None
        return i, s

    def between(self, a, b):
        """Pieces from one boundary to another, or None."""
        a, b = self.boundary(a), self.boundary(b)
        if a is None or b is None or b < a:
            return None
        out = []
        i, s = a
        while (i, s) != b:
            x = self.pieces[i]
            if isinstance(x, str):
                e = b[1] if i == b[0] else len(x)
                out.append(x[s:e])
                i, s = self.norm(i, e)
            else:
                out.append(x)
                i, s = self.norm(i + 1, 0)
            if i > b[0]:
                return None
        return out
