"""Model of the arpeggio library: grammars are read off the functions that describe them, texts of
known layout are matched against them, and the trees visited with the repository's visitors."""
from . import interp as _i
from . import models as M
from .models import model, MODELS, NONE
from .text import Prog, Lang, Text, Unsupported, IDENT, INT, FLOAT
from .types_ import T, _REAL
from .values import *
import re


class NoMatch(Exception):
    pass


_REAL['arpeggio.NoMatch'] = NoMatch
NOMATCH = Ext('arpeggio.NoMatch')

KINDS = {'StrMatch': 'str', 'Kwd': 'str', 'RegExMatch': 're', 'Optional': 'opt', 'ZeroOrMore': 'star', 'OneOrMore': 'plus',
         'Not': 'not', 'And': 'and', 'Sequence': 'seq', 'OrderedChoice': 'choice', 'EndOfFile': 'eof'}


def _maker(name, kind):
    @model('arpeggio.' + name)
    def make(I, args, kw, node, frame):
        return App('peg:' + kind, tup(*args), tuple((k, v) for k, v in kw))
    return make


for _n, _k in KINDS.items():
    _maker(_n, _k)


class Rule(object):
    def __init__(self, kind=None):
        self.kind = kind
        self.nodes = []
        self.name = ''
        self.root = False
        self.text = None
        self.cased = None
        self.sep = None

    def copy(self, o):
        self.__dict__.update(o.__dict__)

    def key(self, seen):
        if self.name and self.root:
            if id(self) in seen or self.name in seen:
                return '@' + self.name
            seen = seen
            seen.add(self.name)
        return '%s:%s:%r%s(%s)%s' % (self.kind, self.name, self.text, {True: 'i', False: 'c'}.get(self.cased, ''), ','.join(n.key(seen) for n in self.nodes),
                                   '/' + self.sep.key(seen) if self.sep else '')


PARSERS = {}
PROGS = {}


def und(why):
    raise _i.Undecided('parsing: %s' % why)


def prog(pattern, fold=False):
    key = (pattern, fold)
    if key not in PROGS:
        try:
            PROGS[key] = Prog(pattern, fold=fold)
        except Unsupported as e:
            PROGS[key] = e
    p = PROGS[key]
    if isinstance(p, Unsupported):
        und(str(p))
    return p


def is_function(I, v):
    return I.isobj(v, _i.FuncObj) or isinstance(v, Ext) and v.path == 'arpeggio.EOF'


def grammar(I, v, cache, node):
    v = I.resolve(v)
    if isinstance(v, Ext) and v.path == 'arpeggio.EOF':
        r = Rule('eof')
        r.name, r.root = 'EOF', True
        return r
    if is_function(I, v):
        name = I.o(v).name
        if name in cache:
            return cache[name]
        rule = cache[name] = Rule()
        cur = v
        while is_function(I, cur) and not isinstance(cur, Ext):
            cur = I.resolve(I.call(cur, [], [], node))
        rule.copy(grammar(I, cur, cache, node))
        rule.name, rule.root = name, True
        return rule
    if is_const(v, str):
        r = Rule('str')
        r.text = v.v
        return r
    if isinstance(v, App) and v.op.startswith('peg:') and len(v.args) == 2:
        r = Rule(v.op[4:])
        args, kw = ones(v.args[0].segs), dict(v.args[1])
        if args is None or '**' in kw:
            und('grammar of unknown length')
        if r.kind in ('str', 're'):
            if not args and 'to_match' in kw:
                args = [kw.pop('to_match')]
            ic = kw.pop('ignore_case', NONE)
            if len(args) != 1 or not is_const(args[0], str) or ic not in (TRUE, FALSE, NONE) or any(x not in (NONE, FALSE) for k, x in kw.items()
                                                                    if k != 'str_repr'):
                und('terminal with unknown text or options')
            r.text = args[0].v
            r.cased = ic.v
            return r
        if r.kind == 'eof':
            return r
        sep = kw.pop('sep', None)
        if kw:
            und('grammar expression with options')
        if sep is not None and sep != NONE:
            r.sep = grammar(I, sep, cache, node)
        e = args[0] if len(args) == 1 else tup(*args)
        if r.kind in ('seq', 'choice'):
            els = elements(I, e)
            r.nodes = [grammar(I, x, cache, node) for x in els] if els is not None else [grammar(I, e, cache, node)]
        else:
            r.nodes = [grammar(I, e, cache, node)]
        return r
    els = elements(I, v)
    if els is not None:
        r = Rule('choice' if I.isobj(v, _i.ListObj) else 'seq')
        r.nodes = [grammar(I, x, cache, node) for x in els]
        return r
    und('grammar element %s' % show(v)[:80])


def elements(I, v):
    if isinstance(v, Tup):
        return ones(v.segs)
    if I.isobj(v, _i.ListObj):
        return ones(I.o(v).segs)
    return None


OPTIONS = ('reduce_tree', 'debug', 'skipws', 'ws', 'memoization', 'autokwd', 'ignore_case')


@model('arpeggio.ParserPython')
def m_parser(I, args, kw, node, frame):
    kw = dict(kw)
    lang = args[0] if args else kw.pop('language_def', None)
    if lang is None or len(args) > 1 or any(k not in OPTIONS for k in kw):
        return I.opaque_call(Ext('arpeggio.ParserPython'), args, list(kw.items()), node)
    opts = {}
    for k, v in sorted(kw.items()):
        v = I.resolve(v)
        if k in ('debug', 'memoization'):
            continue
        if not isinstance(v, Const):
            opts[k] = 'unknown'
        elif v.v != {'skipws': True}.get(k, None if k == 'ws' else False):
            opts[k] = v.v
    root = grammar(I, lang, {}, node)
    key = '%s %r' % (root.key(set()), sorted(opts.items()))
    PARSERS[key] = (root, opts)
    return App('peg:parser', C(key), tuple((k, I.freeze_arg(v)) for k, v in sorted(kw.items())))


# --- texts

def has_language(I, v):
    return any(isinstance(a, App) and a.op == 'lang' and p and a.args[0] == v for a, p in I.state.facts.items())


def language(I, v, conv):
    """The language of the text of a value (a repr when conv is 'r')."""
    ti = I.typeinfo(v)
    given = None
    ne = []
    for a, p in I.state.facts.items():
        if isinstance(a, App) and a.op == 'lang' and p and a.args[0] == v:
            given = a.args[1].v
        elif isinstance(a, App) and a.op == 'eq' and not p and v in a.args:
            o = a.args[0] if a.args[1] == v else a.args[1]
            if is_const(o, str):
                ne.append(o.v)
    if conv not in ('s', 'r'):
        return None
    if ti.exact == T['int']:
        return Lang.of(given or INT)
    if ti.exact == T['float']:
        return Lang.of(given or FLOAT)
    if conv == 's' and ti.exact == T['str'] or isinstance(v, App) and v.op.startswith('m:'):
        if isinstance(v, App) and v.op == 'm:replace' and len(v.args) == 3 and all(is_const(x, str) for x in v.args[1:]):
            inner = language(I, v.args[0], 's')
            return inner and inner.replaced(v.args[1].v, v.args[2].v)
        if given is not None:
            lang = Lang.of(given)
            return lang.without(ne) if ne else lang
    return None


_LANGS = {}


def pieces(I, t):
    t = I.resolve(t)
    parts = t.parts if isinstance(t, Tmpl) else (t.v,) if is_const(t, str) else (Hole(t, 's'),)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        if not isinstance(p, Hole):
            return None
        try:
            lang = language(I, p.val, p.conv)
        except Unsupported as e:
            und(str(e))
        if lang is None:
            return None
        out.append((lang, p))
    return out


def starts(I, v, prefix):
    """Whether the text starts so: True, False, or None when it depends."""
    ps = pieces(I, v)
    if ps is None:
        return None
    t = Text(ps)
    fails, ends = t.match(prog(re.escape(prefix)), t.origin())
    return None if fails and ends else bool(ends)


def unpieces(I, ps):
    if ps is None:
        return None
    return M.untext(I, [p if isinstance(p, str) else p[1] for p in ps])


# --- parsing

class Fail(Exception):
    pass


class Parser(object):
    def __init__(self, I, text, opts):
        self.I = I
        self.t = text
        self.skipws = opts.get('skipws', True)
        self.ws = opts.get('ws') or '\t\n\r '
        self.reduce = opts.get('reduce_tree', False)
        self.fold = opts.get('ignore_case', False)
        self.autokwd = opts.get('autokwd', False)
        self.steps = 0
        self.splits = 0
        self.memo = {}

    def terminal(self, pattern, pos, fold=False):
        # what happens at a place of the text is known once it has happened there
        key = (pattern, fold, pos if len(pos) == 1 else id(pos))
        if key not in self.memo:
            self.memo[key] = (pos, self.terminal_(pattern, pos, fold))
        ends = self.memo[key][1]
        if ends is None:
            raise Fail()
        return ends

    def terminal_(self, pattern, pos, fold):
        try:
            fails, ends = self.t.match(prog(pattern, fold), pos)
        except Unsupported as e:
            und(str(e))
        if not ends:
            return None
        if fails:
            # both can be, for different texts
            self.splits += 1
            if self.splits > 3:
                und('too many ways to read the text')
            if self.I.choose(2) == 0:
                self.I.note_split()
                return None
            self.I.note_split()
        return ends

    def skip(self, pos):
        if not self.skipws:
            return pos
        return self.terminal('[%s]*' % re.escape(self.ws), pos)

    # each returns (nodes or None, position); nodes: list of trees, nested as arpeggio's

    def parse(self, r, pos, inside):
        self.steps += 1
        if self.steps > 20000:
            und('parse too long')
        if r.kind in ('str', 're', 'eof'):
            start = self.skip(pos)
            if r.kind == 'eof':
                ends = self.t.at_end(start)
                if ends == {True}:
                    return Tree(r, C(''), True), start
                if ends == {False}:
                    raise Fail()
                und('end of text within a piece')
            end = self.terminal(re.escape(r.text) if r.kind == 'str' else r.text, start, bool(self.fold if r.cased is None else r.cased))
            keyword = r.kind == 'str' and self.autokwd and re.fullmatch(r'[^\d\W]\w*', r.text)
            if keyword:
                try:
                    self.terminal(r'\w', end)
                except Fail:
                    pass
                else:
                    raise Fail()
            if r.kind == 'str' and not keyword:
                val = C(r.text)
            else:
                val = unpieces(self.I, self.t.between(start, end))
                if val == C(''):
                    return None, end
            return Tree(r, val, r.kind == 'str' and not keyword and inside == 'seq'), end
        res, pos = self.inner(r, pos)
        if isinstance(res, list) and res and res[0] is None:
            res = None
        if r.root and res:
            if not isinstance(res, Tree):
                res = flat(res)
            if self.reduce and isinstance(res, list) and len(res) == 1:
                res = res[0]
            elif self.reduce and isinstance(res, Tree) and res.kids is not None and len(res.kids) == 1:
                res = res.kids[0]
            if isinstance(res, list):
                res = Tree(r, None, False, res)
        return res, pos

    def inner(self, r, pos):
        k = r.kind
        if k == 'seq':
            out = []
            for e in r.nodes:
                x, pos = self.parse(e, pos, 'seq')
                if x:
                    out.append(x)
            return out or None, pos
        if k == 'choice':
            for e in r.nodes:
                try:
                    x, p = self.parse(e, pos, k)
                except Fail:
                    continue
                if x is not None:
                    return [x], p
            raise Fail()
        if k == 'opt':
            try:
                x, p = self.parse(r.nodes[0], pos, k)
                return [x], p
            except Fail:
                return None, pos
        if k in ('star', 'plus'):
            out, first = [], True
            while True:
                c = pos
                try:
                    if r.sep is not None and not first:
                        s, pos = self.parse(r.sep, pos, k)
                        if s:
                            out.append(s)
                    x, pos = self.parse(r.nodes[0], pos, k)
                    if not x:
                        break
                    out.append(x)
                    first = False
                except Fail:
                    if k == 'plus' and first:
                        raise
                    pos = c
                    break
            return out, pos
        if k in ('not', 'and'):
            try:
                self.parse(r.nodes[0], pos, k)
                ok = True
            except Fail:
                ok = False
            if ok != (k == 'and'):
                raise Fail()
            return None, pos
        und('grammar expression %s' % k)


def flat(x):
    out = []
    for y in x:
        if isinstance(y, list):
            out.extend(flat(y))
        elif y is not None:
            out.append(y)
    return out


class Tree(object):
    def __init__(self, rule, value, suppress, kids=None):
        self.name = rule.name
        self.kind = rule.kind
        self.value = value
        self.suppress = suppress
        self.kids = kids

    def val(self, I):
        """As a value of the analysis."""
        if self.kids is None:
            return App('peg:node', C(self.name), C('terminal'), C(self.suppress), self.value if self.value is not None else C('?'),
                       C(self.value is not None))
        return App('peg:node', C(self.name), C('nonterminal'), C(False), tup(*[k.val(I) for k in self.kids]), C(True))


def node_text(I, v, sep=' | '):
    name, kind, sup, val, known = v.args
    if kind == C('terminal'):
        if known != TRUE:
            und('the text of a part of a piece')
        return val
    return M.join(I, C(sep), [One(node_text(I, k, sep)) for k in ones(val.segs)], None)


def node_attr(I, v, name, node):
    if name == 'value':
        return node_text(I, v)
    if name == 'rule_name':
        return v.args[0]
    if name == 'suppress':
        return v.args[2]
    und('attribute %s of a parse tree node' % name)


def parse_method(I, obj, name, args, kw, node):
    """A method of a parser; None when not known."""
    if name != 'parse' or len(args) + len(kw) != 1:
        return None
    t = args[0] if args else kw[0][1]
    root, opts = PARSERS[obj.args[0].v]
    if isinstance(t, Const) and not isinstance(t.v, str):
        I.throw('TypeError', node)
    ps = pieces(I, t)
    if ps is None:
        und('text of unknown layout: %s' % show(t)[:1500])
    if any(v == 'unknown' for v in opts.values()):
        und('parser options')
    text = Text(ps)
    try:
        tree, _ = Parser(I, text, opts).parse(root, text.origin(), '')
    except Fail:
        e = _i.RaiseEx(NOMATCH, App('exc', NOMATCH, ()), node, True)
        e.fn = I.fstack[-1] if I.fstack else None
        raise e
    return tree.val(I) if isinstance(tree, Tree) else NONE


# --- visiting

@model('arpeggio.visit_parse_tree')
def m_visit(I, args, kw, node, frame):
    tree = M.kwget(args, kw, 0, 'parse_tree')
    visitor = M.kwget(args, kw, 1, 'visitor')
    tree = I.resolve(tree) if tree is not None else None
    if not (isinstance(tree, App) and tree.op == 'peg:node') or not I.isobj(visitor, _i.InstObj):
        return I.opaque_call(Ext('arpeggio.visit_parse_tree'), args, kw, node)
    I.ev('call', (Ext('arpeggio.visit_parse_tree'), tuple(args), tuple(kw), NONE), node)
    return visit(I, tree, visitor, node)


def defined(I, o, name):
    return name in o.attrs or any(isinstance(c, Ref) and name in I.o(c).attrs for c in I.o(o.cls).mro)


def visit(I, v, visitor, node):
    kids = []
    if v.args[1] == C('nonterminal'):
        for k in ones(v.args[3].segs):
            x = visit(I, k, visitor, node)
            if I.branch(M.is_(I, x, NONE, node)):
                continue
            kids.append(x)
    o = I.o(visitor)
    name = 'visit_' + v.args[0].v
    if defined(I, o, name):
        if defined(I, o, 'second_' + v.args[0].v):
            und('second passes of visitors')
        return I.resolve(I.call(I.getattr(visitor, name, node), [v, I.new(_i.ListObj(One(x) for x in kids))], [], node))
    if defined(I, o, 'visit__default__'):
        return I.resolve(I.call(I.getattr(visitor, 'visit__default__', node), [v, I.new(_i.ListObj(One(x) for x in kids))], [], node))
    d = o.attrs.get('defaults', TRUE)
    t = I.truth(d)
    if t is None:
        und('default actions of the visitor')
    if not t:
        return NONE
    if v.args[1] == C('terminal'):
        return NONE if v.args[2] == TRUE else node_text(I, v)
    if len(kids) == 1:
        return kids[0]
    last = NONE
    for x in kids:
        s = I.typeinfo(x).exact == T['str'] or is_const(x, str) or isinstance(x, Tmpl)
        if not s:
            if I.typeinfo(x).exact is None and not isinstance(x, Ref):
                und('kind of a visited child')
            if last == NONE:
                last = x
            else:
                return node_text(I, v)
    return last
