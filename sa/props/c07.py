"""C07: a decorated function behaves as the original, that is left as it was; its what is that of its defaults."""
from .common import *

A = 'whatami/what.py:whatable'
V = dict(x=None, y=None, z=None, u=None, xs='tuple', kws='dict', nik='set', n='str', f='bool', k1='str')
IMP = "from whatami import What, whatable, is_whatable\nfrom functools import partial\n"
FUN = IMP + '''
log = []
def fun(a, b=x, *rest, c=y, **more):
    """Documented."""
    log.append((a, b, rest, c, more))
    return [a, b, rest, c, more]
fun.mark = z
def two(a, b=x, c=y):
    """Two."""
    log.append(a)
    return [a, b, c]
def fails(a=x):
    log.append(a)
    raise KeyError(a)
def gen(a, b=x):
    yield a
    yield b
def any_(a, b=x):
    log.append(a)
    return z
'''
CASES = (('two', 'two', ['1', 'u', 'u, z', 'u, z, z', 'u, c=z', 'a=u, b=z', '*xs', '**kws', 'u, *xs', 'u, **{k1: z}']),
         ('any', 'fun', ['u', 'u, z', 'u, z, z, z', 'u, c=z, d=z', '*xs', 'u, **kws', '*xs, **kws', 'u, z, *xs, **kws', 'b=z, a=u', 'self=u, a=z',
                         'obj=u, a=z, args=u, kwargs=z']))
HOWS = (('plain', 'whatable(%s)'), ('decorator', 'whatable(non_id_keys=nik)(%s)'), ('whatfunc', 'whatable(%s, whatfunc=lambda q: What(n, {}))'),
        ('inplace', 'whatable(%s, modify_func_inplace=True)'), ('twice', 'whatable(whatable(%s))'), ('excludes', "whatable(%s, excludes=('a',))"))
for hkey, how in HOWS:
    for key, fn, calls in CASES:
        for i, c in enumerate(calls):
            if hkey not in ('plain', 'inplace') and i % 3:
                continue
            ob('C07', 'call-%s-%s-%d' % (hkey, key, i), A, FUN + "g = %s\nr1 = g(%s)\nr2 = log\n" % (how % fn, c),
               FUN + "e1 = %s(%s)\ne2 = log\n" % (fn, c), vars=V, writes_ok=True, rec=4)
    ob('C07', 'raises-' + hkey, A, FUN + "g = %s\nr = g(u)\n" % (how % 'fails'), "raise KeyError(u)\n", vars=V, writes_ok=True, rec=4)
    ob('C07', 'not-called-' + hkey, A, FUN + "g = %s\nw = g.what()\nr = log\n" % (how % 'fails'), "e = []\n", vars=V, writes_ok=True, rec=4)
    ob('C07', 'once-' + hkey, A, FUN + "g = %s\nr1 = g(u)\nr2 = log\nr3 = g(b=y, a=x)\n" % (how % 'any_'), "e1 = z\ne2 = [u, x]\ne3 = z\n", vars=V, writes_ok=True, rec=4)
    ob('C07', 'generator-' + hkey, A, FUN + "g = %s\nr = list(g(u))\n" % (how % 'gen'), "e = [u, x]\n", vars=V, writes_ok=True, rec=4)
    for fn in ('fun', 'two'):
        ob('C07', 'metadata-%s-%s' % (hkey, fn), A, FUN + """
before = sorted(q for q in vars(%s))
g = %s
r1 = g.__name__
r2 = g.__doc__
r3 = g.__module__ == %s.__module__
r4 = getattr(g, 'mark', None)
r5 = is_whatable(g)
r6 = g is %s
r7 = hasattr(%s, 'what')
r8 = sorted(q for q in vars(%s) if q != 'what') == before
r9 = %s.__name__
r10 = callable(g)
""" % (fn, how % fn, fn, fn, fn, fn, fn), "e1 = '%s'\ne2 = %r\ne3 = True\ne4 = %s\ne5 = True\ne6 = %r\ne7 = %r\ne8 = True\ne9 = '%s'\ne10 = True\n"
           % (fn, 'Documented.' if fn == 'fun' else 'Two.', 'z' if fn == 'fun' else 'None', hkey == 'inplace', hkey == 'inplace', fn),
           vars=V, writes_ok=True, rec=4)
# what it says
CONF = (('plain', 'two', 'whatable(two)', "{'b': x, 'c': y}", "'two'", "set(('what',))"),
        ('inplace', 'two', 'whatable(two, modify_func_inplace=True)', "{'b': x, 'c': y}", "'two'", "set(('what',))"),
        ('nothing', 'fails', 'whatable(lambda q: q)', "{}", None, "set(('what',))"),
        ('fails', 'fails', 'whatable(fails)', "{'a': x}", "'fails'", "set(('what',))"),
        ('declared', 'two', 'whatable(two, non_id_keys=nik)', "{'b': x, 'c': y}", "'two'", "set(('what',)) | nik"),
        ('partial', 'two', 'whatable(partial(two, c=z))', "{'b': x, 'c': z}", "'two'", "set(('what',))"),
        ('partial-given', 'two', 'whatable(partial(two, u, c=z))', "{'a': u, 'b': x, 'c': z}", "'two'", "set(('what',))"))
for key, fn, how, conf, name, ids in CONF:
    ob('C07', 'what-' + key, A, FUN + "g = %s\nw = g.what()\nr1 = w.conf\nr2 = w.name\nr3 = w.non_id_keys\nr4 = w.out_name\n" % how,
       "e1 = %s\n%se3 = %s\ne4 = None\n" % (conf, 'e2 = %s\n' % name if name else '', ids), vars=V, writes_ok=True, rec=4)
ob('C07', 'what-after-calls', A, FUN + """
g = whatable(two)
g(u, b=z)
g(u, z, z)
r1 = g.what().conf
g.what().conf['b'] = z
g.what().non_id_keys.add('b')
r2 = g.what().conf
r3 = g.what().non_id_keys
r4 = g(u)
""", "e1 = {'b': x, 'c': y}\ne2 = {'b': x, 'c': y}\ne3 = set(('what',))\ne4 = [u, x, y]\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'what-given', A, FUN + """
def wf(q):
    return What(n, {'q': q}, nik, k1)
g = whatable(two, whatfunc=wf)
w = g.what()
r1 = w.name
r2 = w.conf['q'] is g
r3 = w.out_name
r4 = is_whatable(g)
h = whatable(whatfunc=wf)(two)
r5 = h.what().conf['q'] is h
i = whatable(two, whatfunc=wf, modify_func_inplace=True)
r6 = i.what().conf['q'] is two
""", "e1 = n\ne2 = True\ne3 = k1\ne4 = True\ne5 = True\ne6 = True\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'partial', A, FUN + """
p = partial(fun, u, b=z)
g = whatable(p)
r1 = g(d=y)
r2 = p(d=y)
r3 = g is p
r4 = hasattr(p, 'what')
r5 = g()
r6 = g(b=u, c=u)
r9 = is_whatable(g)
r10 = g.what().conf
q = whatable(p, modify_func_inplace=True)
r7 = q is p
r8 = q(c=x)
r11 = is_whatable(p)
""", "e1 = [u, z, (), y, {'d': y}]\ne2 = e1\ne3 = False\ne4 = False\ne5 = [u, z, (), y, {}]\ne6 = [u, u, (), u, {}]\n"
   "e7 = True\ne8 = [u, z, (), x, {}]\ne9 = True\ne10 = {'a': u, 'b': z}\ne11 = True\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'independent', A, FUN + """
g = whatable(two)
h = whatable(two, non_id_keys=nik)
r1 = g is h
r2 = g.what().non_id_keys
r3 = h.what().non_id_keys
g.mark = u
r4 = hasattr(two, 'mark')
r5 = hasattr(h, 'mark')
i = whatable(fails)
r6 = g.what().name
r7 = i.what().name
r8 = i.what().conf
""", "e1 = False\ne2 = set(('what',))\ne3 = set(('what',)) | nik\ne4 = False\ne5 = False\ne6 = 'two'\ne7 = 'fails'\ne8 = {'a': x}\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'decorated', A, FUN + """
def deco(func):
    def wrapped(*args, **kwargs):
        return [func(*args, **kwargs)]
    return wrapped
g = whatable(deco(two))
r1 = g(u, c=z)
r2 = g(*xs) if len(xs) == 1 else None
r3 = g.what().name
r4 = g.what().conf
def deco2(func):
    def wrapped(a, k=z):
        return func(a)
    return wrapped
h = whatable(deco2(two))
r5 = h.what().name
r6 = h.what().conf
r7 = whatable(h).what().name
r8 = whatable(h).what().conf
""", "e1 = [[u, x, z]]\ne2 = [[xs[0], x, y]] if len(xs) == 1 else None\ne3 = 'wrapped'\ne4 = {}\ne5 = 'wrapped'\ne6 = {'k': z}\ne7 = 'wrapped'\ne8 = {'k': z}\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'again', A, FUN + """
g = whatable(two)
h = whatable(g, non_id_keys=nik)
r1 = h is g
r2 = g.what().non_id_keys
r3 = h.what().non_id_keys
r4 = h.what().name
r5 = h.what().conf
r6 = h(u, c=z)
r7 = whatable(whatable(h)).what().conf
""", "e1 = False\ne2 = set(('what',))\ne3 = set(('what',)) | nik\ne4 = 'two'\ne5 = {'b': x, 'c': y}\ne6 = [u, x, z]\ne7 = e5\n", vars=V, writes_ok=True, rec=5)
# what partials and functions carry comes along, whatever it is
ob('C07', 'partial-attributes', A, FUN + """
p = partial(fun, u, b=z)
p.mark = k1
p.other = None
g = whatable(p)
q = whatable(p, non_id_keys=['b'])
g.mark2 = x
r1 = (g.mark, g.other, q.mark, hasattr(p, 'mark2'), hasattr(q, 'mark2'), hasattr(p, 'what'))
r2 = g.__doc__ == p.__doc__
r3 = sorted(k for k in vars(g) if k not in ('what', '__wrapped__'))
""", "e1 = (k1, None, k1, False, False, False)\ne2 = True\ne3 = ['mark', 'mark2', 'other']\n", vars=V, writes_ok=True, rec=4)
ob('C07', 'function-carries', A, FUN + """
def bare(a=x):
    return a
bare.zero, bare.none, bare.what_for = 0, None, y
two.__doc__ = ''
two.__name__ = 'renamed'
fun.__doc__ = n
l = lambda a=x: a
l.mark = z
g, h, i, j = whatable(bare), whatable(two), whatable(fun), whatable(l)
r1 = (g.zero, g.none, g.what_for, g.__doc__, g.__name__)
r2 = (h.__doc__, h.__name__, h(u))
r3 = (i.__doc__, i.__name__, i.mark)
r4 = (j.mark, j.__name__, j())
""", "e1 = (0, None, y, None, 'bare')\ne2 = ('', 'renamed', [u, x, y])\ne3 = (n, 'fun', z)\ne4 = (z, '<lambda>', x)\n", vars=V, writes_ok=True, rec=4)
