"""Knowledge about the types of the language and of its standard library (not of the repository)."""
import abc
import builtins
import collections
import collections.abc
import datetime
import decimal
import fractions
import functools
import inspect
import numbers
import types

from .values import *

_REAL = {}


def _fill():
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type):
            _REAL['builtins.' + n] = o
    _REAL['builtins.NoneType'] = type(None)
    _REAL['collections.OrderedDict'] = collections.OrderedDict
    _REAL['collections.defaultdict'] = collections.defaultdict
    _REAL['collections.Counter'] = collections.Counter
    _REAL['functools.partial'] = functools.partial
    for n in ('FunctionType', 'BuiltinFunctionType', 'MethodType', 'ModuleType', 'GeneratorType',
              'MappingProxyType', 'GetSetDescriptorType', 'MemberDescriptorType'):
        _REAL['types.' + n] = getattr(types, n)
    for t in (datetime.datetime, datetime.date, datetime.timedelta, decimal.Decimal, fractions.Fraction):
        _REAL['%s.%s' % (t.__module__, t.__name__)] = t
    for m in (collections.abc, numbers):
        for n in dir(m):
            if isinstance(getattr(m, n), abc.ABCMeta):
                _REAL['%s.%s' % (m.__name__, n)] = getattr(m, n)


_fill()

T = {n: Ext('builtins.' + n) for n in ('NoneType', 'bool', 'int', 'float', 'complex', 'str', 'bytes', 'list',
                                       'tuple', 'dict', 'set', 'frozenset', 'type', 'object', 'property',
                                       'Exception', 'KeyError', 'AttributeError', 'TypeError', 'ValueError',
                                       'IndexError', 'StopIteration', 'ImportError', 'NameError')}
T['function'] = Ext('types.FunctionType')
T['builtin'] = Ext('types.BuiltinFunctionType')
T['method'] = Ext('types.MethodType')
T['module'] = Ext('types.ModuleType')
T['partial'] = Ext('functools.partial')
T['OrderedDict'] = Ext('collections.OrderedDict')

_ALIAS = {'types.LambdaType': 'types.FunctionType', 'types.BuiltinMethodType': 'types.BuiltinFunctionType',
          'builtins.EnvironmentError': 'builtins.OSError', 'builtins.IOError': 'builtins.OSError',
          'builtins.unicode': 'builtins.str', 'builtins.basestring': 'builtins.str',
          'builtins.long': 'builtins.int', 'types.NoneType': 'builtins.NoneType'}
ONE_METHOD = {'Hashable': '__hash__', 'Iterable': '__iter__', 'Sized': '__len__', 'Container': '__contains__', 'Callable': '__call__'}
for _n in dir(collections.abc):
    if isinstance(getattr(collections.abc, _n), abc.ABCMeta):
        _ALIAS['collections.' + _n] = 'collections.abc.' + _n


def one_method(t):
    """The method that makes any class that has it a subclass of the abstract class t."""
    p = _ALIAS.get(t.path, t.path) if isinstance(t, Ext) else ''
    return ONE_METHOD.get(p[16:]) if p.startswith('collections.abc.') else None


def real(t):
    if isinstance(t, Ext):
        return _REAL.get(_ALIAS.get(t.path, t.path))
    return None


def real_by_name(path):
    return _REAL.get(path)


_dis = {}


def disjoint_real(a, b):
    """No object can be an instance of both a and b."""
    if (a, b) not in _dis:
        r = False
        if isinstance(a, abc.ABCMeta) or isinstance(b, abc.ABCMeta):
            return False
        if not (issubclass(a, b) or issubclass(b, a)):
            try:
                type('_probe', (a, b), {})
            except TypeError:
                r = True
        _dis[(a, b)] = r
    return _dis[(a, b)]


class TypeInfo(object):
    """What is known about the class of a value: exact class, or upper bounds and exclusions."""
    __slots__ = ('exact', 'isa', 'nota')

    def __init__(self, exact=None, isa=(), nota=()):
        self.exact = exact
        self.isa = frozenset(isa)
        self.nota = frozenset(nota)

    def __repr__(self):
        return 'TI(%s,%s,%s)' % (self.exact, set(self.isa), set(self.nota))
