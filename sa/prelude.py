"""What third-party helpers do, in the language the interpreter reads (their own sources use too much of inspect)."""

TOOLZ = '''
from functools import partial


class curry(object):
    """toolz.functoolz.curry (also cytoolz): a call that lacks arguments gives a function of those left."""

    def __init__(self, func, *args, **kwargs):
        if not callable(func):
            raise TypeError('Input must be callable')
        if hasattr(func, 'func') and hasattr(func, 'args') and hasattr(func, 'keywords') and isinstance(func.args, tuple):
            known = {}
            if func.keywords:
                known.update(func.keywords)
            known.update(kwargs)
            kwargs = known
            args = func.args + args
            func = func.func
        self._partial = partial(func, *args, **kwargs)
        self.__name__ = getattr(func, '__name__', '<curry>')
        self.__doc__ = getattr(func, '__doc__', None)

    @property
    def func(self):
        return self._partial.func

    @property
    def args(self):
        return self._partial.args

    @property
    def keywords(self):
        return self._partial.keywords

    def __call__(self, *args, **kwargs):
        try:
            return self._partial(*args, **kwargs)
        except TypeError:
            if should_curry(self.func, self.args + args, dict(self.keywords, **kwargs)):
                return curry(self, *args, **kwargs)
            raise

    def __get__(self, instance, owner):
        if instance is None:
            return self
        return curry(self, instance)
'''
PICKLE = '''
DEFAULT_PROTOCOL = 4
HIGHEST_PROTOCOL = 5


def dump(obj, file, protocol=None):
    _Pickler(file, protocol).dump(obj)

class _Pickler(object):
    """pickle._Pickler: what it writes are tokens, objects met again are told by their place."""

    dispatch = {}

    def __init__(self, file, protocol=None, fix_imports=True, buffer_callback=None):
        self._file = file
        self.proto = protocol
        self.memo = []

    def write(self, token):
        self._file.write((token,))

    def clear_memo(self):
        self.memo = []

    def dump(self, obj):
        self.write(('PROTO', self.proto))
        self.save(obj)
        self.write(('STOP',))

    def memoize(self, obj):
        self.memo.append(obj)
        self.write(('MEMOIZE',))

    def save(self, obj, save_persistent_id=True):
        if not isinstance(obj, tuple):
            for n, known in enumerate(self.memo):
                if known is obj:
                    self.write(('GET', n))
                    return
        t = type(obj)
        f = self.dispatch.get(t)
        if f is not None:
            f(self, obj)
            return
        if isinstance(obj, type):
            self.save_global(obj)
            return
        if hasattr(t, 'reduced'):       # what classes of scenarios call __reduce__
            rv = obj.reduced()
            self.save(rv[0])
            self.save(rv[1])
            self.write(('REDUCE',))
            self.memoize(obj)
            if len(rv) > 2 and rv[2] is not None:
                self.save(rv[2])
                self.write(('BUILD',))
            return
        self.save(t)
        self.save(())
        self.write(('NEWOBJ',))
        self.memoize(obj)
        if obj.__dict__:
            self.save(obj.__dict__)
            self.write(('BUILD',))

    def save_none(self, obj):
        self.write(('NONE',))

    def save_bool(self, obj):
        self.write(('BOOL', obj))

    def save_long(self, obj):
        self.write(('INT', obj))

    def save_float(self, obj):
        self.write(('FLOAT', obj) if obj == obj else ('NAN',))      # digests are ordered

    def save_bytes(self, obj):
        self.write(('BYTES', obj))
        self.memoize(obj)

    def save_str(self, obj):
        self.write(('STR', obj))
        self.memoize(obj)

    def save_tuple(self, obj):
        self.write(('MARK', '('))
        for element in obj:
            self.save(element)
        self.write(('TUPLE', len(obj)))
        if obj:
            self.memoize(obj)

    def save_list(self, obj):
        self.write(('EMPTY_LIST',))
        self.memoize(obj)
        self._batch_appends(obj)

    def _batch_appends(self, items):
        self.write(('MARK',))
        for x in items:
            self.save(x)
        self.write(('APPENDS',))

    def save_dict(self, obj):
        self.write(('EMPTY_DICT',))
        self.memoize(obj)
        self._batch_setitems(obj.items())

    def _batch_setitems(self, items):
        self.write(('MARK',))
        for k, v in items:
            self.save(k)
            self.save(v)
        self.write(('SETITEMS',))

    def save_set(self, obj):
        self.write(('EMPTY_SET',))
        self.memoize(obj)
        self.write(('MARK',))
        for x in obj:
            self.save(x)
        self.write(('ADDITEMS',))

    def save_frozenset(self, obj):
        self.write(('MARK',))
        for x in obj:
            self.save(x)
        self.write(('FROZENSET',))
        self.memoize(obj)

    def save_global(self, obj, name=None):
        self.write(('GLOBAL', obj))
        self.memoize(obj)

    def save_type(self, obj):
        self.save_global(obj)

    dispatch[type(None)] = save_none
    dispatch[bool] = save_bool
    dispatch[int] = save_long
    dispatch[float] = save_float
    dispatch[bytes] = save_bytes
    dispatch[str] = save_str
    dispatch[tuple] = save_tuple
    dispatch[list] = save_list
    dispatch[dict] = save_dict
    dispatch[set] = save_set
    dispatch[frozenset] = save_frozenset
    dispatch[type(lambda: 0)] = save_global
    dispatch[type] = save_type
'''
IO = '''
class BytesIO(object):
    """io.BytesIO, of tokens."""

    def __init__(self, initial=()):
        self._tokens = tuple(initial)

    def write(self, tokens):
        self._tokens = self._tokens + tuple(tokens)

    def getvalue(self):
        return self._tokens
'''
HASHLIB = '''
class Digest(object):
    """A hash of hashlib.new: the digest is what it was fed, so nothing collides."""

    def __init__(self, name, data=()):
        self.name = name
        self.fed = tuple(data)

    def update(self, data):
        self.fed = self.fed + tuple(data)

    def hexdigest(self):
        return ('digest', self.name, self.fed)

    def digest(self):
        return ('digest', self.name, self.fed)

    def copy(self):
        return Digest(self.name, self.fed)


def new(name, data=()):
    return Digest(name, data)


def md5(data=()):
    return Digest('md5', data)
'''
MODULES = {'toolz': TOOLZ, 'cytoolz': TOOLZ, 'toolz.functoolz': TOOLZ, 'cytoolz.functoolz': TOOLZ,
           'pickle': PICKLE, 'io': IO, 'hashlib': HASHLIB}
