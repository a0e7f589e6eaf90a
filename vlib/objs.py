"""Object graphs for the NameMapper checks: literal specs -> live objects.

spec:
  ('int', n) ('str', s) ('none',) ('list', n)
  ('dict', {k: spec}) ('udict', ...) a non-dict Mapping, ('xdict', items, attrs)
     dict subclass with attributes, ('odict', ...)
  ('inst', attrs) ('slots', attrs) ('geta', attrs) dynamic __getattr__
  ('class', attrs) ('callinst', attrs) ('partial', spec) ('module', attrs)
  ('func', label, result) ('lam', label, result) ('deff', label, result)
  ('meth', label, result) a bound method held by its owner
  ('cmeth'|'smeth', label, result)
  ('bmeth', which)  bound method of a builtin
  ('argf', label)   function that needs an argument
  ('prop', label, result) property / dynamic attribute (only inside inst)
  ('ref', k)        the k-th container built so far (cycles, sharing)
result: spec | ('raise', exc name)
"""
import collections
import collections.abc
import functools
import types

KEYS = ['a', 'b', 'c', 'd', 'keys', 'get', 'upper', 'x_1', '\u00e9']
EXC = {'ValueError': ValueError, 'KeyError': KeyError,
       'AttributeError': AttributeError, 'TypeError': TypeError,
       'LookupError': LookupError, 'NameError': NameError,
       'IndexError': IndexError, 'StopIteration': StopIteration,
       'ZeroDivisionError': ZeroDivisionError}


class UMap(collections.abc.Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class XDict(dict):
    pass


class Builder:
    def __init__(self):
        self.trace = []
        self.raised = []
        self.made = []
        self.n = 0

    def raiser(self, name):
        if name == 'NotFound':
            from Cheetah.NameMapper import NotFound
            e = NotFound("cannot find 'inner'")
        else:
            e = EXC[name]('boom')
        self.raised.append(e)
        return e

    def fn(self, label, result, kind):
        val = None
        exc = None
        if result[0] == 'raise':
            exc = result[1]
        else:
            val = self.build(result)

        def body():
            self.trace.append(label)
            if exc:
                raise self.raiser(exc)
            return val
        if kind == 'deff':
            def f(x=1, *a, **k):
                return body()
        elif kind == 'lam':
            f = lambda: body()  # noqa: E731
        elif kind == 'meth':
            def m(self_):
                return body()
            owner = type('Owner', (), {'m': m})
            return owner().m
        elif kind == 'cmeth':
            def m(cls_):
                return body()
            return type('Owner', (), {'m': classmethod(m)}).m
        elif kind == 'smeth':
            def m():
                return body()
            return type('Owner', (), {'m': staticmethod(m)}).m
        else:
            def f():
                return body()
        return f

    def build(self, s):
        k = s[0]
        if k == 'int' or k == 'str':
            return s[1]
        if k == 'none':
            return None
        if k == 'list':
            return [s[1]]
        if k == 'ref':
            return self.made[s[1] % len(self.made)] if self.made else 0
        if k in ('dict', 'odict', 'udict'):
            d = {} if k != 'odict' else collections.OrderedDict()
            o = UMap(d) if k == 'udict' else d
            self.made.append(o)
            for a, b in s[1]:
                d[a] = self.build(b)
            return o
        if k == 'xdict':
            o = XDict()
            self.made.append(o)
            for a, b in s[1]:
                o[a] = self.build(b)
            for a, b in s[2]:
                setattr(o, a, self.build(b))
            return o
        if k in ('inst', 'callinst', 'slots', 'geta', 'class', 'module'):
            return self.obj(k, s[1])
        if k == 'partial':
            inner = self.build(s[1])

            def p():
                self.trace.append('partial')
                return inner
            return functools.partial(p)
        if k in ('func', 'lam', 'deff', 'meth', 'cmeth', 'smeth'):
            return self.fn(s[1], s[2], k)
        if k == 'bmeth':
            return [' ab '.strip, {'k': 5}.copy, [3, 4].__len__,
                    (1, 2).__str__, dict, len, 'x'.join][s[1] % 7]
        if k == 'argf':
            def g(x):
                self.trace.append(s[1])
                return x
            return g
        if k == 'prop':       # outside an instance: plain value
            return self.build(s[2]) if s[2][0] != 'raise' else 0
        raise ValueError(s)

    def obj(self, k, attrs):
        ns = {}
        props = [(a, b) for a, b in attrs if b[0] == 'prop']
        plain = [(a, b) for a, b in attrs if b[0] != 'prop']
        if k == 'module':
            o = types.ModuleType('mod')
            self.made.append(o)
            for a, b in plain:
                setattr(o, a, self.build(b))
            return o
        if k == 'slots':
            ns['__slots__'] = sorted({a for a, b in plain})
        if k == 'callinst':
            def call(self_):
                self.trace.append('callinst')
                return 0
            ns['__call__'] = call
        dyn = {}
        if k == 'geta':
            def ga(self_, name):
                if name in dyn:
                    return dyn[name]()
                raise AttributeError(name)
            ns['__getattr__'] = ga
        for a, b in props:
            if k == 'slots' and a in ns['__slots__']:
                continue
            f = self.fn(b[1], b[2], 'func')
            if k == 'geta':
                dyn[a] = f
            else:
                ns[a] = property(lambda self_, f=f: f())
        C = type('C', (), ns)
        o = C if k == 'class' else C()
        self.made.append(o)
        for a, b in plain:
            v = self.build(b)
            if k != 'class' and a in ns and isinstance(ns[a], property):
                continue
            setattr(o, a, staticmethod(v)
                    if k == 'class' and isinstance(v, types.FunctionType)
                    else v)
        return o


# ------------------------------------------------------------ generation
def draw_spec(d, depth, lab):
    def label():
        lab[0] += 1
        return 'f%d' % lab[0]

    def items():
        ks = d.shuffle(KEYS[:5])[:d.i(1, 3)]
        if d.chance(6):
            ks.append(d.pick(KEYS))
        return [(a, draw_spec(d, depth - 1, lab)) for a in dict.fromkeys(ks)]

    def result():
        if d.chance(7):
            return ('raise', d.pick(sorted(EXC) + ['NotFound']))
        return draw_spec(d, depth - 1, lab)

    if depth <= 0:
        k = d.pick(['int', 'str', 'none', 'list', 'ref', 'bmeth', 'argf',
                    'int'])
    else:
        k = d.pick(['dict', 'inst', 'func', 'dict', 'inst', 'meth', 'udict',
                    'xdict', 'odict', 'slots', 'geta', 'class', 'callinst',
                    'partial', 'module', 'lam', 'deff', 'cmeth', 'smeth',
                    'bmeth', 'argf', 'prop', 'prop', 'int', 'ref'])
    if k == 'int':
        return ('int', d.i(0, 99))
    if k == 'str':
        return ('str', d.pick(['', 'v', 'text']))
    if k == 'none':
        return ('none',)
    if k in ('list', 'ref', 'bmeth'):
        return (k, d.i(0, 6))
    if k == 'argf':
        return (k, label())
    if k == 'xdict':
        return (k, items(), [(a, b) for a, b in items()
                             if not hasattr({}, a)])
    if k in ('dict', 'odict', 'udict', 'inst', 'slots', 'geta', 'class',
             'callinst', 'module'):
        return (k, items())
    if k == 'partial':
        return (k, draw_spec(d, depth - 1, lab))
    return (k, label(), result())


def draw_container(d, depth, lab):
    while True:
        s = draw_spec(d, depth, lab)
        if s[0] in ('dict', 'odict', 'udict', 'inst', 'slots', 'geta',
                    'class', 'xdict', 'module', 'callinst'):
            return s
        if d.prefix is not None and len(d.rec) > len(d.prefix):
            return ('dict', [('a', ('int', 0))])


def walk_names(d, s, n):
    """A dotted name that often follows the spec."""
    parts = []
    cur = s
    for _ in range(n):
        while cur and cur[0] in ('func', 'meth', 'lam', 'deff', 'cmeth',
                                 'smeth', 'prop'):
            cur = cur[2]
        its = []
        if cur and cur[0] in ('dict', 'odict', 'udict', 'inst', 'slots',
                              'geta', 'class', 'callinst', 'module'):
            its = cur[1]
        elif cur and cur[0] == 'xdict':
            its = cur[1] + cur[2]
        r = d.i(0, 9)
        if its and r < 8:
            a, cur = d.pick(its)
            parts.append(a)
        elif r == 8:
            parts.append(d.pick(['missing', '__class__', 'upper', 'items',
                                 'strip', 'real', '__len__', 'mro',
                                 '__name__', '__doc__']))
            cur = None
        else:
            parts.append(d.pick(KEYS))
            cur = None
        if cur is None and d.chance(2):
            break
    return '.'.join(parts)


# ------------------------------------------------------------ reference
class RefNotFound(Exception):
    def __init__(self, part):
        self.part = part


CALLED = (types.FunctionType, types.MethodType, types.BuiltinFunctionType,
          types.MethodWrapperType)


def has(obj, key):
    if isinstance(obj, collections.abc.Mapping) and key in obj:
        return True
    try:
        getattr(obj, key)
    except AttributeError:
        return False
    return True


def step(obj, key):
    if isinstance(obj, collections.abc.Mapping) and key in obj:
        return obj[key]
    try:
        return getattr(obj, key)
    except AttributeError:
        raise RefNotFound(key)


def resolve(obj, name, autocall):
    for part in name.split('.'):
        obj = step(obj, part)
        if autocall and isinstance(obj, CALLED):
            obj = obj()
    return obj


def resolve_in(namespaces, name, autocall):
    first = name.split('.')[0]
    for ns in namespaces:
        if has(ns, first):
            return resolve(ns, name, autocall)
    raise RefNotFound(first)
