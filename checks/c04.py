"""C04: the C and the pure-Python NameMapper are interchangeable."""
import builtins
import collections
import gc
import resource
import sys

from vlib.core import Prop, Violation, same, expect
from vlib import lang, objs, pure, tm
from checks.c03 import norm, dedupe
from Cheetah import NameMapper as CNM

PNM = pure.load()
if CNM.C_VERSION:
    assert type(CNM.valueForName).__name__ == 'builtin_function_or_method'

APIS = ['valueForName', 'valueFromSearchList', 'valueFromFrameOrSearchList',
        'valueFromFrame', 'valueForKey']


def gen(d):
    lab = [0]
    n = d.i(1, 3)
    specs = [objs.draw_container(d, 3, lab) for _ in range(n)]
    name = objs.walk_names(d, specs[d.i(0, n - 1)], d.i(1, 4))
    if d.chance(12):
        name = d.pick(['a', 'b', 'missing', 'c']) + '.' + '.'.join(
            d.pick(['__class__', '__doc__', 'a', 'real', '__init__'])
            for _ in range(d.i(1, 12)))
    if d.chance(15):
        name = d.pick(['a..b', '.a', 'a. b', ' a', 'a[0]', 'a()', '..',
                       'a.\u00e9', '\U0001f600', 'a-b', '1', 'a' * 300])
    return (specs, name, d.pick(APIS), d.i(0, 1), d.i(0, 1))


def caller(NM, api, live, specs, name, ac, nloc):
    """A thunk doing the lookup through implementation NM."""
    if api == 'valueForName':
        return lambda: NM.valueForName(live[0], name, bool(ac))
    if api == 'valueForKey':
        return lambda: NM.valueForKey(live[0], name.split('.')[0] or 'a')
    if api == 'valueFromSearchList':
        return lambda: NM.valueFromSearchList(live, name, bool(ac))
    loc = {}
    sl = live
    if nloc and specs[0][0] in ('dict', 'odict'):
        loc = {k: v for k, v in live[0].items()}
        sl = live[1:]
    g = {'__builtins__': vars(builtins), '_NM_': getattr(NM, api)}
    if api == 'valueFromFrame' and specs[-1][0] in ('dict', 'odict'):
        g.update(live[-1])
    body = 'def f(_v_):\n'
    for x in sorted(loc):
        body += '    %s = _v_[%r]\n' % (x, x)
    body += '    _v_ = _v_["_sl_"]\n'
    if api == 'valueFromFrame':
        body += '    return _NM_(%r, %r)\n' % (name, bool(ac))
    else:
        body += '    return _NM_(_v_, %r, %r)\n' % (name, bool(ac))
    exec(body, g)
    arg = dict(loc)
    arg['_sl_'] = sl
    return lambda: g['f'](arg)


def result(fn, b):
    try:
        return ('ok', fn())
    except (CNM.NotFound, PNM.NotFound) as e:
        if 'inner' in str(e):
            return ('raised-notfound',)
        m = str(e).split("'")
        return ('notfound', m[1] if len(m) > 1 else str(e))
    except Exception as e:
        return ('exc', type(e).__name__, any(e is x for x in b.raised))


def frame_dependent(api, name):
    # names that are attributes of the frame dictionaries themselves
    return api.startswith('valueFromFrame') and hasattr(
        {}, name.split('.')[0])


def check(c):
    specs, name, api, ac, nloc = c
    out = []
    b = objs.Builder()
    live = [b.build(s) for s in specs]
    for NM in (CNM, PNM):
        del b.trace[:]
        r = result(caller(NM, api, live, specs, name, ac, nloc), b)
        out.append((r, dedupe(b.trace)))
    (r1, t1), (r2, t2) = out
    ctx = '%s(%r, %r)' % (api, name, bool(ac))
    if frame_dependent(api, name):
        expect(r1[0] == r2[0], '%s: C %r, Python %r', ctx, r1[0], r2[0])
    elif r1[0] == 'ok' and r2[0] == 'ok':
        if r1[1] is not r2[1]:
            same(norm(r1[1]), norm(r2[1]), ctx + ': C and Python differ')
            if isinstance(r2[1], (dict, collections.abc.Mapping)) and any(
                    r2[1] is m for m in b.made):
                raise Violation('%s: C returned a copy' % ctx)
    elif r1 != r2:
        raise Violation('%s: C gives %r, Python gives %r' % (ctx, r1, r2))
    same(t1, t2, ctx + ': different calls (C, Python)')
    return [api, r1[0]]


# ------------------------------------------------------------- references
def reach(live):
    seen, todo = {}, list(live)
    while todo and len(seen) < 200:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (int, str, type(None), type)):
            continue
        seen[id(o)] = o
        if isinstance(o, dict):
            todo.extend(o.values())
        if isinstance(o, objs.UMap):
            todo.append(o._d)
        if hasattr(o, '__dict__') and not isinstance(o, type):
            todo.extend(list(vars(o).values()))
        if callable(o) and getattr(o, '__closure__', None):
            for cell in o.__closure__:
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if not isinstance(v, objs.Builder):
                    todo.append(v)
    return [o for o in seen.values() if not isinstance(o, list)]


REP = 12


def check_refs(c):
    specs, name, api, ac, nloc = c
    b = objs.Builder()
    live = [b.build(s) for s in specs]
    watch = reach(live)
    fn = caller(CNM, api, live, specs, name, ac, nloc)

    def once():
        try:
            fn()
        except Exception:
            pass
        del b.trace[:]
        del b.raised[:]
    once()
    once()
    before = [sys.getrefcount(o) for o in watch]
    for _ in range(REP):
        once()
    after = [sys.getrefcount(o) for o in watch]
    if before != after:
        gc.collect()
        after = [sys.getrefcount(o) for o in watch]
    for o, x, y in zip(watch, before, after):
        if abs(y - x) >= REP // 2:
            raise Violation(
                '%s(%r, %r): %d calls changed the reference count of a %s '
                'from %d to %d' % (api, name, bool(ac), REP,
                                   type(o).__name__, x, y))
    return [api]


def check_blocks(c):
    """No memory blocks are left behind by a lookup."""
    specs, name, api, ac, nloc = c
    b = objs.Builder()
    live = [b.build(s) for s in specs]
    fn = caller(CNM, api, live, specs, name, ac, nloc)

    def run(n):
        for _ in range(n):
            try:
                fn()
            except Exception:
                pass
            del b.trace[:]
            del b.raised[:]
    n = 150
    for attempt in range(6):
        run(20)
        gc.collect()
        x = sys.getallocatedblocks()
        run(n)
        gc.collect()
        y = sys.getallocatedblocks()
        if y - x < n - 10:
            break
    else:
        raise Violation('%s(%r, %r): %d calls leave %d memory blocks' % (
            api, name, bool(ac), n, y - x))
    return [api]


def gen_rss(d):
    return (d.pick(APIS), d.i(0, 3), d.i(0, 1))


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def check_rss(c):
    """The scratch copy of the name is released."""
    api, kind, ac = c
    big = 'n' * 300000
    ns = {big: 1, 'a': {'b': 2}, 'f': lambda: {}['x']}
    name = [big, 'missing' + big, 'a.' + big, 'f.' + big][kind]
    live = [ns]
    specs = [('dict', [])]
    fn = caller(CNM, api, live, specs, name, ac, 0)

    def run(n):
        for _ in range(n):
            try:
                fn()
            except Exception:
                pass
    for attempt in range(4):
        run(10)
        gc.collect()
        x = rss()
        run(120)
        gc.collect()
        y = rss()
        if y - x < 12 << 20:
            break
    else:
        raise Violation('%s with a name of %d characters: 120 calls leak %d '
                        'bytes' % (api, len(name), y - x))
    return [api, 'kind%d' % kind]


# ---------------------------------------------------------------- hostile
class Loses(dict):
    """Delivers each key a limited number of times."""
    def __init__(self, n, d):
        dict.__init__(self, d)
        self.n = n

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        self.n -= 1
        if self.n < 0:
            raise KeyError(k)
        return v


class SelfDestruct(object):
    def __init__(self, target):
        self.target = target

    @property
    def a(self):
        del self.target[:]
        return {'b': {'c': 7}}

    b = a


class WeirdClass(object):
    @property
    def __class__(self):
        raise RuntimeError('no class')

    a = 3


class BadAttr(object):
    def __getattribute__(self, k):
        if k.startswith('__'):
            return object.__getattribute__(self, k)
        raise {'a': ValueError, 'b': AttributeError, 'c': KeyError}.get(
            k, OSError)(k)


def badgen():
    yield {'x': 1}
    raise ValueError('generator')


def gen_hostile(d):
    return (d.pick(['loses', 'loses', 'selfdestruct', 'weird', 'badattr',
                    'badgen', 'none', 'deep', 'recur', 'noniter', 'clear']),
            d.i(0, 5), d.pick(['a', 'a.b', 'a.b.c', 'b.a', 'x.y', 'c', 'a.a']),
            d.pick(['valueForName', 'valueFromSearchList',
                    'valueFromFrameOrSearchList', 'valueForKey']),
            d.i(0, 1))


def check_hostile(c):
    kind, n, name, api, ac = c

    def make():
        if kind == 'loses':
            ns = Loses(n, {'a': Loses(n, {'b': {'c': 5}}), 'b': {'a': 1},
                           'x': {'y': 1}})
            return [ns], ns
        if kind == 'selfdestruct':
            sl = []
            o = SelfDestruct(sl)
            sl.append(o)
            return sl, o
        if kind == 'weird':
            o = {'a': WeirdClass(), 'b': {'a': WeirdClass()}}
            return [o], o
        if kind == 'badattr':
            o = BadAttr()
            return [o, {'a': 1}], o
        if kind == 'badgen':
            return badgen(), {'x': {}}
        if kind == 'none':
            return [None, {'a': None}], None
        if kind == 'noniter':
            return 7, {}
        if kind == 'deep':
            o = cur = {}
            for i in range(10):
                cur['a'] = cur['b'] = {}
                cur = cur['a']
            return [o], o
        if kind == 'recur':
            def f():
                return getattr(CNM, api)(
                    {'a': 1} if api in ('valueForName', 'valueForKey')
                    else [{'a': 1}], 'a')
            o = {'a': f, 'b': {'a': f}}
            return [o], o
        if kind == 'clear':
            o = {}

            def g():
                o.clear()
                return {'b': {'c': 1}}
            o['a'] = g
            o['b'] = {'a': g}
            return [o], o
    res = []
    for NM in (CNM, PNM):
        sl, o = make()
        args = (o, name.split('.')[0]) if api == 'valueForKey' else \
            (o, name, bool(ac)) if api == 'valueForName' else \
            (sl, name, bool(ac))
        try:
            r = getattr(NM, api)(*args)
            res.append(('ok', norm(r) if kind != 'weird' else 0))
        except Exception as e:
            res.append(('exc', type(e).__name__))
        del sl, o
    labs = [kind, res[0][0]]
    if kind in ('loses', 'weird'):
        return labs          # the number of probes differs; no crash matters
    same(res[0], res[1], '%s(%s, %r, %r): C and Python differ' % (
        api, kind, name, ac))
    return labs


# --------------------------------------------------------------- templates
FEATURES = set('''text ph echo set silent tern gset if for unless repeat
while try raise stop def t call capture short filter del'''.split())


def gen_tmpl(d):
    g = lang.Gen(d, FEATURES)
    return (g.program(), lang.draw_env(d), d.i(0, 1), d.i(0, 1))


def check_tmpl(c):
    prog, envt, stack, ac = c
    em = lang.Emitter()
    em.program(prog)
    src = em.source()
    st = {'useStackFrames': bool(stack)}
    if not ac:
        st['useAutocalling'] = False
    cls = tm.compile_(src, compilerSettings=st)
    mod = sys.modules[cls.__module__]
    res = []
    for NM in (CNM, PNM):
        mod.VFFSL = mod.valueFromFrameOrSearchList = \
            NM.valueFromFrameOrSearchList
        mod.VFSL = mod.valueFromSearchList = NM.valueFromSearchList
        mod.VFN = mod.valueForName = NM.valueForName
        mod.NotFound = NM.NotFound
        trace = []

        def t(label, v):
            trace.append(label)
            return v
        ns = dict(lang.FUNCS)
        ns.update(lang.make_env(envt))
        ns['t'] = t
        try:
            r = ('ok', cls(searchList=[ns]).respond())
        except Exception as e:
            r = ('exc', type(e).__name__)
        res.append((r, trace))
    (r1, t1), (r2, t2) = res
    if not ('<' in str(r1) and ' at 0x' in str(r1)):
        same(r1, r2, 'C and Python render %r differently' % src)
    same(t1, t2, 'C and Python evaluate %r differently' % src)
    return [r1[0]]


# known deviations, replayed from known_findings.txt
class GetItemOnly(object):
    def __getitem__(self, k):
        return {'a': 1}[k]


class RaisingMap(collections.UserDict):
    def __getitem__(self, k):
        raise ValueError('broken backend')

    def __contains__(self, k):
        return self[k] is not None


def gen_dev(d):
    return (d.pick(['dict', 'inst']),)


def check_dev(c):
    o, name = {'dict': ({'a': 1}, 'a'), 'inst': (objs.UMap({'a': 1}), 'a'),
               'getitem': (GetItemOnly(), 'a'),
               'defaultdict': (collections.defaultdict(int), 'a'),
               'raising': (RaisingMap(), 'a'),
               'parts': ({'a': 1}, 'a' + '.real' * 14)}[c[0]]
    b = objs.Builder()
    r1 = result(lambda: CNM.valueForName(o, name), b)
    if c[0] == 'defaultdict':
        o = collections.defaultdict(int)
    r2 = result(lambda: PNM.valueForName(o, name), b)
    same(r1, r2, 'valueForName(%s, %r): C and Python differ' % (c[0], name))
    return [c[0]]


NT = 'name with at least two parts or a failing lookup'
PROPS = [
    Prop('differential', gen, check, 60000, shards=8,
         nontrivial=lambda c, l: '.' in c[1] or 'ok' not in l,
         rule='graphs of depth <= 3 over 25 kinds of values, one object '
              'graph given to both implementations; non-trivial = ' + NT),
    Prop('refcounts', gen, check_refs, 12000, shards=8,
         nontrivial=lambda c, l: True,
         rule='%d repetitions of one lookup; non-trivial = all' % REP),
    Prop('blocks', gen, check_blocks, 1600, shards=8,
         rule='150 repetitions of one lookup, allocated blocks compared; '
              'non-trivial = all'),
    Prop('rss', gen_rss, check_rss, 40, shards=2,
         rule='names of 300 kB, resident size compared; non-trivial = all'),
    Prop('hostile', gen_hostile, check_hostile, 4000, shards=4,
         rule='objects that change or fail during the lookup; non-trivial = '
              'all'),
    Prop('templates', gen_tmpl, check_tmpl, 4000, shards=8,
         rule='generated programs rendered with each implementation; '
              'non-trivial = all'),
    Prop('deviations', gen_dev, check_dev, 10, shards=1,
         rule='cases of known_findings.txt; non-trivial = all'),
]
