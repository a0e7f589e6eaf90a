"""C07: cached regions and placeholders refresh exactly when they should."""
from vlib.core import Prop, Skip, Violation, same
from vlib.clock import Clock
from vlib import tm
from Cheetah import CacheStore, CacheRegion

VARS = ['v0', 'v1', 'v2']
# spelling of an interval -> seconds
TIMES = [('5s', 5), ('2', 120), ('.5', 30), ('1h', 3600), ('1.5m', 90),
         ('1d', 86400), ('1w', 604800), ('10s', 10), ('1s', 1)]
VARY = [1, 2, 'x', '\xe9', (1, 'a'), 'x y', -1, 0, '', None, 3.5,
        'X', ' x', 'x ', '\xc9', 'e', 'x' * 300, 'x' * 300 + 'y', True]
IDS = ['reg', 'side_bar', 'a-b', 'two words', 'R2', '3rd']


def cases(d):
    used = []

    def inner():
        k = d.i(0, 5)
        if k <= 2:
            return ('var', d.i(0, 2))
        if k == 3:
            return ('text', d.pick(['-', ' t\n', '<>', "'\"", 'x']))
        if k == 4:
            return ('cph', d.i(-1, len(TIMES) - 1), d.i(0, 2), d.i(0, 1))
        return ('loopvar',)

    def piece():
        k = d.i(0, 6)
        if k <= 2:
            return inner()
        if k <= 5:
            rid = None
            free = [i for i in range(len(IDS)) if i not in used]
            if d.chance(2) and free:
                rid = d.pick(free)
                used.append(rid)
            return ('region', rid,
                    d.pick([None, None, d.i(0, len(TIMES) - 1)]),
                    d.pick([None, None, 0, 1]),        # test
                    d.pick([None, None, 0, 1, 2]),     # varyBy; 2: loop var
                    d.list(inner, 1, 4), d.i(0, 3))
        return ('meth', d.i(0, 1))
    meths = [d.list(piece, 0, 2) for _ in range(d.i(0, 2))]
    # methods must not call methods
    meths = [[p for p in m if p[0] != 'meth'] for m in meths]
    body = d.list(piece, 1, 4)
    loop = d.i(0, 3)
    ninst = d.i(1, 2)

    def op():
        k = d.i(0, 11)
        if k <= 4:
            return ('render', d.i(0, ninst - 1))
        if k <= 6:
            return ('set', d.i(0, 2), d.pick(['A', 'B', '', 7, None, 'boom']))
        if k == 7:
            return ('advance', d.pick([1, 4, 6, 29, 31, 91, 119, 121, 3601,
                                       86401, 700000]))
        if k == 8:
            return ('vary', d.i(0, 1), d.i(0, len(VARY) - 1))
        if k == 9:
            return ('test', d.i(0, 1), d.i(0, 1))
        inst = d.i(0, ninst - 1)
        return ('refresh', inst, d.pick(
            [None, None, d.i(0, len(IDS) - 1), 99]
            + [u for u in used]),
            d.pick([None, None, d.i(0, len(VARY) - 1)]))
    ops = [('render', 0)] + d.list(op, 1, 12)
    return (meths, body, loop, d.i(0, 3), ops, d.i(0, 2))


def emit(pieces, lay):
    out = []
    for p in pieces:
        if p[0] == 'text':
            out.append(p[1])
        elif p[0] == 'var':
            out.append('${v%d}' % p[1])
        elif p[0] == 'loopvar':
            out.append('${i}')
        elif p[0] == 'cph':
            iv = '' if p[1] < 0 else TIMES[p[1]][0] + '*'
            out.append('$*%s{v%d}' % (iv, p[2]) if p[3]
                       else '$*%sv%d#slurp\n' % (iv, p[2]))
        elif p[0] == 'meth':
            out.append('${m%d}' % p[1])
        else:
            _, rid, timer, test, vary, body, style = p
            args = []
            if rid is not None:
                args.append("id='%s'" % IDS[rid])
            if timer is not None:
                args.append("timer='%s'" % TIMES[timer][0])
            if test is not None:
                args.append(['test=$t%d', 'test=($t%d)'][style & 1] % test)
            if vary is not None:
                args.append('varyBy=$%s' % ['w0', 'w1', 'i'][vary])
            if style & 2:
                args.reverse()
            out.append('#cache%s#' % (' ' + ', '.join(args) if args else ''))
            out.append(emit(body, lay))
            out.append('#end cache#')
    return ''.join(out)


class Boom(Exception):
    pass


class Model(object):
    def __init__(self, meths, body, loop, clock, state):
        self.meths, self.body, self.loop = meths, body, loop
        self.clock, self.state = clock, state
        self.store = {}     # (path, item) -> [text, expiry, region id]
        self.log = []

    def value(self, k):
        self.log.append('v%d' % k)
        v = self.state['v'][k]
        if v == 'boom':
            raise Boom()
        return '' if v is None else str(v)

    def render(self):
        out = []
        n = self.loop
        for i in range(n if n else 1):
            self.i = i
            out.append('[')
            self.pieces(self.body, ('b',), out)
            out.append(']')
        return ''.join(out)

    def cached(self, path, item, rid, interval, test, body):
        key = (path, item)
        e = self.store.get(key)
        due = e is None or test or (
            e[1] is not None and self.clock.now > e[1])
        if not due:
            return e[0]
        text = body()
        self.store[key] = [text, None if interval is None
                           else self.clock.now + interval, rid]
        self.rendered += 1
        return text

    rendered = 0

    def pieces(self, ps, path, out):
        for k, p in enumerate(ps):
            here = path + (k,)
            if p[0] == 'text':
                out.append(p[1])
            elif p[0] == 'var':
                out.append(self.value(p[1]))
            elif p[0] == 'loopvar':
                out.append(str(self.i))
            elif p[0] == 'cph':
                out.append(self.cached(
                    here, None, None, None if p[1] < 0 else TIMES[p[1]][1],
                    False, lambda: self.value(p[2])))
            elif p[0] == 'meth':
                if p[1] < len(self.meths):
                    sub = []
                    self.pieces(self.meths[p[1]], ('m', p[1]), sub)
                    out.append(''.join(sub))
            else:
                _, rid, timer, test, vary, body, style = p

                def go():
                    sub = []
                    self.pieces(body, here, sub)
                    return ''.join(sub)
                item = None
                if vary is not None:
                    item = repr(VARY[self.state['w'][vary]] if vary < 2
                                else self.i)
                out.append(self.cached(
                    here, item, rid, None if timer is None
                    else TIMES[timer][1],
                    test is not None and self.state['t'][test], go))

    def refresh(self, rid, item):
        for key in list(self.store):
            if rid is None:
                del self.store[key]
            elif self.store[key][2] == rid and (
                    item is None or key[1] == repr(item)):
                del self.store[key]


class OwnStore(CacheStore.MemoryCacheStore):
    pass


class KeyStore(CacheStore.MemoryCacheStore):
    def __init__(self):
        CacheStore.MemoryCacheStore.__init__(self)
        self.keys = set()

    def set(self, key, val, time=0):
        self.keys.add(key)
        CacheStore.MemoryCacheStore.set(self, key, val, time)

    def delete(self, key):
        self.keys.discard(key)
        CacheStore.MemoryCacheStore.delete(self, key)


class OwnRegion(CacheRegion.CacheRegion):
    pass


def check(c):
    meths, body, loop, lay, ops, storekind = c
    body = [p for p in body if p[0] != 'meth' or p[1] < len(meths)]
    has_i = True
    src = '#silent 0\n'
    for k, m in enumerate(meths):
        src += '#def m%d#%s#end def#' % (k, emit(m, lay))
    if loop:
        src += '#for $i in range(%d)#[%s]#end for#' % (loop, emit(body, lay))
    else:
        src += '[%s]' % emit(body, lay)
    state = {'v': ['a0', 'a1', 'a2'], 'w': [0, 1], 't': [0, 0]}
    log = []

    def reader(k):
        def read():
            log.append('v%d' % k)
            v = state['v'][k]
            if v == 'boom':
                raise Boom()
            return v
        return read
    ns = dict(('v%d' % k, reader(k)) for k in range(3))
    for k in range(2):
        ns['w%d' % k] = (lambda k=k: VARY[state['w'][k]])
        ns['t%d' % k] = (lambda k=k: state['t'][k])
    ns['i'] = 0
    if meths and loop:
        # methods do not see the loop variable
        pass
    labs = []
    with Clock() as clock:
        api = tm.Template
        if storekind:
            class api(tm.Template):
                pass
        if storekind == 1:
            api._CHEETAH_cacheStore = KeyStore()
        elif storekind == 2:
            api._CHEETAH_cacheStoreClass = OwnStore
            api._CHEETAH_cacheRegionClass = OwnRegion
        cls = tm.must(lambda: api.compile(
            source=src, cacheCompilationResults=False, useCache=False,
            **({'baseclass': api} if storekind else {})),
            'compiling %r' % src)
        insts, models = [], []
        for n in range(2):
            insts.append(cls(searchList=[ns]))
            models.append(MModel(meths, body, loop, clock, state))
        hist = []
        for op in ops:
            hist.append(op)
            if op[0] == 'set':
                state['v'][op[1]] = op[2]
            elif op[0] == 'advance':
                clock.now += op[1]
            elif op[0] == 'vary':
                state['w'][op[1]] = op[2]
            elif op[0] == 'test':
                state['t'][op[1]] = op[2]
            elif op[0] == 'refresh':
                rid = op[2]
                item = None
                if op[3] is not None:
                    item = VARY[op[3]]
                    if not item:
                        item = None
                if rid is None:
                    insts[op[1]].refreshCache()
                    models[op[1]].refresh(None, None)
                else:
                    name = IDS[rid] if rid < len(IDS) else 'unknown'
                    args = (name,) if item is None else (name, item)
                    insts[op[1]].refreshCache(*args)
                    models[op[1]].refresh(rid, item)
                labs.append('refresh')
                if rid is None and storekind == 1 and not any(
                        m.store for m in models):
                    same(sorted(api._CHEETAH_cacheStore.keys), [],
                         'texts left in the cache store after everything '
                         'was cleared', src, hist)
            else:
                while [1 for m in models for e in m.store.values()
                       if e[1] is not None and abs(e[1] - clock.now) < .01]:
                    clock.now += 0.3   # never exactly at an expiry time
                m = models[op[1]]
                m.log, m.rendered = [], 0
                del log[:]
                try:
                    exp = ('ok', m.render())
                except Boom:
                    exp = ('exc', 'Boom')
                try:
                    got = ('ok', tm.text(insts[op[1]]))
                except Boom:
                    got = ('exc', 'Boom')
                ctx = 'template %r\n   history %r' % (src, hist)
                same(got, exp, 'wrong output', ctx)
                same(list(log), m.log, 'body evaluated differently', ctx)
                if exp[0] == 'exc':
                    labs.append('exception')
                labs.append('rerendered' if m.rendered else 'from cache')
    for p in body + [q for m in meths for q in m]:
        labs.append(p[0])
        if p[0] == 'region':
            labs += ['timer'] * (p[2] is not None) + \
                ['test'] * (p[3] is not None) + ['vary'] * (p[4] is not None)
    return labs


class MModel(Model):
    def pieces(self, ps, path, out):
        if path and path[0] == 'm':
            # the loop variable is local to the main method
            old, self.i = self.i, 0
            try:
                Model.pieces(self, ps, path, out)
            finally:
                self.i = old
        else:
            Model.pieces(self, ps, path, out)


# ------------------------------------------- arguments given as expressions
def arg_cases(d):
    if d.i(0, 1):
        return ('id', d.pick(["'%s'", '"%s"', '%s']) % d.pick(
            ['name', 'x1', 'Side']))
    return ('timer', d.pick(["'%s'", '"%s"', '%s']) % d.pick(
        ['5s', '1', '0.5', '2m', '1.5h', '3d', '.25w', '1s', '.5s',
         '0.1s', '1.0s']))


def check_args(c):
    kind, text = c
    src = '#cache %s=%s#$v#end cache#' % (kind, text)
    vals = [0]
    ns = {'v': lambda: vals[0], 'x': 'name', 'n': 5}
    plain = text.strip('\'"')
    with Clock() as clock:
        t = tm.must(lambda: tm.compile_(src), 'compiling %r' % src)(
            searchList=[ns])
        same(tm.text(t), '0', 'first render')
        vals[0] = 1
        if kind == 'id':
            t.refreshCache({'$x': 'name'}.get(plain, plain))
            same(tm.text(t), '1', 'render of %r after refreshCache' % src)
        else:
            secs = {'$n': 300}.get(plain) or float(
                plain.rstrip('smhdw')) * {'s': 1, 'h': 3600, 'd': 86400,
                                          'w': 604800}.get(plain[-1], 60)
            clock.now += secs - min(1, secs / 2.)
            same(tm.text(t), '0', 'render of %r before the interval' % src)
            clock.now += 2
            same(tm.text(t), '1', 'render of %r after the interval' % src)
    return [kind]


PROPS = [
    Prop('arguments', arg_cases, check_args, 400, shards=1,
         rule='spellings of the id= and timer= arguments; every case counts'),
    Prop('histories', cases, check, 40000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: 'from cache' in l and 'rerendered' in l and (
             'region' in l or 'cph' in l),
         rule='templates with cached placeholders and regions (timer, test, '
              'varyBy, id; in methods and loops), histories of up to 13 '
              'renders of two instances, value changes, failures, clock '
              'advances and refreshes; non-trivial = some render used '
              'stored text only and some rendered a cached part'),
]
