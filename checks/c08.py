"""C08: the cache stores honour the memcached contract."""
import sys
import types

from vlib.core import Prop, same
from vlib.clock import Clock
from Cheetah import CacheStore

KEYS = ['k', 'kk', '', 'a b', '\xe9', 'K', '0']
VALUES = ['', 'v', 'w' * 3, '\xe9\u20ac', 0, None, ('x',), 'last']


class Key(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Key(%d)' % self.n


def cases(d):
    nk = d.i(1, 3)
    keys = [d.i(0, len(KEYS) - 1) for _ in range(nk)]

    def op():
        k = d.i(0, 11)
        key = d.pick(keys)
        if k <= 5:
            name = d.pick(['set', 'add', 'replace'])
            # expiry: 0 = never, otherwise relative to the clock
            return (name, key, d.i(0, len(VALUES) - 1),
                    d.pick([None, 0, 2, 5, 100, -1]))
        if k <= 8:
            return ('get', key)
        if k == 9:
            return ('delete', key)
        if k == 10:
            return ('advance', d.pick([1, 3, 7, 200]))
        return ('clear',)
    return (d.i(0, 3), d.list(op, 1, 14))


class Model(object):
    """memcached: entries vanish at their expiry time"""

    def __init__(self, clock):
        self.clock = clock
        self.d = {}

    def live(self, k):
        if k in self.d:
            v, exp = self.d[k]
            if not exp or self.clock.now <= exp:
                return True
        return False

    def set(self, k, v, time=0):
        self.d[k] = (v, time)

    def add(self, k, v, time=0):
        if self.live(k):
            raise CacheStore.Error()
        self.d[k] = (v, time)

    def replace(self, k, v, time=0):
        if not self.live(k):
            raise CacheStore.Error()
        self.d[k] = (v, time)

    def get(self, k):
        if not self.live(k):
            raise KeyError(k)
        return self.d[k][0]

    def delete(self, k):
        if not self.live(k):
            raise KeyError(k)
        del self.d[k]

    def clear(self):
        self.d.clear()


class StandInClient(object):
    """What python-memcached's Client does, on a Model."""
    clock = None

    def __init__(self, servers, debug=0):
        self.m = Model(StandInClient.clock)

    def _do(self, f, *a):
        try:
            f(*a)
            return True
        except (CacheStore.Error, KeyError):
            return 0

    def set(self, k, v, time=0):
        return self._do(self.m.set, k, v, time)

    def add(self, k, v, time=0):
        return self._do(self.m.add, k, v, time)

    def replace(self, k, v, time=0):
        return self._do(self.m.replace, k, v, time)

    def delete(self, k, time=0):
        return self._do(self.m.delete, k)

    def get(self, k):
        try:
            return self.m.get(k)
        except KeyError:
            return None

    def flush_all(self):
        self.m.clear()


def run(store, name, args, kw):
    try:
        return ('ok', getattr(store, name)(*args, **kw))
    except CacheStore.Error:
        return ('exc', 'Error')
    except KeyError:
        return ('exc', 'KeyError')


def check(c):
    which, ops = c
    memcached = which == 3
    labs = ['memcached' if memcached else 'memory']
    with Clock() as clock:
        if memcached:
            mod = types.ModuleType('memcache')
            mod.Client = StandInClient
            StandInClient.clock = clock
            saved = sys.modules.get('memcache')
            sys.modules['memcache'] = mod
            try:
                store = CacheStore.MemcachedCacheStore(['x:1'])
            finally:
                del sys.modules['memcache']
                if saved is not None:
                    sys.modules['memcache'] = saved
        else:
            store = CacheStore.MemoryCacheStore()
        other = CacheStore.MemoryCacheStore()
        other.set('k', 'other store')
        model = Model(clock)
        for i, op in enumerate(ops):
            if op[0] == 'advance':
                clock.now += op[1]
                continue
            if [1 for v, e in model.d.values() if e == clock.now]:
                clock.now += 0.25    # never exactly at an expiry time
            kw, args = {}, ()
            if op[0] != 'clear':
                args = (KEYS[op[1]],)
            if op[0] in ('set', 'add', 'replace'):
                v = VALUES[op[2]]
                if memcached and v is None:
                    v = 'none'
                args += (v,)
                if op[3] is not None:
                    kw['time'] = op[3] and clock.now + op[3]
                    if op[3] == -1:
                        labs.append('born expired')
            exp = run(model, op[0], args, kw)
            got = run(store, op[0], args, kw)
            same(got, exp, 'operation %d (%s%r %r) of %r' % (
                i, op[0], args, kw, ops))
            if exp[0] == 'exc':
                labs.append(op[0] + ' refused')
            elif op[0] == 'get':
                if got[1] is not exp[1]:
                    same(got[1], exp[1], 'value')
                labs.append('hit')
        # every key at the end
        for k in KEYS:
            same(run(store, 'get', (k,), {}), run(model, 'get', (k,), {}),
                 'get(%r) after %r' % (k, ops))
        same(other.get('k'), 'other store', 'another store was changed')
    return labs


PROPS = [
    Prop('histories', cases, check, 40000, shards=4,
         nontrivial=lambda c, l: len(l) > 1,
         rule='histories of up to 14 store operations on 1-3 keys with clock '
              'advances, on the memory store and on the memcached wrapper '
              'over a stand-in client; non-trivial = at least one hit, '
              'refusal or expiry'),
]
