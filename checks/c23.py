"""C23: variables live in the scope their directive gives them.

A few names are used in every namespace at once, by several methods of
several instances over a history of renders, and every read is predicted by
a model with explicit namespaces.
"""
import operator

from vlib.core import Prop, Skip, Violation, same
from vlib import tm

NAMES = ['x', 'y', 'zed', 'localx', 'global_y', 'modulez', 'setx', 'x1']
assert len(NAMES) == 8
CONSTS = {'O_RDONLY': 0, 'O_WRONLY': 1, 'O_RDWR': 2}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '//': operator.floordiv, '%': operator.mod, '|': operator.or_,
       '&': operator.and_, '^': operator.xor, '<<': operator.lshift,
       '>>': operator.rshift, '**': operator.pow, '/': operator.truediv}
OPN = sorted(OPS)
METHODS = ['m0', 'm1', 'm2']


# ------------------------------------------------------------- generation
def name(d):
    return NAMES[min(d.i(0, 11), 7) if d.chance(3) else d.i(0, 2)]


def expr(d):
    """An integer, or a name plus an integer."""
    if d.chance(2):
        return ('int', d.i(0, 9))
    return ('plus', name(d), d.i(0, 9))


def ops(d, k, depth=2, n=None):
    out = []
    for _ in range(d.i(0, 6) if n is None else n):
        c = d.i(0, 27)
        sp = d.i(0, 5)
        if c <= 5:
            out.append(('read', name(d), d.i(0, 6)))
        elif c <= 8:
            out.append(('set', name(d), expr(d), sp))
        elif c <= 10:
            out.append(('gset', name(d), expr(d), sp))
        elif c == 11:
            out.append(('aug', name(d), d.pick(OPN), d.i(1, 3)))
        elif c == 12:
            out.append(('gaug', name(d), d.pick(OPN), d.i(1, 3)))
        elif c == 13:
            out.append((d.pick(['tuple', 'gtuple']),
                        [name(d) for _ in range(d.i(2, 3))],
                        d.i(0, 9), d.i(0, 3)))
        elif c == 14:
            out.append(('del', name(d)))
        elif c == 15:
            out.append(('selfset', name(d), d.i(0, 9)))
        elif c == 16 and depth:
            out.append(('for', name(d), d.i(0, 3), ops(d, k, depth - 1)))
        elif c == 17 and depth:
            out.append(('if', d.i(0, 1), ops(d, k, depth - 1)))
        elif c <= 19 and depth:
            out.append(('try', ops(d, k, depth - 1)))
        elif c == 20:
            out.append(('comp', name(d), d.i(0, 3)))
        elif c <= 23 and k < len(METHODS):
            out.append(('call', d.i(k, len(METHODS) - 1),
                        d.pick([None, None, 0, 7]), d.i(0, 2)))
        elif c == 24:
            out.append(('local', d.pick('LD'), d.i(0, 5)))
        elif c == 25:
            out.append(('item', d.pick('LD'), d.i(0, 2), d.pick(
                ['', '', '+', '*', '-']), d.i(0, 9)))
        elif c == 26 and depth:
            out.append(('capture', 'cap', ops(d, k, depth - 1)))
        else:
            out.append(('getvar', name(d)))
    return out


def modules(d):
    out = [(d.pick(['set', 'set', 'imp', 'imp2', 'aug']), name(d),
            d.pick(sorted(CONSTS)), d.i(0, 9) if d.chance(2) else d.i(0, 1),
            d.i(-1, 2)) for _ in range(d.i(0, 5) if d.chance(2)
                                       else d.i(0, 2))]
    if out and d.chance(3):
        # the same line once more
        x = d.pick(out)
        out.append(x[:4] + (d.i(x[4], 2),))
    # augment only what is there
    imps = {x[1] for x in out if x[0] in ('imp', 'imp2')}
    seen = set(imps)
    keep = set()
    for i in sorted(range(len(out)), key=lambda i: out[i][4]):
        if out[i][0] != 'aug' or out[i][1] in seen:
            keep.add(i)
            seen.add(out[i][1])
    return [x for i, x in enumerate(out) if i in keep]


def case(d):
    return dict(
        mods=modules(d),
        attrs=[(name(d), d.i(0, 9) if d.chance(2) else d.i(0, 1),
                d.chance(2), d.i(-1, 2)) for _ in range(d.i(0, 4))],
        params=[d.pick([None, None, name(d)]) for _ in METHODS],
        bodies=[ops(d, 0)] + [ops(d, i + 1) for i in range(len(METHODS))],
        sl=[(d.pick(['dict', 'obj']),
             [(name(d), d.i(0, 9)) for _ in range(d.i(0, 4))])
            for _ in range(d.i(0, 3))],
        hist=d.list(lambda: (d.i(0, 1), d.pick(
            ['render', 'render', 'm0', 'm1', 'm2', 'mutate', 'new', 'slset']),
            name(d), d.i(0, 9)), 1, 6),
        kw=d.chance(3))


# ---------------------------------------------------------------- source
def spell(sp, n):
    return '$' + n if sp % 2 == 0 else n


def e_src(e):
    return str(e[1]) if e[0] == 'int' else '$%s + %d' % (e[1], e[2])


def emit(body, params, out):
    for o in body:
        k = o[0]
        if k == 'read':
            n = o[1]
            out.append(['($!%s)\n', '(${%s})\n', '#try#($%s)#except '
                        'Exception#-#end try#\n', '($!{%s})\n',
                        '#try\n#echo $%s\n#except Exception\n-\n#end try\n',
                        '<%%= VFFSL(SL, "%s", True) %%>\n', '#if $%s > 4 '
                        'then 1 else 0\n'][o[2]] % n)
        elif k == 'set':
            out.append('#set %s%s = %s\n' % (
                'local ' if o[3] >= 4 else '', spell(o[3], o[1]),
                e_src(o[2])))
        elif k == 'gset':
            out.append('#set global %s = %s\n' % (spell(o[3], o[1]),
                                                  e_src(o[2])))
        elif k == 'aug':
            out.append('#set $%s %s= %d\n' % o[1:])
        elif k == 'gaug':
            out.append('#set global $%s %s= %d\n' % o[1:])
        elif k in ('tuple', 'gtuple'):
            t = ', '.join(spell(o[3], x) for x in o[1])
            if o[3] >= 2:
                t = '(%s)' % t
            out.append('#set %s%s = %s\n' % (
                'global ' if k == 'gtuple' else '', t,
                ', '.join(str(o[2] + i) for i in range(len(o[1])))))
        elif k == 'del':
            out.append('#del $%s\n' % o[1])
        elif k == 'selfset':
            out.append('#set $self.%s = %d\n' % o[1:])
        elif k == 'for':
            out.append('#for $%s in range(%d)\n' % o[1:3])
            emit(o[3], params, out)
            out.append('.\n#end for\n')
        elif k == 'if':
            out.append('#if %d\n' % o[1])
            emit(o[2], params, out)
            out.append('.\n#end if\n')
        elif k == 'try':
            out.append('#try\n')
            emit(o[1], params, out)
            out.append('.\n#except Exception\n!\n#end try\n')
        elif k == 'comp':
            out.append('$sum([$%s + 1 for $%s in range(%d)])\n' % (
                o[1], o[1], o[2]))
        elif k == 'call':
            p = params[o[1]]
            a = '' if o[2] is None or p is None else (
                str(o[2]) if o[3] else '%s=%d' % (p, o[2]))
            m = METHODS[o[1]]
            out.append('[$%s(%s)]\n' % (m, a) if o[3] < 2 else
                       '[$self.%s(%s)]\n' % (m, a))
        elif k == 'local':
            out.append('#set $%s = %s\n' % (o[1], {
                'L': '[%d, 1, 2]' % o[2],
                'D': "{0: %d, 1: 1, 2: 2}" % o[2]}[o[1]]))
        elif k == 'item':
            out.append('#set $%s[%d] %s= %d\n$%s\n' % (o[1:] + (o[1],)))
        elif k == 'capture':
            out.append('#capture %s\n' % o[1])
            emit(o[2], params, out)
            out.append('.\n#end capture\n<$%s>\n' % o[1])
        else:
            out.append('$getVar("%s", "no") $varExists("%s")\n' % (
                o[1], o[1]))


def source(c):
    bodies = []
    for b in c['bodies']:
        out = []
        emit(b, c['params'], out)
        bodies.append(out)

    def decl(where):
        s = ''
        for kind, n, const, v, at in c['mods']:
            if at == where:
                s += {'set': '#set module $%s = %d\n' % (n, v),
                      'aug': '#set module $%s += %d\n' % (n, v),
                      'imp': '#from os import %s as %s\n' % (const, n),
                      'imp2': '#from os import %s as unused, %s as %s\n' % (
                          const, const, n)}[kind]
        for n, v, dollar, at in c['attrs']:
            if at == where:
                s += '#attr %s%s = %d\n' % ('$' if dollar else '', n, v)
        return s
    src = decl(-1) + ''.join(bodies[0])
    for i, m in enumerate(METHODS):
        p = c['params'][i]
        src += '#def %s%s\n%s%s.\n#end def\n' % (
            m, '(%s=5)' % p if p else '', decl(i), ''.join(bodies[i + 1]))
    return src


# ----------------------------------------------------------------- model
class Unbound(Exception):
    pass


class NotFound(Exception):
    pass


class Model:
    def __init__(self, c):
        self.c = c
        self.module = {}
        # in the order of the source; imports come first
        order = [x for at in range(-1, 3) for x in c['mods'] if x[4] == at]
        for kind, n, const, v, _ in order:
            if kind in ('imp', 'imp2'):
                self.module[n] = CONSTS[const]
        for kind, n, const, v, _ in order:
            if kind == 'set':
                self.module[n] = v
            elif kind == 'aug':
                self.module[n] += v
        self.attrs = {}
        for at in range(-1, 3):
            for n, v, _, a in c['attrs']:
                if a == at:
                    self.attrs[n] = v

    def instance(self):
        return {'gsv': {}, 'own': {},
                'sl': [dict(items) for _, items in self.c['sl']]}

    def spaces(self, inst):
        return [inst['gsv'], inst['own'], self.attrs] + inst['sl']

    def lookup(self, inst, loc, n):
        for s in [loc] + self.spaces(inst) + [self.module]:
            if n in s:
                return s[n]
        raise NotFound(n)

    def ev(self, inst, loc, e):
        if e[0] == 'int':
            return e[1]
        return self.lookup(inst, loc, e[1]) + e[2]

    def call(self, inst, k, arg=None):
        loc = {}
        out = []
        if k >= 0 and self.c['params'][k]:
            loc[self.c['params'][k]] = 5 if arg is None else arg
        self.run(inst, loc, self.c['bodies'][k + 1], out)
        if k >= 0:
            out.append('.\n')
        return ''.join(out)

    def run(self, inst, loc, body, out):
        for o in body:
            self.steps += 1
            if self.steps > 3000:
                raise Skip()
            self.one(inst, loc, o, out)

    def op(self, f, a, b):
        if isinstance(a, int) and abs(a) > 10 ** 6:
            raise Skip()
        return OPS[f](a, b)

    def one(self, inst, loc, o, out):
        k = o[0]
        if k == 'read':
            try:
                v = self.lookup(inst, loc, o[1])
            except NotFound:
                if o[2] in (0, 3):
                    out.append('()\n')
                elif o[2] in (2, 4):
                    # text already written stays
                    out.append('(-\n' if o[2] == 2 else '-\n')
                else:
                    if o[2] == 1:
                        out.append('(')
                    raise
            else:
                out.append('%s' % v if o[2] == 4 else
                           '%s\n' % v if o[2] == 5 else
                           '%d' % (v > 4) if o[2] == 6 else '(%s)\n' % v)
        elif k == 'set':
            loc[o[1]] = self.ev(inst, loc, o[2])
        elif k == 'gset':
            inst['gsv'][o[1]] = self.ev(inst, loc, o[2])
        elif k == 'aug':
            if o[1] not in loc:
                raise Unbound()
            loc[o[1]] = self.op(o[2], loc[o[1]], o[3])
        elif k == 'gaug':
            inst['gsv'][o[1]] = self.op(o[2], inst['gsv'][o[1]], o[3])
        elif k in ('tuple', 'gtuple'):
            for i, n in enumerate(o[1]):
                (loc if k == 'tuple' else inst['gsv'])[n] = o[2] + i
        elif k == 'del':
            if o[1] not in loc:
                raise Unbound()
            del loc[o[1]]
        elif k == 'selfset':
            inst['own'][o[1]] = o[2]
        elif k == 'for':
            for i in range(o[2]):
                loc[o[1]] = i
                self.run(inst, loc, o[3], out)
                out.append('.\n')
        elif k == 'if':
            if o[1]:
                self.run(inst, loc, o[2], out)
                out.append('.\n')
        elif k == 'try':
            try:
                self.run(inst, loc, o[1], out)
                out.append('.\n')
            except Skip:
                raise
            except Exception:
                out.append('!\n')
        elif k == 'comp':
            out.append('%d\n' % sum(i + 1 for i in range(o[2])))
        elif k == 'call':
            p = self.c['params'][o[1]]
            out.append('[')
            out.append(self.call(inst, o[1], o[2] if p else None))
            out.append(']\n')
        elif k == 'local':
            loc[o[1]] = [o[2], 1, 2] if o[1] == 'L' else {
                0: o[2], 1: 1, 2: 2}
        elif k == 'item':
            if o[1] not in loc:
                raise Unbound()
            if o[3]:
                loc[o[1]][o[2]] = self.op(o[3], loc[o[1]][o[2]], o[4])
            else:
                loc[o[1]][o[2]] = o[4]
            out.append('%s\n' % (loc[o[1]],))
        elif k == 'capture':
            mine = []
            self.run(inst, loc, o[2], mine)
            mine.append('.\n')
            loc[o[1]] = ''.join(mine)
            out.append('<%s>\n' % loc[o[1]])
        else:
            for s in self.spaces(inst):
                if o[1] in s:
                    out.append('%s True\n' % s[o[1]])
                    break
            else:
                out.append('no False\n')


class Obj(object):
    pass


def real_sl(c):
    out = []
    for kind, items in c['sl']:
        if kind == 'dict':
            out.append(dict(items))
        else:
            o = Obj()
            for n, v in items:
                setattr(o, n, v)
            out.append(o)
    return out


def check(c):
    src = source(c)
    m = Model(c)
    try:
        cls = tm.compile_(src)
    except Exception as e:
        raise Violation('valid template rejected: %s\n%s' % (e, src))
    insts = [cls(searchList=real_sl(c)) for _ in range(2)]
    models = [m.instance() for _ in range(2)]
    labs = set()
    for step, (i, what, n, v) in enumerate(c['hist']):
        m.steps = 0
        if what == 'new':
            insts[i], models[i] = cls(searchList=real_sl(c)), m.instance()
            continue
        if what == 'mutate':
            if c['sl']:
                sl = insts[i].searchList()[2]
                if isinstance(sl, dict):
                    sl[n] = v
                else:
                    setattr(sl, n, v)
                models[i]['sl'][0][n] = v
            continue
        if what == 'slset':
            insts[i].setVars({n: v}) if hasattr(insts[i], 'setVars') \
                else setattr(insts[i], n, v)
            models[i]['own'][n] = v
            continue
        k = -1 if what == 'render' else int(what[1])
        if k < 0:
            got = tm.outcome(insts[i].respond)
        else:
            got = tm.outcome(getattr(insts[i], what))
        try:
            exp = ('ok', m.call(models[i], k))
        except Skip:
            raise
        except Exception as e:
            exp = ('exc', {'Unbound': 'NameError'}.get(
                type(e).__name__, type(e).__name__))
            got = (got[0], {'UnboundLocalError': 'NameError'}.get(
                got[1], got[1]))
        same(got, exp, 'step %d (%s of instance %d) of %r\ntemplate %s' % (
            step, what, i, c['hist'], src))
        labs.add(exp[0])
    for b in c['bodies']:
        for o in b:
            labs.add(o[0])
    return sorted(labs)


# ---------------------------------------------------------------- targets
# attribute and item targets of any depth

KEYS = ['k', 'a.b', 'x[0]', 'p,q', 1, (0, 1), '=', 'l:m', ' ']
INDEX = [0, 1, -1, '$ix.zero', '$ix.seq[1]', '$ixs[0]', '0 + 1']


class Obj(object):
    """An object with any attributes, shown in full."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __matmul__(self, n):
        return Obj(at=n, **self.__dict__ if 'at' not in self.__dict__ else {})

    def __repr__(self):
        return 'Obj(%s)' % ', '.join(
            '%s=%r' % i for i in sorted(self.__dict__.items()))


def gen_value(d, depth):
    k = d.i(0, 3) if depth else 0
    if k == 1:
        return ('obj', [(n, gen_value(d, depth - 1))
                        for n in (d.sub(['n', 'b', 'c_1']) or ['n'])])
    if k == 2:
        return ('list', [gen_value(d, depth - 1) for _ in range(2)])
    if k == 3:
        return ('dict', [(n, gen_value(d, depth - 1))
                         for n in (d.sub(KEYS) or ['k'])[:3]])
    return ('int', d.i(1, 9))


def value_src(v):
    if v[0] == 'int':
        return '%d' % v[1]
    if v[0] == 'obj':
        return 'Obj(%s)' % ', '.join(
            '%s=%s' % (n, value_src(x)) for n, x in v[1])
    if v[0] == 'list':
        return '[%s]' % ', '.join(value_src(x) for x in v[1])
    return '{%s}' % ', '.join(
        '%r: %s' % (n, value_src(x)) for n, x in v[1])


def gen_targets(d):
    names = d.sub(['va', 'vb', 'in_x', 'global_v', 'modulev', 'module',
                   'local'])[:3] or ['va']
    kind = d.pick(['global', 'global', 'local', '', 'module', 'self.'])
    shapes = [(n, gen_value(d, 3)) for n in names]
    steps = []
    for _ in range(d.i(1, 5)):
        n, v = d.pick(shapes)
        path = []
        while v[0] != 'int' and (not path or d.i(0, 3)):
            if v[0] == 'list':
                path.append(('i', d.pick(INDEX), d.pick(['', '', ' '])))
                v = v[1][0 if d.chance(2) else 1]
            elif v[0] == 'obj':
                a, v = d.pick(v[1])
                path.append(('a', a))
            else:
                a, v = d.pick(v[1])
                path.append(('k', a, d.pick(['', '', ' '])))
        op = d.pick(['=', '=', '+=', '-=', '*=', '//=', '|=', '@=', '@=',
                     '**=', '%=', '&=', '^=', '<<=', '>>=', '/='])
        steps.append((n, path, op, d.i(1, 2 if op == '**=' else 9),
                      d.chance(2)))
    return {'kind': kind, 'shapes': shapes, 'steps': steps,
            'tight': d.chance(3)}


def target(name, path, source):
    t = name
    for p in path:
        if p[0] == 'a':
            t += '.' + p[1]
        elif p[0] == 'i':
            x = str(p[1])
            t += '[%s%s%s]' % (p[2], x if source else x.replace('$', ''),
                               p[2])
        else:
            t += '[%s%r%s]' % (p[2], p[1], p[2])
    return t


def check_targets(c):
    kind = c['kind']
    # what Python does
    env = {'Obj': Obj, 'ix': Obj(zero=0, seq=[0, 1]), 'ixs': [1]}
    for n, v in c['shapes']:
        exec('%s = %s' % (n, value_src(v)), env)
    steps = []
    for n, path, op, val, dollar in c['steps']:
        try:
            exec('%s %s %d' % (target(n, path, False), op, val), env)
        except (TypeError, AttributeError, KeyError, IndexError):
            continue    # not for that type; has no effect
        steps.append((n, path, op, val, dollar))
    if not steps:
        raise Skip()
    exp = ';'.join(repr(env[n]) for n, _ in c['shapes'])
    # what Cheetah does
    word = '' if kind in ('', 'self.') else kind + ' '
    pre = kind if kind == 'self.' else ''
    sep = '' if c['tight'] else ' '
    decl = word if kind == 'module' else ''
    src = '#from checks.c23 import Obj\n' \
        '#set %s$ix = Obj(zero=0, seq=[0, 1])\n#set %s$ixs = [1]\n' % (
            decl, decl)
    for n, v in c['shapes']:
        src += '#set %s$%s%s%s=%s%s\n' % (word, pre, n, sep, sep,
                                          value_src(v))
    for n, path, op, val, dollar in steps:
        src += '#set %s%s%s%s%s%s%d\n' % (
            word, '$' if dollar or n in ('module', 'local') and (
                path or op != '=') and not word + pre else '', pre + target(n, path, True), sep,
            op, sep, val)
    src += ';'.join('$repr($%s%s)' % (pre, n) for n, _ in c['shapes'])
    got = tm.must(lambda: tm.render(src), 'rendering', src)
    same(got, exp, 'variables after the assignments', src)
    return ['kind ' + (kind or 'plain'),
            'depth%d' % max(len(x[1]) for x in steps)]


PROPS = [
    Prop('scopes', case, check, 24000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: 'ok' in l and len(l) >= 6,
         rule='eight names used as local, global, module, imported, class '
              'attribute, instance attribute, parameter and searchList '
              'variables at once, over four methods, two instances and up '
              'to six renders; non-trivial = a render succeeds and five '
              'kinds of operation occur'),
    Prop('targets', gen_targets, check_targets, 4000,
         nontrivial=lambda c, l: 'depth0' not in l,
         rule='at least one target has an attribute or subscript'),
]
