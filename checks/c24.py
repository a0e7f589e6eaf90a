"""C24: template methods take arguments and return text like Python functions.

The oracle is a Python function with the same parameter list, which returns
the arguments it was given.
"""
import copy
import sys
import types

from vlib.core import Prop, Skip, Violation, same
from vlib import tm

# ------------------------------------------------------------- decorators
deco = types.ModuleType('verif_c24_deco')


def _shout(f):
    def g(*a, **k):
        return f(*a, **k).upper()
    return g


def _wrap(a, b='>'):
    def d(f):
        def g(*x, **k):
            return '%s%s%s' % (a, f(*x, **k), b)
        return g
    return d


def _twice(f):
    def g(*a, **k):
        return f(*a, **k) + f(*a, **k)
    return g


class _Desc:
    def __init__(self, f):
        self.f = f

    def __get__(self, obj, cls):
        def g(*a, **k):
            return self(obj, *a, **k)
        return g

    def __call__(self, *a, **k):
        return '~' + self.f(*a, **k)


deco.shout, deco.wrap, deco.twice, deco.desc = _shout, _wrap, _twice, _Desc
sys.modules['verif_c24_deco'] = deco
DECOS = {
    'shout': ('@shout', lambda t: t.upper()),
    'wrap': ("@wrap('<')", lambda t: '<' + t + '>'),
    'wrap2': ("@wrap('(', b=')')", lambda t: '(' + t + ')'),
    'wrap#': ("@wrap('[#', '#]')", lambda t: '[#' + t + '#]'),
    'twice': ('@twice', lambda t: t + t),
    'dotted': ('@verif_c24_deco.shout', lambda t: t.upper()),
    'desc': ('@desc', lambda t: '~' + t),
}
KINDS = sorted(DECOS)

VALUES = ['0', '1', '-1', "'s'", "'x,y'", "')'", '"("', 'None', '[1, 2]',
          "{'k': 1}", '(1, 2)', '()', '1.5', 'True', "'it\\'s'", '"q=1"',
          '1 + 2', 'max(1, 2)', "'a' 'b'", '1 if 0 else 2', 'not 1',
          '[1, 2][0]', "{'k': [1]}['k']", "'#'", "'$a'", "''", "'a:b'",
          'dict(x=1)', '"""t"""', '1 < 2', '[i for i in (1, 2)]', "'\\\\'",
          '1\tif\t0\telse\t2', 'not\t1', '1\tor 2', '3  if 1 else\t4']
# values given at call sites ($ is placeholder syntax there)
ARGS = ['0', '1', '2', '-1', "'s'", "'x,y'", "')'", 'None', '[1, 2]',
        "{'k': 1}", '(1, 2)', '1.5', '1 + 2', '$v', '$v + 1', "$d['k']",
        '$d.k', '$max($v, 9)', '$l', '[$v, $v]', '(lambda z: z)(3)',
        "'%s' % $v", '$v == 3', 'not $v', "''", '$fn', '$fn()']
NS = {'v': 3, 'd': {'k': 'dv'}, 'l': [7, 8], 'dd': {'a': 11, 'zz': 12},
      'fn': None}
PNAMES = ['a', 'b', 'c', 'e', 'long_name']


def fn():
    return 'called'


def signature(d):
    n = d.i(0, 4)
    names = PNAMES[:n] if d.chance(2) else d.shuffle(PNAMES)[:n]
    ndef = d.i(0, n)
    pos = [(x, d.pick(VALUES) if i >= n - ndef else None)
           for i, x in enumerate(names)]
    star = d.pick([None, None, None, 'rest'])
    kwonly = []
    if star:
        for x in ('ko', 'kp')[:d.i(0, 2)]:
            kwonly.append((x, d.pick(VALUES) if d.chance(2) else None))
    return dict(pos=pos, star=star, kwonly=kwonly,
                kw=d.pick([None, None, None, 'kw']),
                sp=d.i(0, 5), lead=d.chance(6))


def call(d, s, depth=1):
    """Arguments of a call: mostly right, sometimes not."""
    names = [p[0] for p in s['pos']]
    args, kws = [], []
    npos = d.i(0, len(names))
    if d.chance(6):
        npos += d.i(1, 2)

    def arg():
        if depth and d.chance(8):
            return ('call', call(d, s, depth - 1))
        return d.pick(ARGS)
    for _ in range(npos):
        args.append(arg())
    for x in names[npos:]:
        i = names.index(x)
        if s['pos'][i][1] is None and not d.chance(12) or d.chance(3):
            kws.append((x, arg()))
    for x, dv in s['kwonly']:
        if dv is None and not d.chance(12) or d.chance(3):
            kws.append((x, arg()))
    if d.chance(6):
        kws.append((d.pick(['zz', 'q'] + names), arg()))
    if s['kw'] and d.chance(2):
        kws.append(('extra', arg()))
    if d.chance(3):
        kws = d.shuffle(kws)
    return dict(args=args, kws=kws,
                star=d.pick([None] * 5 + ['$l', '()', '[1]']),
                dstar=d.pick([None] * 6 + ['$dd', "{'zz': 1}"]),
                sp=d.i(0, 2))


SITES = ['ph', 'self', 'brace', 'echo', 'set', 'len', 'python', 'silent',
         'indef', 'concat', 'if', 'super']


def case(d):
    s = signature(d)
    kind = d.wpick([(8, 'def'), (2, 'short'), (2, 'static'), (2, 'class'),
                    (2, 'nested'), (2, 'closure'), (3, 'deco')])
    return dict(sig=s, kind=kind,
                decos=[d.pick(KINDS) for _ in range(d.i(1, 2))],
                body=d.wpick([(5, 'show'), (2, 'return'), (1, 'stop'),
                              (1, 'mutate'), (1, 'early')]),
                calls=[(d.pick(SITES), call(d, s))
                       for _ in range(d.i(1, 4))],
                where=d.i(0, 2), eol=d.pick(['\n', '\n', '\r\n']))


# ----------------------------------------------------------------- source
def sig_src(s, template):
    dollar = '$' if template and s['sp'] & 1 else ''
    eq = ' = ' if s['sp'] & 2 else '='
    sep = [', ', ',', ' ,\n  ' if s['sp'] & 4 else '\f,\f'][s['sp'] % 3]
    out = ['self'] if s['lead'] and template else []
    for n, v in s['pos']:
        out.append(dollar + n + ('' if v is None else eq + v))
    if s['star']:
        out.append('*' + s['star'])
    for n, v in s['kwonly']:
        out.append(dollar + n + ('' if v is None else eq + v))
    if s['kw']:
        out.append('**' + s['kw'])
    return sep.join(out)


def params(s):
    out = [p[0] for p in s['pos']]
    if s['star']:
        out.append(s['star'])
    out += [p[0] for p in s['kwonly']]
    if s['kw']:
        out.append(s['kw'])
    return out


def args_src(c):
    out = []
    for a in c['args']:
        out.append('$f(%s)' % args_src(a[1]) if isinstance(a, tuple) else a)
    if c['star']:
        out.append('*' + c['star'])
    for n, a in c['kws']:
        a = '$f(%s)' % args_src(a[1]) if isinstance(a, tuple) else a
        out.append('%s%s%s' % (n, ['=', ' = ', '= '][c['sp']], a))
    if c['dstar']:
        out.append('**' + c['dstar'])
    return [', ', ',', ' ,\n '][c['sp']].join(out)


def duplicate(c):
    seen = [n for n, _ in c['kws']]
    if len(set(seen)) != len(seen):
        return True       # a SyntaxError, as in Python
    return any(isinstance(a, tuple) and duplicate(a[1])
               for a in list(c['args']) + [x[1] for x in c['kws']])


def template(c):
    s = c['sig']
    ps = params(s)
    show = ''.join('%s=${%s};' % (p, p) for p in ps) + '|'
    kind = c['kind']
    body = c['body']
    if kind in ('closure', 'short', 'deco', 'static', 'class', 'nested') \
            and not (kind == 'deco' and body == 'stop'):
        body = 'show'
    if body == 'return' or body == 'early':
        rv = '(%s)' % ''.join('$%s, ' % p for p in ps) if ps else '0'
    text = {
        'show': show,
        'return': 'lost\n#return %s\n' % (rv if body == 'return' else ''),
        'stop': show + '#stop\nlost',
        'early': 'lost#if 1\n#return %s\n#end if\nlost\n' % (
            rv if body == 'early' else ''),
        'mutate': ''.join(
            '#if $isinstance($%s, $list)\n#silent $%s.append(9)\n#end if\n'
            % (p, p) for p in ps if p != s['star']) + show,
    }[body]
    short = kind in ('closure', 'nested') and s['sp'] & 4
    if kind != 'short' and not short and not text.endswith('\n'):
        text += '#slurp\n'
    sig = sig_src(s, True)
    if kind == 'short':
        d = '#def f(%s): %s\n' % (sig, text)
    elif kind == 'nested':
        d = None
    elif kind == 'closure':
        d = ('#closure f(%s): %s\n' if short else
             '#closure f(%s)\n%s#end closure\n') % (sig, text)
    else:
        head = {'static': '#@staticmethod\n', 'class': '#@classmethod\n',
                'deco': ''.join('#%s\n' % DECOS[k][0] for k in c['decos'])
                }.get(kind, '')
        if not ps and s['sp'] & 1:
            sig = ''
            d = '%s#def f\n%s#end def\n' % (head, text)
        else:
            d = '%s#def $f(%s)\n%s#end def\n' % (head, sig, text) \
                if s['sp'] & 2 else \
                '%s#def f(%s)\n%s#end def\n' % (head, sig, text)
    calls = []
    for i, (site, a) in enumerate(c['calls']):
        x = args_src(a)
        if kind in ('closure', 'nested') and site in (
                'len', 'set', 'concat', 'if', 'indef', 'self', 'python',
                'super', 'echo'):
            site = 'ph'
        pre = '#try\n'
        t = {
            'ph': '$f(%s)' % x, 'self': '$self.f(%s)' % x,
            'brace': '${f(%s)}' % x, 'echo': '#echo $f(%s)#' % x,
            'set': '#set $q = $f(%s)#$q' % x,
            'len': "${len($str($f(%s)))}" % x, 'silent': '#silent $f(%s)#' % x,
            'indef': '$g%d()' % i, 'concat': "${'<' + $str($f(%s)) + '>'}" % x,
            'if': '#if $f(%s)#T#else#F#end if#' % x,
            'python': '', 'super': '$up($str($f(%s)))' % x,
        }[site]
        if site == 'python':
            continue
        if site == 'indef':
            calls.append(('def', '#def g%d\n$f(%s)#slurp\n#end def\n' % (i, x)))
        calls.append(('text', '%s%s\n#except TypeError\nTE\n#end try\n'
                      % (pre, t)))
    body = ''.join(t for k, t in calls if k == 'text')
    defs = ''.join(t for k, t in calls if k == 'def')
    head = '#import verif_c24_deco\n' \
        '#from verif_c24_deco import shout, wrap, twice, desc\n'
    if kind == 'nested':
        src = head + '#def outer\n%s%s#end def\n$outer()' % (
            ('#def f(%s): %s\n' if short else
             '#def f(%s)\n%s#end def\n') % (sig, text), body)
    elif kind == 'closure':
        src = head + d + body
    else:
        src = head + [d + body + defs, body + defs + d, defs + d + body][
            c['where']]
    return src.replace('\n', c['eol']) if c['eol'] != '\n' else src, body_kind(
        c)


def body_kind(c):
    if c['kind'] in ('closure', 'short', 'static', 'class', 'nested'):
        return 'show'
    if c['kind'] == 'deco' and c['body'] != 'stop':
        return 'show'
    return c['body']


# ----------------------------------------------------------------- oracle
def text(v, none=''):
    return none if v is None else str(v)


def python_args(c, f, none):
    ns = f.ns

    def ev(a):
        if isinstance(a, tuple):
            return python_call(a[1], f, none)
        # $x is x, and a function is called when it is found
        return eval(a.replace('$fn()', 'fn()').replace('$fn', 'fn()')
                    .replace('$d.k', "d['k']").replace('$', ''), {}, ns)
    args = [ev(a) for a in c['args']]
    star = ev(c['star']) if c['star'] else ()
    kws = {}
    for n, a in c['kws']:
        kws[n] = ev(a)
    dstar = ev(c['dstar']) if c['dstar'] else {}
    return args + list(star), kws, dstar


def python_call(c, f, none):
    a, k, dd = python_args(c, f, none)
    return f(*a, **dict_merge(k, dd))


def dict_merge(k, dd):
    for n in dd:
        if n in k:
            raise TypeError(n)
    return dict(k, **dd)


def oracle(c, body):
    s = c['sig']
    ps = params(s)
    ns = {}
    # unknown keywords are ignored: every method takes them (for 'trans')
    hidden = '' if s['kw'] or c['kind'] in ('closure', 'nested') else \
        (', ' if ps else '') + '**_unknown'
    exec('def f(%s%s):\n return [%s]' % (
        sig_src(s, False).replace('\n', ' '), hidden,
        ', '.join('(%r, %s)' % (p, p) for p in ps)), ns)
    none = ''

    def f(*a, **k):
        got = ns['f'](*a, **k)
        if body in ('return', 'early'):
            return tuple(v for _, v in got) if got else 0
        if body == 'mutate':
            for p, v in got:
                if isinstance(v, list):
                    v.append(9)
        t = ''.join('%s=%s;' % (p, text(v, none)) for p, v in got) + '|'
        if c['kind'] == 'deco':
            for k in reversed(c['decos']):
                t = DECOS[k][1](t)
        return t
    f.ns = copy.deepcopy(dict(NS, fn=fn))
    return f


def expected(c, body, eol):
    f = oracle(c, body)
    out = []
    labs = set()
    n = '\r\n' if eol == '\r\n' else '\n'
    for site, a in c['calls']:
        if c['kind'] in ('closure', 'nested') and site in (
                'len', 'set', 'concat', 'if', 'indef', 'self', 'python',
                'super', 'echo'):
            site = 'ph'
        if site == 'python':
            continue
        try:
            r = python_call(a, f, None)
        except TypeError:
            out.append('TE' + n)
            labs.add('TypeError')
            continue
        labs.add('call')
        out.append({
            'len': lambda: str(len(str(r))), 'silent': lambda: '',
            'concat': lambda: '<' + str(r) + '>',
            'if': lambda: 'T' if r else 'F',
            'super': lambda: str(r).upper(),
        }.get(site, lambda: text(r))() + n)
    return ''.join(out), labs


def check(c):
    if any(duplicate(a) for _, a in c['calls']):
        raise Skip()
    if c['kind'] in ('closure', 'nested'):
        # written in place: calls in arguments would write before the call
        if any(nested(a) for _, a in c['calls']) or any(
                s == 'silent' for s, _ in c['calls']):
            raise Skip()
    src, body = template(c)
    try:
        cls = tm.compile_(src)
    except Exception as e:
        raise Violation('valid template rejected: %s: %s\n%s' % (
            type(e).__name__, e, src))
    exp, labs = expected(c, body, c['eol'])
    ns = dict(NS, fn=fn, up=lambda t: t.upper(),
              d={'k': 'dv'}, l=[7, 8], dd={'a': 11, 'zz': 12})
    t = cls(searchList=[ns])
    got = tm.outcome(t.respond)
    same(got, ('ok', exp), 'wrong output for template %s' % src)
    # and called from Python
    if c['kind'] not in ('closure', 'nested'):
        f, f2 = oracle(c, body), oracle(c, body)
        fs = [cls(searchList=[ns]).f]
        if c['kind'] in ('static', 'class'):
            fs.append(cls.f)
        if body == 'mutate':
            cls = tm.compile_(src)
            fs = [cls(searchList=[ns]).f]
        for site, a in c['calls']:
            if nested(a):
                continue
            for g in fs:
                args, kws, dd = python_args(a, f, None)
                want = outcome(lambda: f(*args, **dict_merge(kws, dd)))
                args, kws, dd = python_args(a, f2, None)
                res = outcome(lambda: g(*args, **dict_merge(kws, dd)))
                same(res, want, 'f called from Python with %r %r %r, '
                     'template %s' % (args, kws, dd, src))
                labs.add('python')
    labs.add(c['kind'])
    labs.add(body)
    if c['sig']['star']:
        labs.add('star')
    if c['sig']['kw']:
        labs.add('kw')
    return sorted(labs) + ['n%d' % len(params(c['sig']))]


def outcome(f):
    try:
        return ('ok', f())
    except TypeError:
        return ('TypeError',)


def nested(a):
    return any(isinstance(x, tuple)
               for x in list(a['args']) + [y[1] for y in a['kws']])


# -------------------------------------------- recursion and mutual calls
def rec_case(d):
    return (d.i(0, 6), d.i(1, 3), d.pick(['def', 'mutual', 'closure',
                                          'block', 'acc', 'nodef']),
            d.i(0, 1), d.pick(['$', '$!']))


def rec_check(c):
    n, w, kind, where, dollar = c
    if kind == 'def':
        defs = '#def f(n)\n#if $n > 0\n($n ${f($n - 1)})#slurp\n' \
            '#end if\n#end def\n'
        use = '%sf(%d).' % (dollar, n)

        def f(k):
            return '(%d %s)' % (k, f(k - 1)) if k > 0 else ''
        exp = f(n) + '.'
    elif kind == 'mutual':
        defs = '#def f(n)\n#if $n > 0: f$g($n - 1)#slurp\n\n#end def\n' \
            '#def g(n)\n#if $n > 0: g$f($n - 1)#slurp\n\n#end def\n'
        use = '%sf(%d).' % (dollar, n)
        # each level writes the blank line after its #if
        exp = (''.join('fg'[i % 2] for i in range(n))
               + '\n' * (n + 1) + '.')
    elif kind == 'closure':
        defs = '#closure f(n)\n#if n > 0\n<$n#silent f(n - 1)#>#slurp\n' \
            '#end if\n#end closure\n'
        use = '%sf(%d).' % (dollar, n)
        exp = ''.join('<%d' % k for k in range(n, 0, -1)) + '>' * n + '.'
        where = 0
    elif kind == 'block':
        defs = ''
        use = ''.join('#block b%d\n[%d#slurp\n' % (i, i) for i in range(n)) \
            + ''.join(']#slurp\n#end block\n' for i in range(n)) + '.'
        exp = ''.join('[%d' % i for i in range(n)) + ']' * n + '.'
    elif kind == 'acc':
        defs = '#def f(n, acc=())\n#if $n == 0\n#return $acc\n#end if\n' \
            '#return $f($n - 1, $acc + ($n,))\n#end def\n'
        use = '${f(%d)}.' % n
        exp = '%s.' % (tuple(range(n, 0, -1)),)
    else:
        defs = '#def f(n)\n#for $i in range($n)\n$f($i)x#slurp\n#end for\n' \
            '#end def\n'
        n = min(n, 5)
        use = '%sf(%d).' % (dollar, n)

        def f(k):
            return ''.join(f(i) + 'x' for i in range(k))
        exp = f(n) + '.'
    src = defs + use if where == 0 else use + '\n' + defs
    if where:
        exp += '\n'
    got = tm.outcome(tm.render, src, [{}])
    same(got, ('ok', exp), 'recursive template %s' % src)
    return [kind, 'n%d' % n]


# ------------------------------------------------------------- generators
def gen_items(d, depth):
    out = []
    for _ in range(d.i(1, 4)):
        c = d.i(0, 7)
        if c <= 1:
            out.append(('text', d.pick(['a', 'b\n', ' c', '<'])))
        elif c == 2:
            out.append(('ph', d.pick(['p', 'n'])))
        elif c <= 4:
            out.append(('yield', d.pick([None, None, '$n', '$p', "'q'",
                                         '[$n, $n]', 'None', '0'])))
        elif c == 5 and depth:
            out.append(('for', d.i(0, 3), gen_items(d, depth - 1)))
        elif c == 6 and depth:
            out.append(('if', d.i(0, 1), gen_items(d, depth - 1)))
        else:
            out.append(('buf', d.pick(['capture', 'filter', 'call']),
                        d.pick(['x', 'y&'])))
    return out


def gen_case(d):
    return (gen_items(d, 2), d.pick(['def', 'def', 'main']),
            d.pick(['python', 'python', 'for', 'next']))


def gen_src(its):
    out = ''
    for it in its:
        if it[0] == 'text':
            out += it[1] + '#slurp\n'
        elif it[0] == 'ph':
            out += '$%s#slurp\n' % it[1]
        elif it[0] == 'yield':
            out += '#yield%s\n' % (' ' + it[1] if it[1] else '')
        elif it[0] == 'for':
            out += '#for $i in range(%d)\n%s#end for\n' % (
                it[1], gen_src(it[2]))
        elif it[0] == 'if':
            out += '#if %d\n%s#end if\n' % (it[1], gen_src(it[2]))
        elif it[1] == 'capture':
            out += '#capture k\n%s#slurp\n#end capture\n$k#slurp\n' % it[2]
        elif it[1] == 'call':
            out += '#call $up\n%s#slurp\n#end call\n#slurp\n' % it[2]
        else:
            out += '#filter None\n%s#slurp\n#end filter\n' % it[2]
    return out


def gen_model(its, buf):
    for it in its:
        if it[0] == 'text':
            buf.append(it[1])
        elif it[0] == 'ph':
            buf.append({'p': 'P', 'n': '3'}[it[1]])
        elif it[0] == 'yield':
            if it[1] is None:
                yield ''.join(buf)
                del buf[:]
            else:
                yield {'$n': 3, '$p': 'P', "'q'": 'q', '[$n, $n]': [3, 3],
                       'None': None, '0': 0}[it[1]]
        elif it[0] == 'for':
            for _ in range(it[1]):
                for x in gen_model(it[2], buf):
                    yield x
        elif it[0] == 'if':
            if it[1]:
                for x in gen_model(it[2], buf):
                    yield x
        else:
            buf.append(it[2].upper() if it[1] == 'call' else it[2])


def gen_check(c):
    its, where, how = c
    its = list(its) + [('yield', None)]
    body = gen_src(its)
    exp = list(gen_model(its, []))
    ns = {'p': 'P', 'n': 3, 'up': lambda s: s.upper()}
    if where == 'main':
        t = tm.compile_(body)(searchList=[ns])
        gens = [t.respond(), t.respond()]
    else:
        src = '#def g\n%s#end def\n' % body
        if how == 'for':
            src += '#for $x in $g\n[$x]#slurp\n#end for\n'
        t = tm.compile_(src)(searchList=[ns])
        if how == 'for':
            same(tm.text(t), ''.join('[%s]' % ('' if x is None else x)
                                     for x in exp), 'loop over %r' % src)
        gens = [t.g(), t.g()]
    if how == 'next':
        # two generators of one instance, step by step
        a, b = [], []
        for x in range(len(exp)):
            a.append(next(gens[0]))
            b.append(next(gens[1]))
        same((a, b), (exp, exp), 'two generators of %r' % body)
    else:
        same(list(gens[0]), exp, 'values of the generator %r' % body)
    return ['%s-%s' % (where, how), 'n%d' % min(len(exp), 4)]


PROPS = [
    Prop('calls', case, check, 24000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: 'call' in l and 'n0' not in l,
         rule='parameter lists with defaults, *args, keyword-only and **kw '
              'parameters, of #def, short #def, @staticmethod, @classmethod, '
              'decorated and nested #def and #closure, called from twelve '
              'kinds of site with positional, keyword, * and ** arguments; '
              'non-trivial = a call succeeds with at least one parameter'),
    Prop('recursion', rec_case, rec_check, 800, shards=2,
         nontrivial=lambda c, l: c[0] > 1,
         rule='recursive and nested definitions; non-trivial = depth > 1'),
    Prop('generators', gen_case, gen_check, 3000, shards=2,
         nontrivial=lambda c, l: 'n1' not in l,
         rule='methods with #yield of values and of the text so far, in '
              'loops and conditions; non-trivial = two or more values'),
]
