"""C05: placeholders end where Python says and all forms mean the same."""
from vlib.core import Prop, Skip, Violation, same
from vlib import tm


ATTRS = ('p', 'q', 'meth', 'x1', '_u', 'if_', 'end', 'nope')


class O(object):
    """Records how it was reached."""

    def __init__(self, p):
        self._p = p

    def __getattr__(self, k):
        if k.startswith('_') or k in ('mro', 'filter', 'respond'):
            raise AttributeError(k)
        if k == 'nope':
            raise AttributeError(k)
        return O('%s.%s' % (self._p, k))

    def __call__(self, *a, **k):
        return O('%s(%s)' % (self._p, ','.join(
            [repr(x) for x in a]
            + ['%s=%r' % (n, k[n]) for n in sorted(k)])))

    def __getitem__(self, k):
        if k in ATTRS:
            # (the C NameMapper tries items of any object, see C04)
            raise KeyError(k)
        return O('%s[%r]' % (self._p, k))

    def __repr__(self):
        return '<%s>' % self._p

    __str__ = __repr__

    def meth(self, *a):
        return O('%s.meth!%r' % (self._p, a))

    def __add__(self, o):
        return O('%s+%r' % (self._p, o))

    def __mul__(self, o):
        return O('%s*%r' % (self._p, o))

    def __iter__(self):
        return iter([1, 2])


def func(*a, **k):
    return O('func%r%r' % (a, sorted(k.items())))


ENV = {'n': 7, 's': 'str', 'l': [3, 4], 'o': O('o'), 'func': func,
       'd': {'k': O('d.k'), 'f': func, 'e': {'x': 5}, 'zz': 'item'},
       'tup': (1, 2), 'none': None, 'kw': {'p': 1}, 'neg': -3}

# argument expressions; '@' stands for the placeholder start token
ATOMS = ['1', '@n', '@s', '"qq"', "'a b'", '@o.p', '@o.q(1)', '@o[2]',
         '@l[0]', '""', "')'", '"]"', "'}'", "'$n'", '"#if"', "'##'",
         "'it\\'s'", '"\\""', 'None', 'True', '1.5', '0x1f', '1e3', '-2',
         '~5', "u'x'", "r'a\\d'", "'''t'q\"'''", '"""x)"""', "b'b'", '()',
         '[]', '{}', '@tup', "'\u00e9'", "','", "';'", '@o.p.q(2, @n)',
         "'\\n'", '@d["zz"]', '1_000', '@neg', "':'",
         "b'''b)'\n\"'''", 'Rb"""\\d"#"""', "f'''(x\n'''", "R'''\\d'''",
         "bR'\\d'", "F'x'", '1j', '0b11', '0O17', "U'''u'''"]


def expr(d, depth):
    def sub():
        return expr(d, depth - 1)
    if depth <= 0 or d.chance(3):
        return d.pick(ATOMS)
    k = d.i(0, 22)
    if k == 0:
        return '(%s)' % sub()
    if k == 1:
        return '[%s, %s]' % (sub(), sub())
    if k == 2:
        return '{%r: %s}' % (d.pick(['k', 'a}']), sub())
    if k == 3:
        return '(%s, )' % sub()
    if k == 4:
        return '(%s == %s)' % (sub(), sub())
    if k == 5:
        return '(%s if %s else %s)' % (sub(), sub(), sub())
    if k == 6:
        return '(not %s)' % sub()
    if k == 7:
        return '(%s or %s)' % (sub(), sub())
    if k == 8:
        return '[z * 2 for z in @l if z > %s]' % d.pick(['0', '3', '@neg'])
    if k == 9:
        return '(lambda q: (q, %s))(3)' % d.pick(['@n', '1', '"x"'])
    if k == 10:
        return '@o.p(%s)' % sub()
    if k == 11:
        return '@o.p(x=%s, y=2)' % sub()
    if k == 12:
        return '@l[%s:%s]' % (d.pick(['', '0', '-1']), d.pick(['', '1']))
    if k == 13:
        return 'len(%s)' % d.pick(['@s', '@l', '"abc"', '[%s]' % sub()])
    if k == 14:
        return 'str(%s)' % sub()
    if k == 15:
        return '@o.p(*@tup, **@kw)'
    if k == 16:
        return '"%%s-%%s" %% (%s, %s)' % (sub(), sub())
    if k == 17:
        return '"a".join([str(z) for z in @l])'
    if k == 18:
        return '@func(%s)' % sub()
    if k in (20, 21):
        # the targets of loops in expressions, with and without '@'
        z, y = d.pick([('z', 'y'), ('@z', '@y'), ('@z', 'y')])
        b = d.pick(['[%s]', '{%s}', 'sorted(%s)', '@func(*[%s])',
                    'any(%s)', 'list((%s))', '@func(0, x=[%s])', 'sum(%s)'])
        return b % d.pick(
            ['{z} * 2 for {z} in @l', '{z} for {z} in @l if {z} > 3',
             '{z} + {y} for {z}, {y} in ((1, 2), @l)',
             '{z} + {y} for ({z}, {y}) in [@l]',
             '{y} for {z} in (@l, [5]) for {y} in {z}',
             '{z}\tfor\t{z}\tin\t@l', '{z}\\\nfor\\\n{z} in\\\n@l',
             '-{z} for {z} in sorted({y} for {y} in @l)']).replace(
            '{z}', z).replace('{y}', y)
    if k == 22:
        return d.pick(['(not\\\n%s)', '(%s\\\nor\\\n0)', '(0 or\\\n%s)',
                       '(1\\\nif\\\n%s else\\\n2)', '[%s\\\n,1]']) % sub()
    return '%s(@o)[%s]' % ('list', d.pick(['0', '1']))


def args(d):
    k = d.i(0, 7)
    ws = d.pick(['', '', ' ', '\n', ' \n '])
    if k == 0:
        return '()'
    if k == 1:
        return '(%s%s)' % (ws, expr(d, 2))
    if k == 2:
        return '(%s,%s%s)' % (expr(d, 2), ws, expr(d, 1))
    if k == 3:
        return '(kk=%s)' % expr(d, 2)
    if k == 4:
        return '(%s, kk = %s%s)' % (expr(d, 1), expr(d, 1), ws)
    if k == 5:
        return '(*@tup)'
    if k == 6:
        return '(%s, **@kw)' % expr(d, 1)
    return '(%s, *[%s], zz=%s)' % (expr(d, 1), expr(d, 1), expr(d, 1))


def steps(d, short):
    """Chain steps; in short form a subscript never follows a call
    (known_findings.txt)."""
    out = []
    prev = 'name'
    plain = False      # a call or subscript after a call: plain Python follows
    for _ in range(d.i(0, 4)):
        k = d.pick(['attr', 'attr', 'call', 'sub', 'attr'])
        if short and prev == 'call' and k != 'attr':
            k = 'attr'
        if prev == 'call' and k != 'attr':
            plain = True
        if k == 'attr':
            out.append(('attr', d.pick(['p', 'q', 'x1', 'if_', 'end'] if plain
                                       else ['p', 'q', 'meth', 'x1', '_u',
                                             'meth', 'if_', 'end'])))
        elif k == 'call':
            out.append(('call', args(d)))
        else:
            out.append(('sub', '[%s]' % (
                expr(d, 1) if d.i(0, 4) else
                d.pick(['1:2', ':', '@n:', '"k"', '-1', '::2']))))
        prev = out[-1][0]
    return out


FOLLOW = ['', ' ', '.', '. ', '..', '.5', ',', '!', ')', '}', ']', "'", '"',
          '\\', '-x', ' (a)', ' [b]', '\n', '/', '$', '#', ':', ';x', '&',
          '%s', '$$', '.\n', '\u00e9', '@', '=1', '*', '${n}', '$n', '|x|',
          '.(', '.[', '. x', '}}', '{', '>', '<']
FOLLOW_LONG = ['a', 'Z9', '_', '(x)', '[y]', '.p', '.meth', '(', '[', '{z}',
               '9', '..p']


def gen_chain(d):
    form = d.i(0, 6)
    short = form == 0
    base = d.pick(['o', 'o', 'o', 'func', 'd.k', 'd.f', 'o.p', 'd.e.x', 'd'])
    st = steps(d, short)
    if short and st and st[-1][0] != 'attr' and d.i(0, 2) == 2:
        follow = d.pick(['a', 'Z9', '_', 'meth', 'p.q', '9'])
    else:
        follow = d.pick(FOLLOW if short or d.i(0, 1) else FOLLOW_LONG)
    return (base, st, form, follow, d.pick(['', 'x', '(', '{', '[', ' ', '"',
                                            '\n', '$', '.', '#', '\\\\']),
            d.i(0, 5) == 5)


import types  # noqa: E402


def autocall(v):
    if isinstance(v, (types.FunctionType, types.MethodType)):
        return v()
    return v


def look(v, key):
    if isinstance(v, dict) and key in v:
        return v[key]
    return getattr(v, key)


def value(base, st):
    """The Python meaning of the chain, with NameMapper lookups."""
    names = base.split('.')
    seq = [('attr', x) for x in names] + list(st)
    v = None
    first = True
    for i, (k, x) in enumerate(seq):
        nxt = seq[i + 1][0] if i + 1 < len(seq) else None
        if k == 'attr':
            v = ENV[x] if first else look(v, x)
            first = False
            if nxt != 'call':
                v = autocall(v)
        else:
            code = '_v_' + x.replace('@', '').strip()
            v = eval(code, dict(ENV, _v_=v))
    return v


def check_chain(c):
    base, st, form, follow, before, silent = c
    body = base + ''.join(('.' + x) if k == 'attr' else x for k, x in st)
    body = body.replace('@', '$')
    o, cl = {0: ('', ''), 1: ('{', '}'), 2: ('(', ')'), 3: ('[', ']'),
             4: ('{ ', '}'), 5: ('{', ' }'), 6: ('(\t', ' )')}[form]
    if before == '$' or before == '\\\\':
        before = before + ' '
    src = before + '$' + ('!' if silent else '') + o + body + cl + follow
    try:
        v = value(base, st)
    except Exception as e:
        exp = ('exc', type(e).__name__)
    else:
        exp = ('ok', before.replace('\\\\', '\\\\')
               + ('' if v is None else str(v))
               + follow.replace('${n}', '7').replace('$n', '7'))
    if follow in ('#', '\\', '$'):
        src += ' .'
        if exp[0] == 'ok':
            exp = ('ok', exp[1] + ' .')
    try:
        got = ('ok', tm.render(src, [ENV]))
    except Exception as e:
        if isinstance(e, tm.ParseError) or isinstance(e, SyntaxError):
            raise Violation('%r rejected: %s' % (src, str(e)[:300]))
        got = ('exc', type(e).__name__)
    if exp[0] == 'exc':
        # a missing attribute shows up as NotFound
        if exp[1] == 'AttributeError' and got == ('exc', 'NotFound'):
            return ['exc']
        if exp[1] == 'AttributeError' and silent and got[0] == 'ok':
            return ['silent-missing']
    same(got, exp, 'wrong output for %r' % src)
    return ['form%d' % form, exp[0], 'steps%d' % len(st)] + (
        ['silent'] if silent else [])


# --------------------------------------------- ${expression} placeholders
def gen_expr(d):
    return (expr(d, 3), d.pick(['{', '(', '[']), d.pick(FOLLOW + FOLLOW_LONG),
            d.i(0, 2), d.i(0, 3))


def check_expr(c):
    e, o, follow, ws, ctx = c
    cl = {'{': '}', '(': ')', '[': ']'}[o]
    py = e.replace('@', '')
    ch = e.replace('@', '$')
    if ch.startswith('$'):
        # ${$x...} is not allowed; ${x...} is the chain form
        ch = '0 or ' + ch
        py = '0 or ' + py
    if ch[0].isalpha() or ch[0] == '_':
        # a leading identifier is a placeholder name
        ch = '(' + ch + ')'
        py = '(' + py + ')'
    if ctx and ws == 1:
        ws = 0
    if ctx == 0:
        src = '<$' + o + ['', ' ', '\n'][ws] + ch + cl + follow
    elif ctx == 1:
        src = '#set $zz = %s\n<$zz' % ch + ('' if not follow else ' ' + follow)
    elif ctx == 2:
        src = '<#echo %s#' % ch + ('' if not follow else ' ' + follow)
    else:
        src = '#if 1 then %s else 0#' % ch + (
            '' if not follow else ' ' + follow)
        src = '<' + src
    tail = follow if ctx == 0 or not follow else ' ' + follow
    if follow in ('#', '\\', '$'):
        src += ' .'
        tail += ' .'
    try:
        v = eval(py, dict(ENV))
    except Exception as ex:
        exp = ('exc', type(ex).__name__)
    else:
        exp = ('ok', '<' + ('' if v is None else str(v))
               + tail.replace('${n}', '7').replace('$n', '7'))
    try:
        got = ('ok', tm.render(src, [ENV]))
    except Exception as ex:
        if isinstance(ex, tm.ParseError) or isinstance(ex, SyntaxError):
            raise Violation('%r rejected: %s' % (src, str(ex)[:300]))
        got = ('exc', type(ex).__name__)
    same(got, exp, 'wrong output for %r' % src)
    return ['ctx%d' % ctx, exp[0], o]


# ------------------------------------------------------ silent placeholders
def gen_silent(d):
    return (d.pick(['missing', 'o.nope', 'missing.x', 'd.nokey', 'n', 'o.p',
                    'func', 'd.k.meth', 'o.nope(1)', 'missing[1]', 'none',
                    'o.p($missing)', 'd.bad', 'd.bad.x', 'd.key', 'd.attr']),
            d.i(0, 3), d.pick(FOLLOW), d.i(0, 1))


def check_silent(c):
    name, form, follow, plain = c

    def bad():
        raise ValueError('inside')

    def key():
        return {}['kk']

    def attr():
        return (0).nope
    env = dict(ENV)
    env['d'] = dict(ENV['d'], bad=bad, key=key, attr=attr)
    o, cl = [('', ''), ('{', '}'), ('(', ')'), ('[', ']')][form]
    if follow in ('#', '\\', '$'):
        follow += ' .'
    src = '<$' + ('' if plain else '!') + o + name + cl + follow
    missing = name in ('missing', 'o.nope', 'missing.x', 'd.nokey',
                       'o.nope(1)', 'missing[1]', 'o.p($missing)')
    err = {'d.bad': 'ValueError', 'd.bad.x': 'ValueError',
           'd.key': 'KeyError', 'd.attr': 'AttributeError'}.get(name)
    tail = follow.replace('${n}', '7').replace('$n', '7')
    if missing:
        exp = ('exc', 'NotFound') if plain else ('ok', '<' + tail)
    elif err:
        exp = ('exc', err)
    else:
        v = {'n': 7, 'o.p': O('o.p'), 'func': func(),
             'd.k.meth': ENV['d']['k'].meth(), 'none': ''}[name]
        exp = ('ok', '<%s%s' % (v, tail))
    try:
        got = ('ok', tm.render(src, [env]))
    except Exception as e:
        got = ('exc', type(e).__name__)
    same(got, exp, 'wrong result for %r' % src)
    return [exp[0], 'plain' if plain else 'silent']


# ------------------------------------------------------------- c'' strings
def gen_cstr(d):
    bits = d.list(lambda: d.pick([('t', 'text'), ('v', '$n'), ('v', '$s'),
                                  ('t', ' '), ('t', 'A b'), ('v', '${s}'),
                                  ('v', '$o.p'), ('t', ')'), ('t', '}'),
                                  ('v', '$(n)'), ('t', '#if'), ('t', '$'),
                                  ('t', '%s'), ('t', '\u00e9'),
                                  ('v', '${1 + 1}')]), 0, 4)
    return (bits, d.pick(["'", '"', "'''", '"""']), d.i(0, 3))


def check_cstr(c):
    bits, q, ctx = c
    vals = {'$n': '7', '$s': 'str', '${s}': 'str', '$o.p': '<o.p>',
            '$(n)': '7', '${1 + 1}': '2'}
    body, exp = '', ''
    for k, x in bits:
        if k == 'v':
            if x[1] not in '{(' :
                x = x + ' '
                exp += vals[x.strip()] + ' '
            else:
                exp += vals[x]
            body += x
        else:
            if x == '$':
                x = '$ '
            body += x
            exp += x
    s = 'c' + q + body + q
    src = ['<${str(%s)}>', '#set $zz = %s\n<$zz>', '<#echo %s#>',
           "<$func1(a=%s)>"][ctx] % s
    env = dict(ENV, func1=lambda a: a)
    got = tm.must(lambda: tm.render(src, [env]), 'render %r' % src)
    same(got, '<' + exp + '>', 'c-string in %r' % src)
    return ['ctx%d' % ctx, 'empty' if not bits else 'bits']


# ------------------------------------- short form: subscript after a call
def gen_after(d):
    return (d.pick(['func()', 'func(1).p', 'd.f(2).q', 'l[0]', 'd.e[\'x\']',
                    'o.p[1](2)', 'o[1][2].p']),)


def check_after(c):
    src = '<$%s>' % c[0]
    py = c[0].replace('d.f', 'd["f"]').replace('d.e', 'd["e"]')
    same(tm.render(src, [ENV]), '<%s>' % (eval(py, dict(ENV)),),
         'wrong output for %r' % src)
    return [c[0]]


NT = 'the chain has at least one step'
PROPS = [
    Prop('chains', gen_chain, check_chain, 40000, shards=8,
         modes=('c', 'c', 'pure'), nontrivial=lambda c, l: bool(c[1]),
         rule='chains of up to 4 attribute/call/subscript steps with nested '
              'arguments in 7 spellings, before and after 50 texts; '
              'non-trivial = ' + NT),
    Prop('expressions', gen_expr, check_expr, 30000, shards=8,
         modes=('c', 'c', 'pure'), nontrivial=lambda c, l: len(c[0]) > 4,
         rule='Python expressions of depth <= 3 in ${}, $(), $[], #set, #echo '
              'and #if-then-else; non-trivial = not a single short atom'),
    Prop('silent', gen_silent, check_silent, 4000, shards=2,
         modes=('c', 'pure'),
         rule='$! with found, missing and failing names; non-trivial = all'),
    Prop('cstrings', gen_cstr, check_cstr, 6000, shards=4,
         rule="c'' strings with embedded placeholders; non-trivial = all"),
    Prop('aftercall', gen_after, check_after, 40, shards=1,
         rule='what may follow a call or subscript in the short form; '
              'non-trivial = all'),
]
