"""C22: an error catcher replaces failing placeholders and nothing else."""
from vlib.core import Prop, Skip, expect, same
from vlib import tm

from Cheetah import ErrorCatchers
from Cheetah.NameMapper import valueForName

NotFound = tm.NotFound


class VCustom(ErrorCatchers.ErrorCatcher):
    """A user's own catcher: another set of exceptions and another warning."""
    _exceptionsToCatch = (NotFound, ZeroDivisionError)

    def warn(self, exc_val, code, rawCode, lineCol):
        return '[%s<%s>%d:%d]' % (type(exc_val).__name__, rawCode,
                                  lineCol[0], lineCol[1])


ErrorCatchers.VCustom = VCustom


class Fail(Exception):
    def __init__(self, name):
        self.name = name


def boom(*a):
    raise ZeroDivisionError('boom')


def nokey(*a):
    return {}['gone']


def deep(*a):
    return valueForName({}, 'deep')


ENV = {'v': 'val', 'w': '<w & "q">', 'n': 7, 'none': None,
       'd': {'k': 'dk', 'm': {'z': 3}}, 'l': [1, 2, 3], 'f': lambda x: '(%s)' % (x,),
       'boom': boom, 'nokey': nokey, 'deep': deep,
       'two': lambda a, b=9: '%s/%s' % (a, b)}

# source of an expression with placeholders ; value or exception name
ATOMS = [('v', 'val'), ('w', ENV['w']), ('n', 7), ('none', None),
         ('d.k', 'dk'), ('d.m.z', 3), ('l[1]', 2), ('i', None),
         ('gone', Fail('NotFound')), ('d.gone', Fail('NotFound')),
         ('gone.k', Fail('NotFound')), ('d.m.gone', Fail('NotFound')),
         ('v.gone', Fail('NotFound')), ('gone(1)', Fail('NotFound')),
         ('gone[0]', Fail('NotFound')), ('d.gone(2)', Fail('NotFound')),
         ('boom(1)', Fail('ZeroDivisionError')),
         ('boom', Fail('ZeroDivisionError')),
         ('nokey()', Fail('KeyError')), ('deep', Fail('NotFound')),
         ('deep()', Fail('NotFound')), ('l[9]', Fail('IndexError')),
         ("v.strip('\\\\n')", 'val'), ('v.join(["a\\tb", "\'\'\'"])',
                                       'val'.join(['a\tb', "'''"])),
         ("f('it\\'s')", "(it's)"), ('f("""a\nb""")', '(a\nb)'),
         ('s', None)]


def expr(d, depth=2):
    k = d.i(0, 9)
    if depth and k == 0:
        return ('f', expr(d, depth - 1))
    if depth and k == 1:
        return ('two', expr(d, depth - 1), expr(d, depth - 1))
    if depth and k == 2:
        return ('add', expr(d, depth - 1), expr(d, depth - 1))
    if depth and k == 3:
        return ('or', expr(d, depth - 1), expr(d, depth - 1))
    if depth and k == 4:
        return ('gen', expr(d, depth - 1), d.i(0, 2))
    return ('a', d.i(0, len(ATOMS) - 1))


def src_of(e):
    if e[0] == 'a':
        return '$' + ATOMS[e[1]][0]
    if e[0] == 'f':
        return '$f(%s)' % src_of(e[1])
    if e[0] == 'two':
        return '$two(%s, b=%s)' % (src_of(e[1]), src_of(e[2]))
    if e[0] == 'add':
        return "(%s + %s)" % (src_of(e[1]), src_of(e[2]))
    if e[0] == 'or':
        return '(%s or %s)' % (src_of(e[1]), src_of(e[2]))
    if e[0] == 'gen':
        return "'-'.join(str(%s) for q in range(%d))" % (src_of(e[1]), e[2])


def ev(e, L):
    if e[0] == 'a':
        name, v = ATOMS[e[1]]
        if name in ('i', 's'):
            if name not in L:
                raise Fail('NotFound')
            return L[name]
        if isinstance(v, Fail):
            raise v
        return v
    if e[0] == 'f':
        return '(%s)' % (ev(e[1], L),)
    if e[0] == 'two':
        return '%s/%s' % (ev(e[1], L), ev(e[2], L))
    if e[0] == 'add':
        a, b = ev(e[1], L), ev(e[2], L)
        try:
            return a + b
        except TypeError:
            raise Fail('TypeError')
    if e[0] == 'or':
        return ev(e[1], L) or ev(e[2], L)
    if e[0] == 'gen':
        if has_local(e[1]):
            raise Skip()        # variables of the method in a nested scope
        return '-'.join([str(ev(e[1], L)) for q in range(e[2])])


def has_local(e):
    if e[0] == 'a':
        return ATOMS[e[1]][0] in ('i', 's')
    return any(isinstance(x, tuple) and has_local(x) for x in e[1:])


def nodes(d, depth, n=None):
    return [node(d, depth) for _ in range(d.i(1, 4) if n is None else n)]


def node(d, depth):
    k = d.wpick([(8, 'ph'), (3, 'text'), (1, 'set'), (1, 'echo'),
                 (2 if depth else 0, 'for'), (2 if depth else 0, 'if'),
                 (2 if depth else 0, 'filter'), (1 if depth else 0, 'try'),
                 (1, 'meth'), (1 if depth else 0, 'capture')])
    if k == 'ph':
        return ('ph', d.i(0, 3), expr(d))
    if k == 'text':
        return ('text', d.pick(['text', ' ', '|', 'é "', '\\.']))
    if k == 'set':
        return ('set', expr(d, 1))
    if k == 'echo':
        return ('echo', expr(d, 1))
    if k == 'for':
        return ('for', d.i(0, 2), nodes(d, depth - 1))
    if k == 'if':
        return ('if', d.chance(2), nodes(d, depth - 1), nodes(d, depth - 1))
    if k == 'filter':
        return ('filter', nodes(d, depth - 1))
    if k == 'try':
        return ('try', nodes(d, depth - 1))
    if k == 'capture':
        return ('capture', nodes(d, depth - 1))
    return ('meth', d.i(0, 1))


CATCHERS = ['Echo', 'BigEcho', 'ListErrors', 'ListErrors', 'KeyError',
            'VCustom', 'ErrorCatcher']


def case(d):
    top = []
    for _ in range(d.i(1, 3)):
        c = d.wpick([(6, 'on'), (1, 'off'), (1, 'none')])
        if c == 'on':
            top.append(('catcher', d.pick(CATCHERS)))
        elif c == 'off':
            top.append(('end',))
        top += nodes(d, 2)
    return (top, nodes(d, 1, 2), nodes(d, 0, 1), d.pick(['\n', '\n', '\r\n']))


class Raised(Exception):
    def __init__(self, name):
        self.name = name


def websafe(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;')


class Build:
    """Source text with the position of each placeholder."""

    def __init__(self, eol):
        self.s = ''
        self.eol = eol

    def line(self, t):
        if self.s and not self.s.endswith(self.eol):
            self.s += self.eol
        self.s += t + self.eol

    def pos(self):
        import re
        ls = re.split(r'\r\n|\n|\r', self.s)
        return (len(ls), len(ls[-1]) + 1)


def emit(b, ns, meth=False):
    """-> list of nodes with everything the model needs."""
    out = []
    for n in ns:
        k = n[0]
        if k == 'text':
            b.s += n[1]
            out.append(('text', n[1]))
        elif k == 'ph':
            e = src_of(n[2])
            form = n[1]
            if n[2][0] != 'a' and n[2][0] not in ('f', 'two'):
                raw = '${%s}' % e
            elif form == 0:
                raw = e
            elif form == 1:
                raw = '${%s}' % e[1:]
            elif form == 2:
                raw = '${%s, arg=%r}' % (e[1:], 'z')
            else:
                raw = '$(%s)' % e[1:]
            pos = b.pos()
            b.s += raw
            b.s += '|'
            out.append(('ph', n[2], raw, pos))
            out.append(('text', '|'))
        elif k in ('set', 'echo'):
            e = src_of(n[1])
            brk(b, out)
            if k == 'set':
                b.line('#set $s = %s' % e)
            else:
                b.line('#echo %s' % e)
            out.append((k, n[1]))
        elif k in ('for', 'filter', 'try', 'capture'):
            head = {'for': '#for $i in range(%s)' % n[1],
                    'filter': '#filter WebSafe', 'try': '#try',
                    'capture': '#capture cap'}[k]
            brk(b, out)
            b.line(head)
            b.s += '_'
            body = emit(b, n[-1], meth)
            brk(b, body)
            if k == 'try':
                b.line('#except ZeroDivisionError')
                b.line('caught')
            b.line('#end ' + k)
            out.append((k, n[1] if k == 'for' else 0,
                        [('text', '_')] + body))
        elif k == 'if':
            brk(b, out)
            b.line('#if %d' % n[1])
            b.s += '_'
            x = emit(b, n[2], meth)
            brk(b, x)
            b.line('#else')
            b.s += '_'
            y = emit(b, n[3], meth)
            brk(b, y)
            b.line('#end if')
            out.append(('if', n[1], [('text', '_')] + x, [('text', '_')] + y))
        elif k == 'meth':
            pos = b.pos()
            raw = '$meth%d()' % n[1]
            b.s += raw + '|'
            if meth:
                raise Skip()
            out.append(('meth', n[1], raw, pos))
            out.append(('text', '|'))
        elif k == 'catcher':
            brk(b, out)
            b.line('#errorCatcher ' + n[1])
            out.append(n)
        elif k == 'end':
            brk(b, out)
            b.line('#end errorCatcher')
            out.append(n)
    return out


def brk(b, out):
    """End the current line of text (the line ending is text)."""
    if b.s and not b.s.endswith(b.eol):
        b.s += b.eol
        out.append(('text', b.eol))


class Model:
    def __init__(self, meths):
        self.meths = meths
        self.on = False
        self.catcher = None
        self.errors = []
        self.filt = None
        self.lists = 0

    def show(self, v):
        s = '' if v is None else str(v)
        return websafe(s) if self.filt else s

    def warn(self, exc, raw, pos):
        c = self.catcher
        if c == 'BigEcho':
            return '=' * 15 + '&lt;' + raw + ' could not be found&gt;' \
                + '=' * 15
        if c == 'KeyError':
            raise Raised('KeyError')
        if c == 'VCustom':
            return '[%s<%s>%d:%d]' % (exc, raw, pos[0], pos[1])
        if c == 'ListErrors':
            self.errors.append((raw, pos, exc))
        return raw

    def guarded(self, f, on, raw, pos):
        try:
            return f()
        except (Fail, Raised) as e:
            if not on:
                raise
            caught = ('NotFound', 'ZeroDivisionError') \
                if self.catcher == 'VCustom' else ('NotFound',)
            if e.name not in caught:
                raise
            return self.warn(e.name, raw, pos)

    def run(self, ns, L, out, main=True):
        """`on` is a matter of the place in the source, the class of the
        catcher one of the last directive executed."""
        for n in ns:
            k = n[0]
            if k == 'text':
                out.append(n[1])
            elif k == 'ph':
                v = self.guarded(lambda: ev(n[1], L), self.on and main,
                                 n[2], n[3])
                out.append(self.show(v))
            elif k == 'meth':
                def call():
                    o = []
                    self.run(self.meths[n[1]], {}, o, False)
                    return ''.join(o)
                out.append(self.show(self.guarded(call, self.on and main,
                                                  n[2], n[3])))
            elif k == 'set':
                L['s'] = ev(n[1], L)
            elif k == 'echo':
                out.append(self.show(ev(n[1], L)))
            elif k == 'for':
                for i in range(n[1]):
                    L['i'] = i
                    self.run(n[2], L, out, main)
            elif k == 'if':
                self.run(n[2] if n[1] else n[3], L, out, main)
            elif k == 'filter':
                old, self.filt = self.filt, True
                try:
                    self.run(n[2], L, out, main)
                finally:
                    self.filt = old
            elif k == 'capture':
                self.run(n[2], L, [], main)
            elif k == 'try':
                try:
                    self.run(n[2], L, out, main)
                except (Fail, Raised) as e:
                    if e.name != 'ZeroDivisionError':
                        raise
                    out.append('caught' + EOL[0])
            elif k == 'catcher':
                self.on = True
                self.catcher = n[1]
            elif k == 'end':
                self.on = False


EOL = ['\n']


def check(c):
    top, m0, m1, eol = c
    EOL[0] = eol
    b = Build(eol)
    meths = []
    for k, m in enumerate((m0, m1)):
        b.line('#def meth%d' % k)
        b.s += '_'
        body = emit(b, m, True)
        brk(b, body)
        b.line('#end def')
        meths.append([('text', '_')] + body)
    main = emit(b, top)
    src = b.s
    model = Model(meths)
    out = []
    try:
        model.run(main, {}, out)
        exp = ('ok', ''.join(out))
    except (Fail, Raised) as e:
        exp = ('exc', e.name)
    t = tm.compile_(src)(searchList=[ENV])
    try:
        got = ('ok', tm.text(t))
    except Exception as e:
        got = ('exc', type(e).__name__)
    same(got, exp, 'wrong result for template %r' % src)
    labs = [exp[0]] + [n[1] for n in top if n[0] == 'catcher']
    used = [n[1] for n in main if n[0] == 'catcher']
    if exp[0] == 'ok' and used and model.catcher == 'ListErrors':
        got = [(e['rawCode'], e['lineCol'], type(e['exc_val']).__name__)
               for e in t.errorCatcher().listErrors()]
        same(got, model.errors, 'wrong list of errors for template %r' % src)
        labs.append('%d errors' % min(len(got), 4))
        for e in t.errorCatcher().listErrors():
            expect('code' in e and 'time' in e, 'incomplete record %r', e)
    if exp[0] == 'ok' and model.on is False and used:
        labs.append('ended')
    if exp[0] == 'ok':
        # without failures the catcher makes no difference
        if '$gone' not in src and 'boom' not in src and '.gone' not in src \
                and 'deep' not in src:
            labs.append('no failures')
    return labs


def ctor_case(d):
    return ('class', d.pick(['Echo', 'ListErrors', 'BigEcho', 'KeyError',
                             'VCustom']), d.chance(2))


def check_ctor(c):
    kind, name, klass = c
    arg = getattr(ErrorCatchers, name) if klass else name
    t = tm.Template('a $gone b', errorCatcher=arg)
    expect(type(t.errorCatcher()) is getattr(ErrorCatchers, name),
           'the catcher given to the constructor is not the current one')
    if kind == 'effect':
        try:
            got = str(t)
        except Exception as e:
            got = type(e).__name__
        same(got, 'a $gone b', 'Template(errorCatcher=%r)' % (name,))
    return [name]


PROPS = [
    Prop('catchers', case, check, 30000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: any(x in CATCHERS for x in l),
         rule='templates of nesting depth <= 2 with 1-3 catcher switches '
              'whose placeholders succeed, are missing or raise; '
              'non-trivial = a catcher is used'),
    Prop('constructor', ctor_case, check_ctor, 200, shards=1,
         rule='the errorCatcher argument of the constructor'),
]
