"""C29: embedded Python sections run as written.

The same tree of text, <%= %> expressions, <% %> statements, <% block: %> ...
<% end %> sections and placeholders is printed as a template and as a plain
Python function; both are run on the same values.
"""
from vlib.core import Prop, Violation, same
from vlib import tm

VARS = ['a', 'b', 'c']
TEXT = ['x', ' y ', '\n', 'l1\nl2\n', '<b>', '\xe9', "'", '"', '\\ ', '%', '>',
        ' % > ', '100%', '{}', ':', '  ', '\t', 'end', 'a;b']
EXPRS = ['%(v)s', '%(v)s + 1', '%(v)s > 2', "'%%d%%%%' %% %(v)s",
         "'<' + str(%(v)s) + '>'", '[q * 2 for q in range(%(v)s %% 4)]',
         "{'k': %(v)s}['k']", "'$%(v)s #set $x = 1'", 'None', "'\xe9\\n'",
         "'%%' + '>'", '(%(v)s,\n  %(w)s)', "self.getVar('n')", "'a' 'b'",
         "self.getVar('zz', 7)", '(lambda q: q + %(v)s)(2)', '-%(v)s',
         'not %(v)s', "'''t'''", '1 if %(v)s else 2', "''", '[]', "'= 3'",
         '"\\\\"', '%(v)s == %(w)s', "'end'", 'int is type(%(v)s)']
# statements; a template of lines without a common indentation
STMTS = [['%(v)s = %(k)d'], ['%(v)s = %(w)s + %(k)d'], ['%(v)s += 1'],
         ['write(str(%(v)s))'], ["write('w%(k)d')"], ['pass'],
         ['if %(v)s > %(k)d:', "    write('big')", 'else:',
          "    write('small')"],
         ['for q in range(%(k)d):', '    if q %% 2:', '        continue',
          '    write(str(q))', '%(v)s = q if %(k)d else 0'],
         ['# a comment', '%(v)s = %(k)d'], ['%(v)s = %(k)d  # $x #set <b>'],
         ['# only a comment', 'pass'], ['%(v)s = %(k)d; %(w)s = 2'],
         ['%(v)s = [', '    1,', '    2,', '][0]'],
         ['%(v)s = 1 + \\', '    %(k)d'],
         ['try:', '    %(v)s = 1 // (%(w)s - %(k)d)',
          'except ZeroDivisionError:', '    %(v)s = -1'],
         ['def f(q, r=%(k)d):', '    # inner', '    return q * r', '',
          '%(v)s = f(%(w)s)'],
         ["%(v)s = {'a': %(k)d}['a']"], ["%(v)s = len('$x #if %% >')"],
         ["%(v)s = self.getVar('n') + %(k)d"],
         ['import string', 'write(string.digits[%(k)d])'],
         ["write('=')"], ["write('\\\\' + \"'\" + '\\n')"],
         ['%(v)s = %(k)d', '', '', '%(w)s = %(v)s'],
         ['while %(v)s < %(k)d:', '    %(v)s += 1'],
         ['assert %(v)s is not None'],
         ['End = %(k)d', '%(v)s = End'],
         ["write('\u2028\x0c\x1c')", '%(v)s = %(k)d'],
         ["%(v)s = len('\x0b\x85\u2029')  # \x1d"]]
HEADS = [('for q in range(%(k)d):', 1), ('for %(v)s in range(%(k)d):', 1),
         ('if %(v)s > %(k)d:', 1), ('if %(k)d:', 1),
         ('w%(n)d = 0\nwhile w%(n)d < %(k)d:\n    w%(n)d += 1$', 1), ('try:', 3),
         ('for q in (1, 2): # %(k)d:', 1),
         ('for q in range(%(k)d):\n    %(v)s = q * 2$', 1),
         ('if not %(k)d:\n    %(v)s = 5\nelse:\n    %(v)s = 6$', 1),
         ('with self.getVar("ctx"):', 1)]


def items(d, depth, lo=0):
    out = []
    for _ in range(d.i(lo, 5)):
        v, w, k = d.pick(VARS), d.pick(VARS), d.i(0, 3)
        kind = d.wpick([(4, 'text'), (4, 'expr'), (4, 'stmt'), (2, 'var'),
                        (3 if depth else 0, 'block'),
                        (1 if depth else 0, 'hash')])
        sp = d.i(0, 4)
        if kind == 'text':
            out.append(('text', d.pick(TEXT)))
        elif kind == 'expr':
            out.append(('expr', d.pick(EXPRS) % dict(v=v, w=w, k=k), sp))
        elif kind == 'stmt':
            lines = []
            for _ in range(d.i(1, 3)):
                lines += [x % dict(v=v, w=w, k=k) for x in d.pick(STMTS)]
            out.append(('stmt', lines, sp))
        elif kind == 'var':
            out.append(('var', d.pick(VARS + ['n', 'q']), sp))
        elif kind == 'hash':
            out.append(('hash', d.pick(['if', 'for', 'filter', 'def', 'capture']), v, k,
                        items(d, depth - 1, 1)))
        else:
            head, typ = d.pick(HEADS)
            other = None
            if typ == 3:
                other = ('except Exception:', items(d, depth - 1, 1))
            elif head.startswith('if') and '$' not in head and d.chance(2):
                other = ('else:', items(d, depth - 1, 1))
            body = items(d, depth - 1, 1)
            out.append(('block', head % dict(v=v, w=w, k=k, n=depth), body, other, sp))
    if lo and not any(x[0] in ('expr', 'stmt', 'var', 'text') for x in out):
        out.append(('text', 'z'))
    return out


TOKENS = [('<%', '%>'), ('<?', '?>'), ('<!py', 'py!>'), ('[%', '%]')]


def cases(d):
    init = [(v, d.i(0, 4)) for v in VARS if not d.chance(6)]
    return (init, items(d, 2, 1), d.pick(['\n', '\n', '\r\n', '\r']),
            d.i(0, 3), d.pick([0, 0, 0, 1, 2, 3]))


# --------------------------------------------------------------- template
def open_(sp):
    return ['\ue000 ', '\ue000', '\ue000  ', '\ue000\n', '\ue000 '][sp]


def close(sp):
    return [' \ue001', '\ue001', '  \ue001', '\n\ue001', '\ue001'][sp]


class T:
    def __init__(self):
        self.defs = 0

    def p(self, its):
        return ''.join(self.one(x) for x in its)

    def one(self, x):
        k = x[0]
        if k == 'text':
            return x[1]
        if k == 'expr':
            return ['\ue000=', '\ue000= ', '\ue000= ', '\ue000=', '\ue000=  '][x[2]] + x[1] + \
                close(x[2])
        if k == 'stmt':
            return open_(x[2]) + '\n'.join(x[1]) + close(x[2])
        if k == 'var':
            return ['$%s', '${%s}', '$(%s)', '$!%s', '${%s}'][x[2]] % x[1] + ' '
        if k == 'block':
            _, head, body, other, sp = x
            s = open_(sp) + head + close(sp) + self.p(body) + '\ue000' + \
                ['end', ' end ', ' END', '\nend\n', 'End '][sp] + '\ue001'
            if other:
                s += '\ue000 ' + other[0] + '\ue001' + self.p(other[1]) + '\ue000 end \ue001'
            return s
        _, what, v, n, body = x
        if what == 'if':
            return '#if %d#%s#end if#' % (n, self.p(body))
        if what == 'for':
            return '#for $q in range(%d)#%s#end for#' % (n, self.p(body))
        if what == 'filter':
            return '#filter WebSafe#%s#end filter#' % self.p(body)
        if what == 'capture':
            return '#capture cc#%s#end capture#${cc} ' % self.p(body)
        self.defs += 1
        return '#def m%d#%s#end def#' % (self.defs, self.p(body)) + \
            '$m%d ' % self.defs


# --------------------------------------------------------- Python function
DEFS = []


class P:
    def __init__(self, ind=1, filt='raw'):
        self.out = []
        self.ind = ind
        self.filt = filt

    def line(self, s):
        self.out.append('    ' * self.ind + s)

    def p(self, its):
        for x in its:
            self.one(x)

    def one(self, x):
        k = x[0]
        if k == 'text':
            self.line('_w(%r)' % x[1])
        elif k == 'expr':
            self.line('_w(_f[%r](%s))' % (self.filt, x[1]))
        elif k == 'stmt':
            ls = [ln.replace('write(', '_w(') for ln in x[1]]
            for ln in ls:
                self.line(ln)
        elif k == 'var':
            self.line('_w(_f[%r](_ph(locals(), %r, %r)) + " ")' % (
                self.filt, x[1], x[2] == 3))
        elif k == 'block':
            _, head, body, other, sp = x
            ls = head.rstrip('$').split('\n')
            for ln in ls:
                self.line(ln)
            self.ind += 1
            self.p(body)
            self.ind -= 1
            if other:
                self.line(other[0])
                self.ind += 1
                self.p(other[1])
                self.ind -= 1
        else:
            _, what, v, n, body = x
            if what == 'if':
                self.line('if %d:' % n)
                self.ind += 1
                self.p(body)
                self.ind -= 1
            elif what == 'for':
                self.line('for q in range(%d):' % n)
                self.ind += 1
                self.p(body)
                self.ind -= 1
            elif what == 'filter':
                old, self.filt = self.filt, 'web'
                self.p(body)
                self.filt = old
            elif what == 'capture':
                self.n = n = getattr(self, 'n', 0) + 1
                self.line('_s%d, _b%d = _w, []' % (n, n))
                self.line('_w = _b%d.append' % n)
                self.line('try:')
                self.ind += 1
                self.p(body)
                self.ind -= 1
                self.line('finally:')
                self.line('    _w = _s%d' % n)
                self.line('_w(_f[%r]("".join(_b%d)) + " ")' % (self.filt, n))
            else:
                # a method has local variables of its own
                sub = P(1)
                sub.p(body)
                DEFS.append('def _m%d(_w, _f, _ph, self):\n    pass\n%s\n' % (
                    len(DEFS), '\n'.join(sub.out)))
                self.line('_b = []')
                self.line('_m%d(_b.append, _f, _ph, self)' % (len(DEFS) - 1))
                self.line('_w(_f[%r]("".join(_b)) + " ")' % self.filt)


def _nodefs(its):
    """within #def bodies no further #def, and none in loops (a #def is
    defined once, at class level)"""
    for x in its:
        if x[0] == 'hash' and x[1] == 'def':
            return False
        for y in x[1:]:
            if isinstance(y, list) and y and isinstance(y[0], tuple) \
                    and not _nodefs(y):
                return False
        if x[0] == 'block' and x[3] and not _nodefs(x[3][1]):
            return False
    return True


class Ctx:
    def __enter__(self):
        return 1

    def __exit__(self, *a):
        return False


class Self:
    def __init__(self, ns):
        self.ns = ns

    def getVar(self, name, *default):
        if name in self.ns:
            return self.ns[name]
        if default:
            return default[0]
        raise tm.NotFound(name)


def flat(its):
    for x in its:
        yield x
        if x[0] == 'block':
            for y in flat(x[2]):
                yield y
            if x[3]:
                for y in flat(x[3][1]):
                    yield y
        elif x[0] == 'hash':
            for y in flat(x[4]):
                yield y


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def text_of(v):
    return '' if v is None else v if isinstance(v, str) else str(v)


def check(case):
    init, its, eol, how, tok = case
    # a #def inside anything is moved out by Cheetah; keep them at top level
    its = [x for x in its if x[0] != 'hash' or x[1] != 'def'
           or _nodefs(x[4])]
    if not all(x[0] == 'hash' and x[1] == 'def' or _nodefs([x]) for x in its):
        return ['skipped']
    if any(x[0] == 'hash' and x[1] in ('capture', 'filter')
           for x in flat(its)) and how == 3:
        how = 0
    head = ''.join('\ue000 %s = %d \ue001' % x for x in init)
    src = head + T().p(its)
    src = src.replace('\ue000', TOKENS[tok][0]).replace(
        '\ue001', TOKENS[tok][1])
    if eol != '\n':
        src = src.replace('\n', eol)
    ns = {'n': 3, 'ctx': Ctx()}
    del DEFS[:]
    p = P()
    for v, n in init:
        p.line('%s = %d' % (v, n))
    p.p(its)
    code = ''.join(DEFS) + 'def run(_w, _f, _ph, self):\n    pass\n' + '\n'.join(p.out) + '\n'

    def ph(loc, name, silent):
        if name in loc:
            return loc[name]
        if name in ns:
            return ns[name]
        if silent:
            return None
        raise tm.NotFound(name)
    env = {}
    exec(compile(code, 'ref', 'exec'), env)
    out = []
    filters = {'raw': text_of, 'web': lambda v: esc(text_of(v))}
    if how == 2:
        filters['raw'] = filters['web']
    try:
        env['run'](out.append, filters, ph, Self(ns))
        want = ('ok', ''.join(out))
    except Exception as e:
        want = ('exc', type(e).__name__)
    kw = {}
    if how == 1:
        kw = dict(compilerSettings={'useStackFrames': False})
    if tok:
        kw.setdefault('compilerSettings', {}).update(
            PSPStartToken=TOKENS[tok][0], PSPEndToken=TOKENS[tok][1])
    try:
        cls = tm.compile_(src, keepRefToGeneratedCode=True, **kw)
    except Exception as e:
        raise Violation('%r does not compile: %s: %s' % (
            src, type(e).__name__, e))
    t = cls(searchList=[ns], **({'filter': 'WebSafe'} if how == 2 else {}))
    try:
        got = ('ok', tm.text(t))
    except Exception as e:
        got = ('exc', type(e).__name__)
    if eol != '\n' and got[0] == 'ok' and want[0] == 'ok':
        # compare modulo the line ends that stand in plain text
        got = ('ok', got[1].replace(eol, '\n'))
    same(got, want, 'output of %r' % src, code)
    return [got[0]] + [x[0] for x in flat(its)]


PROPS = [
    Prop('sections', cases, check, 24000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: 'ok' in l and ('stmt' in l or 'block' in l),
         rule='trees of text, <%= %> expressions, <% %> statements, '
              '<% block: %>..<% end %> sections and placeholders to depth 3, '
              'in three line endings, also inside #if, #for, #filter, #capture '
              'and #def; non-trivial = renders, with a statement or block'),
]
