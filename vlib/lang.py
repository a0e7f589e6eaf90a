"""A generator, an emitter and a reference interpreter for the template language.

AST (all plain tuples/lists/strings/ints):

expressions
  ('int', n) ('str', s) ('const', 'None'|'True'|'False')
  ('var', name)
  ('bin', op, a, b)  ('cmp', op, a, b)  ('and', a, b)  ('or', a, b)
  ('not', a)  ('neg', a)  ('list', [e]) ('tuple', [e]) ('dict', [(k, v)])
  ('cond', c, a, b)            a if c else b
  ('t', label, e)              $t('label', e): records label, returns e
  ('len', e)  ('idx', e, e)  ('key', name, key)  ('join', e)
  ('comp', name, e)            [x * 2 for x in e]-like
  ('mcall', name, [args])      call of a template method

nodes
  ('text', s)
  ('ph', e, form)              e: 'var' | 'mcall' | ...
  ('echo', e, lay) ('silent', e, lay) ('pass', lay) ('slurp', lay)
  ('set', name, op, e, lay) ('gset', name, e, lay) ('del', name, lay)
  ('if', [(e, body)], else_body|None, spell, lays)
  ('unless', e, body, lays)
  ('for', [names], e, body, lays)   ('while', ctr, n, body, lays)
  ('repeat', e, body, lays)
  ('tern', e, a, b, lay)
  ('short', kind, e, inline)   #if e: inline / #for.. / #unless / #repeat
  ('try', body, [(exc, body)], else, finally, lays)
  ('raise', exc, msg, lay) ('assert', e, lay)
  ('break', lay) ('continue', lay) ('stop', lay) ('return', e, lay)
  ('comment', s) ('mlc', s)
  ('call', fn, body, [(argname, body)], extra, lays)
  ('capture', name, body, lays)
  ('filter', fname, body, lays)
  ('block', name, body, lays)
program: (defs, body) ; defs = [(name, [(param, default|None)], body, lays)]
"""
import zlib

EOLS = {'n': '\n', 'rn': '\r\n', 'r': '\r'}


class Stop(Exception):
    """v: what the method had written when #stop was met"""

    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Missing(Exception):
    """model of NameMapper.NotFound"""


# --------------------------------------------------------------- tokens
class Tokens:
    def __init__(self, var='$', d='#', dend='#', com='##', mo='#*', mc='*#',
                 slurp='slurp', po='<%', pc='%>'):
        self.var, self.d, self.dend, self.com = var, d, dend, com
        self.mo, self.mc, self.slurp = mo, mc, slurp
        self.po, self.pc = po, pc


class PH:
    """A short-form placeholder; long form when the next character demands it."""
    __slots__ = ('short', 'long', 'final')

    def __init__(self, short, long):
        self.short, self.long = short, long
        self.final = None


UNSAFE_NEXT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                  '0123456789_.([')

LAYOUTS = [
    # (kind, indent, trail)
    ('L', '', ''), ('I', '', ''), ('L', '  ', ''), ('T', '', ''),
    ('L', '\t', ' '), ('I', '', ' '), ('L', ' \t ', ' ## note'),
    ('L', '', '  \t'), ('T', '', ' '),
]
NLAY = len(LAYOUTS)
# how tightly the operators bind
ATOM = 14
PREC = {'|': 5, '^': 6, '&': 7, '<<': 8, '+': 9, '-': 9, '*': 10, '/': 10,
        '//': 10, '%': 10, '**': 12}
STRS = ["'%s'", '"%s"', "'''%s'''", '"""%s"""']


class Emitter:
    def __init__(self, eol='\n', tok=None, strq=0):
        self.eol = eol
        self.tok = tok or Tokens()
        self.src = []
        self.line = ''
        self.used = set()
        self.exprs = []

    # ---------------------------------------------------- low level
    def put(self, s):
        if isinstance(s, PH):
            self.src.append(s)
            self.line += 'x'
            return
        if not s:
            return
        self.src.append(s)
        i = max(s.rfind('\n'), s.rfind('\r'))
        if i >= 0:
            self.line = s[i + 1:]
        else:
            self.line += s

    def text(self, s, norm):
        if not s:
            return
        if self.eol != '\n':
            s = s.replace('\n', self.eol)
        self.put(s)
        if norm and norm[-1][0] == 'text':
            norm[-1] = ('text', norm[-1][1] + s)
        else:
            norm.append(('text', s))

    def clear(self):
        return not self.line.strip()

    def strip_line(self, norm):
        n = len(self.line)
        if n:
            assert norm and norm[-1][0] == 'text', norm
            t = norm[-1][1]
            assert t.endswith(self.line), (t, self.line)
            norm[-1] = ('text', t[:-n])
        self.line = ''

    def directive(self, code, lay, before, after):
        kind, indent, trail = LAYOUTS[lay % NLAY]
        code = self.tok.d + code
        if kind == 'T' and self.clear():
            kind = 'L'
        if kind == 'L':
            if not self.clear():
                self.text('\n', before)
            self.strip_line(before)
            if '##' in trail:
                trail = trail.replace('##', self.tok.com)
            self.src.append(indent + code + trail + self.eol)
            self.line = ''
        elif kind == 'I':
            self.put(code + trail + self.tok.dend)
        else:
            self.put(code + trail)
            self.text('\n', after)

    def source(self):
        out = []
        for i, p in enumerate(self.src):
            if isinstance(p, PH):
                nxt = ''
                for q in self.src[i + 1:]:
                    nxt = q.short if isinstance(q, PH) else q
                    if nxt:
                        break
                p.final = p.long if nxt[:1] in UNSAFE_NEXT else p.short
                p = p.final
            out.append(p)
        return ''.join(out)

    # ---------------------------------------------------- expressions
    def q(self, s):
        return repr(s)

    def e(self, x, p=0, lines=False):
        """x as source text; parenthesised when it binds looser than p, or
        (now and then) needlessly; lines: over several lines now and then"""
        return self.broken(self.e0(x, p), x, lines)

    def broken(self, s, x, lines):
        s = s.replace('\x02', ' ')
        if self.brk in s:
            h = zlib.crc32(repr((x, 'lines')).encode())
            if lines and h % 4 == 0:
                s = s.replace(self.brk, [self.eol, ' ' + self.eol + '  ',
                                         self.eol + '\t'][h // 4 % 3])
            s = s.replace(self.brk, ' ')
        return s

    # where the text within brackets may be broken
    brk = '\x01'

    def e0(self, x, p=0):
        s, q = self.e1(x)
        if q < p or q < ATOM and zlib.crc32(repr(x).encode()) % 4 == 0:
            return '(' + self.inb(s) + ')'
        return s

    def inb(self, s):
        """s within brackets"""
        return s.replace('\x02', self.brk)

    def e1(self, x):
        """-> (text, how tightly it binds)"""
        v = self.tok.var
        k = x[0]
        e, inb = self.e0, self.inb
        if k == 'int':
            return repr(x[1]), ATOM if x[1] >= 0 else 11
        if k == 'str':
            return self.q(x[1]), ATOM
        if k == 'const':
            return x[1], ATOM
        if k == 'var':
            return v + x[1], ATOM
        if k in ('bin', 'cmp'):
            op = x[1]
            q = PREC.get(op, 4)
            if q == 4:
                l, r = 5, 5
            elif op == '**':
                l, r = ATOM, 11
            else:
                l, r = q, q + 1
            sp = '\x02'
            if v == '$' and not op[0].isalpha() \
                    and zlib.crc32(repr(x).encode()) % 3 == 0:
                sp = ''
            return e(x[2], l) + sp + op.replace(
                ' ', sp) + sp + e(x[3], r), q
        if k in ('and', 'or'):
            q = 2 if k == 'and' else 1
            return '%s\x02%s\x02%s' % (e(x[1], q), k, e(x[2], q + 1)), q
        if k == 'not':
            return 'not\x02' + e(x[1], 3), 3
        if k == 'neg':
            return '-' + e(x[1], 11), 11
        if k == 'list':
            return inb('[%s]' % ',\x02'.join(e(y) for y in x[1])), ATOM
        if k == 'tuple':
            return inb('(%s)' % ''.join(e(y) + ',\x02' for y in x[1])), ATOM
        if k == 'dict':
            return inb('{%s}' % ',\x02'.join(
                '%s:\x02%s' % (e(a), e(b)) for a, b in x[1])), ATOM
        if k == 'cond':
            return '%s\x02if\x02%s\x02else\x02%s' % (
                e(x[2], 1), e(x[1], 1), e(x[3])), 0
        if k == 't':
            return inb('%st(%r,\x02%s)' % (v, x[1], e(x[2]))), ATOM
        if k == 'len':
            return inb('%slen(%s)' % (v, e(x[1]))), ATOM
        if k == 'idx' and x[2][0] == 'slice':
            return e(x[1], ATOM) + '[:4]', ATOM
        if k == 'idx':
            return e(x[1], ATOM) + inb('[%s]' % e(x[2])), ATOM
        if k == 'key':
            return '%s%s.%s' % (v, x[1], x[2]), ATOM
        if k == 'join':
            return inb("'-'.join([str(%s)\x02for\x02%s\x02in\x02%s])" % (
                'q_', 'q_', e(x[1], 1))), ATOM
        if k == 'comp':
            return inb('[%s * 2\x02for\x02%s\x02in\x02%s]' % (
                x[1], x[1], e(x[2], 1))), ATOM
        if k == 'mcall':
            return inb('%s%s(%s)' % (v, x[1], ',\x02'.join(
                e(a) for a in x[2]))), ATOM
        raise ValueError(k)

    def placeholder(self, x, form):
        v = self.tok.var
        s, q = self.e1(x)
        s = self.broken(s, x, False)
        o, c = ['{}', '{}', '()', '[]', '{}'][form % 5]
        if not s.startswith(v):
            # not an expression a short placeholder can start
            if q < ATOM or s[0] not in '"\'':
                return v + '{(' + s + ')}'
            return v + '{' + s + '}'
        body = s[len(v):]
        if form == 4:
            body = ' ' + body
        if q < ATOM:
            # the leading token may be left out or kept
            return v + o + (s if form & 1 else body) + c
        if form == 0 and not (x[0] == 'idx' and x[1][0] != 'var'):
            # ($f(x)[1] is $f(x) and text)
            return PH(s, v + '{' + body + '}')
        return v + o + body + c

    # ---------------------------------------------------- nodes
    def body(self, nodes, norm):
        for n in nodes:
            self.node(n, norm)
        return norm

    def suite(self, nodes, norm):
        """A body that Python needs a statement in."""
        self.body(nodes, norm)
        if all(x[0] == 'text' and not x[1].strip() for x in norm):
            self.text('o', norm)
        return norm

    def node(self, n, norm):
        k = n[0]
        self.used.add(k)
        v = self.tok.var
        D = self.directive
        if k == 'text':
            self.text(n[1], norm)
        elif k == 'ph':
            p = self.placeholder(n[1], n[2])
            self.put(p)
            norm.append(('out', n[1], (), p))
        elif k == 'phf':
            o, c = ['{}', '()', '[]'][n[2] % 3]
            body = self.e(n[1])[len(v):]
            p = v + o + (' ' if n[2] & 4 else '') + body + ', ' + ', '.join(
                '%s=%s' % (a, self.e(x)) for a, x in n[3]) + c
            self.put(p)
            norm.append(('out', n[1], n[3], p))
        elif k == 'echo':
            D('echo ' + self.ed(n[1], n[2]), n[2], norm, norm)
            self.late(norm, ('out', n[1]), n[2])
        elif k == 'silent':
            D('silent ' + self.ed(n[1], n[2]), n[2], norm, norm)
            self.late(norm, ('eval', n[1]), n[2])
        elif k == 'pass':
            D('pass', n[1], norm, norm)
            norm.append(('nop',))
        elif k == 'slurp':
            if self.clear():
                self.strip_line(norm)
            self.put(self.tok.d + 'slurp' + n[1] + self.eol)
            self.line = ''
        elif k == 'set':
            D('set %s%s %s %s' % (v, n[1], n[2], self.ed(n[3], n[4])), n[4], norm,
              norm)
            self.late(norm, ('set', n[1], n[2], n[3]), n[4])
        elif k == 'gset':
            D('set global %s%s = %s' % (v, n[1], self.ed(n[2], n[3])), n[3], norm,
              norm)
            self.late(norm, ('gset', n[1], n[2]), n[3])
        elif k == 'del':
            D('del %s%s' % (v, n[1]), n[2], norm, norm)
            self.late(norm, ('del', n[1]), n[2])
        elif k == 'if':
            lays = iter(list(n[4]) + [0] * 9)
            branches = []
            cur = norm
            for i, (e, b) in enumerate(n[1]):
                word = 'if' if i == 0 else 'elif' if n[3] & 1 else (
                    'else if', 'else\tif', 'else  if')[n[3] % 3]
                nb = []
                lay = next(lays)
                D('%s %s%s' % (word, self.ed(e, lay), self.colon(n[3], lay)), lay,
                  cur, nb)
                self.suite(b, nb)
                branches.append((e, nb))
                cur = nb
            eb = None
            if n[2] is not None:
                eb = []
                lay = next(lays)
                D('else' + self.colon(n[3], lay), lay, cur, eb)
                self.suite(n[2], eb)
                cur = eb
            after = []
            D('end if' + (' comment' if n[3] & 4 else ''), next(lays), cur,
              after)
            norm.append(('if', branches, eb))
            norm.extend(after)
        elif k == 'unless':
            nb, after = [], []
            D('unless ' + self.ed(n[1], n[3][0]), n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end unless', n[3][1], nb, after)
            norm.append(('if', [(('not', n[1]), nb)], None))
            norm.extend(after)
        elif k == 'for':
            nb, after = [], []
            D('for %s in %s' % (', '.join(v + x for x in n[1]),
                                self.ed(n[2], n[4][0])), n[4][0], norm, nb)
            self.suite(n[3], nb)
            D('end for', n[4][1], nb, after)
            norm.append(('for', n[1], n[2], nb))
            norm.extend(after)
        elif k == 'while':
            nb, after = [], []
            D('set %s%s = 0' % (v, n[1]), n[4][2], norm, norm)
            self.late(norm, ('set', n[1], '=', ('int', 0)), n[4][2])
            D('while %s%s < %d' % (v, n[1], n[2]), n[4][0], norm, nb)
            D('set %s%s += 1' % (v, n[1]), n[4][2], nb, nb)
            self.late(nb, ('set', n[1], '+=', ('int', 1)), n[4][2])
            self.suite(n[3], nb)
            D('end while', n[4][1], nb, after)
            norm.append(('while', ('cmp', '<', ('var', n[1]),
                                   ('int', n[2])), nb))
            norm.extend(after)
        elif k == 'repeat':
            nb, after = [], []
            D('repeat ' + self.e(n[1]), n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end repeat', n[3][1], nb, after)
            norm.append(('repeat', n[1], nb))
            norm.extend(after)
        elif k == 'tern':
            D('if %s then %s else %s' % (self.e(n[1], 1), self.e(n[2], 1),
                                         self.e(n[3], 1)), n[4], norm, norm)
            self.late(norm, ('if', [(n[1], [('out', n[2])])],
                             [('out', n[3])]), n[4])
        elif k == 'short':
            kind, e, inline = n[1:]
            if not self.clear():
                self.text('\n', norm)
            head = {'if': 'if ', 'unless': 'unless ', 'repeat': 'repeat ',
                    'for': 'for %si in ' % v, 'while': 'while '}[kind]
            self.put(self.tok.d + head + self.e(e) + ': ')
            nb = []
            self.text('(', nb)
            self.suite(inline, nb)
            self.text(')\n', nb)
            if kind == 'if':
                norm.append(('if', [(e, nb)], None))
            elif kind == 'unless':
                norm.append(('if', [(('not', e), nb)], None))
            elif kind == 'repeat':
                norm.append(('repeat', e, nb))
            else:
                norm.append(('for', ['i'], e, nb))
        elif k == 'shortelse':
            # #if e: x / #elif f: y / #else: z  on three lines
            if not self.clear():
                self.text('\n', norm)
            branches = []
            eb = None
            for i, (e, inline) in enumerate(n[1]):
                nb = []
                if e is None:
                    self.put(self.tok.d + 'else: ')
                else:
                    self.put(self.tok.d + ('if ' if i == 0 else 'elif ')
                             + self.e(e) + ': ')
                self.text('(', nb)
                self.suite(inline, nb)
                self.text(')\n', nb)
                if e is None:
                    eb = nb
                else:
                    branches.append((e, nb))
            norm.append(('if', branches, eb))
        elif k == 'try':
            lays = iter(list(n[5]) + [0] * 9)
            tb = []
            D('try', next(lays), norm, tb)
            self.suite(n[1], tb)
            cur = tb
            handlers = []
            for exc, b in n[2]:
                nb = []
                D('except' + (' ' + exc if exc else ''), next(lays), cur, nb)
                self.suite(b, nb)
                handlers.append((exc, nb))
                cur = nb
            eb = fb = None
            if n[3] is not None:
                eb = []
                D('else', next(lays), cur, eb)
                self.suite(n[3], eb)
                cur = eb
            if n[4] is not None:
                fb = []
                D('finally', next(lays), cur, fb)
                self.suite(n[4], fb)
                cur = fb
            after = []
            D('end try', next(lays), cur, after)
            # Python needs a statement in each suite
            norm.append(('try', tb, handlers, eb, fb))
            norm.extend(after)
        elif k == 'raise':
            D('raise %s(%r)' % (n[1], n[2]), n[3], norm, norm)
            self.late(norm, ('raise', n[1], n[2]), n[3])
        elif k == 'assert':
            D('assert ' + self.ed(n[1], n[2]), n[2], norm, norm)
            self.late(norm, ('assert', n[1]), n[2])
        elif k in ('break', 'continue', 'stop'):
            D(k, n[1], norm, norm)
            self.late(norm, (k,), n[1])
        elif k == 'return':
            D('return ' + self.ed(n[1], n[2]), n[2], norm, norm)
            self.late(norm, ('return', n[1]), n[2])
        elif k == 'comment':
            self.guard(norm)
            if self.clear():
                self.strip_line(norm)
                self.put('  ' + self.tok.com + n[1] + self.eol)
                self.line = ''
            else:
                self.put(self.tok.com + n[1])
                self.text('\n', norm)
        elif k == 'mlc':
            self.guard(norm)
            if self.clear():
                self.text('<', norm)
            self.put(self.tok.mo + n[1] + self.tok.mc)
            self.text('>', norm)
        elif k == 'call':
            lays = iter(list(n[5]) + [0] * 9)
            nb, after = [], []
            D('call ' + self.callhead(n), next(lays), norm, nb)
            self.suite(n[2], nb)
            args = []
            cur = nb
            for an, b in n[3]:
                ab = []
                D('arg ' + an, next(lays), cur, ab)
                self.suite(b, ab)
                args.append((an, ab))
                cur = ab
            D('end call', next(lays), cur, after)
            norm.append(('call', n[1], nb, args, n[4]))
            norm.extend(after)
        elif k == 'shortreg':
            # #call $f: text / #capture x: text / #filter F: text
            kind, arg, extra, inline = n[1:]
            self.guard(norm)
            nb = []
            head = {'call': lambda: self.callhead(n[1:]),
                    'capture': lambda: arg, 'filter': lambda: arg}[kind]()
            self.put(self.tok.d + kind + ' ' + head + ': ')
            self.text('(', nb)
            self.body(inline, nb)
            self.text(')', nb)
            if kind == 'call':
                norm.append(('call', arg, nb, [], extra))
            else:
                norm.append((kind, arg, nb))
            self.text('\n', norm)
        elif k == 'capture':
            nb, after = [], []
            D('capture ' + n[1], n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end capture', n[3][1], nb, after)
            norm.append(('capture', n[1], nb))
            norm.extend(after)
        elif k == 'filter':
            nb, after = [], []
            D('filter ' + n[1], n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end filter', n[3][1], nb, after)
            norm.append(('filter', n[1], nb))
            norm.extend(after)
        elif k == 'block':
            nb, after = [], []
            D('block ' + n[1], n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end block', n[3][1], nb, after)
            norm.append(('block', n[1], nb))
            norm.extend(after)
        elif k == 'cache':
            nb, after = [], []
            D('cache' + (' ' + n[1] if n[1] else ''), n[3][0], norm, nb)
            self.suite(n[2], nb)
            D('end cache', n[3][1], nb, after)
            norm.append(('cache', nb))
            norm.extend(after)
        elif k == 'psp':
            self.put('%s= %s %s' % (self.tok.po, self.epy(n[1]), self.tok.pc))
            norm.append(('out', n[1], 'psp'))
        else:
            raise ValueError(k)

    def ed(self, x, lay):
        """the expression of a directive; a tag closed explicitly stays on
        one line (what becomes of the blanks before it is not specified)"""
        return self.e(x, 0, LAYOUTS[lay % NLAY][0] != 'I')

    def callhead(self, n):
        """function name and extra arguments of a #call"""
        name = n[1]
        s = name[1:] if name[0] == '!' else self.tok.var + name
        ex = n[4] if len(n) > 4 else n[2]
        if ex:
            s += ' ' + ', '.join((a + '=' if a else '') + self.e(x, 1)
                                 for a, x in ex)
        return s

    def colon(self, spell, lay):
        # '#if x:#' would be the single-line form
        return ':' if spell & 2 and LAYOUTS[lay % NLAY][0] != 'I' else ''

    def epy(self, x):
        """a placeholder-free Python rendering (PSP sections are raw Python)"""
        old, self.tok = self.tok, Tokens(var='')
        try:
            return self.e(x)
        finally:
            self.tok = old

    def guard(self, norm):
        """no '###' ambiguities"""
        last = self.src[-1] if self.src else ''
        if isinstance(last, str) and last.endswith(self.tok.dend):
            self.text('|', norm)

    def late(self, norm, item, lay):
        """Insert item before the EOL text that a T layout put after it."""
        kind = LAYOUTS[lay % NLAY][0]
        if kind == 'T' and self._t_used(norm):
            t = norm.pop()
            e = self.eol
            rest = t[1][:-len(e)]
            if rest:
                norm.append(('text', rest))
            norm.append(item)
            norm.append(('text', e))
        else:
            norm.append(item)

    def _t_used(self, norm):
        # a T layout was really used iff the source now ends with EOL text
        # that was emitted as text (an L layout appends directive and EOL
        # in one piece)
        return self.src and self.src[-1] == self.eol

    def program(self, prog):
        defs, body = prog
        nd = []
        sink = []
        for name, params, b, lays in defs:
            nb, after = [], []
            sig = ', '.join(self.tok.var + p if d is None
                            else '%s%s=%s' % (self.tok.var, p, self.e(d))
                            for p, d in params)
            head = 'def ' + name + ('(%s)' % sig if params else '')
            self.directive(head, 0 if lays[0] % NLAY in (3, 8) else lays[0],
                           sink, nb)
            self.body(b, nb)
            self.directive('end def', lays[1], nb, sink)
            nd.append((name, params, nb))
        norm = self.body(body, sink)
        self.text('.', norm)
        return nd, norm


# ------------------------------------------------------------ interpreter
import operator  # noqa: E402

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '&': operator.and_, '|': operator.or_, '^': operator.xor,
       '<<': operator.lshift, '**': operator.pow}
CMP = {'<': operator.lt, '>': operator.gt, '==': operator.eq,
       '!=': operator.ne, '<=': operator.le, '>=': operator.ge,
       'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b,
       'is': operator.is_, 'is not': operator.is_not}
EXCS = {'ValueError': ValueError, 'KeyError': KeyError,
        'IndexError': IndexError, 'TypeError': TypeError,
        'ZeroDivisionError': ZeroDivisionError,
        'ArithmeticError': ArithmeticError, 'LookupError': LookupError,
        'Exception': Exception, 'AssertionError': AssertionError,
        'AttributeError': AttributeError}


def websafe(v, **kw):
    s = default_filter(v)
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')):
        s = s.replace(a, b)
    return s


def default_filter(v, **kw):
    return '' if v is None else str(v)


class Interp:
    """One template instance."""
    MAXSTEPS = 4000
    always = True

    def __init__(self, prog, env, funcs=None, filters=None):
        self.defs = {n: (p, b) for n, p, b in prog[0]}
        self.main = prog[1]
        self.env = env
        self.gvars = {}
        self.trace = []
        self.funcs = funcs or {}
        self.filters = {'None': default_filter, 'WebSafe': websafe,
                        'Filter': default_filter}
        self.filters.update(filters or {})
        self.filter = default_filter
        self.steps = 0
        self.mouts = []
        self.cached = {}

    def run(self):
        return self.method(self.main, {})

    def method(self, body, locs):
        out = []
        old = self.filter
        self.mouts.append(out)
        try:
            self.block(body, locs, out)
        except (Stop, Ret) as r:
            return r.v
        finally:
            self.filter = old
            self.mouts.pop()
        return ''.join(out)

    def lookup(self, name, locs):
        if name in locs:
            return locs[name]
        if name in self.gvars:
            return self.gvars[name]
        if name in self.env:
            return self.env[name]
        if name in self.defs:
            return self.call(name, [])
        raise Missing(name)

    def call(self, name, args):
        params, body = self.defs[name]
        locs = {}
        if len(args) > len(params):
            raise TypeError()
        for i, (p, d) in enumerate(params):
            if i < len(args):
                locs[p] = args[i]
            elif d is not None:
                locs[p] = self.ev(d, {})
            else:
                raise TypeError()
        return self.method(body, locs)

    def ev(self, x, L):
        k = x[0]
        ev = self.ev
        if k in ('int', 'str'):
            return x[1]
        if k == 'const':
            return {'None': None, 'True': True, 'False': False}[x[1]]
        if k == 'var':
            return self.lookup(x[1], L)
        if k == 'bin':
            a = ev(x[2], L)
            return BIN[x[1]](a, ev(x[3], L))
        if k == 'cmp':
            a = ev(x[2], L)
            return CMP[x[1]](a, ev(x[3], L))
        if k == 'and':
            return ev(x[1], L) and ev(x[2], L)
        if k == 'or':
            return ev(x[1], L) or ev(x[2], L)
        if k == 'not':
            return not ev(x[1], L)
        if k == 'neg':
            return -ev(x[1], L)
        if k == 'list':
            return [ev(y, L) for y in x[1]]
        if k == 'tuple':
            return tuple([ev(y, L) for y in x[1]])
        if k == 'dict':
            return {ev(a, L): ev(b, L) for a, b in x[1]}
        if k == 'cond':
            return ev(x[2], L) if ev(x[1], L) else ev(x[3], L)
        if k == 't':
            v = ev(x[2], L)
            self.trace.append(x[1])
            return v
        if k == 'len':
            return len(ev(x[1], L))
        if k == 'idx':
            a = ev(x[1], L)
            if x[2][0] == 'slice':
                return a[:4]
            return a[ev(x[2], L)]
        if k == 'key':
            v = self.lookup(x[1], L)
            if x[2] not in v:
                raise Missing(x[2])
            return v[x[2]]
        if k == 'join':
            return '-'.join([str(y) for y in ev(x[1], L)])
        if k == 'comp':
            return [y * 2 for y in ev(x[2], L)]
        if k == 'mcall':
            return self.call(x[1], [ev(a, L) for a in x[2]])
        raise ValueError(k)

    def block(self, nodes, L, out):
        for n in nodes:
            self.exec(n, L, out)

    def exec(self, n, L, out):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooLong()
        k = n[0]
        if k == 'text':
            out.append(n[1])
        elif k == 'nop':
            pass
        elif k == 'out':
            v = self.ev(n[1], L)
            if v is not None:
                kw = {}
                if len(n) > 3:
                    for a, x in n[2]:
                        kw[a] = self.ev(x, L)
                    kw['rawExpr'] = n[3].final if isinstance(n[3], PH) \
                        else n[3]
                out.append(self.filter(v, **kw))
        elif k == 'eval':
            self.ev(n[1], L)
        elif k == 'set':
            if n[2] == '=':
                L[n[1]] = self.ev(n[3], L)
            else:
                if n[1] not in L:
                    self.ev_unbound(n, L)
                old = L[n[1]]
                if isinstance(old, (list, dict)):
                    # changes the caller's object; out of the model's scope
                    raise TooLong()
                L[n[1]] = BIN[n[2][:-1]](old, self.ev(n[3], L))
        elif k == 'gset':
            self.gvars[n[1]] = self.ev(n[2], L)
        elif k == 'del':
            if n[1] not in L:
                raise UnboundLocalError(n[1])
            del L[n[1]]
        elif k == 'if':
            for e, b in n[1]:
                if self.ev(e, L):
                    self.block(b, L, out)
                    return
            if n[2] is not None:
                self.block(n[2], L, out)
        elif k == 'for':
            for item in self.ev(n[2], L):
                if len(n[1]) == 1:
                    L[n[1][0]] = item
                else:
                    vals = list(item)
                    if len(vals) != len(n[1]):
                        raise ValueError()
                    for a, b in zip(n[1], vals):
                        L[a] = b
                try:
                    self.block(n[3], L, out)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == 'while':
            while self.ev(n[1], L):
                try:
                    self.block(n[2], L, out)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == 'repeat':
            for _ in range(self.ev(n[1], L)):
                try:
                    self.block(n[2], L, out)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == 'try':
            self.do_try(n, L, out)
        elif k == 'raise':
            raise EXCS[n[1]](n[2])
        elif k == 'assert':
            if not self.ev(n[1], L):
                raise AssertionError()
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'stop':
            raise Stop(''.join(self.mouts[-1]))
        elif k == 'return':
            raise Ret(self.ev(n[1], L))
        elif k == 'call':
            buf = []
            self.block(n[2], L, buf)
            pos, kws = [], {}
            if not n[3]:
                pos.append(''.join(buf))
            first = True
            akw = {}
            for an, b in n[3]:
                # text before the first #arg belongs to the first one
                if not first:
                    buf = []
                first = False
                self.block(b, L, buf)
                akw[an] = ''.join(buf)
            if n[1] not in self.funcs:
                raise Missing(n[1])
            for a, x in n[4] or ():
                val = self.ev(x, L)
                if a:
                    kws[a] = val
                else:
                    pos.append(val)
            for a in akw:
                if a in kws:
                    raise TypeError()
            kws.update(akw)
            v = self.funcs[n[1]](*pos, **kws)
            if v is not None or not self.always:
                out.append(self.filter(v))
        elif k == 'capture':
            buf = []
            self.block(n[2], L, buf)
            L[n[1]] = ''.join(buf)
        elif k == 'filter':
            old = self.filter
            self.filter = self.filters[n[1]]
            try:
                self.block(n[2], L, out)
            finally:
                self.filter = old
        elif k == 'block':
            # a block writes in place; its #return value goes nowhere
            old = self.filter
            try:
                self.block(n[2], {}, out)
            except (Stop, Ret):
                pass
            finally:
                self.filter = old
        elif k == 'cache':
            if id(n) in self.cached:
                out.append(self.cached[id(n)])
            else:
                start = len(out)
                self.block(n[1], L, out)
                self.cached[id(n)] = ''.join(out[start:])
        else:
            raise ValueError(k)

    def ev_unbound(self, n, L):
        raise UnboundLocalError(n[1])

    def do_try(self, n, L, out):
        _, body, handlers, eb, fb = n
        try:
            try:
                self.block(body, L, out)
            except (Stop, Ret, Brk, Cont, TooLong):
                raise
            except Exception as e:
                for name, b in handlers:
                    if name == '' or name == 'Exception':
                        break
                    if isinstance(e, Missing):
                        if name in ('LookupError',):
                            break
                        continue
                    if isinstance(e, EXCS[name]):
                        break
                else:
                    raise
                self.block(b, L, out)
            else:
                if eb is not None:
                    self.block(eb, L, out)
        except TooLong:
            raise
        except BaseException:
            if fb is not None:
                self.block(fb, L, out)
            raise
        if fb is not None:
            self.block(fb, L, out)


class TooLong(BaseException):
    pass


# ------------------------------------------------------------ generator
NAMES_INT = ['a', 'b', 'c']
NAMES_STR = ['s', 'w']
NAMES_LST = ['l', 'm']
LOCALS = ['x', 'y', 'z']
GLOBALS = ['g', 'h']
ENV_S = ['', 'str', '<a&b>', "q'", 'x y', 'else if', 'b then']
SAFE = 'abz XYZ09.,;!?+-=/"\'|\n'
TEXTS = ['-', ' ', '\n', ' text ', 'a', ', ', '\n\n', '  \n  ', '"', "'",
         '(', ')', ']', '%s', 'x=1', ':', '}', '{', '*', '&amp;', '<b>',
         '\n ', '\t', 'end', '.', '\\n', '>', '@', 'é']


class Gen:
    """Draws programs.  features: set of node kinds that may appear."""

    def __init__(self, src, features, missing=True, maxdepth=3,
                 errors=True, flow=False):
        self.src = src
        self.i, self.pick = src.i, src.pick
        features = set(features)
        if src.chance(2):
            # swarm: leave some features out
            features = {'text', 'ph'} | {
                x for x in sorted(features) if src.i(0, 2)}
        self.f = features
        self.missing = missing
        self.maxdepth = maxdepth
        self.errors = errors
        # flow: #break, #continue, #stop, #return inside buffered regions
        self.flow = flow
        self.labels = 0
        self.methods = []      # (name, nparams, ndefaults)
        self.budget = 26


    def lay(self):
        return self.i(0, NLAY - 1)

    # typed expressions: 'int', 'str', 'list', 'any', 'bool'
    def expr(self, ty='any', d=2):
        r = self.expr0(ty, d)
        if 't' in self.f and self.i(0, 5) == 5:
            self.labels += 1
            return ('t', 'L%d' % self.labels, r)
        return r

    def expr0(self, ty, d):
        if ty == 'any':
            ty = self.pick(['int', 'str', 'int', 'bool', 'list', 'misc'])
        if self.errors and d > 0 and self.i(0, 40) == 40:
            # something that may fail at run time
            return self.pick([
                ('bin', '//', ('int', 1), ('int', 0)),
                ('idx', ('var', 'l'), ('int', 99)),
                ('bin', '+', ('int', 1), ('str', 'q')),
                ('var', 'missing') if self.missing else ('int', 3),
                ('var', self.pick(LOCALS)),
            ])
        k = self.i(0, 7) if d > 0 else self.i(0, 2)
        if ty == 'int':
            if k == 0:
                return ('int', self.i(0, 9))
            if k <= 2:
                return ('var', self.pick(NAMES_INT + self.known_int))
            if k <= 4:
                return ('bin', self.pick(['+', '-', '*', '+', '&', '|']),
                        self.expr('int', d - 1), self.expr('int', d - 1))
            if k == 5:
                return ('len', self.expr(self.pick(['str', 'list']), d - 1))
            if k == 6:
                return ('cond', self.expr('bool', d - 1),
                        self.expr('int', d - 1), self.expr('int', d - 1))
            return self.pick([('key', 'd', 'k1'), ('neg', ('var', 'a')),
                              ('bin', '//', ('var', 'a'), ('int', 2)),
                              ('bin', '%', ('int', 17), ('int', 5)),
                              ('bin', '**', ('int', 2), ('int', 3)),
                              ('bin', '<<', ('int', 1), ('int', 3))])
        if ty == 'str':
            if k == 0:
                return ('str', self.pick(['', 'q', 'a b', '<&>', "it's", '"',
                                          '#', '$a', ':', '}', ')', '\\',
                                          '\n', '##', 'é', '%s', ']', '#if',
                                          'else if', ' then ', 'not']))
            if k <= 2:
                return ('var', self.pick(NAMES_STR))
            if k <= 4:
                return ('bin', '+', self.expr('str', d - 1),
                        self.expr('str', d - 1))
            if k == 5 and self.i(0, 1):
                return ('idx', self.expr('str', d - 1), ('slice',))
            if k == 5:
                return ('join', self.expr('list', d - 1))
            if k == 6 and self.methods:
                return self.mcall(d)
            return ('cond', self.expr('bool', d - 1), self.expr('str', d - 1),
                    self.expr('str', d - 1))
        if ty == 'list':
            if k <= 2:
                return ('var', self.pick(NAMES_LST))
            if k <= 4:
                return (self.pick(['list', 'tuple']),
                        [self.expr('int', d - 1)
                         for _ in range(self.i(0, 3))])
            if k == 5:
                return ('comp', 'q_', self.expr('list', d - 1))
            return ('var', self.pick(NAMES_LST))
        if ty == 'bool':
            if k == 0:
                return ('const', self.pick(['True', 'False']))
            if k <= 2:
                return ('cmp', self.pick(['<', '>', '==', '!=', '<=', '>=']),
                        self.expr('int', max(0, d - 1)),
                        self.expr('int', max(0, d - 1)))
            if k <= 4:
                return (self.pick(['and', 'or']), self.expr('bool', d - 1),
                        self.expr('bool', d - 1))
            if k == 5:
                return ('not', self.expr('bool', d - 1))
            if k == 6 and self.i(0, 2) == 2:
                return ('cmp', self.pick(['==', '!=']), ('var', 's'),
                        ('str', self.pick(ENV_S)))
            if k == 6 and self.i(0, 1):
                return ('cmp', self.pick(['==', '!=', '<', 'in', 'not in']),
                        self.expr('str', d - 1), self.expr('str', d - 1))
            if k == 6:
                return ('cmp', self.pick(['in', 'not in']),
                        self.expr('int', d - 1), self.expr('list', d - 1))
            return self.expr(self.pick(['int', 'str', 'list']), d - 1)
        # misc
        return self.pick([('const', 'None'), ('var', 'n'), ('var', 'd'),
                          ('dict', [(('str', 'k'), ('int', 1))]),
                          ('var', 'a'), ('tuple', []), ('const', 'True')])

    known_int = []

    def mcall(self, d=1):
        name, npar, ndef = self.pick(self.methods)
        n = self.i(npar - ndef, npar)
        return ('mcall', name, [self.expr('int', max(0, d - 1))
                                for _ in range(n)])

    def text(self):
        return ('text', ''.join(self.pick(TEXTS)
                                for _ in range(self.i(1, 3))))

    def ph(self):
        k = self.i(0, 9)
        if k == 9 and self.methods:
            return ('ph', self.mcall(), self.i(0, 4))
        if k == 8:
            return ('ph', self.expr('any', 1), self.i(0, 4))
        if k == 7:
            return ('ph', ('key', 'd', self.pick(['k1', 'k2'])), self.i(0, 4))
        if k == 6 and self.locs:
            return ('ph', ('var', self.pick(self.locs)), self.i(0, 4))
        return ('ph', ('var', self.pick(
            NAMES_INT + NAMES_STR + NAMES_LST + ['n'])), self.i(0, 4))

    locs = []

    def inline(self):
        return [self.pick([self.text1(), self.ph()])
                for _ in range(self.i(1, 3))]

    def text1(self):
        return ('text', self.pick(['-', ' t ', 'a', ',', '!', '"', ' ']))

    def body(self, depth, inloop=False, inmethod=False, n=None):
        out = []
        for _ in range(self.i(1, 4) if n is None else n):
            if self.budget <= 0:
                break
            out.append(self.node(depth, inloop, inmethod))
        if not out:
            out = [('text', 'o')]
        return out

    def node(self, depth, inloop, inmethod):
        self.budget -= 1
        simple = ['text', 'text', 'ph', 'ph', 'echo', 'set', 'silent',
                  'tern', 'comment', 'mlc', 'pass', 'slurp', 'gset', 'psp',
                  'phf']
        rare = ['del', 'assert', 'raise', 'stop']
        nest = ['if', 'if', 'for', 'unless', 'repeat', 'while', 'try',
                'short', 'shortelse', 'call', 'shortreg', 'capture', 'filter', 'block',
                'cache']
        if inloop:
            rare = rare + ['break', 'continue']
        if inmethod:
            rare = rare + ['return']
        f = self.f
        simple = [x for x in simple if x in f]
        rare = [x for x in rare if x in f]
        nest = [x for x in nest if x in f]
        r = self.i(0, 19)
        if depth > 0 and nest and r >= 10:
            k = self.pick(nest)
        elif rare and r == 9:
            k = self.pick(rare)
        else:
            k = self.pick(simple)
        return getattr(self, 'n_' + k)(depth - 1, inloop, inmethod)

    def n_text(self, *a):
        return self.text()

    def n_ph(self, *a):
        return self.ph()

    def n_psp(self, *a):
        return ('psp', self.pick([('int', 3), ('str', 'p<'),
                                  ('const', 'None'),
                                  ('bin', '+', ('int', 2), ('int', 2))]))

    def n_echo(self, *a):
        return ('echo', self.expr('any', 2), self.lay())

    def n_silent(self, *a):
        return ('silent', self.expr('any', 2), self.lay())

    def n_set(self, *a):
        name = self.pick(LOCALS)
        if name in self.known_int and self.i(0, 2) == 2:
            return ('set', name, self.pick(['+=', '-=', '*=', '|=']),
                    self.expr('int', 1), self.lay())
        if self.i(0, 1):
            self.known_int = sorted(set(self.known_int) | {name})
            r = ('set', name, '=', self.expr('int', 2), self.lay())
        else:
            r = ('set', name, '=', self.expr('any', 2), self.lay())
            self.known_int = sorted(set(self.known_int) - {name})
        self.locs = sorted(set(self.locs) | {name})
        return r

    def n_gset(self, *a):
        name = self.pick(GLOBALS)
        r = ('gset', name, self.expr('any', 2), self.lay())
        self.locs = sorted(set(self.locs) | {name})
        return r

    def n_del(self, *a):
        return ('del', self.pick(self.locs or LOCALS), self.lay())

    def n_tern(self, *a):
        return ('tern', self.expr('bool', 1), self.expr('any', 1),
                self.expr('any', 1), self.lay())

    def n_comment(self, *a):
        return ('comment', self.pick([' c', '', ' $a #if $x', ' "', "'''",
                                      ' \\', ' #', '---', ' é', ' %s']))

    def n_mlc(self, *a):
        return ('mlc', self.pick([' c ', '', ' $a #if $x\n ', ' """ ',
                                  '\n#end if\n', ' \\ ', ' # ', '\n\n',
                                  ' #* nested *# ', "'"]))

    def n_pass(self, *a):
        return ('pass', self.lay())

    def n_slurp(self, *a):
        return ('slurp', self.pick(['', ' ', ' ignored']))

    def n_assert(self, *a):
        return ('assert', self.expr('bool', 1), self.lay())

    def n_raise(self, *a):
        return ('raise', self.pick(['ValueError', 'KeyError', 'IndexError',
                                    'TypeError']), 'm%d' % self.i(0, 3),
                self.lay())

    def n_stop(self, *a):
        return ('stop', self.lay())

    def n_return(self, *a):
        return ('return', self.expr('any', 1), self.lay())

    def n_break(self, *a):
        return ('break', self.lay())

    def n_continue(self, *a):
        return ('continue', self.lay())

    def lays(self, n):
        return [self.lay() for _ in range(n)]

    def n_if(self, d, inloop, inm):
        nb = self.i(1, 3)
        br = [(self.expr('bool', 2), self.body(d, inloop, inm))
              for _ in range(nb)]
        el = self.body(d, inloop, inm) if self.i(0, 1) else None
        return ('if', br, el, self.i(0, 7), self.lays(nb + 2))

    def n_unless(self, d, inloop, inm):
        return ('unless', self.expr('bool', 2), self.body(d, inloop, inm),
                self.lays(2))

    def n_for(self, d, inloop, inm):
        if self.i(0, 4) == 4:
            names = ['i', 'j']
            it = self.pick([('var', 'pairs'),
                            ('list', [('tuple', [self.expr('int', 1),
                                                 self.expr('str', 1)])
                                      for _ in range(self.i(0, 2))])])
        else:
            names = [self.pick(['i', 'j', 'x'])]
            it = self.expr(self.pick(['list', 'list', 'str']), 2)
        old = self.locs
        self.locs = sorted(set(self.locs) | set(names))
        b = self.body(d, True, inm)
        self.locs = old
        return ('for', names, it, b, self.lays(2))

    def n_while(self, d, inloop, inm):
        self.nwhile = getattr(self, 'nwhile', 0) + 1
        return ('while', 'k%d' % self.nwhile, self.i(0, 3),
                self.body(d, True, inm), self.lays(3))

    def n_repeat(self, d, inloop, inm):
        e = self.pick([('int', self.i(0, 3)), ('var', 'a'),
                       ('len', ('var', 'l')), ('neg', ('int', 2)),
                       ('bin', '-', ('int', 2), ('int', 1))])
        return ('repeat', e, self.body(d, True, inm), self.lays(2))

    def n_short(self, d, inloop, inm):
        k = self.pick(['if', 'if', 'unless', 'for', 'repeat'])
        e = {'if': lambda: self.expr('bool', 1),
             'unless': lambda: self.expr('bool', 1),
             'for': lambda: self.expr('list', 1),
             'repeat': lambda: ('int', self.i(0, 2))}[k]()
        return ('short', k, e, self.inline())

    def n_shortelse(self, d, inloop, inm):
        br = [(self.expr('bool', 1), self.inline())
              for _ in range(self.i(1, 3))]
        if self.i(0, 1):
            br.append((None, self.inline()))
        return ('shortelse', br)

    def n_try(self, d, inloop, inm):
        body = self.body(d, inloop, inm)
        if self.i(0, 1):
            body = body + [self.n_raise()]
        form = self.i(0, 3)
        hs, el, fi = [], None, None
        if form != 3:
            for _ in range(self.i(1, 2)):
                hs.append((self.pick(['ValueError', 'KeyError', 'IndexError',
                                      'TypeError', 'ZeroDivisionError',
                                      'Exception', 'LookupError',
                                      'ArithmeticError']),
                           self.body(d, inloop, inm)))
            if self.i(0, 3) == 3:
                hs.append(('', self.body(d, inloop, inm)))
            if form == 1:
                el = self.body(d, inloop, inm)
            if form == 2:
                fi = self.body(d, False, False)
        else:
            fi = self.body(d, False, False)
        return ('try', body, hs, el, fi, self.lays(6))

    def region(self, d, inloop, inm):
        if self.flow:
            return self.body(d, inloop, inm)
        return self.body(d, False, False)

    def fn(self):
        """function of a #call and its extra arguments"""
        def ex():
            return self.expr(self.pick(['int', 'str']), 1)
        return self.pick([
            lambda: ('up', []), lambda: ('wrap', []),
            lambda: ('two', [('', ex())]), lambda: ('none', []),
            lambda: ('ln', []), lambda: ('two', [('k', ex())]),
            lambda: ('!len', []), lambda: ('fo.wrap', []),
            lambda: ('mk(3)', []), lambda: ('two', []),
            lambda: ('three', [('', ex()), ('z', ex())]),
            lambda: ('nofn', []) if self.missing else ('up', []),
        ])()

    def n_call(self, d, inloop, inm):
        if self.i(0, 3) == 3:
            args = [(nm, self.region(d, inloop, inm))
                    for nm in self.pick([['p'], ['p', 'q'], ['q', 'p'],
                                         ['q', 'p', 'q'], ['p', 'p'],
                                         ['q', 'q', 'p']])]
            extra = self.pick([[], [], [('q', self.expr('int', 1))]])
            return ('call', 'kw', [], args, extra, self.lays(4))
        body = self.region(d, inloop, inm)
        fn, extra = self.fn()
        return ('call', fn, body, [], extra, self.lays(2))

    def n_shortreg(self, d, inloop, inm):
        kind = self.pick(['call', 'capture', 'filter'])
        kind = kind if kind in self.f else 'call'
        ex = []
        if kind == 'call':
            arg, ex = self.fn()
        elif kind == 'capture':
            arg = self.pick(LOCALS)
            self.known_int = [x for x in self.known_int if x != arg]
        else:
            arg = self.pick(self.filters)
        b = self.inline()
        return ('shortreg', kind, arg, ex, b)

    def n_capture(self, d, inloop, inm):
        name = self.pick(LOCALS)
        b = self.region(d, inloop, inm)
        self.locs = sorted(set(self.locs) | {name})
        self.known_int = [x for x in self.known_int if x != name]
        return ('capture', name, b, self.lays(2))

    filters = ['WebSafe', 'None', 'WebSafe', 'Filter']
    fargs = ['maxlen']

    def n_filter(self, d, inloop, inm):
        return ('filter', self.pick(self.filters),
                self.region(d, inloop, inm), self.lays(2))

    def n_phf(self, d, inloop, inm):
        e = ('var', self.pick(NAMES_INT + NAMES_STR + NAMES_LST + ['n'])) \
            if self.i(0, 3) else ('key', 'd', 'k2')
        args = []
        for a in self.src.sub(self.fargs):
            args.append((a, self.expr(
                {'maxlen': 'int', 'also': 'str'}.get(a, 'any'), 1)))
        if not args:
            args = [(self.fargs[0], ('int', 3))]
        return ('phf', e, self.i(0, 7), args)

    def n_block(self, d, inloop, inm):
        self.nblock = getattr(self, 'nblock', 0) + 1
        name = 'blk%d' % self.nblock
        old = self.locs, self.known_int
        self.locs, self.known_int = [], []
        b = self.body(d, False, True)
        self.locs, self.known_int = old
        return ('block', name, b, self.lays(2))

    def n_cache(self, d, inloop, inm):
        return ('cache', '', self.region(d, inloop, inm), self.lays(2))

    def program(self, ndefs=2):
        defs = []
        if 'def' in self.f:
            for i in range(self.i(0, ndefs)):
                npar = self.i(0, 2)
                ndef = self.i(0, npar)
                names = ['x', 'y'][:npar]
                self.locs = list(names)
                self.known_int = list(names)
                b = self.body(self.maxdepth - 1, False, True)
                params = [(p, None if j < npar - ndef else
                           ('int', self.i(0, 9)))
                          for j, p in enumerate(names)]
                defs.append(('meth%d' % i, params, b, self.lays(2)))
                self.methods = self.methods + [('meth%d' % i, npar, ndef)]
        self.locs = []
        self.known_int = []
        self.budget = max(self.budget, 14)
        body = self.body(self.maxdepth, False, False, n=self.i(1, 6))
        return (defs, body)


def draw_env(d):
    def small():
        return d.i(0, 5)
    return (small(), small(), small(),
            d.pick(ENV_S),
            d.pick(['w', '', '&']),
            d.list(small, 0, 3), d.list(small, 0, 3), small())


def make_env(t):
    return {'a': t[0], 'b': t[1], 'c': t[2], 's': t[3], 'w': t[4],
            'l': list(t[5]), 'm': list(t[6]), 'n': None,
            'd': {'k1': t[7], 'k2': 'v2', 'sub': {'q': 5}},
            'pairs': [(1, 'one'), (2, 'two')]}


# functions for #call
def f_up(s):
    return s.upper()


def f_wrap(s):
    return '<' + s + '>'


def f_two(s, k):
    return '%s|%s' % (s, k)


def f_none(s):
    return None


def f_ln(s):
    return len(s)


def f_three(s, k, z=0):
    return '%s|%s|%s' % (s, k, z)


def f_mk(n):
    def made(s):
        return '%s%s' % (n, s)
    return made


class FO(object):
    def wrap(self, s):
        return '{' + s + '}'


def f_kw(p='-', q='-'):
    return 'p=%s;q=%s' % (p, q)


FUNCS = {'up': f_up, 'wrap': f_wrap, 'two': f_two, 'none': f_none,
         'ln': f_ln, 'kw': f_kw, 'three': f_three, 'mk': f_mk, 'fo': FO()}
# what the functions of #call mean
CALLS = dict((k, FUNCS[k]) for k in 'up wrap two none ln kw three'.split())
CALLS.update({'!len': len, 'fo.wrap': FO().wrap, 'mk(3)': f_mk(3)})


def _recorded(name, f, trace):
    if name == '!len':
        return f

    def call(*a, **k):
        trace.append((name.split('(')[0], a, sorted(k.items())))
        return f(*a, **k)
    return call


def recorded_funcs(trace):
    """FUNCS that append (name, args, kwargs) of each #call to trace"""
    class RFO(object):
        wrap = staticmethod(_recorded('fo.wrap', FO().wrap, trace))
    ns = dict((k, _recorded(k, FUNCS[k], trace)) for k in FUNCS
              if k not in ('mk', 'fo'))
    ns['fo'] = RFO()
    ns['mk'] = lambda n: _recorded('mk', f_mk(n), trace)
    return ns


def model(norm, env, filters=None, filter=None, calls=False):
    """-> (outcome, trace) with outcome ('ok', text) | ('exc', kind)"""
    it = Interp(norm, env, CALLS, filters)
    if calls:
        it.funcs = dict((k, _recorded(k, f, it.trace))
                        for k, f in CALLS.items())
    if filter:
        it.filter = filter
    try:
        out = it.run()
        r = ('ok', out)
    except TooLong:
        return None, None
    except Missing:
        r = ('exc', 'NotFound')
    except (Brk, Cont):
        return None, None
    except Exception as e:
        r = ('exc', type(e).__name__)
    return r, it.trace
