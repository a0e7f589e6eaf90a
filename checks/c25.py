"""C25: directive lines, comments and #slurp leave no residue."""
from vlib.core import Prop, Skip, same
from vlib import lang, tm

EOLS = {'n': '\n', 'rn': '\r\n', 'r': '\r'}

# tags without a body: code, output
SIMPLE = [
    ('silent 1', ''), ('set $q = 1', ''), ('set global q2 = [1,\n 2]', ''),
    ('pass', ''), ('assert True', ''), ('import os', ''),
    ('from os import path', ''), ('attr $zz = 3', ''), ('echo "E"', 'E'),
    ('silent $f(\n  1)', ''), 
    ('include source="i\\n"', 'i\n'), ('include raw source="$i"', '$i'),
    ('set $q = "a#b"', ''),
    ('echo None', ''), ('set $q, $q3 = 1, 2', ''), ('set $q = {1: "#"}', ''),
    ('compiler-settings reset', ''), ('echo (1,\n\n2)[0]', '1'),
    ('if 1 then "T" else "F"', 'T'), ('set module q5 = 2', ''),
    ('silent """\n#\n"""', ''), ('implements respond', ''),
    ('encoding utf-8', ''), ('shBang #!/x', ''),
    ("compiler useNameMapper = 'True'", ''),
    ('silent $f("#if 1\\n")', ''),
]
LINE_ONLY = ('encoding', 'shBang')      # read to the end of the line

# compound: tags, and the output given that of the bodies
COMPOUND = {
    'if': (['if 1', 'end if'], lambda b: b[0]),
    'if0': (['if 0', 'end if'], lambda b: ''),
    'ifelse': (['if 0', 'else', 'end if'], lambda b: b[1]),
    'ifelif': (['if 0', 'elif 1', 'else', 'end if'], lambda b: b[1]),
    'elseif': (['if 0', 'else if 1', 'else', 'end if'], lambda b: b[1]),
    'ifml': (['if (1 and\n 1)', 'else', 'end if'], lambda b: b[0]),
    'unless': (['unless 0', 'end unless'], lambda b: b[0]),
    'for': (['for $i in [1, 2]', 'end for'], lambda b: b[0] * 2),
    'forml': (['for $i in [1,\n  2]', 'end for'], lambda b: b[0] * 2),
    'while': (['while $more("NAME")', 'end while'], lambda b: b[0] * 2),
    'repeat': (['repeat 3', 'end repeat'], lambda b: b[0] * 3),
    'try': (['try', 'except ValueError', 'end try'], lambda b: b[0]),
    'tryf': (['try', 'finally', 'end try'], lambda b: b[0] + b[1]),
    'trye': (['try', 'except', 'else', 'finally', 'end try'],
             lambda b: b[0] + b[2] + b[3]),
    'def': (['def NAME', 'end def'], lambda b: ''),
    'defa': (['def NAME(x=1, *a, **k)', 'end def'], lambda b: ''),
    'defml': (['def NAME(x=1,\n   y=2)', 'end def'], lambda b: ''),
    'block': (['block NAME', 'end block'], lambda b: b[0]),
    'closure': (['closure NAME(x=1)', 'end closure'], lambda b: ''),
    'cache': (['cache id="NAME"', 'end cache'], lambda b: b[0]),
    'cachet': (['cache timer="5m"', 'end cache'], lambda b: b[0]),
    'capture': (['capture NAME', 'end capture'], lambda b: ''),
    'call': (['call $up', 'end call'], lambda b: b[0].upper()),
    'callarg': (['call $kw r=1', 'arg p', 'arg q', 'end call'],
                lambda b: '(%s|%s)' % (b[1], b[2])),
    'filter': (['filter None', 'end filter'], lambda b: b[0]),
    'filterw': (['filter WebSafe', 'end filter'], lambda b: b[0]),
    'raw': (['raw', 'end raw'], lambda b: b[0]),
    'errorCatcher': (['errorCatcher Echo', 'end errorCatcher'],
                     lambda b: b[0]),
    'i18n': (['i18n', 'end i18n'], lambda b: b[0]),
    'settings': (['compiler-settings', 'end compiler-settings'],
                 lambda b: ''),
}
KINDS = sorted(COMPOUND)
# a suite of statements needs a statement
SUITE = {'if', 'if0', 'ifelse', 'ifelif', 'elseif', 'ifml', 'unless', 'for',
         'forml', 'while', 'repeat', 'try', 'tryf', 'trye', 'closure'}
# the end tags of text that is taken verbatim: their indentation is no part
# of it, however they are closed
VERBATIM_END = ('#end raw', '#end i18n', '#end compiler-settings')
NODEF = {'def', 'defa', 'defml', 'block'}    # only at the top
COMMENTS = ['', ' c', ' $x #if 1', ' *# "', '# #', "'''", ' \\', '*', ' %s{}',
            ' \xe9', ' #end if', ' #*', ':', '.', '   ',
            'doc: C:\\Users "', 'doc-method: """', 'doc-class: \\N{x} 5%',
            "doc-module: \\x'''", 'header: h', 'author@ me', '[@', '^@ x',
            'doc:', 'a@\\x"']
MLC = ['', ' c ', ' $x #if 1 ', '\n', ' a\n b\n', '\n  \n', '#* in *#',
       '#*\n#* x *#*#', ' ## ', "'''", '#raw', '*', ' # ', '\\ ', '\n#end if\n',
       '##\n', 'doc: \\x\n""" %s\n', 'doc-class: \\u1\n """\n',
       'doc-module:\n""" \\N\n', 'header:\na\nb\n', 'v@ \n"x\\ ']


def mlc(d):
    """the text of a comment, with comments nested in it"""
    if not d.chance(4):
        return d.pick(MLC)

    def part(depth):
        if depth and d.i(0, 3):
            return '#* ' + ' '.join(part(depth - 1)
                                    for _ in range(d.i(1, 3))) + ' *#'
        return d.pick(MLC)
    return ' ' + part(5) + ' '


TEXTS = ['t', 'a b', ' ', '  ', '\t', '\n', '\n\n', ' \n', '\n ', '\n\t ',
         'w \n', '.\n', '\f', '\n\f', 'x\n  ', '\\', '\\\\\n', '"', "'",
         '\xa0', '\n\xa0', '\u2003\n', '\x0b', '\x85', '\u2028']


def layout(d):
    # before: start a fresh line with this indentation, or go on
    pre = d.wpick([(5, None), (3, ''), (3, '  '), (1, '\t'), (1, ' \f'),
                   (1, 'x'), (1, 'x ')])
    close = d.wpick([(5, '\n'), (1, ' \n'), (1, '\t \n'), (2, ' ## n\n'),
                     (1, '## n\n'), (4, '#'), (2, ' #')])
    return (pre, close)


def items(d, depth, top=False, n=None):
    out = []
    for _ in range(d.i(0, 4) if n is None else n):
        c = d.i(0, 19)
        if c <= 5:
            out.append(('text', d.pick(TEXTS)))
        elif c <= 7:
            out.append(('ph', d.pick(['$a', '${a}', '$(a)', '$!a'])))
        elif c <= 9:
            out.append(('comment', layout(d)[0], d.pick(COMMENTS)))
        elif c <= 11:
            out.append(('mlc', layout(d)[0], mlc(d), d.pick(
                ['', '', '\n', ' ', ' \n', 'z', '\t\n'])))
        elif c == 12:
            out.append(('slurp', layout(d)[0], d.pick(
                ['#slurp', '#slurp  ', '#slurp ign', '#', '# ', '#\t'])))
        elif c <= 15 or depth <= 0:
            out.append(('simple', d.i(0, len(SIMPLE) - 1), layout(d)))
        else:
            k = d.pick(KINDS)
            if k in NODEF and not top:
                k = 'if'
            tags, _ = COMPOUND[k]
            out.append(('compound', k, [layout(d) for _ in tags],
                        [items(d, depth - 1) for _ in tags[1:]]))
    return out


def case(d):
    return (d.pick(['n', 'n', 'rn', 'r']), items(d, 3, True),
            d.pick(['', '', '.', '\n', ' ']))


class Em:
    def __init__(self, eol):
        self.eol = eol
        self.src = ''
        self.bufs = ['']
        self.names = 0
        self.used = set()
        self.raw = 0
        self.eofs = []

    def line(self):
        """Source since the last line end."""
        i = max(self.src.rfind('\n'), self.src.rfind('\r')) + 1
        return self.src[i:]

    def clear(self):
        return not self.line().strip(' \t\f')

    def out(self, s):
        self.bufs[-1] += s

    def text(self, s):
        s = s.replace('\n', self.eol)
        self.src += s
        self.out(s)

    def fresh(self, pre):
        if pre is None:
            return
        if not self.clear():
            self.text('\n')
        self.text(pre)

    def strip(self):
        n = len(self.line())
        if n:
            assert self.bufs[-1].endswith(self.line())
            self.bufs[-1] = self.bufs[-1][:-n]

    def tag(self, code, lay, before=None, after=None):
        """One directive tag; before() and after() switch buffers."""
        pre, close = lay
        self.fresh(pre)
        if self.src.endswith(('\\', '#')):
            self.text('_')
        code = '#' + code.replace('\n', self.eol)
        spans = '\n' in code or '\r' in code
        implicit = close.endswith('\n')
        if spans and not implicit and self.clear() and self.line():
            # not specified: the indentation before a tag of several lines
            # that text follows
            self.text('_')
        clear = self.clear()
        if clear and (implicit or code in VERBATIM_END):
            self.strip()
        if before:
            before()
        self.src += code
        if not implicit:
            self.src += close
            if clear and not spans:
                # alone on the last line when nothing follows
                self.eofs.append(len(self.src))
        else:
            self.src += close[:-1]
            if clear:
                self.src += self.eol
        if after:
            after()
        self.last_shared = implicit and not clear
        if self.last_shared:
            self.text('\n')
        self.used.add('spans' if spans else 'close' if not implicit
                      else 'clear' if clear else 'shared')

    def push(self):
        self.bufs.append('')

    def item(self, x):
        k = x[0]
        if k == 'text':
            s = x[1]
            self.text(s)
        elif k == 'ph':
            if self.src.endswith('\\'):
                self.text(' ')
            self.src += x[1]
            self.out('A')
            if x[1] in ('$a', '$!a'):
                self.text(';')
        elif k == 'comment':
            self.fresh(x[1])
            if self.src.endswith(('\\', '#')):
                self.text('_')
            clear = self.clear()
            if clear:
                self.strip()
            self.src += '##' + x[2]
            if clear:
                self.src += self.eol
            else:
                self.text('\n')
            self.used.add('comment')
        elif k == 'mlc':
            self.fresh(x[1])
            if self.src.endswith(('\\', '#')):
                self.text('_')
            body = x[2].replace('\n', self.eol)
            after = x[3]
            if '\n' in x[2] and not after.endswith('\n') and self.clear() \
                    and self.line():
                self.text('_')      # as for tags of several lines
            clear = self.clear()
            gone = after.endswith('\n') and clear
            if gone:
                self.strip()
            self.src += '#*' + body + '*#'
            if gone:
                self.src += after[:-1] + self.eol
            elif after.endswith('\n'):
                self.src += after[:-1]
                self.text('\n')
            else:
                self.text(after + '/')
            self.used.add('mlc')
        elif k == 'slurp':
            self.fresh(x[1])
            if self.src.endswith(('\\', '#')):
                self.text('_')
            if self.clear():
                self.strip()
            self.src += x[2] + self.eol
            self.used.add('slurp')
        elif k == 'simple':
            code, out = SIMPLE[x[1]]
            lay = x[2]
            if code.startswith(LINE_ONLY):
                lay = (lay[0], '\n')
                if code.startswith('enc') and self.bufs[1:]:
                    code, out = SIMPLE[0]   # not in the middle of a body
            self.tag(code, lay)
            # what it writes comes before the line end it leaves
            self.put_before_eol(out)
            self.used.add(code.split()[0])
        else:
            self.compound(x)

    def put_before_eol(self, out):
        if not out:
            return
        b = self.bufs[-1]
        if self.last_shared:
            b = b[:-len(self.eol)] + out + self.eol
        else:
            b += out
        self.bufs[-1] = b

    def compound(self, x, upto=None):
        k, lays, bodies = x[1:]
        tags, fn = COMPOUND[k]
        self.names += 1
        name = 'nm%d' % self.names
        outs = []
        if k == 'callarg':
            # nothing between #call and the first #arg
            lays = [('', '\n'), (None, lays[1][1])] + lays[2:]
        if k == 'settings':
            lays = [lays[0], (lays[1][0] and ' ', lays[1][1])]
        self.outs = outs
        for i, t in enumerate(tags[:upto]):
            t = t.replace('NAME', name)

            def after():
                if i:
                    outs.append(self.bufs.pop())
                if i + 1 < len(tags):
                    self.push()
                else:
                    self.out(fn(outs))
            self.tag(t, lays[i], None, after)
            if i + 1 < len(tags):
                if k == 'raw':
                    self.text('$r #if\n')
                elif k == 'i18n':
                    # parsed as a template of its own
                    self.text('w x')
                elif k == 'settings':
                    self.text('useNameMapper = True')
                    self.src += self.eol
                elif k == 'callarg' and i == 0:
                    pass
                else:
                    for y in bodies[i]:
                        self.item(y)
                    if k in SUITE:
                        # a suite needs a statement
                        if self.src.endswith('\\'):
                            self.text(' ')
                        self.src += '${a}'
                        self.out('A')
        self.used.add(k)


# ---------------------------------------------------- the end of the source
def end_case(d):
    return (d.pick(['n', 'rn', 'r']), items(d, 1, True, d.i(0, 2)),
            d.pick(['', ' ', '  ', '\t', 'x ', None, ' \f']),
            d.wpick([(4, ('simple', d.i(0, len(SIMPLE) - 1))),
                     (3, ('compound', d.pick(KINDS))),
                     (1, ('comment', d.pick(COMMENTS))),
                     (2, ('mlc', mlc(d))),
                     (1, ('slurp', d.pick(['', ' ', ' x'])))]),
            d.pick(['', ' ', ' #', '#', ' ## n', '## n']),
            [layout(d) for _ in range(5)])


def end_check(c):
    eol, its, pre, what, close, lays = c
    em = Em(EOLS[eol])
    for x in its:
        em.item(x)
    em.fresh(pre)
    if em.src.endswith(('\\', '#')):
        em.text('_')
    k = what[0]
    out = ''
    if k == 'compound':
        # all but the last tag
        tags, fn = COMPOUND[what[1]]
        em.compound(('compound', what[1], lays[:len(tags)],
                     [[] for _ in tags[1:]]), upto=len(tags) - 1)
        em.fresh(pre and pre.replace('x', '')
                 if what[1] == 'settings' else pre)
        outs = em.outs
        code = tags[-1]
    elif k == 'simple':
        code, out = SIMPLE[what[1]]
        if code.startswith(LINE_ONLY):
            close = ''
            code, out = SIMPLE[0] if 'enc' in code else (code, out)
    elif k == 'comment':
        code, close = '#' + what[1], ''
    elif k == 'mlc':
        code = '*' + what[1].replace('\n', em.eol) + '*#'
        close = close if close == ' ' else ''
    else:
        code, close = 'slurp', what[1]
    if em.src.endswith(('\\', '#')):
        em.text('_')
    if em.clear() and em.line() and '\n' in code and '#' in close:
        em.text('_')
    if em.clear():
        em.strip()
    em.src += '#' + code.replace('\n', em.eol) + close
    if k == 'compound':
        outs.append(em.bufs.pop())
        out = fn(outs)
    em.out(out)
    run(em)
    em.used.add(k + (code.split()[0] if k in ('simple', 'compound') else ''))
    return sorted(em.used) + ['eol-' + eol]


def f_kw(p='', q='', r=0):
    return '(%s|%s)' % (p, q)


def run(em):
    exp = em.bufs[0]
    count = {}

    def more(n):
        count[n] = count.get(n, 0) + 1
        return count[n] % 3 != 0
    got = tm.outcome(tm.render, em.src, [dict(
        a='A', f=lambda x: x, more=more, keep=1, up=lambda s: s.upper(),
        kw=f_kw)])
    same(got, ('ok', exp), 'wrong layout for template %r' % em.src)


def check(c):
    eol, its, tail = c
    em = Em(EOLS[eol])
    for x in its:
        em.item(x)
    em.text(tail)
    if not em.src:
        raise Skip()
    if em.eofs and em.eofs[-1] == len(em.src):
        raise Skip()      # judged by 'ends'
    run(em)
    return sorted(em.used) + ['eol-' + eol]


PROPS = [
    Prop('layout', case, check, 64000, shards=8, modes=('c', 'c', 'c', 'pure'),
         nontrivial=lambda c, l: len(l) >= 4,
         rule='text, placeholders, comments, #slurp, 25 simple and 32 '
              'compound directives nested to depth 3, each tag alone on its '
              'line, sharing it or closed explicitly; the model says which '
              'white space remains; non-trivial = three kinds of item'),
    Prop('ends', end_case, end_check, 16000, shards=8,
         nontrivial=lambda c, l: True,
         rule='the last tag or comment of the source, without a line end'),
]
