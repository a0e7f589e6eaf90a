"""C15: syntax settings change the syntax and nothing else."""
from vlib.core import Prop, Skip, expect, same
from vlib import lang, tm
from checks import c02

FEATURES = set('''text ph echo set silent tern comment mlc pass slurp gset psp
del assert raise stop break continue return
if for unless repeat while try short shortelse def t
call capture filter'''.split())

OLD_VAR = ['$a', '${a}', '$!b ', '$', '$*x ', '\\$']
OLD_DIR = ['#if x', '#set a = 1', '##', '#', '#*', '*#', '#end if', '#slurp',
           '#\n', ' #echo 1#', '#end for\n', '\\#']
OLD_PSP = ['<%', '<%= a %>', '%>', '<% 1/0 %>']


def tokens(d):
    """Settings names and values of a new syntax (the absent ones keep
    their defaults)."""
    pool = d.shuffle(['@', '~', '`', '?', '\u00a7', '\u20ac', '^^', '%',
                      ';;', '\u2192', '\u2016', '\u00ac'])
    t = {}
    var = d.chance(2)
    direc = d.chance(2)
    if var or not direc:
        t['cheetahVarStartToken'] = pool.pop() * d.pick([1, 1, 2])
    if direc:
        c = pool.pop()
        t['directiveStartToken'] = c
        pool = [x for x in pool if x not in '%@']
        k = d.i(0, 2)
        # ('@' is a character of directive names)
        if k == 0 and c not in '%@':
            t['directiveEndToken'] = c
        elif k == 1:
            t['directiveEndToken'] = pool.pop()
        if d.chance(2):
            t['commentStartToken'] = c * 2
            if c != '%':        # '<' before it would be the PSP token
                t['multiLineCommentStartToken'] = c + '*'
                t['multiLineCommentEndToken'] = '*' + c
            t['EOLSlurpToken'] = d.pick([c, pool.pop() + '>'])
    pool = [x for x in pool if x not in '%@']   # those occur in texts
    if 'commentStartToken' not in t:
        if d.chance(3):
            t['commentStartToken'] = pool.pop() + d.pick(['', '/', '*'])
        if d.chance(3):
            c = pool.pop()
            t['multiLineCommentStartToken'] = c + d.pick(['*', '', '['])
            t['multiLineCommentEndToken'] = d.pick(['*', ']', '/']) + c
        if d.chance(4):
            t['EOLSlurpToken'] = pool.pop() + d.pick(['', '\\', '>'])
    if d.chance(3):
        c = pool.pop()
        t['PSPStartToken'] = d.pick(['<', '', '[']) + c
        t['PSPEndToken'] = c + d.pick(['>', ']', ')'])
    return t


def mk(t):
    g = t.get
    tok = lang.Tokens(g('cheetahVarStartToken', '$'),
                      g('directiveStartToken', '#'),
                      g('directiveEndToken', '#'),
                      g('commentStartToken', '##'),
                      g('multiLineCommentStartToken', '#*'),
                      g('multiLineCommentEndToken', '*#'),
                      g('EOLSlurpToken', '#'),
                      g('PSPStartToken', '<%'), g('PSPEndToken', '%>'))
    return tok


class Em(lang.Emitter):
    def text(self, s, norm):
        if not s:
            return
        if self.eol != '\n':
            s = s.replace('\n', self.eol)
        esc = s
        for x in (self.tok.var, self.tok.d):
            esc = esc.replace(x, '\\' + x)
        self.put(esc)
        if norm and norm[-1][0] == 'text':
            norm[-1] = ('text', norm[-1][1] + s)
        else:
            norm.append(('text', s))

    def directive(self, code, lay, before, after):
        if not self.tok.com.startswith(self.tok.dend) \
                and '##' in lang.LAYOUTS[lay % lang.NLAY][2]:
            lay = 2     # a comment ends an expression only by its first
            # characters, those of the end token
        lang.Emitter.directive(self, code, lay, before, after)

    def node(self, n, norm):
        last = self.src[-1] if self.src else ''
        if n[0] != 'text' and isinstance(last, str) and last[-1:] and any(
                len(x) > 1 and last[-1] in x for x in (
                    self.tok.po, self.tok.d, self.tok.var, self.tok.com,
                    self.tok.mo, self.tok.slurp)):
            self.text('|', norm)    # text and token would run together
        if n[0] == 'slurp' and n[1] == '':
            self.guard(norm)
            if not self.clear():
                self.text('|', norm)
            self.used.add('slurptoken')
            if self.clear():
                self.strip_line(norm)
            self.put(self.tok.slurp + self.eol)
            self.line = ''
        else:
            lang.Emitter.node(self, n, norm)


class Gen(lang.Gen):
    extra = ()

    def text(self):
        if self.extra and self.i(0, 3) == 3:
            return ('text', self.pick(self.extra) + self.pick([' ', '\n']))
        return lang.Gen.text(self)


def extra(t):
    tok = mk(t)
    out = []
    allt = ''.join([tok.var, tok.d, tok.dend, tok.com, tok.mo, tok.mc,
                    tok.slurp, tok.po, tok.pc])
    if '$' not in allt:
        out += [x for x in OLD_VAR if '\\' not in x]
    if '#' not in allt:
        out += [x for x in OLD_DIR if '\\' not in x]
    if tok.po != '<%' and tok.d != '%':
        out += OLD_PSP
    if '$' not in allt and '#' not in allt:
        out += ['#if $x', '\\$a', '\\#if']
    return out


def case(d):
    t = tokens(d)
    g = Gen(d, FEATURES)
    prog = g.program()
    g.extra = extra(t)
    g.budget = 20
    body2 = g.body(2)
    route = d.pick(['dict', 'block', 'python', 'compiler'])
    body3 = None
    if route != 'dict' and d.chance(2):
        g.extra = ()
        g.budget = 8
        body3 = g.body(1)
    return (t, prog, body2, body3, route, d.i(0, 1), lang.draw_env(d),
            d.pick(['n', 'n', 'n', 'rn', 'r']))


def check(c):
    t, prog, body2, body3, route, rst, envt, eol = c
    E = lang.EOLS[eol]
    tok = mk(t)
    em = Em(E, lang.Tokens(slurp='#'))
    kw = {}
    if route == 'dict':
        em.tok = tok
        nd, norm = em.program(prog)
        kw = {'compile_kw': {'compilerSettings': dict(t)}}
        em.body(body2, norm)
    else:
        if route == 'block' and any('%%' in v for v in t.values()):
            raise Skip()
        nd, norm = em.program(prog)
        if route == 'compiler':
            for k in sorted(t):
                em.directive('compiler %s = %r' % (k, t[k]), 0, norm, norm)
                setattr(em.tok, {'cheetahVarStartToken': 'var',
                                 'directiveStartToken': 'd',
                                 'directiveEndToken': 'dend',
                                 'commentStartToken': 'com',
                                 'multiLineCommentStartToken': 'mo',
                                 'multiLineCommentEndToken': 'mc',
                                 'EOLSlurpToken': 'slurp',
                                 'PSPStartToken': 'po',
                                 'PSPEndToken': 'pc'}[k], t[k])
        else:
            em.directive('compiler-settings'
                         + (' python' if route == 'python' else ''),
                         0, norm, norm)
            for k, v in sorted(t.items()):
                em.src.append('%s = %s%s' % (k, repr(v) if route == 'python'
                                             else v, E))
            em.src.append('#end compiler-settings' + E)
            em.line = ''
            em.tok = tok
        em.text('[', norm)
        em.body(body2, norm)
        if body3 is not None:
            em.directive('compiler reset' if rst else
                         'compiler-settings reset', 0, norm, norm)
            em.tok = lang.Tokens(slurp='#')
            em.body(body3, norm)
    em.text('.', norm)
    src = em.source()
    exp, etrace = lang.model((nd, norm), lang.make_env(envt))
    if exp is None:
        raise Skip()
    got, trace = c02.actual(src, lang.make_env(envt), **kw)
    same(got, exp, 'wrong result for template %r with %r' % (src, t))
    same(trace, etrace, 'wrong evaluations for template %r with %r'
         % (src, t))
    labs = sorted(em.used) + [exp[0], 'eol-' + eol, route] + sorted(t)
    if body3 is not None:
        labs.append('reset')
    return labs


# ---- settings that do not change the output

NEUTRAL = [('useStackFrames', [False]), ('commentOffset', [0, 3]),
           ('outputRowColComments', [False]), ('defDocStrMsg', ['x "y"', '']),
           ('indentationStep', ['  ', '   ']),
           ('initialMethIndentLevel', [2]),
           ('outputMethodsBeforeAttributes', [False]),
           ('addTimestampsToCompilerOutput', [False]),
           ('alwaysFilterNone', [False]), ('useFilters', [False]),
           ('includeRawExprInFilterArgs', [False]),
           ('useLegacyImportMode', [False]),
           ('prioritizeSearchListOverSelf', [True]),
           ('allowSearchListAsMethArg', [False]),
           ('useKWsDictArgForPassingTrans', [False]),
           ('setup__str__method', [True]), ('allowNestedDefScopes', [False]),
           ('allowPlaceholderFilterArgs', [False]),
           ('allowExpressionsInExtendsDirective', [True]),
           ('allowEmptySingleLineMethods', [True]),
           ('gettextTokens', [[], ['f_up']]),
           ('i18NFunctionName', ['self.other']),
           ('allowWhitespaceAfterDirectiveStartToken', [True]),
           ('monitorSrcFile', [False]), ('encoding', [None]),
           ('disabledDirectives', [['extends', 'attr']]),
           ('useErrorCatcher', [False]), ('useAutocalling', [False])]


def neutral_case(d):
    g = lang.Gen(d, FEATURES - set(['filter']))
    s = dict((k, d.pick(v)) for k, v in
             (d.sub(NEUTRAL) if d.chance(2) else [d.pick(NEUTRAL)]))
    return (g.program(), lang.draw_env(d), s, d.i(0, 3))


def check_neutral(c):
    prog, envt, s, route = c
    if 'indentationStep' in s or 'addTimestampsToCompilerOutput' in s:
        route = 2       # for a whole template
    if 'alwaysFilterNone' in s and 'useFilters' in s:
        raise Skip()    # None is shown as such
    em = lang.Emitter('\n')
    norm = em.program(prog)
    src = em.source()
    exp, etrace = lang.model(norm, lang.make_env(envt))
    if exp is None:
        raise Skip()
    kw = {}
    if route == 0:
        src = '#compiler-settings python\n%s#end compiler-settings\n%s' % (
            ''.join('%s = %r\n' % i for i in sorted(s.items())), src)
    elif route == 1:
        src = ''.join('#compiler %s = %r\n' % i
                      for i in sorted(s.items())) + src
    else:
        kw = {'compile_kw': {'compilerSettings': s}}
    got, trace = c02.actual(src, lang.make_env(envt), **kw)
    same(got, exp, 'wrong result for template %r with %r' % (src, s))
    same(trace, etrace, 'wrong evaluations for template %r with %r'
         % (src, s))
    return sorted(s) + [exp[0], 'route %d' % route]


PROPS = [
    Prop('tokens', case, check, 16000, shards=6, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: len(l) >= 7,
         rule='programs of three parts, the second in a syntax of 1-9 other '
              'tokens set by one of four routes and reset again; '
              'non-trivial = the judged program has several node kinds'),
    Prop('neutral', neutral_case, check_neutral, 9000, shards=4,
         modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: bool(c[2]),
         rule='programs under settings that only change generated code; '
              'non-trivial = at least one setting'),
]
