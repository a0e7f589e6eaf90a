"""C14: forbidden directives and expressions never get through.

The generator builds templates together with their inventory: the directives
in source order, and the markers (names m0, m1, ...) of every expression.
Decoys (comments, #raw sections, escaped tokens) hold markers and directives
that are no part of the template.
"""
import re

from vlib.core import Prop, Skip, Violation, expect, same
from vlib import tm

from Cheetah.Parser import ForbiddenDirective, ForbiddenExpression

ALL = ['import', 'from', 'extends', 'implements', 'super', 'slurp', 'raw',
       'include', 'cache', 'filter', 'echo', 'silent', 'transform', 'call',
       'arg', 'capture', 'attr', 'def', 'block', '@', 'defmacro', 'closure',
       'set', 'del', 'if', 'while', 'for', 'else', 'elif', 'pass', 'break',
       'continue', 'stop', 'return', 'yield', 'repeat', 'unless', 'assert',
       'raise', 'try', 'except', 'finally', 'errorCatcher', 'breakpoint',
       'compiler', 'compiler-settings', 'shBang', 'encoding', 'end', 'psp',
       'i18n', 'mac', 'idm']

NM = 60


class B(object):
    """Builds one template: text, directives and markers in source order."""

    def __init__(self, d):
        self.d = d
        self.out = []
        self.dirs = []
        self.marks = []         # (number, exprType or None, flags)
        self.decoys = []
        self.n = 0
        self.names = 0
        self.inside = False     # in the source given to a macro

    def mark(self, typ, flags=''):
        """flags: n = a returned change has no effect, o = seen out of order,
        """
        self.n += 1
        self.marks.append((self.n - 1, typ, flags))
        return 'm%d' % (self.n - 1)

    def name(self, p='v'):
        self.names += 1
        return '%s%d' % (p, self.names)

    def w(self, s):
        self.out.append(s)

    def tag(self, directive, text, colon=True, own=False):
        """A directive tag; the text is what follows the # sign."""
        self.dirs.append(directive)
        k = self.d.i(0, 5)
        if own:
            self.w('#%s\n' % text)
        elif k == 0:
            self.w('x#%s#|' % text)
        elif k == 1:
            self.w('\n   #%s   \n' % text)
        elif k == 2:
            self.w('\n#%s ## m99 #set note\n' % text)
        elif k == 3 and colon:
            self.w('x#%s:\n' % text)
        else:
            self.w('\n#%s\n' % text)

    def end(self, name):
        self.dirs.append('end')
        k = self.d.i(0, 2)
        self.w(['\n#end %s\n', '|#end %s#|', '\n  #end   %s  \n'][k] % name)

    def body(self, depth, n=2):
        self.w('[')
        for _ in range(self.d.i(0, n)):
            self.item(depth)
        self.w(']')

    def placeholder(self):
        m = self.mark
        k = self.d.i(0, 11)
        p = 'placeholder'
        if k == 0:
            self.w('$%s ' % m(p))
        elif k == 1:
            self.w('${%s}' % m(p))
        elif k == 2:
            self.w('$(%s)' % m(p))
        elif k == 3:
            self.w('$[%s]' % m(p))
        elif k == 4:
            self.w('$%s.upper()' % m(p))
        elif k == 5:
            self.w('${%s + $%s}' % (m(p), m(p)))
        elif k == 6:
            self.w('$!%s ' % m(p))
        elif k == 7:
            self.w('$*%s ' % m(p))
        elif k == 8:
            self.w('$*5h*{%s}' % m(p))
        elif k == 9:
            self.w('${%s, arg=$%s}' % (m(p), m(p, 'n')))
        elif k == 10:
            self.w('$ident($%s)' % m(p))
        else:
            a = m(p)
            self.w('$ident($%s + c"<$%s>")' % (a, m(p, 'o')))

    def decoy(self):
        k = self.d.i(0, 5)
        n = 70 + self.d.i(0, 9)
        self.decoys.append(n)
        if k == 0:
            self.w('\n## $m%d #set $x = 1 <%% pass %%>\n' % n)
        elif k == 1:
            self.w('#* $m%d #silent $m%d #end if *#' % (n, n))
        elif k == 2:
            self.dirs.append('raw')
            self.w('\n#raw\n$m%d #set $x = $m%d <%% 1 %%>\n#end raw\n' % (n, n))
        elif k == 3:
            self.w('\\$m%d \\#set $ m%d #settle m%d # if m%d ' % (n, n, n, n))
        elif k == 4:
            self.dirs.append('raw')
            self.w('\n#raw: $m%d #if\n' % n)
        else:
            self.w(' \\#echo $1m%d ' % n)

    def item(self, depth):
        d, m = self.d, self.mark
        k = d.wpick([(6, 'ph'), (2, 'text'), (2, 'decoy'), (1, 'psp'),
                     (1, 'echo'), (1, 'silent'), (2, 'set'), (1, 'setg'),
                     (1, 'assert'), (1, 'del'), (1, 'imports'), (1, 'tern'),
                     (1, 'slurp'), (1, 'pass'), (1, 'incl'), (1, 'mac'),
                     (1, 'i18n'), (1, 'ec'), (1, 'setting'), (1, 'short')]
                    + ([] if depth <= 0 else
                       [(3, 'if'), (1, 'unless'), (2, 'for'), (1, 'while'),
                        (1, 'repeat'), (1, 'try'), (2, 'def'), (1, 'block'),
                        (1, 'closure'), (2, 'call'), (1, 'capture'),
                        (1, 'filter'), (1, 'cache')]
                       + [(1, 'idm')] * (not self.inside)))
        if k == 'ph':
            self.placeholder()
        elif k == 'text':
            self.w(d.pick(['text', 'a b\n', '\n\n', '100% #1 ', 'é']))
        elif k == 'decoy':
            self.decoy()
        elif k == 'psp':
            self.dirs.append('psp')
            self.w(d.pick(["<%%= '%s' %%>", "<%% write('%s') %%>",
                           "<%%='%s'%%>"])
                   % m('psp', 'p'))
        elif k == 'echo':
            self.tag('echo', d.pick(['echo $%s', 'echo ($%s)', 'echo[$%s]',
                                     'echo  "a" + $%s'])
                     % m('echo'), colon=False)
        elif k == 'silent':
            self.tag('silent', 'silent $ident($%s)' % m('silent'),
                     colon=False)
        elif k == 'set':
            v = self.name()
            self.tag('set', d.pick(['set $%s = $%s', 'set %s=$%s'])
                     % (v, m('set')), colon=False)
        elif k == 'setg':
            self.tag('set', 'set global $%s = $%s' % (self.name('g'),
                                                      m('set')), colon=False)
        elif k == 'assert':
            self.tag('assert', 'assert $%s' % m('assert'), colon=False)
        elif k == 'del':
            v = self.name()
            self.tag('set', 'set $%s = $%s' % (v, m('set')), colon=False)
            self.tag('del', 'del $%s' % v, colon=False)
        elif k == 'imports':
            if d.chance(2):
                self.tag('import', 'import string', colon=False)
            else:
                self.tag('from', 'from string import digits', colon=False)
        elif k == 'tern':
            self.tag('if', 'if $%s then $%s else $%s'
                     % (m('if', 'n'), m('if', 'n'), m('if', 'n')),
                     colon=False)
        elif k == 'slurp':
            self.dirs.append('slurp')
            self.w('#slurp\n')
        elif k == 'pass':
            self.tag('pass', 'pass', colon=False)
        elif k == 'incl':
            self.tag('include', 'include raw source=$%s' % m('include'),
                     colon=False)
        elif k == 'mac':
            self.dirs.append('mac')
            self.w("\n#mac a='%s'\n%s\n#end mac\n"
                   % (m('mac', 'p'), d.pick(['text', '#end if', ''])))
        elif k == 'i18n':
            self.dirs.append('i18n')
            self.w("\n#i18n id='%s'\nhello\n#end i18n\n" % m('i18n', 'p'))
        elif k == 'ec':
            # turned off at once: its effects are C22's subject
            self.tag('errorCatcher', 'errorCatcher Echo', colon=False)
            self.marks.append((None, 'errorcatcher', ''))
            self.end('errorCatcher')
        elif k == 'setting':
            if d.chance(2):
                self.tag('compiler', 'compiler commentOffset = 2',
                         colon=False)
                self.marks.append((None, 'compiler', ''))
            else:
                self.dirs.append('compiler-settings')
                self.w('\n#compiler-settings\ncommentOffset = 2\n'
                       '#end compiler-settings\n')
        elif k == 'short':
            q = d.i(0, 3)
            if q == 0:
                self.dirs.append('if')
                self.w('\n#if $%s: ' % m('if'))
            elif q == 1:
                self.dirs.append('for')
                self.w('\n#for $%s in [$%s]: ' % (self.name(), m('for')))
            elif q == 2:
                self.dirs.append('unless')
                self.w('\n#unless $no($%s): ' % m('unless'))
            else:
                self.dirs.append('capture')
                self.w('\n#capture %s: ' % self.name())
            r = d.i(0, 3)
            self.w('a')
            if r == 0:
                self.placeholder()
            elif r == 1:
                self.dirs.append('set')
                self.w('#set $%s = $%s#' % (self.name(), m('set')))
            elif r == 2:
                self.dirs.append('psp')
                self.w("<%%= '%s' %%>" % m('psp', 'p'))
            else:
                self.dirs.append('echo')
                self.w('#echo $%s' % m('echo'))
            self.w('\n')
        elif k == 'if':
            self.tag('if', d.pick(['if $%s', 'if not $no($%s)', 'if($%s)'])
                     % m('if'))
            self.body(depth - 1)
            if d.chance(3):
                if d.chance(2):
                    self.tag('elif', 'elif $%s' % m('elif'))
                else:
                    self.tag('else', 'else if $%s' % m('else'))
                self.body(depth - 1)
            if d.chance(2):
                self.tag('else', 'else')
                self.body(depth - 1)
            self.end('if')
        elif k == 'unless':
            self.tag('unless', 'unless $no($%s)' % m('unless'))
            self.body(depth - 1)
            self.end('unless')
        elif k == 'for':
            self.tag('for', 'for $%s in [$%s, $%s]'
                     % (self.name(), m('for'), m('for')))
            self.body(depth - 1)
            if d.chance(4):
                x = d.pick(['break', 'continue'])
                self.tag(x, x, colon=False)
            self.end('for')
        elif k == 'while':
            self.tag('while', 'while $%s' % m('while'))
            self.body(depth - 1)
            self.tag('break', 'break', colon=False)
            self.end('while')
        elif k == 'repeat':
            self.tag('repeat', 'repeat len([$%s])' % m('repeat'))
            self.body(depth - 1)
            self.end('repeat')
        elif k == 'try':
            self.tag('try', 'try')
            self.body(depth - 1)
            raises = d.chance(2)
            if raises:
                self.tag('raise', 'raise ValueError($%s)' % m('raise'),
                         colon=False)
            if not raises and d.chance(3):
                self.tag('finally', 'finally')
            else:
                self.tag('except', 'except ValueError')
            self.body(depth - 1)
            self.end('try')
        elif k in ('def', 'closure'):
            f = self.name('f')
            own = k == 'def' and d.chance(5)
            if own:
                self.dirs.append('@')
                self.w('\n#@deco%d\n' % d.i(0, 1))
                self.marks.append((None, 'decorator', ''))
            self.tag(k, "%s %s($p='%s')" % (k, f, m('def', 'n')),
                     own=own)
            self.body(depth - 1, 2 if k == 'def' else 0)
            self.end(k)
        elif k == 'block':
            self.tag('block', 'block %s' % self.name('b'))
            self.body(depth - 1)
            self.end('block')
        elif k == 'call':
            q = d.i(0, 2)
            if q == 0:
                self.tag('call', 'call $ident2')
                self.body(depth - 1)
            elif q == 1:
                self.tag('call', 'call $joiner a=$%s' % m('call'))
                self.body(depth - 1)
            else:
                self.tag('call', 'call $joiner')
                self.dirs.append('arg')
                self.marks.append((None, 'arg', ''))
                self.w('\n#arg a\n')
                self.body(depth - 1)
                self.dirs.append('arg')
                self.marks.append((None, 'arg', ''))
                self.w('\n#arg x\n')
                self.body(depth - 1)
            self.end('call')
        elif k == 'capture':
            self.tag('capture', 'capture %s' % self.name())
            self.body(depth - 1)
            self.end('capture')
        elif k == 'filter':
            self.tag('filter', d.pick(['filter WebSafe', 'filter Filter',
                                       'filter None']))
            self.body(depth - 1)
            self.end('filter')
        elif k == 'idm':
            # a macro that returns its source
            self.dirs.append('idm')
            self.inside = True
            self.w('\n#idm\n')
            self.body(depth - 1)
            self.w('\n#end idm\n')
            self.inside = False
        elif k == 'cache':
            self.tag('cache', "cache id='%s'" % self.name('c'))
            self.body(depth - 1)
            self.end('cache')


def case(d):
    b = B(d)
    for _ in range(d.i(1, 5)):
        b.item(2)
        if b.n > NM - 12:
            break
    used = sorted(set(b.dirs))
    if d.chance(2):
        names = [d.pick(ALL) for _ in range(d.i(1, 3))]
    else:
        names = [d.pick(used)] if used else ['set']
        if d.chance(2):
            names.append(d.pick(ALL))
    drop = [d.pick(ALL)] if d.chance(2) else []
    kind = d.pick(['disable', 'enable', 'expr', 'expr', 'change'])
    marks = [x for x in b.marks if x[0] is not None]
    return dict(src=''.join(b.out), dirs=b.dirs, marks=b.marks,
                decoys=b.decoys, names=names, drop=drop, kind=kind,
                pick=d.pick(marks)[0] if marks else None,
                route=d.i(0, 2))


def mac(src, a=None):
    return 'M(%s,%s)' % (a, '' if '#' in src else src)


def idm(src):
    return src


def no(x):
    return False


def ident(x):
    return x


def joiner(x='', a=''):
    return '<%s|%s>' % (a, x)


def env():
    e = {'m%d' % i: '<m%d>' % i for i in range(100)}
    e.update({'n%d' % i: '<n%d>' % i for i in range(100)})
    e.update(no=no, ident=ident, ident2=ident, joiner=joiner)
    return e


def build(c, settings, prefix=''):
    s = {'macroDirectives': {'mac': mac, 'idm': idm}}
    s.update(settings)
    return tm.compile_(prefix + c['src'], compilerSettings=s,
                       moduleGlobals={'deco0': ident, 'deco1': ident})


def render(cls):
    t = cls(searchList=[env()])
    t.i18n = lambda message, id=None, **k: 'i18n(%s,%s)' % (id, message)
    return t.respond()


def seen(text):
    return [int(x) for x in re.findall(r'(?<![a-z0-9])m(\d+)(?![0-9])',
                                       text)]


def check(c):
    kind = c['kind']
    plain = tm.must(lambda: render(build(c, {})), 'a valid template',
                    c['src'])
    # what the hooks see
    calls, pre, post, phs = [], [], [], [0, 0]

    def expr_hook(parser, expr, exprType, rawExpr=None, startPos=None):
        calls.append((exprType, '%s %s' % (expr, rawExpr or ''), startPos,
                      len(parser.src())))
        return expr

    def pre_ph(parser):
        phs[0] += 1

    def post_ph(parser):
        phs[1] += 1

    hooked = tm.must(lambda: render(build(c, dict(
        expressionFilterHooks=[expr_hook],
        preparseDirectiveHooks=[
            lambda parser, directiveName: pre.append(directiveName)],
        postparseDirectiveHooks=[
            lambda parser, directiveName: post.append(directiveName)],
        preparsePlaceholderHooks=[pre_ph],
        postparsePlaceholderHooks=[post_ph],
    ))), 'a valid template with hooks that change nothing', c['src'])
    same(hooked, plain, 'output with hooks that change nothing, of %r'
         % c['src'])
    same(pre, [x for x in c['dirs'] if x != 'psp'],
         'directives seen by the preparse hooks in %r' % c['src'])
    same(sorted(post), sorted(x for x in c['dirs'] if x != 'psp'),
         'directives seen by the postparse hooks in %r' % c['src'])
    same(phs, [sum(1 for x in calls if x[0] == 'placeholder')] * 2,
         'calls of the placeholder hooks in %r' % c['src'])
    first = {}
    for i, (t, text, pos, size) in enumerate(calls):
        for n in seen(text):
            first.setdefault(n, (i, t))
        expect(pos is None or 0 <= pos <= size,
               'start position %r out of range', pos)
    for n, typ, flags in c['marks']:
        if n is None:
            expect(any(x[0] == typ for x in calls),
                   'no hook call for the %s directive of %r', typ, c['src'])
            continue
        expect(n in first, 'the expression with m%d was not shown to the '
               'expression hooks: %r', n, c['src'])
        same(first[n][1], typ, 'exprType of the expression with m%d of %r'
             % (n, c['src']))
    got = [n for n, _ in sorted(((n, v) for n, v in first.items()),
                                key=lambda x: (x[1][0], x[0]))]
    out = {n for n, t, f in c['marks'] if 'o' in f}
    exp = [n for n, t, f in c['marks'] if n is not None and n not in out]
    same([n for n in got if n not in out and n < 70], exp,
         'order in which the hooks see the expressions of %r' % c['src'])
    expect(not any(n >= 70 for n in got),
           'the hooks were shown text that is no expression of %r', c['src'])

    labs = [kind]
    if kind in ('disable', 'enable'):
        if kind == 'disable':
            names = c['names']
            setting = {'disabledDirectives': names}
            bad = [x for x in c['dirs'] if x in names]
        else:
            names = sorted(set(c['dirs']) - set(c['drop']) | set(c['names']))
            setting = {'enabledDirectives': names}
            bad = [x for x in c['dirs'] if x not in names]
        told = []
        hooks = {'disabledDirectiveHooks': [
            lambda parser, directiveName: told.append(directiveName)]}
        prefix = ''
        if c['route'] == 2:
            prefix = '#compiler-settings\n%s = python:%r\n' \
                '#end compiler-settings\n' % (list(setting)[0],
                                              list(setting.values())[0])
            setting = {}
        try:
            got = render(build(c, dict(setting, **hooks), prefix))
        except ForbiddenDirective as e:
            expect(bad, '%r: ForbiddenDirective (%s) for %r, which has none',
                   setting or prefix, e.msg, c['src'])
            same(told, [bad[0].lower()], 'disabledDirectiveHooks')
            expect(repr(bad[0].lower()) in e.msg,
                   'message %r does not name %r', e.msg, bad[0])
            labs.append('forbidden')
        else:
            if bad:
                raise Violation('%r: the forbidden #%s was accepted in %r'
                                % (setting or prefix, bad[0], c['src']))
            same(got, plain, 'output of a template that uses no forbidden '
                 'directive, with %r: %r' % (setting or prefix, c['src']))
            labs.append('unaffected')
    elif kind == 'expr':
        if c['pick'] is None:
            raise Skip()
        k = c['pick']

        def guard(parser, expr, exprType, rawExpr=None, startPos=None):
            if k in seen('%s %s' % (expr, rawExpr or '')):
                raise ForbiddenExpression(parser, msg='not m%d' % k)
            return expr

        try:
            build(c, {'expressionFilterHooks': [expr_hook, guard]})
        except ForbiddenExpression as e:
            expect('not m%d' % k in e.msg, 'message %r', e.msg)
        else:
            raise Violation('an expression refused by a hook (m%d) was '
                            'accepted in %r' % (k, c['src']))
        labs.append('refused')
    else:
        ok = {n for n, t, f in c['marks'] if n is not None and 'n' not in f}

        def change(parser, expr, exprType, rawExpr=None, startPos=None):
            if not isinstance(expr, str):
                return expr
            return re.sub(r'(?<![a-z0-9])m(\d+)(?![0-9])', lambda x:
                          'n' + x.group(1) if int(x.group(1)) in ok
                          else x.group(), expr)
        got = tm.must(lambda: render(
            build(c, {'expressionFilterHooks': [change, expr_hook]})),
            'a hook that renames', c['src'])
        src = re.sub(r'm(\d+)(?![0-9])', lambda x: 'n' + x.group(1)
                     if int(x.group(1)) in ok else x.group(), c['src'])
        exp = render(build(dict(c, src=src), {}))
        same(got, exp, 'output with a hook that renames variables of %r'
             % c['src'])
        if got != plain:
            labs.append('changed')
    return labs


# ---- what a hook returns is used (the kinds for which it is not are listed
# in known_findings.txt)

RETURNED = {
    'placeholder': '$m1', 'echo': '#echo $m1', 'psp': "<%= 'm1' %>",
    'set': '#set $v = $m1\n$v', 'if': '#if $m1 == "<n1>"\nyes\n#end if\n',
    'for': '#for $i in [$m1]\n$i\n#end for\n',
    'include': '#include raw source=$m1', 'mac': "#mac a='m1'\n#end mac\n",
    'args': '#call $joiner a=$m1\n#end call\n',
    'attr': "#attr $z = 'm1'\n$z",
    'tern': '#if 1 then $m1 else 0',
    'call': '#call $m1.replace old="m"\nx\n#end call',
    'def': "#def f($p='m1')\n$p\n#end def\n$f",
}


def returned_case(d):
    return (d.pick(sorted(set(RETURNED) - {'tern', 'call', 'def'})),
            d.chance(2))


def check_returned(c):
    kind, twice = c

    def change(parser, expr, exprType, rawExpr=None, startPos=None):
        return expr.replace('m1', 'n1')

    def ident_hook(parser, expr, exprType, rawExpr=None, startPos=None):
        return expr

    src = RETURNED[kind]
    got = tm.must(lambda: render(build({'src': src}, {
        'expressionFilterHooks': [change, ident_hook] if twice else [change]
    })), 'a hook that renames', src)
    exp = render(build({'src': src.replace('m1', 'n1')}, {}))
    same(got, exp, 'a hook that returns n1 for m1 in %r' % src)
    return [kind]


PROPS = [
    Prop('inventory', case, check, 16000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: c['kind'] != 'change' or 'changed' in l,
         rule='templates of nesting depth <= 3 over all directives with a '
              'known inventory; disabled/enabled sets, refusing and '
              'rewriting hooks; non-trivial = a configuration was judged'),
    Prop('returned', returned_case, check_returned, 400, shards=1,
         rule='the value returned by a hook, per kind of expression'),
]
