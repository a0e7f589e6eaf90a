"""C13: malformed templates are rejected with an error that points at the fault."""
import re

from vlib.core import Prop, Skip, Violation, expect
from vlib import lang, tm

DIRECTIVES = '''if else elif unless for while repeat try except finally def block
closure call arg capture filter cache set del echo silent pass break continue
stop return yield raise assert import from extends implements super attr
include raw slurp errorCatcher defmacro i18n transform breakpoint
compiler-settings @ shBang end'''.split()
ENDS = '''if unless for while repeat try def block closure call capture filter
cache raw defmacro i18n errorCatcher compiler-settings set echo foo'''.split()
TOK = (['#' + x for x in DIRECTIVES] * 2 + ['#end ' + x for x in ENDS]
       + ['#end', '#', '##', '#*', '*#', '<%', '%>', '<%=', '$', '${', '$(',
          '$[', '}', ')', ']', '(', '[', '{', '$x', '$x.y', '$!x', '${x',
          '$*x', '$*2h*x', '${x, a=1}', 'x', 'y', '=', '+=', ' in ',
          ' in $l', ':', ': ', '\n', '\n', '\n', '\r\n', '\r', ' ', '  ',
          '"', "'", '"""', "c'", "'a'", '1', '1.5', '5m', ',', '.', '*',
          '**', '\\', '\\$', '\\#', '@', '@x', ' then ', ' else ', 'else',
          'if', 'not', 'and', 'for', ' as e', 'self', 'def', 'lambda',
          'timer=', 'id=', 'test=', 'varyBy=', 'source=', 'raw ', 'arg',
          'x=1', 'import', 'from', 'a.b', 'None', 'range(3)', 'text', 'é',
          '\t', '|', '`', '#x', '\x0b', '\x0c', '\u2028', '€',
          '#if 1\n', '#end if\n', '#for $i in $l\n',
          '#end for\n', '#def f($a, $b=1)\n', '#end def\n', '#call $f\n',
          '#end call\n', '#raw\n', '#end raw\n'])


def soup(d):
    return ''.join(d.list(lambda: d.pick(TOK) + (' ' if d.chance(3) else ''),
                          1, 10))


FEATURES = set('''text ph echo set silent tern comment mlc pass slurp gset psp
del assert raise stop break continue return
if for unless repeat while try short shortelse def t
call capture filter cache block shortreg'''.split())


def mutated(d):
    g = lang.Gen(d, FEATURES, flow=True)
    em = lang.Emitter(lang.EOLS[d.pick(['n', 'n', 'rn', 'r'])])
    em.program(g.program())
    src = em.source()
    for _ in range(d.i(1, 3)):
        n = len(src)
        a = d.i(0, n)
        b = min(n, a + d.i(0, 12))
        k = d.i(0, 5)
        if k == 0:
            src = src[:a] + src[b:]
        elif k == 1:
            src = src[:a] + d.pick(TOK) + src[a:]
        elif k == 2:
            src = src[:a] + d.pick(TOK) + src[b:]
        elif k == 3:
            src = src[:a] if d.chance(2) else src[a:]
        elif k == 4:
            p = d.i(0, n)
            src = src[:p] + src[a:b] + src[p:]
        else:
            ls = re.split(r'(?<=[\n\r])', src)
            i = d.i(0, len(ls) - 1)
            src = ''.join(ls[:i] + ls[i + 1:])
    return src


def lines_of(src):
    return re.split(r'\r\n|\n|\r', src)


# a directive whose argument is Python evaluated while compiling; the errors
# of that code are the template author's own exceptions
OWN = re.compile(r'#\s*(compiler|i18n)')


def attempt(src):
    """-> None or the exception; only documented exceptions may come out."""
    try:
        c = tm.Compiler(src)
        c.compile()
        code = c.getModuleCode()
        compile(code, 'template', 'exec', dont_inherit=True)
        return None
    except tm.ParseError as e:
        return e
    except SyntaxError as e:
        return e
    except ValueError as e:
        if 'null byte' in str(e):
            return e
        raise Violation('%s: %s for %r' % (type(e).__name__, e, src))
    except Exception as e:
        if OWN.search(src):
            raise Skip()
        raise Violation('%s instead of ParseError: %s for %r'
                        % (type(e).__name__, e, src))


POS = re.compile(r'^Line (\d+), column (\d+)( in file .*)?$', re.M)


def reported(e, src):
    """-> (row, col) of the report, which has to quote that source line."""
    try:
        rep = str(e)
        rep2 = e.report()
    except Exception as x:
        raise Violation('the report of a ParseError fails with %r for %r'
                        % (x, src))
    expect(rep == rep2, 'str() and report() differ for %r', src)
    expect(e.msg in rep, 'the report lacks the message for %r', src)
    m = POS.search(rep, rep.index(e.msg) + len(e.msg))
    expect(m, 'the report gives no position for %r: %s', src, rep)
    row, col = int(m.group(1)), int(m.group(2))
    ls = lines_of(src)
    expect(1 <= row <= len(ls), 'row %s of %r is outside the source', row, src)
    expect(0 <= col <= len(ls[row - 1]) + 2,
           'column %s of row %s of %r is outside the line', col, row, src)
    after = rep[m.end():]
    expect('\n%-4d|%s\n' % (row, ls[row - 1]) in after,
           'the report does not show line %s of %r: %s', row, src, rep)
    if col:
        expect('\n%-4d|%s\n%s^\n' % (row, ls[row - 1], ' ' * (4 + col))
               in after, 'the caret does not stand under column %s: %s', col,
               rep)
    # the lines around it are shown under their own numbers
    for k in (row - 2, row - 1, row + 1, row + 2):
        if k == len(ls) and not ls[-1]:
            continue
        if 1 < k <= len(ls) and 'macro' not in src and 'i18n' not in src:
            expect('\n%-4d|%s\n' % (k, ls[k - 1]) in after,
                   'the report does not show line %s of %r: %s', k, src, rep)
    return row, col


def check_any(src):
    if not src:
        raise Skip()
    e = attempt(src)
    if e is None:
        return ['valid']
    if isinstance(e, tm.ParseError):
        if 'macro' in src or 'i18n' in src:
            str(e)
        else:
            reported(e, src)
        return ['ParseError', e.msg[:30]]
    return [type(e).__name__]


# ---- faults of known kind and place

OPENERS = [('if', '#if 1'), ('unless', '#unless 0'), ('for', '#for $i in (1,)'),
           ('while', '#while 0'), ('repeat', '#repeat 2'), ('try', '#try'),
           ('def', '#def m$N'), ('def', '#def m$N($a, $b=1)'),
           ('block', '#block m$N'), ('closure', '#closure m$N'),
           ('call', '#call len'), ('capture', '#capture v$N'),
           ('filter', '#filter WebSafe'), ('cache', '#cache'),
           ('cache', "#cache timer='3m'")]
GOOD = ['text', '', '  indented text', '$x and ${y}', '#set $a = [1,$N]',
        '#echo (1 + 2)', "#silent 'x' + \"y\"", '## comment (', '#* [ *#',
        '#pass', '#raw#${#end raw#', '#if 1: short', '$f(1, [2])',
        '<% z = {1: 2} %>', '\\$x \\#if', '#if 1 then 2 else 3',
        'it\'s "text" (with [brackets', 'text \x0b with \x0c \u2028 odd chars']
CLOSED = [['#if 1', '#else', '#end if'], ['#for $i in (1, 2)', '#end for'],
          ['#call len', '#arg a', '#end call'], ['#raw', '#end if', '${',
                                                 '#end raw'],
          ['#* #if', '$( *#'], ['#try', '#except', '#pass', '#end try'],
          ['#set $a = [', '1,', '$x]'], ["#silent '''", "'''"],
          ['$f(', '1)'], ['<% if 1: %>', '<% end %>']]
# (text of the line with the fault; text that is not yet allowed to end it)
BRACKETS = ['$x(1', '$x[1', '${x', '${x(1}', '${x.y[1}', '$(x', '$[x',
            '#echo (1', '#silent [1, 2', '#set $v = {1: 2', '#if (1',
            '#for $i in (1, 2', '#while $x[1', '${1 + 2', 'text $x(1, (2)',
            '#return (1', '#def m$N($a', '#def m$N($a, $b=(1)',
            '#if $x(1) then [2 else 3', '#repeat (3', '#unless [$x',
            '#assert (1', '#raise E(1', '$x.y(1).z(', '#call $f(1',
            '#filter (', '#capture (v']
WRONG = ['${x(1]}', '$x[1)', '#echo (1]', '#set $v = {1)', '#silent (1}',
         '#if [1)', '$x(1}', '#echo 1)', '#set $v = 2]', '${1 + 2)}',
         '#for $i in (1,]', '$x(1, [2)]']
STRINGS = ["#echo 'abc", '#echo "abc', "$x('abc)", '${x["abc]}',
           "#set $v = 'it", "#if 'a", '#silent "', "${x + 'y}",
           "#return 'abc", "#set $v = f('a)", "#for $i in 'ab",
           "#echo 'a\\'"]
TRIPLE = ['#echo """abc', "#set $v = '''abc", "$x('''abc)", '${x + """}',
          '#silent """a""']
PSP = ['<% x', '<%= x', 'text <% x = 1', '<% if 1: # %']
BADARGS = ['#def', '#def (a)', '#block', '#closure', '#set $x', '#set',
           '#attr x', '#attr $x', '#attr', '#filter', '#arg x', '#call',
           '#echo', '#silent', '#include source', '#cache timer=zz',
           '#cache timer', '#super(1)', '#extends', '#errorCatcher',
           '#transform', '#echo 1 + $!x', '#echo $*x', '#end', '#end foo',
           '#end set', '#cache = 1', '#def f(=1)', '#def f(,=1)', '#def f(1)',
           '#if 1: #for $i in (1,)', '#for $i in (1,): #if 1',
           '#if 1: #end if', '#attr $x = $y']
FAULTS = ['unopened', 'mismatched', 'unclosed', 'bracket', 'wrong', 'string',
          'triple', 'psp', 'badargs']


def filler(d):
    out = []
    for _ in range(d.i(0, 3)):
        if d.chance(4):
            out += d.pick(CLOSED)
        else:
            out.append(d.pick(GOOD))
    return out


def fault_case(d):
    kind = d.pick(FAULTS)
    before, after = filler(d), filler(d)
    opened = d.list(lambda: d.i(0, len(OPENERS) - 1), 0, 2)
    if kind == 'unopened':
        what = d.pick(sorted({o[0] for o in OPENERS}))
        opened = []
    elif kind == 'mismatched':
        opened = opened or [d.i(0, len(OPENERS) - 1)]
        what = d.pick([n for n in sorted({o[0] for o in OPENERS})
                       if n != OPENERS[opened[-1]][0]])
    elif kind == 'unclosed':
        opened = opened or [d.i(0, len(OPENERS) - 1)]
        what = d.i(1, len(opened))      # so many are never closed
    else:
        what = d.pick({'bracket': BRACKETS, 'wrong': WRONG, 'string': STRINGS,
                       'triple': TRIPLE, 'psp': PSP,
                       'badargs': BADARGS}[kind])
    indent = d.pick(['', '', '  '])
    return (kind, what, before, opened, filler(d), after, indent,
            d.pick(['\n', '\n', '\r\n', '\r']), d.i(0, 2))


def check_fault(c):
    kind, what, before, opened, inner, after, indent, eol, tail = c
    lines = list(before)
    stack = []
    for k, i in enumerate(opened):
        if any(s[0] in ('def', 'block', 'closure') for s in stack) and \
                OPENERS[i][0] in ('block', 'closure', 'def'):
            raise Skip()
        stack.append((OPENERS[i][0], len(lines)))
        lines.append(OPENERS[i][1])
    lines += inner
    at = len(lines)
    line = None
    if kind in ('unopened', 'mismatched'):
        line = indent + '#end ' + what
    elif kind != 'unclosed':
        line = indent + what
        if kind == 'badargs' and 'arg' in what and \
                any(s[0] == 'call' for s in stack):
            raise Skip()
        if kind == 'badargs' and what.endswith('$y') and \
                any(s[0] == 'closure' for s in stack):
            raise Skip()        # names in a closure are plain Python names
        if kind in ('triple', 'psp', 'bracket'):
            # nothing after it may close it
            for x in inner[len(inner):] + after:
                if not re.match('[a-z0-9 ]*$', x):
                    raise Skip()
    names = []
    if line is not None:
        lines.append(line)
    if kind in ('mismatched', 'unopened'):
        closing = []
    elif kind == 'unclosed':
        names = [s[0] for s in stack][:what]
        closing = stack[what:]
    else:
        closing = stack
    for s in reversed(closing):
        lines.append('#end ' + s[0])
    lines += after
    src = eol.join(lines).replace('$N', '7') + eol * min(tail, 1)
    e = attempt(src)
    expect(isinstance(e, tm.ParseError),
           'a template with a fault (%s %r) is %s: %r', kind, what,
           'accepted' if e is None else 'rejected with ' + repr(e), src)
    row, col = reported(e, src)
    if kind == 'unclosed':
        if not tail and opened and not inner and not after and not closing:
            # the opening directive itself is the end of the template
            return [kind, 'at the end']
        expect(e.msg.endswith(': ' + ', '.join(names)),
               'the error does not name the unclosed %s: %s for %r',
               names, e.msg, src)
    else:
        expect(row == at + 1, 'the fault (%s %r) in line %s is reported for '
               'line %s: %r', kind, what, at + 1, row, src)
        expect(col <= len(line) + 2, 'column %s is not in the line %r: %r',
               col, line, src)
    if kind == 'mismatched':
        expect(what in e.msg and stack[-1][0] in e.msg,
               'the error does not name %s and %s: %s for %r', what,
               stack[-1][0], e.msg, src)
    return [kind, '%d open' % len(opened), 'row %d' % min(row, 6),
            'eol %r' % eol]


# ---- brackets over several lines

HEADS = ['#silent ', '#set $v = ', '#if ', '#for $i in ', '#echo 1, ',
         '#while $x and ', '#unless ', '#return ', '#assert ', '${x + ']
OPEN = {'(': ')', '[': ']', '{': '}'}


def spread_case(d):
    ops = []
    depth = 1
    for _ in range(d.i(0, 7)):
        k = d.i(0, 5)
        if k <= 1:
            ops.append(d.pick('([{'))
            depth += 1
        elif k == 2 and depth > 1:
            ops.append('close')
            depth -= 1
        elif k <= 3:
            ops.append('\n')
        else:
            ops.append(d.pick(['1, ', "')', ", '$x, ', '"[", ', '  ']))
    return dict(before=filler(d),
                head=d.pick(HEADS), first=d.pick('([{'),
                ops=ops, wrong=d.i(0, 2), end=d.list(
                    lambda: d.pick(['1', 'text', '  ', '']), 0, 3),
                eol=d.pick(['\n', '\n', '\r\n', '\r']))


def check_spread(c):
    lines = list(c['before']) + [c['head'] + c['first']]
    stack = [(c['first'], len(lines))]
    for o in c['ops']:
        if o == '\n':
            lines.append('')
        elif o == 'close':
            lines[-1] += OPEN[stack.pop()[0]] + ', '
        else:
            lines[-1] += o
            if o in OPEN:
                stack.append((o, len(lines)))
    closer = at = None
    if c['wrong']:
        right = OPEN[stack[-1][0]]
        closer = [x for x in ')]}' if x != right][c['wrong'] - 1]
        at = len(lines), len(lines[-1]) + 1
        lines[-1] += closer
    lines += c['end']
    src = c['eol'].join(lines)
    e = attempt(src)
    expect(isinstance(e, tm.ParseError),
           'a template with an unclosed %s is %s: %r', stack[-1][0],
           'accepted' if e is None else 'rejected with ' + repr(e), src)
    row, col = reported(e, src)
    # the opening bracket or the wrong closing one
    expect(row in (stack[-1][1], at and at[0]), 'the unclosed %s of line %s '
           '(closed by %s at %s) is reported for line %s: %r', stack[-1][0],
           stack[-1][1], closer, at, row, src)
    if not closer or row != at[0]:
        expect("'%s'" % stack[-1][0] in e.msg and "'%s'" % OPEN[stack[-1][0]]
               in e.msg, 'the error does not name the unclosed %s: %s for %r',
               stack[-1][0], e.msg, src)
    if closer and row != at[0]:
        expect("'%s'" % closer in e.msg and 'line %d, col %d ' % at in e.msg,
               'the error does not tell the place %r of %r: %s for %r', at,
               closer, e.msg, src)
    return ['depth %d' % len(stack), 'wrong' if closer else 'missing',
            'lines %d' % (len(lines) - len(c['before']))]


# ---- errors of the generated Python code, through Template.compile

PYBAD = ['#if 1 +', '#set $x = 1 +', '#echo 1 2', '#for 1 in $y', '#while',
         '#except', '#else', '#elif 1', '<% ) %>', '#assert', '$x(a b)',
         '${1 1}', '#break', '#continue', '#raise 1 2', '#import', '#from x',
         '#def f($a, $a)', '#return 1 1', '#set $f() = 1', '#del 1',
         '#silent $x $y', '$f(**$a, *$b)', '#repeat 1 2', '#for $x']


def py_case(d):
    return (filler(d), d.pick(PYBAD), filler(d),
            d.pick(['\n', '\r\n', '\r']), d.chance(2))


def check_py(c):
    before, bad, after, eol, close = c
    lines = before + [bad]
    name = bad[1:].split()[0]
    if bad[0] == '#' and name in ('if', 'for', 'while', 'def', 'repeat'):
        lines += ['body', '#end ' + name]
    src = eol.join(lines + after).replace('$N', '7') + eol
    try:
        # positions in the exception being handled are none of its business
        try:
            raise KeyError('line 9999, col 9')
        except KeyError:
            tm.Template.compile(src, cacheCompilationResults=False)
    except tm.ParseError as e:
        try:
            str(e)
        except Exception as x:
            raise Violation('the report of a ParseError fails with %r for %r'
                            % (x, src))
        return ['ParseError', bad]
    except SyntaxError:
        return ['SyntaxError', bad]
    except Exception as e:
        raise Violation('%s instead of ParseError: %s for %r'
                        % (type(e).__name__, e, src))
    raise Violation('accepted: %r' % src)


PROPS = [
    Prop('soup', soup, check_any, 60000, shards=8,
         nontrivial=lambda c, l: 'valid' not in l and 'skipped' not in l,
         rule='1-10 tokens of the template syntax in random order; '
              'non-trivial = rejected'),
    Prop('mutated', mutated, check_any, 20000, shards=8,
         nontrivial=lambda c, l: 'valid' not in l and 'skipped' not in l,
         rule='valid generated programs with 1-3 random cuts, insertions, '
              'duplications or removed lines; non-trivial = rejected'),
    Prop('spread', spread_case, check_spread, 8000, shards=4,
         modes=('c', 'pure'),
         nontrivial=lambda c, l: len(c['ops']) > 1,
         rule='a directive whose nested brackets run over several lines, '
              'the innermost open one closed wrongly or never; non-trivial '
              '= two or more pieces between the brackets'),
    Prop('faults', fault_case, check_fault, 30000, shards=8,
         nontrivial=lambda c, l: 'skipped' not in l,
         rule='a valid template with one fault of known kind on a known '
              'line, under 0-2 open directives; non-trivial = all'),
    Prop('python', py_case, check_py, 6000, shards=4,
         rule='a valid template with one line of invalid Python, through '
              'Template.compile'),
]
