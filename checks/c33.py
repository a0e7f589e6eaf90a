"""C33: directives, parsers and compilers of the application.

own       - templates with directives of the application (given as class,
            function or method of a parser of its own, as additions or in
            place of built-in ones) against the same template in terms of the
            built-in directives
gone      - a directive that is taken out is text
"""
from Cheetah.Compiler import Compiler
from Cheetah.Parser import ParseError, Parser
from Cheetah.Parser import ForbiddenDirective
from Cheetah.Template import Template
from vlib.core import Prop, expect, same
from vlib import tm

# names that begin like those of the built-in directives, and like another
SIMPLE = ['shout', 'echoes', 'sets', 'shout2', 'silently', 'my-word', 'if2',
          'endless', 'breakup', 'passage']
BLOCK = ['twice', 'format', 'iffy', 'trying', 'wrap', 'wrapper', 'callout',
         'definition', 'caches', 'untill', 'whiles', 'blocker', 'repeater']
REPLACED = {'echo': 'simple', 'silent': 'simple', 'repeat': 'block',
            'unless': 'block'}
VALUES = {'a': 'Alpha', 'n': 2, 'z': 0, 'x': '<x>', 'e': '', 'one': 1,
          'q': 'Q', 'i': 'I', 'w': 'W'}


def gen_nodes(d, c, depth, budget=None):
    out = []
    for _ in range(d.i(1, 4)):
        k = d.i(0, 9)
        if k <= 1 or depth <= 0 and (k > 4 or not c['simple']):
            out.append(('t', d.pick(['text', 'a b', ' ', '-', 'end', ':'])))
        elif k == 2:
            out.append(('p', d.pick(['${a}', '${x}', '${n}', '${e.upper()}'])))
        elif k <= 4 and c['simple']:
            out.append(('s', d.pick(c['simple']),
                        d.pick(['$a', "'s'", '$n + 1', "$x * 2", '($e)',
                                "[$a, 'k']"]),
                        d.pick(['line', 'line', 'closed', 'indented'])))
        elif k <= 7 and c['block']:
            out.append(('b', d.pick(c['block']),
                        d.pick(['$n', '1', '$z', '$one', '($n)', '2 - 1']),
                        d.pick(['line', 'line', 'closed', 'short',
                                'indented']),
                        gen_nodes(d, c, depth - 1)))
        else:
            out.append(('i', d.pick(['if', 'for', 'call', 'capture', 'def',
                                     'filter', 'try']),
                        gen_nodes(d, c, depth - 1)))
    return out


def gen_own(d):
    c = {'simple': d.sub(SIMPLE)[:3], 'block': d.sub(BLOCK)[:3],
         'form': d.pick(['class', 'function', 'method', 'subclass']),
         'endform': d.pick(['class', 'function']),
         'give': d.pick(['settings', 'settings', 'class', 'getter'])}
    c['replaced'] = d.sub(sorted(REPLACED)) if d.chance(3) else []
    for name in c['replaced']:
        c[REPLACED[name]] = c[REPLACED[name]] + [name]
    if not c['simple'] and not c['block']:
        c['simple'] = ['shout']
    c['nodes'] = gen_nodes(d, c, 3)
    c['fault'] = d.pick([None] * 5 + ['unclosed', 'wrong', 'unopened',
                                      'forbidden'])
    c['word'] = d.pick(c['block'] or c['simple'])
    return c


def write(nodes, own, counter, inline=False):
    """The source; own: in terms of the application's directives."""
    out = []
    for node in nodes:
        k = node[0]
        if k in 'tp':
            out.append(node[1] if inline else node[1] + '\n')
        elif k == 's':
            _, name, expr, form = node
            head = '#%s %s' % (name, expr) if own else \
                "#echo str(%s).upper() + '!'" % expr
            if inline or form == 'closed':
                out.append(head + '#' + ('' if inline else '\n'))
            else:
                out.append(('  ' if form == 'indented' else '') + head + '\n')
        elif k == 'b':
            _, name, expr, form, body = node
            counter[0] += 1
            head = '#%s %s' % (name, expr) if own else \
                '#for $v_%d in range((%s) + 1)' % (counter[0], expr)
            end = '#end %s' % (name if own else 'for')
            flat = all(n[0] in 'tp' for n in body)
            if form == 'short' and flat and not inline and \
                    write(body, own, counter, True).strip():
                out.append('%s: %s\n' % (head, write(
                    body, own, counter, True)))
            elif inline or form == 'closed':
                out.append('%s#%s%s#%s' % (
                    head, write(body, own, counter, True), end,
                    '' if inline else '\n'))
            else:
                pad = '  ' if form == 'indented' else ''
                out.append('%s%s\n%s%s%s\n' % (
                    pad, head, write(body, own, counter), pad, end))
        else:
            _, name, body = node
            counter[0] += 1
            i = counter[0]
            head, tail = {
                'if': ('#if $n', '#end if'),
                'for': ('#for $f_%d in (1, 2)' % i, '#end for'),
                'call': ('#call str.lower', '#end call'),
                'capture': ('#capture c_%d' % i, '#end capture#${c_%d}' % i),
                'def': ('#block m_%d' % i, '#end block'),
                'filter': ('#filter WebSafe', '#end filter'),
                'try': ('#try', '#except ValueError#?#end try')}[name]
            if inline:
                out.append('%s#%s%s%s' % (
                    head, write(body, own, counter, True), tail,
                    '' if '$' in tail else '#'))
            else:
                out.append('%s\n%s%s\n' % (
                    head, write(body, own, counter), tail))
    return ''.join(out)


def simple_eater(name, parser):
    def eat():
        expr = parser.eatSimpleExprDirective(
            name, includeDirectiveNameInExpr=False)
        parser._compiler.addEcho("str(%s).upper() + '!'" % expr)
    return eat


def block_eater(name, parser):
    def start(expr, lineCol=None):
        parser._compiler.addRepeat('(%s) + 1' % expr, lineCol=lineCol)

    def eat():
        parser.eatSimpleIndentingDirective(name, callback=start)
    return eat


def end_eater(name, parser):
    def eat():
        parser._compiler.commitStrConst()
        parser._compiler.dedent()
    return eat


def as_class(maker, name):
    class Handler(object):
        def __init__(self, parser):
            self.eat = maker(name, parser)

        def __call__(self):
            self.eat()
    return Handler


def setup_own(c):
    """Keyword arguments for compile(), and the template class."""
    now = {}
    parsers, ends, methods = {}, {}, {}
    for names, maker in ((c['simple'], simple_eater),
                         (c['block'], block_eater)):
        for name in names:
            if c['form'] == 'class':
                parsers[name] = as_class(maker, name)
            elif c['form'] == 'function':
                parsers[name] = (lambda maker=maker, name=name: maker(
                    name, now['parser'])())
            else:
                meth = 'eat_own_' + name.replace('-', '_')
                methods[meth] = (lambda self, maker=maker, name=name: maker(
                    name, self)())
                parsers[name] = meth
    for name in c['block']:
        if c['endform'] == 'class':
            ends[name] = as_class(end_eater, name)
        else:
            ends[name] = (lambda name=name: end_eater(
                name, now['parser'])())
    settings = {'directiveNamesAndParsers': parsers,
                'endDirectiveNamesAndHandlers': ends,
                'closeableDirectives': [n for n in c['block']
                                        if n not in REPLACED]}

    def see(parser, directiveName):
        now['parser'] = parser
    settings['preparseDirectiveHooks'] = [see]
    kw, base = {}, Template
    compiler = Compiler
    if methods:
        compiler = type('OwnCompiler', (Compiler,), {
            'parserClass': type('OwnParser', (Parser,), methods)})
    if c['give'] == 'settings':
        kw['compilerSettings'] = settings
        if methods:
            kw['compilerClass'] = compiler
    elif c['give'] == 'class':
        base = type('OwnTemplate', (Template,), {
            '_CHEETAH_compilerSettings': settings,
            '_CHEETAH_compilerClass': compiler})
    else:
        base = type('OwnTemplate', (Template,), {
            '_getCompilerSettings': classmethod(
                lambda klass, source=None, file=None: settings),
            '_getCompilerClass': classmethod(
                lambda klass, source=None, file=None: compiler)})
    return kw, base, settings


def render(base, source, kw):
    klass = base.compile(source=source, cacheCompilationResults=False,
                         useCache=False, **kw)
    return tm.text(klass(searchList=[VALUES]))


def uses(nodes):
    out = []
    for node in nodes:
        if node[0] in 'sb':
            out.append(node[1])
        if node[0] == 'b':
            out += uses(node[4])
        elif node[0] == 'i':
            out += uses(node[2])
    return out


def check_own(c):
    kw, base, settings = setup_own(c)
    source = write(c['nodes'], True, [0])
    other = write(c['nodes'], False, [0])
    exp = tm.must(lambda: render(Template, other, {}),
                  'built-in directives', other)
    got = tm.must(lambda: render(base, source, kw),
                  'own directives', source, c)
    same(got, exp, 'template with directives of the application', source,
         other, c)
    # they are not known elsewhere
    name = (c['simple'] + c['block'])[0]
    plain = 'x #%s 1# y' % name
    if name not in REPLACED:
        same(render(Template, plain, {}), plain,
             'the name without the settings', c)
    used = uses(c['nodes'])
    fault, word = c['fault'], c['word']
    if fault == 'forbidden' and word in used:
        settings['disabledDirectives'] = [word]
        try:
            render(base, source, kw)
        except ForbiddenDirective:
            pass
        else:
            expect(False, 'disabled directive compiled', word, source)
    elif word in c['block'] and fault in ('unclosed', 'wrong', 'unopened'):
        bad = {'unclosed': source + '#%s 1\nx\n' % word,
               'wrong': source + '#%s 1\n#if 1\nx\n#end %s\n#end if\n' % (
                   word, word),
               'unopened': source + 'x\n#end %s\n' % word}[fault]
        try:
            render(base, bad, kw)
        except ParseError as e:
            expect(word in str(e) or 'if' in str(e), 'error without the name',
                   str(e))
        else:
            expect(False, 'badly nested directives compiled', bad, c)
    return (['uses'] * (len(used) >= 2) + ['form ' + c['form']]
            + ['give ' + c['give']]
            + ['replaced'] * bool(set(used) & set(REPLACED))
            + ['fault %s' % fault] * bool(fault))


# --------------------------------------------------------------------- gone

GONE = [('echo', '#echo $a', 'line'), ('silent', '#silent $n', 'line'),
        ('set', '#set $q = 1', 'line'), ('slurp', 'x #slurp', 'line'),
        ('raw', '#raw\nt\n#end raw', 'block'), ('if', '#if $z\nt\n#end if',
                                                'block'),
        ('for', '#for $i in $a\nt\n#end for', 'block'),
        ('call', '#call str.upper\nt\n#end call', 'block'),
        ('attr', '#attr $w = 1', 'line'), ('import', '#import os', 'line'),
        ('repeat', '#repeat 2\nt\n#end repeat', 'block'),
        ('unless', '#unless $n\nt\n#end unless', 'block'),
        ('include', "#include source='x'", 'line'),
        ('stop', '#stop', 'line'), ('assert', '#assert $z', 'line'),
        ('breakpoint', '#breakpoint', 'line'),
        ('compiler-settings', '#compiler-settings', 'line')]


def gen_gone(d):
    parts = [d.pick(GONE) for _ in range(d.i(1, 4))]
    return {'parts': [list(p) for p in parts],
            'gone': [p[0] for p in parts if d.chance(2)],
            'val': d.pick([False, 0]),
            'pre': [d.pick(['', '  ', 't ', '$a ']) for _ in parts],
            'macro': d.chance(4)}


def check_gone(c):
    gone = set(c['gone'])
    gone.add(c['parts'][0][0])
    src, exp = '', ''
    for (name, text, kind), pre in zip(c['parts'], c['pre']):
        if name not in gone:
            continue
        block = '\n' in text
        # the end directive is written as text too
        lines = text.split('\n')
        if block and name == 'raw':
            lines = lines[:1] + lines[1:2]
        elif block:
            lines = lines[:-1]
        t = '\n'.join(lines)
        src += pre + t + '\n'
        exp += pre + t.replace('#', '\\#') + '\n'
    ref = tm.must(lambda: render(Template, exp, {}), 'text', exp)
    got = tm.must(lambda: render(Template, src, {'compilerSettings': {
        'directiveNamesAndParsers': {n: c['val'] for n in gone}}}),
        'template without the directives', src, c)
    same(got, ref, 'directives that are switched off are text', src, exp, c)
    return ['gone%d' % len(gone)]


PROPS = [
    Prop('own', gen_own, check_own, quick=6000, shards=6,
         nontrivial=lambda c, l: 'uses' in l,
         rule='at least two uses of directives of the application'),
    Prop('gone', gen_gone, check_gone, quick=1500, shards=2,
         nontrivial=lambda c, l: True,
         rule='every case'),
]
