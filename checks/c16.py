"""C16: macros and preprocessors expand to what they return.

Oracle: the same template with every macro call (or preprocessor construct)
replaced by hand; both are compiled and rendered and must agree.  The
expansion also has a direct model of the output where it is cheap.
"""
import os
import shutil
import tempfile

from vlib.core import Prop, Violation, expect, same
from vlib import tm

ENV = {'x': 'X', 'y': 3, 'lst': [1, 2], 'f': lambda *a: 'f%r' % (a,),
       'no': 0, 'd': {'k': 'v'}}

# template pieces that may appear in macro bodies: whole lines
LINES = ['plain\n', '$x!\n', '#if $y\nyes\n#end if\n', '#if $no\nno\n#else\n'
         'els $x\n#end if\n', '#for $i in $lst\n<$i>\n#end for\n',
         '## comment\n', '#set $z = $y + 1\n$z\n', '  indented $d.k\n', '\n',
         '\\$esc \\#if\n', '#silent $f(1)\n', '#unless $no\nu\n#end unless\n',
         '#try\nt$x\n#except\nbad\n#end try\n', '#* multi\n line *#\n',
         '#raw\n$raw #if\n#end raw\n', 'caf\xe9 "quotes" \'\'\' \\n\n',
         '#capture cc\nin $x\n#end capture\n[$cc]\n', 'a: b\n',
         '#filter WebSafe\n$x<\n#end filter\n']
# pieces for one line
INL = ['plain', '${x}', '$(y)', 'a$f(1, "k")b', '#if $y#T#else#F#end if#',
       '#echo 1 + 1#', ' sp ', '${d.k}.', '\\$e', 'é:', '"q"', "'"]


# ---- registered macros

def m_wrap(src):
    return '<' + src + '>'


def m_twice(src):
    return src + src


def m_args(src, a=1, b='B'):
    return '[%s|%s|%s]' % (a, b, src)


def m_loop(src, n=2):
    return ''.join('%d:%s' % (i, src) for i in range(n))


def m_drop(src):
    return ''


def m_const(src):
    return '$x-${y}'


def m_form(src, isShortForm, EOLCharsInShortForm=None):
    return ('short(%s)%s' % (src, EOLCharsInShortForm) if isShortForm
            else 'long(%s)' % src)


def m_ends(src, endPos, startPos, parser):
    return '{%s:%s}' % (parser.src()[startPos:endPos].count('#') > 0, src)


class Obj:
    def __call__(self, src, a=1):
        return 'obj%s(%s)' % (a, src)

    def meth(self, src, a='-'):
        return 'meth%s(%s)' % (a, src)


class Kls:
    def __init__(self, parser):
        self.ok = parser is not None

    def __call__(self, src, a=0):
        return 'kls%s%s(%s)' % (self.ok, a, src)


class ArgKls:
    """Reads its own arguments."""

    def __init__(self, parser):
        pass

    def convertArgStrToDict(self, args, parser=None, startPos=None):
        return {'a': args.replace(' ', '_')}

    def __call__(self, src, a):
        return 'conv%s(%s)' % (a, src)


obj = Obj()
REG = {'i': m_wrap, 'wrap': m_wrap, 'twice': m_twice, 'args': m_args,
       'loop': m_loop, 'drop': m_drop, 'const': m_const, 'form': m_form,
       'ob': obj, 'meth': obj.meth, 'kls': Kls, 'conv': ArgKls,
       'w': m_wrap, 'ends': m_ends, 'r': m_twice}
I18N = {'i18n': m_wrap}


def expand(name, args, src, short, eol):
    """The text a macro call stands for."""
    kw = dict(args)
    if name in ('kls',):
        return 'klsTrue%s(%s)' % (kw.get('a', 0), src)
    if name == 'conv':
        return 'conv%s(%s)' % (argstr(args).replace(' ', '_'), src)
    if name == 'form':
        return m_form(src, short, eol)
    if name == 'ends':
        return '{True:%s}' % src
    if name == 'i18n':
        return src + (eol if short else '')
    return REG[name](src, **kw)


ACC = {'args': ['a', 'b'], 'loop': ['n'], 'ob': ['a'], 'meth': ['a'],
       'kls': ['a'], 'conv': ['q', 'r']}


def argstr(args):
    return ', '.join('%s=%r' % (k, v) for k, v in args)


def macro_call(d, names, depth):
    name = d.pick(names)
    args = []
    for k in ACC.get(name, []):
        if d.chance(2):
            args.append((k, d.i(0, 3) if k == 'n' else
                         d.pick([1, 'v', 2, 'a b', '${x}', '#', ':', '}'])))
    if name == 'conv' and not args:
        args = [('q', 1)]
    if name == 'conv':
        args = [(k, v if isinstance(v, int) else 'v') for k, v in args]
    form = d.pick(['long', 'long', 'inline', 'short', 'colon'])
    body = []
    for _ in range(d.i(0, 3)):
        if form in ('long', 'colon'):
            if depth and d.chance(3):
                sub = macro_call(d, [n for n in names if n != name],
                                 depth - 1)
                body += ['plain\n', sub, 'plain\n']
            else:
                body.append(d.pick(LINES))
        else:
            body.append(d.pick(INL))
    if form == 'short' and not body:
        body = [d.pick(INL)]
    return dict(name=name, args=args, form=form, body=body,
                before=d.pick(['', 'b ', 'x$x ']), after=d.pick(INL),
                ind='' if form == 'short' and name in ('drop', 'loop')
                else d.pick(['', '', '  ']))


def macros_case(d):
    names = sorted(REG) + ['i18n']
    items = []
    for _ in range(d.i(1, 4)):
        items.append(macro_call(d, names, 2) if not d.chance(3)
                     else d.pick(LINES))
    if isinstance(items[-1], dict) and items[-1]['name'] == 'i18n':
        items.append('plain\n')   # at the very end it drops the line end
    return dict(items=items, eol=d.pick(['\n', '\n', '\r\n', '\r']),
                own=d.chance(6))


def emit_call(m, own):
    """(source, what it stands for); both are whole lines."""
    name, args = m['name'], m['args']
    head = '#' + name + (' ' + argstr(args) if args else '')
    if own and name == 'i18n':
        def ex(src, short, eol):
            return m_wrap(src)
    else:
        def ex(src, short, eol):
            return expand(name, args, src, short, eol)
    if m['form'] in ('long', 'colon'):
        # bodies are passed unexpanded, so the expansion of nested calls
        # happens on the result
        body = ''.join(b if isinstance(b, str) else emit_call(b, own)[0]
                       for b in m['body'])
        src = m['ind'] + head + (':' if m['form'] == 'colon' and args
                                 else '') + '\n' + body \
            + m['ind'] + '#end ' + name + '\n'
        return src, ('call', ex, body, False, None, '')
    body = ''.join(m['body'])
    if m['form'] == 'inline':
        return (m['before'] + head + '#' + body + '#end ' + name + '#'
                + m['after'] + '\n'), \
            ('call', ex, body, False, m['before'], m['after'] + '\n')
    return m['ind'] + head + ': ' + body + '\n', \
        ('call', ex, body, True, m['ind'], '')


def expand_nested(c, exp):
    """Replace the nested calls left in exp until none is left (they are
    whole lines between plain lines)."""
    for _ in range(6):
        changed = False
        for m in nested(c['items']):
            s, (_, ex, body, short, before, after) = emit_call(m, c['own'])
            if s in exp:
                exp = exp.replace(s, (before or '') + ex(body, short, '\n')
                                  + after)
                changed = True
        if not changed:
            break
    return exp


def nested(items):
    for m in items:
        if isinstance(m, dict):
            for b in m['body']:
                if isinstance(b, dict):
                    yield b
                    for x in nested([b]):
                        yield x


def check_macros(c):
    """The items are whole lines: the output is that of their expansions
    one after another."""
    reg = dict(REG)
    if c['own']:
        reg.update(I18N)
    eol = c['eol']
    src, exp, texts = '', '', []
    for it in c['items']:
        if isinstance(it, str):
            src += it
            texts.append(it)
            continue
        s, (_, ex, body, short, before, after) = emit_call(it, c['own'])
        src += s
        texts.append(expand_nested(c, (before or '') + ex(body, short, '\n')
                                   + after))
    src = src.replace('\n', eol)
    kw = dict(compilerSettings={'macroDirectives': reg})
    before = dict(reg)
    a = tm.outcome(tm.render, src, [ENV], kw)
    same(reg, before, 'the macroDirectives setting')
    out = ''
    for t in texts:
        b = tm.outcome(tm.render, t.replace('\n', eol), [ENV])
        if b[0] != 'ok':
            raise Violation('bad expansion %r: %s' % (t, b))
        out += b[1]
    same(a, ('ok', out), 'output of %r with macros, which expands to %r'
         % (src, texts))
    labs = ['calls %d' % sum(isinstance(x, dict) for x in c['items'])]
    labs += sorted({x['form'] for x in c['items'] if isinstance(x, dict)})
    labs += ['nested'] * any(True for _ in nested(c['items']))
    return labs


# ---- pieces of text with a compile-time syntax of their own

CT = {'a': 'A1', 'n': 2, 'flag': 1, 'off': 0, 'code': '$x', 'lst': ['p', 'q'],
      'name': 'y', 'obj': {'k': 'OK'}}
RT = ['rt $x\n', '#if $y\nyes\n#end if\n', '## note\n', 'AA text\n',
      'BB ${y} AA\n', '#for $j in $lst\n$j,\n#end for\n', '\\$lit\n',
      'mail: me at x\n', '  ind\n', '\n', '50 per cent\n', "q'\"\n",
      '#set $z = 4\n$z\n']


def pieces(d, names, depth=2):
    out = []
    for _ in range(d.i(1, 4)):
        k = d.i(0, 9)
        if k <= 2:
            out.append(('txt', d.pick(RT)))
        elif k == 3:
            out.append(('expr', d.pick(['1 + 2', "'s' * 3", 'len("abc")',
                                        "'$x'", 'None', 'chr(233)'])))
        elif k == 4 and names:
            out.append(('var', d.pick([n for n in names if n != 'lst'])))
        elif k == 5 and depth:
            out.append(('if', d.pick(['1', '0'] + [n for n in names if n in
                                                   ('flag', 'off', 'n')]),
                        pieces(d, names, depth - 1),
                        pieces(d, names, depth - 1) if d.chance(2) else None))
        elif k == 6 and depth:
            out.append(('for', d.i(0, 3), pieces(d, names + ['i'],
                                                 depth - 1)))
        elif k == 7:
            out.append(('com', d.pick(['note', '$x #if', 'a b'])))
        elif k == 8:
            out.append(('set', d.pick(['5', "'t'"])))
        else:
            out.append(d.pick([('txt', d.pick(RT)), ('mlc', '$x #if\n1'),
                               ('mlc', 'a'), ('slurp', 'sl'),
                               ('slurp', 'two words')]))
    return out


def pc_emit(ps, t):
    ph, dr = t
    out = ''
    for p in ps:
        if p[0] == 'txt':
            out += p[1]
        elif p[0] == 'expr':
            out += '(' + ph + '{' + p[1] + '})\n'
        elif p[0] == 'var':
            v = p[1]
            out += '<' + ph + (v + '.k' if v == 'obj' else v) + '>\n'
        elif p[0] == 'if':
            out += dr + 'if ' + (ph + p[1] if p[1] not in '01' else p[1]) \
                + '\n' + dr + 'pass\n' + pc_emit(p[2], t)
            if p[3] is not None:
                out += dr + 'else\n' + dr + 'pass\n' + pc_emit(p[3], t)
            out += dr + 'end if\n'
        elif p[0] == 'for':
            out += '%sfor %si in range(%d)\n%spass\n%s%send for\n' % (
                dr, ph, p[1], dr, pc_emit(p[2], t), dr)
        elif p[0] == 'com':
            out += dr * 2 + ' ' + p[1] + '\n'
        elif p[0] == 'mlc':
            out += '[' + dr + '* ' + p[1] + ' *' + dr + ']\n'
        elif p[0] == 'slurp':
            out += p[1] + dr + '\nend\n'
        else:
            out += '%sset %sv = %s\n=%sv=\n' % (dr, ph, p[1], ph)
    return out


def pc_model(ps, env):
    out = ''
    for p in ps:
        if p[0] == 'txt':
            out += p[1]
        elif p[0] == 'expr':
            v = eval(p[1])
            out += '(%s)\n' % ('' if v is None else v)
        elif p[0] == 'var':
            v = env[p[1]]
            out += '<%s>\n' % (v['k'] if p[1] == 'obj' else v)
        elif p[0] == 'if':
            c = env[p[1]] if p[1] not in '01' else int(p[1])
            out += pc_model(p[2] if c else p[3] or [], env)
        elif p[0] == 'for':
            for i in range(p[1]):
                env['i'] = i
                out += pc_model(p[2], env)
        elif p[0] == 'mlc':
            out += '[]\n'
        elif p[0] == 'slurp':
            out += p[1] + 'end\n'
        elif p[0] == 'set':
            out += '=%s=\n' % eval(p[1])
    return out


def pc_map(ps, fn):
    return [tuple(fn(x) if p[0] == 'txt' and i == 1 else
                  pc_map(x, fn) if isinstance(x, list) else x
                  for i, x in enumerate(p)) for p in ps]


# ---- preprocessors

TOKENS = [('@', '%'), ('~', '%'), ('@', '^'), ('~', '^'), ('@@', '%'),
          ('@', '%!'), ('<@', '!!%')]
FORMS = ['str', 'dict', 'dict2', 'obj', 'cs', 'sharedcs', 'tuple', 'xform',
         'init', 'init2', 'init3', 'objcs', 'mix', 'mix']


def pre_case(d):
    stages, segs = [], [('txt', d.pick(RT))]
    t1 = d.pick(TOKENS)
    t2 = {('@@', '%'): ('~', '^'), ('@', '%!'): ('~', '^'),
          ('<@', '!!%'): ('~', '^'),
          ('@', '%'): ('~', '^'), ('~', '%'): ('@', '^'),
          ('@', '^'): ('~', '%'), ('~', '^'): ('@', '%')}[t1]
    for t in [t1, t2][:d.i(1, 2)]:
        form = d.pick(FORMS)
        stages.append(('tok', t, form))
        names = [] if form in ('str', 'tuple') else sorted(CT)
        for _ in range(d.i(1, 2)):
            segs.append((t, pieces(d, names)))
    for k in d.sub(['AB', 'BC', 'tail', 'obj']):
        stages.append((k,))
    d.shuffle(stages)
    d.shuffle(segs)
    return dict(stages=stages, segs=segs,
                route=d.pick(['source', 'source', 'file', 'klass']),
                single=d.chance(3))


class PreObj:
    def preprocess(self, source, file):
        return source.replace('CC', 'DD'), file


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)


FN = {'AB': lambda s: s.replace('AA', 'BB'),
      'BC': lambda s: s.replace('BB', 'CC'),
      'obj': lambda s: s.replace('CC', 'DD')}


def pre_arg(st, shared, path):
    def load(fn):
        def f(source, file):
            if source is None:
                with open(file, encoding='utf-8') as fh:
                    source = fh.read()
            return fn(source), None
        return f
    if st[0] == 'tok':
        ph, dr = t = st[1]
        form = st[2]
        if form == 'str':
            return '%s %s' % t
        if form == 'tuple':
            return [ph, dr]
        if form == 'dict':
            return dict(tokens='%s %s' % t, searchList=[CT])
        if form == 'dict2':
            return dict(placeholderToken=ph, directiveToken=dr,
                        namespaces=CT)
        if form == 'obj':
            return Bag(tokens=t, searchList=[CT], compilerSettings={})
        if form == 'sharedcs':
            return dict(tokens=t, searchList=[CT], compilerSettings=shared)
        if form == 'init':
            return dict(tokens=t, templateInitArgs={'searchList': [CT]},
                        className='Foo', mainMethodName='bar')
        if form == 'init2':
            return dict(tokens=t, templateInitArgs={'searchList': CT})
        if form == 'init3':
            return dict(tokens=t, searchList=CT,
                        templateInitArgs={'filter': 'RawOrEncodedUnicode'})
        if form == 'xform':
            return dict(tokens=t, searchList=[CT],
                        outputTransformer=lambda x: str(x).replace('rt ',
                                                                   'tr '))
        cs = dict(cheetahVarStartToken=ph, directiveStartToken=dr,
                  directiveEndToken=dr, commentStartToken=dr * 2,
                  multiLineCommentStartToken=dr + '*',
                  multiLineCommentEndToken='*' + dr, EOLSlurpToken=dr)
        if form == 'mix':   # what the settings say goes before the tokens
            dkeys = [k for k in cs if k != 'cheetahVarStartToken']
            which = (len(path) if path else 0) % 3
            toks = ['!!' if which != 1 else ph, '&&' if which else dr]
            if which == 0:
                cs = dict(cheetahVarStartToken=ph)
            elif which == 1:
                cs = {k: cs[k] for k in dkeys}
            return dict(tokens=toks, searchList=[CT], compilerSettings=cs)
        if form == 'cs':
            return dict(compilerSettings=cs, searchList=[CT])
        return Bag(compilerSettings=cs, searchList=[CT])
    if st[0] == 'tail':
        return load(lambda s: s + 'tail $x AA\n')
    if st[0] == 'obj':
        class P(PreObj):
            def preprocess(self, source, file):
                return load(FN['obj'])(source, file)
        return P()
    return load(FN[st[0]])


def frozen(x):
    if isinstance(x, Bag):
        return ('bag', frozen(x.__dict__))
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    return x


def check_pre(c):
    segs = c['segs']
    src = ''.join(p if k == 'txt' else pc_emit(p, k) for k, p in segs)
    for st in c['stages']:
        new = []
        for k, p in segs:
            if st[0] == 'tok':
                if k == st[1]:
                    k, p = 'txt', pc_model(p, dict(CT))
                if st[2] == 'xform':
                    p = p.replace('rt ', 'tr ') if k == 'txt' else \
                        pc_map(p, lambda s: s.replace('rt ', 'tr '))
            elif st[0] != 'tail':
                p = FN[st[0]](p) if k == 'txt' else pc_map(p, FN[st[0]])
            new.append((k, p))
        if st[0] == 'tail':
            new.append(('txt', 'tail $x AA\n'))
        segs = new
    exp = ''.join(p for k, p in segs)
    shared = {'useNameMapper': True}
    tmp = tempfile.mkdtemp() if c['route'] == 'file' else None
    args = [pre_arg(st, shared, src) for st in c['stages']]
    if c['single'] and len(args) == 1 and not isinstance(args[0], list):
        args = args[0]
    snap = frozen(args), dict(shared)
    try:
        kw = {}
        klass = tm.Template
        if c['route'] == 'file':
            kw['file'] = os.path.join(tmp, 'pre.tmpl')
            with open(kw['file'], 'w', encoding='utf-8') as f:
                f.write(src)
        else:
            kw['source'] = src
        if c['route'] == 'klass':
            class klass(tm.Template):
                _CHEETAH_preprocessors = args
        else:
            kw['preprocessors'] = args
        for again in (0, 1):
            a = tm.outcome(lambda: klass.compile(
                cacheCompilationResults=False, useCache=False,
                **kw)(searchList=[ENV]).respond())
            b = tm.outcome(tm.render, exp, [ENV])
            if b[0] != 'ok':
                raise Violation('bad expansion %r: %s' % (exp, b))
            same(a, b, 'output of %r preprocessed by %r, which gives %r'
                 % (src, c['stages'], exp))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    same((frozen(args), dict(shared)), snap, 'preprocessor arguments of the '
         'caller (%r)' % (c['stages'],))
    return ['stages %d' % len(c['stages']), c['route']] \
        + sorted({s[2] for s in c['stages'] if s[0] == 'tok'})


# ---- #defmacro

def def_case(d):
    macros = []
    for i in range(d.i(1, 3)):
        args = [(n, d.pick([1, 0, "'v'", "'a b'", "'$x'", "''", '""',
                            "'x=y'", "'p, q'", "','"]))
                for n in d.sub(['a', 'n', 'flag'])]
        names = [n for n, _ in args] + ['g']
        short = d.chance(4)
        if short:
            body = [d.pick(['[{0}src]', 'pre {0}src post', '{0}g{0}src$x.',
                            '#if $y#s{0}src#end if#'])]
        else:
            body = d.list(lambda: d.pick([
                ('src',), ('pc', pieces(d, names, 1))]), 1, 3)
        macros.append(dict(name='m%d' % i + d.pick(['', 'x']), args=args,
                           short=short, body=body, dollar=d.chance(3)))
    calls = []
    for _ in range(d.i(1, 4)):
        m = d.i(0, len(macros) - 1)
        form = d.pick(['long', 'inline', 'short'])
        given = [(n, d.pick([0, 1, 'w', '${x}', 7]))
                 for n, _ in macros[m]['args'] if d.chance(2)]
        if form == 'long':
            body = d.list(lambda: d.pick(LINES), 0, 2)
        else:
            body = d.list(lambda: d.pick(INL), 1, 2)
        calls.append(dict(m=m, form=form, args=given, body=body))
    return dict(macros=macros, calls=calls, eol=d.pick(['\n', '\n', '\r\n']),
                own=d.chance(3))


def check_def(c):
    eol = c['eol']
    t = ('@', '%')
    src, defs = '', {}
    for m in c['macros']:
        if m['name'] in defs:
            return ['trivial']
        defs[m['name']] = m
        head = '#defmacro ' + ('$' if m['dollar'] else '') + m['name']
        if m['args']:
            head += '(%s)' % ', '.join('%s=%s' % x for x in m['args'])
        if m['short']:
            src += head + ': ' + m['body'][0].format('@') + '\n'
        else:
            src += head + '\n'
            for b in m['body']:
                src += '(@src)\n' if b[0] == 'src' else pc_emit(b[1], t)
            src += '#end defmacro\n'
    texts = []
    for k in c['calls']:
        m = c['macros'][k['m']]
        body = ''.join(k['body'])
        head = '#' + m['name'] + (' ' + argstr(k['args']) if k['args']
                                  else '')
        after = ''
        if k['form'] == 'long':
            src += head + '\n' + body + '#end ' + m['name'] + '\n'
        elif k['form'] == 'inline':
            src += head + '#' + body + '#end ' + m['name'] + '#|\n'
            after = '|\n'
        else:
            src += head + ': ' + body + '\n'
        env = {'g': 'G' if c['own'] else ''}
        for n, v in m['args']:
            env[n] = eval(v) if isinstance(v, str) else v
        env.update(k['args'])
        if m['short']:
            text = m['body'][0].format('@').replace('@g', env['g']).replace(
                '@src', body)
        else:
            text = ''.join('(%s)\n' % body if b[0] == 'src'
                           else pc_model(b[1], env) for b in m['body'])
        texts.append(text + after)
    cs = {'searchListForDefMacro': [{'g': 'G' if c['own'] else ''}]}
    keep = repr(cs)
    a = tm.outcome(tm.render, src.replace('\n', eol), [ENV],
                   dict(compilerSettings=cs))
    same(repr(cs), keep, 'the compiler settings of the caller')
    out = ''
    for x in texts:
        b = tm.outcome(tm.render, x.replace('\n', eol), [ENV])
        if b[0] != 'ok':
            raise Violation('bad expansion %r: %s' % (x, b))
        out += b[1]
    same(a, ('ok', out), 'output of %r, whose macro calls expand to %r'
         % (src.replace('\n', eol), texts))
    return ['macros %d' % len(defs), 'calls %d' % len(c['calls'])]


PROPS = [
    Prop('macros', macros_case, check_macros, 8000, shards=3,
         nontrivial=lambda c, l: l[0] != 'calls 0',
         rule='templates with up to 4 calls of 16 registered macros in every '
              'form, with nested calls'),
    Prop('preprocessors', pre_case, check_pre, 4000, shards=2,
         rule='chains of 1-6 preprocessors of 14 forms, each compiled twice'),
    Prop('defmacro', def_case, check_def, 4000, shards=2,
         nontrivial=lambda c, l: l[0] != 'trivial',
         rule='1-3 #defmacro definitions and 1-4 calls'),
]
