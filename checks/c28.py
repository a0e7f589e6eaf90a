"""C28: documentation and header comments reach the module as written."""
import sys

from vlib.core import Prop, expect, same
from vlib import tm

WORDS = ['text', 'C:\\Users\\new', '"""', "'''", '"', "'", '\\', '\\\\', '%',
         '%s', '%(ind)s', '100%', '\\N{x}', '\\x', '\\u12', '$a', '#if',
         '${b', '\xe9\u20ac', '\U0001f600', '{}', '#', '## x', '"""; x = 1',
         "'''); boom(", '\\"""', '"" "', 'doc:', '<%', '%>', '&amp;', '\\n',
         '\\t', 'u"x"', 'end', '*', '@', ':', '\\$a', '\\#if', '\\0']
PREFIX = {'meth': ['doc:', 'doc-method:'], 'class': ['doc-class:'],
          'module': ['doc-module:'], 'header': ['header:'],
          'plain': [' ', ' doc:', 'Doc:', 'documentation:', 'docs-']}
VARS = ['author', 'my_var', 'Version', '_x', 'CHEETAH']


def words(d, lo, hi):
    return ' '.join(d.list(lambda: d.pick(WORDS), lo, hi))


def items(d, depth, names):
    out = []
    for _ in range(d.i(1, 5)):
        c = d.i(0, 9)
        if c <= 1:
            out.append(('text', d.pick(['a', 'b "c"', 'x\\y', '%s'])))
        elif c <= 6:
            kind = d.pick(['meth', 'meth', 'class', 'module', 'header',
                           'plain', 'var'])
            if kind == 'var':
                out.append(('var', d.pick(VARS), d.pick(['', ' ']),
                            words(d, 0, 3)))
            else:
                ml = d.chance(3)
                out.append((kind, d.pick(PREFIX[kind]), ml,
                            d.pick(['', ' ', '  ']),
                            d.list(lambda: words(d, 0, 3), 1, 4) if ml
                            else [words(d, 0, 4)],
                            d.pick(['', '  '])))
        elif c == 7 and depth == 0 and len(names) < 3:
            n = 'm%d' % len(names)
            names.append(n)
            out.append((d.pick(['def', 'block']), n,
                        items(d, depth + 1, names)))
        elif c == 8 and depth < 2:
            out.append(('if', items(d, depth + 1, names)))
        else:
            out.append(('ph',))
    return out


def case(d):
    names = []
    its = items(d, 0, names)
    return (its, d.pick(['n', 'n', 'rn', 'r']), d.i(0, 3),
            d.pick([None, None, '#!/usr/bin/env x', '#!/x -u']))


EOLS = {'n': '\n', 'rn': '\r\n', 'r': '\r'}


def emit(its, E, doc, meth):
    """source and output of the items"""
    src, out = '', ''
    for it in its:
        k = it[0]
        if k == 'text':
            src += it[1] + E
            out += it[1] + E
        elif k == 'ph':
            src += '$a' + E
            out += 'A' + E
        elif k == 'if':
            s, o = emit(it[1], E, doc, meth)
            src += '#if 1' + E + '#pass' + E + s + '#end if' + E
            out += o
        elif k in ('def', 'block'):
            s, o = emit(it[2], E, doc, it[1])
            src += '#%s %s%s%s#end %s%s' % (k, it[1], E, s, k, E)
            if k == 'block':
                out += o
        elif k == 'var':
            src += '##%s@%s%s%s' % (it[1], it[2], it[3], E)
            doc['vars'][it[1]] = it[3].strip()
        else:
            _, prefix, ml, sp, lines, ind = it
            if ml:
                # no comment tokens inside
                t = (sp + E.join(lines)).replace('#', '').replace('*', '')
                src += ind + '#*' + prefix + t + ' *#' + E
            else:
                t = sp + lines[0]
                src += ind + '##' + prefix + t + E
            if k == 'meth':
                doc['meth'].setdefault(meth, []).append(t)
            elif k != 'plain':
                doc[k].append(t)
    return src, out


def squeeze(text):
    return ' '.join((text or '').split())


def check(c):
    its, eol, st, shbang = c
    E = EOLS[eol]
    doc = {'meth': {}, 'class': [], 'module': [], 'header': [], 'vars': {}}
    src, out = emit(its, E, doc, 'respond')
    if shbang:
        src = '#shBang ' + shbang + E + src
    settings = {}
    if st & 1:
        settings['commentOffset'] = 4
    if st & 2:
        settings['addTimestampsToCompilerOutput'] = False
    ctx = 'template %r' % src
    cls = tm.must(lambda: tm.compile_(src, compilerSettings=settings,
                                      moduleName='verif_c28', className='C28',
                                      keepRefToGeneratedCode=True),
                  'valid template rejected', src)
    got = tm.must(lambda: tm.text(cls(searchList=[{'a': 'A'}])),
                  'cannot render', src)
    same(got, out, 'comments changed the output of ' + ctx)
    mod = sys.modules[cls.__module__]
    for name in ['respond'] + [n for n in ('m0', 'm1', 'm2')
                               if n in cls.__dict__]:
        same(squeeze(getattr(cls, name).__doc__),
             squeeze('\n'.join(doc['meth'].get(name, []))),
             'docstring of %s, %s' % (name, ctx))
    same(squeeze(cls.__dict__.get('__doc__')), squeeze('\n'.join(doc['class'])),
         'docstring of the class, ' + ctx)
    same(squeeze(mod.__doc__), squeeze('\n'.join(doc['module'])),
         'docstring of the module, ' + ctx)
    for v, text in doc['vars'].items():
        expect(hasattr(mod, '__%s__' % v), '__%s__ is missing, %s', v, ctx)
        same(getattr(mod, '__%s__' % v), text, '__%s__, %s' % (v, ctx))
    code = cls().generatedModuleCode()
    head = [ln for ln in code.split('## DEPENDENCIES')[0].splitlines()
            if ln.startswith('#')]
    if shbang:
        same(code.splitlines()[0], shbang, 'first line, ' + ctx)
    have = squeeze(' '.join(ln[1:] for ln in head))
    want = squeeze('\n'.join(doc['header']))
    expect(want in have, 'header comments %r missing in %r, %s', want, head,
           ctx)
    labs = ['meth%d' % min(len(doc['meth']), 2)]
    for k in ('class', 'module', 'header', 'vars'):
        if doc[k]:
            labs.append(k)
    if any(ch in src for ch in '\\"'):
        labs.append('quoting')
    if 'm0' in doc['meth']:
        labs.append('in-def')
    return labs


PROPS = [
    Prop('docs', case, check, 12000, shards=6,
         rule='at least one documentation, header or variable comment',
         nontrivial=lambda c, l: len(l) > 1),
]
