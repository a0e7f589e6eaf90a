"""C02: directives compute what their Python counterparts compute."""
from vlib.core import Prop, Skip, Violation, same
from vlib import lang, tm

FEATURES = set('''text ph echo set silent tern comment mlc pass slurp gset psp
del assert raise stop break continue return
if for unless repeat while try short shortelse def t'''.split())


def cases(d):
    g = lang.Gen(d, FEATURES)
    prog = g.program()
    env = lang.draw_env(d)
    eol = d.pick(['n', 'n', 'n', 'rn', 'r'])
    return (prog, env, eol)


def actual(src, env, **kw):
    trace = []

    def t(label, v):
        trace.append(label)
        return v
    ns = dict(lang.FUNCS)
    ns.update(env)
    ns['t'] = t
    try:
        out = ('ok', tm.render(src, [ns], **kw))
    except Exception as e:
        if type(e).__name__ in ('ParseError', 'SyntaxError',
                                'IndentationError'):
            raise Violation('valid template rejected: %s: %s\n%r' % (
                type(e).__name__, e, src))
        out = ('exc', type(e).__name__)
    return out, trace


def check(c):
    prog, envt, eol = c
    em = lang.Emitter(lang.EOLS[eol])
    norm = em.program(prog)
    src = em.source()
    exp, etrace = lang.model(norm, lang.make_env(envt))
    if exp is None:
        raise Skip()
    got, trace = actual(src, lang.make_env(envt))
    same(got, exp, 'wrong result for template %r' % src)
    same(trace, etrace, 'wrong evaluation order/count for template %r' % src)
    labs = sorted(em.used) + [exp[0], 'eol-' + eol]
    if prog[0]:
        labs.append('def')
    return labs


JUNK = ['', '\n', '#', ' ', '#if $x', '$(', '#end for', '#def q', '"', '<% x',
        '${x', 'text', '\r\n', '#set $x = ', '#raw\n', '#*', '#silent 1 / 0',
        '$missing', '#extends Nothing', '\xe9', '#return 5']


def cases_break(d):
    return (cases(d), d.pick(['\n', '#', ' ', '\r', '']),
            d.list(lambda: d.pick(JUNK), 0, 5))


def check_break(c):
    """#breakpoint: whatever follows is ignored"""
    (prog, envt, eol), sep, junk = c
    em = lang.Emitter(lang.EOLS[eol])
    norm = em.program(prog)
    src = em.source()
    exp, etrace = lang.model(norm, lang.make_env(envt))
    if exp is None:
        raise Skip()
    junk = ''.join(junk)
    if not sep and junk[:1].isalnum():
        junk = ' ' + junk
    src += '#breakpoint' + sep + junk
    got, trace = actual(src, lang.make_env(envt))
    same(got, exp, 'wrong result for template %r' % src)
    same(trace, etrace, 'wrong evaluation order/count for template %r' % src)
    return ['junk'] * bool(junk)


NEST = set('if for unless repeat while try short shortelse'.split())
PROPS = [
    Prop('programs', cases, check, 24000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: len(NEST & set(l)) >= 1 and len(l) >= 5,
         rule='programs of nesting depth <= 3 over all control-flow '
              'directives in 9 layouts and 3 line-ending styles; non-trivial '
              '= at least one compound directive and three node kinds'),
    Prop('breakpoint', cases_break, check_break, 3000,
         nontrivial=lambda c, l: 'junk' in l,
         rule='programs followed by #breakpoint and generated junk'),
]
