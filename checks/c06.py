"""C06: output passes through exactly the filter in force, with its arguments."""
import re

from vlib.core import Prop, Skip, Violation, same, expect
from vlib import lang, tm
from Cheetah import Filters
from Cheetah.Utils.htmlEncode import htmlEncode
from Cheetah.Utils.htmlDecode import htmlDecode


# ------------------------------------------------------- reference filters
def r_plain(v, **kw):
    return '' if v is None else v if isinstance(v, str) else str(v)


ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
ALSO = {' ': '&nbsp;', '"': '&quot;'}


def r_websafe(v, **kw):
    also = kw.get('also', '')
    return ''.join(ENT.get(ch) or (ch in also and (
        ALSO.get(ch) or '&#%d;' % ord(ch))) or ch for ch in r_plain(v))


def r_strip(v, **kw):
    return '\n'.join([x.strip() for x in r_plain(v).split('\n')])


def r_squeeze(v, **kw):
    return re.sub(r'\s+', ' ', r_plain(v)).strip()


def r_maxlen(v, **kw):
    s = r_plain(v)
    return s[:kw['maxlen']] if 'maxlen' in kw else s


STD = {'Filter': r_plain, 'RawOrEncodedUnicode': r_plain,
       'EncodeUnicode': r_plain, 'WebSafe': r_websafe, 'Strip': r_strip,
       'StripSqueeze': r_squeeze, 'MaxLen': r_maxlen}


# ------------------------------------------------------------- nesting
FEATURES = set('''text ph phf phf echo set silent tern psp if for repeat try
raise stop break continue return short def call capture filter cache block
shortreg comment mlc'''.split())
FNAMES = ['WebSafe', 'None', '$fa', '$fb', 'Strip', 'StripSqueeze', 'MaxLen',
          'Filter', '$mod.fc', 'WebSafe', '$fa', 'none', 'None']
INITIAL = ['RawOrEncodedUnicode', 'WebSafe', '$fa', 'Strip', 'MaxLen', '$fb',
           'StripSqueeze', None]


def cases(d):
    g = lang.Gen(d, FEATURES | {'filter'}, flow=True)
    g.f |= {'filter', 'phf'}
    g.filters = FNAMES
    g.fargs = ['maxlen', 'also', 'q', 'r_']

    def phf(*a):
        e = ('var', d.pick(lang.NAMES_INT + lang.NAMES_STR + lang.NAMES_LST
                           + ['n', 'big', 'big', 'filterName'])) if d.i(0, 3) \
            else ('key', 'd', 'k2')
        args = []
        for a in d.sub(g.fargs) or ['maxlen']:
            if a == 'maxlen':
                x = d.pick([('int', d.i(0, 9)), ('var', 'a')])
            elif a == 'also':
                x = ('str', d.pick(['', '"', ' ', "'", '/"', '=', "'\" "]))
            else:
                x = g.expr('any', 1)
            args.append((a, x))
        return ('phf', e, d.i(0, 7), args)
    g.n_phf = phf
    prog = g.program()
    return (prog, lang.draw_env(d), d.pick(INITIAL), d.i(0, 7),
            d.pick(['n', 'n', 'rn', 'r']))


def custom(tag, trace):
    class F(Filters.Filter):
        def filter(self, val, **kw):
            trace.append((tag, repr(val), sorted(
                (k, repr(v)) for k, v in kw.items())))
            return '%s[%s]' % (tag, r_plain(val))
    return F


def reference(tag, trace):
    def f(val, **kw):
        trace.append((tag, repr(val), sorted(
            (k, repr(v)) for k, v in kw.items())))
        return '%s[%s]' % (tag, r_plain(val))
    return f


class Mod(object):
    pass


def check(c):
    prog, envt, initial, flags, eol = c
    settings = {}
    raw = always = True
    if flags & 3 == 3:
        raw = settings['includeRawExprInFilterArgs'] = False
    if flags & 4 and flags & 1:
        always = settings['alwaysFilterNone'] = False
    em = lang.Emitter(lang.EOLS[eol])
    norm = em.program(prog)
    src = em.source()
    BIG = '  <a href="x">\n\tT & q\'s </a>  \n z '
    # model
    mtrace = []
    filters = dict(STD)
    for t in 'abc':
        filters['$' + {'c': 'mod.fc'}.get(t, 'f' + t)] = reference(t, mtrace)
    ini = filters[initial or 'RawOrEncodedUnicode']
    filters['None'] = filters['none'] = ini
    env = lang.make_env(envt)
    env['big'] = BIG
    env['filterName'] = '<WebSafe'
    it = FInterp(norm, env, lang.CALLS, filters)
    it.filter = ini
    it.raw, it.always = raw, always
    try:
        exp = ('ok', it.run())
    except (lang.TooLong, lang.Brk, lang.Cont):
        raise Skip()
    except lang.Missing:
        exp = ('exc', 'NotFound')
    except Exception as e:
        exp = ('exc', type(e).__name__)
    # actual
    trace = []
    fa, fb, fc = [custom(t, trace) for t in 'abc']
    mod = Mod()
    mod.fc = fc
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(envt))
    ns.update(big=BIG, filterName='<WebSafe', fa=fa, fb=fb, mod=mod, t=lambda l, v: v)
    kw = {}
    if initial is not None:
        kw['filter'] = {'$fa': fa, '$fb': fb}.get(initial, initial)
    try:
        got = ('ok', tm.render(src, [ns], compile_kw=dict(
            compilerSettings=settings) if settings else {}, **kw))
    except Exception as e:
        if type(e).__name__ in ('ParseError', 'SyntaxError',
                                'IndentationError'):
            raise Violation('valid template rejected: %s: %s\n%r' % (
                type(e).__name__, e, src))
        got = ('exc', type(e).__name__)
    same(got, exp, 'wrong output for template %r, initial filter %s' % (
        src, initial), 'settings: %r' % settings)
    same(trace, mtrace, 'wrong filter calls for template %r, initial filter '
         '%s' % (src, initial), 'settings: %r' % settings)
    labs = sorted(em.used) + [exp[0], 'init-%s' % initial]
    if mtrace:
        labs.append('recorded')
    return labs


class FInterp(lang.Interp):
    raw = always = True

    def exec(self, n, L, out):
        if n[0] == 'out':
            v = self.ev(n[1], L)
            kw = {}
            psp = len(n) > 2 and n[2] == 'psp'
            if v is None and self.always and not psp:
                return
            if len(n) > 2 and not psp:
                for a, x in n[2]:
                    kw[a] = self.ev(x, L)
                if self.raw:
                    kw['rawExpr'] = n[3].final if isinstance(n[3], lang.PH) \
                        else n[3]
            out.append(self.filter(v, **kw))
        else:
            lang.Interp.exec(self, n, L, out)


# --------------------------------------------------------------- laws
ALPH = ('a', 'Z', ' ', '\n', '&', '<', '>', '"', "'", ';', '#', 'amp', '&amp;',
        '&lt;', '\t', '\r', '  ', '\x0b', '\xa0', '\u2028', '\u3000', '\xe9',
        '\U0001f600', '\x00', '&#39;', '&nbsp;', '\x1c', '\x85', 'lt;', '0')


class S(str):
    def __str__(self):
        return 'overridden'


class Obj(object):
    def __str__(self):
        return '<obj & \xe9>'


def law_cases(d):
    k = d.i(0, 9)
    if k < 8:
        v = ''.join(d.list(lambda: d.pick(ALPH), 0, 12))
        return ('s', v, d.i(0, 9), ''.join(d.sub(['"', ' ', "'", '/', '=',
                                                  '\xe9', '\t'])))
    return ('v', d.i(0, 9), d.i(0, 9), '')


VALUES = [None, 0, 1.5, True, [1, '<'], ('a',), {'k': '&'}, b'by\xff', Obj(),
          2 ** 70]


def check_laws(c):
    kind, v, n, also = c
    if kind == 'v':
        v = VALUES[v]
    s = '' if v is None else str(v)
    for name, ref in STD.items():
        f = getattr(Filters, name)().filter
        same(f(v), ref(v), '%s filter of %r' % (name, v))
        kw = {'maxlen': n, 'also': also, 'rawExpr': '$x'}
        same(f(v, **kw), ref(v, **kw), '%s filter of %r with %r' % (
            name, v, kw))
    w = Filters.WebSafe().filter(v)
    expect('<' not in w and '>' not in w, 'WebSafe left < or > in %r', w)
    expect(not re.search('&(?!amp;|lt;|gt;)', w),
           'WebSafe left an unescaped & in %r', w)
    same(re.sub('&(amp|lt|gt);', lambda m: {
        'amp': '&', 'lt': '<', 'gt': '>'}[m.group(1)], w), s,
        'WebSafe output does not unescape to the value')
    wa = Filters.WebSafe().filter(v, also=also)
    expect(not [ch for ch in also if ch in wa],
           'WebSafe(also=%r) left such a character in %r', also, wa)
    m = Filters.MaxLen().filter(v, maxlen=n)
    expect(len(m) == min(n, len(s)) and s.startswith(m),
           'MaxLen(%r) of %r gave %r', n, s, m)
    enc = htmlEncode(s)
    expect(not re.search('[<>"]', enc), 'htmlEncode left %r', enc)
    expect(not re.search('&(?!amp;|lt;|gt;|quot;)', enc),
           'htmlEncode left an unescaped & in %r', enc)
    same(htmlDecode(enc), s, 'htmlDecode(htmlEncode(x))')
    same(htmlDecode(s), re.sub('&(amp|lt|gt|quot);', lambda m: {
        'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"'}[m.group(1)], s),
        'htmlDecode(%r)' % s)
    labs = [kind]
    if re.search('[&<>]', s):
        labs.append('html')
    if s != s.strip() or '\n' in s:
        labs.append('space')
    if len(s) > n:
        labs.append('cut')
    return labs


# ---------------------------------------------------------- transform
def tr_cases(d):
    return (d.pick(['WebSafe', 'Strip', 'StripSqueeze', 'Rev', '$rev']),
            d.list(lambda: d.pick([0, 1, 2, ' <b> ', '\n', ' x\t', '&']),
                   0, 8), d.i(0, 1))


def check_tr(c):
    name, parts, inmeth = c
    body, exp = '', ''
    vals = {0: ' <v>\n', 1: None, 2: 12}
    for p in parts:
        if isinstance(p, int):
            body += '${v%d}' % p
            exp += '' if vals[p] is None else str(vals[p])
        else:
            body += p
            exp += p
    ref = {'WebSafe': r_websafe, 'Strip': r_strip,
           'StripSqueeze': r_squeeze}.get(name, lambda s: s[::-1])

    class Rev(Filters.Filter):
        def filter(self, v, **kw):
            return v[::-1]
    head = ''
    if name in Filters.__dict__:
        head = '#from Cheetah.Filters import %s\n' % name
    kw = {}
    if name == 'Rev':
        kw['moduleGlobals'] = {'Rev': Rev}
    if inmeth:
        src = head + '#def m\n#transform %s\n%s#end def#<$m>' % (name, body)
        want = '<' + ref(exp) + '>'
    else:
        src = head + '#transform %s\n%s' % (name, body)
        want = ref(exp)
    ns = dict(('v%d' % k, v) for k, v in vals.items())
    ns['rev'] = Rev()
    got = tm.must(lambda: tm.render(src, [ns], compile_kw=kw),
                  'template %r' % src)
    same(got, want, 'transformed output of %r' % src)
    return [name, 'method' if inmeth else 'main'] + (
        ['value'] if any(isinstance(p, int) for p in parts) else [])


PROPS = [
    Prop('nesting', cases, check, 16000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: 'recorded' in l or 'filter' in l,
         rule='programs with nested #filter blocks (standard and recording '
              'custom filters), filter arguments, methods, regions and early '
              'exits, under 8 initial filters; non-trivial = has a #filter '
              'or a recorded custom filter call'),
    Prop('laws', law_cases, check_laws, 30000, shards=4,
         nontrivial=lambda c, l: len(l) > 1,
         rule='the seven standard filters and htmlEncode/htmlDecode on '
              'generated text and values; non-trivial = markup, surrounding '
              'space, line breaks or truncation involved'),
    Prop('transform', tr_cases, check_tr, 2000, shards=2,
         nontrivial=lambda c, l: 'value' in l,
         rule='#transform with standard and custom filters in the main '
              'method and in a #def; non-trivial = the text has values'),
]
