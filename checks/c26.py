"""C26: version comparison and utility classes keep their laws."""
import importlib
from statistics import mean as smean

from vlib.core import Prop, Skip, expect, same
from vlib import tm

from Cheetah.Tools import MondoReport as MR
from Cheetah.Tools.RecursiveNull import RecursiveNull
from Cheetah.Tools.SiteHierarchy import Hierarchy
from Cheetah.DirectiveAnalyzer import analyze

V = importlib.import_module('Cheetah.Version')

# ---- versions

KINDS = ['alpha', 'beta', 'candidate', 'final']
SUF = {'alpha': 'a', 'beta': 'b', 'candidate': 'rc'}


def version(d):
    parts = [d.pick([0, 1, 2, 3, 9, 10, 11, 100]) for _ in range(d.i(1, 3))]
    kind = d.pick(KINDS)
    n = 0 if kind == 'final' else d.pick([0, 1, 2, 9, 10, 12])
    return (parts, kind, n)


def vstring(v):
    s = '.'.join(map(str, v[0]))
    return s + (SUF[v[1]] + str(v[2]) if v[1] != 'final' else '')


def vkey(v):
    return (v[0] + [0, 0, 0])[:3] + [KINDS.index(v[1]), v[2]]


def versions_case(d):
    vs = [version(d) for _ in range(4)]
    if d.chance(2):
        vs.append(vs[0])
    # neighbours of the first
    p, k, n = vs[0]
    vs.append((p, d.pick(KINDS), n if k != 'final' else 1))
    vs[-1] = (vs[-1][0], vs[-1][1], 0 if vs[-1][1] == 'final' else vs[-1][2])
    vs.append((p[:-1] + [p[-1] + 1], k, n))
    return vs


def check_versions(vs):
    conv = V.convertVersionStringToTuple
    tups = [conv(vstring(v)) for v in vs]
    for v, t in zip(vs, tups):
        same(t, tuple((v[0] + [0, 0, 0])[:3] + [v[1], v[2]]),
             'tuple of version %s' % vstring(v))
    for v, t in zip(vs, tups):
        for w, u in zip(vs, tups):
            for op in ('__lt__', '__eq__', '__gt__'):
                same(getattr(t, op)(u),
                     getattr(vkey(v), op)(vkey(w)),
                     'comparison %s of versions %s and %s'
                     % (op, vstring(v), vstring(w)))
    same(conv(V.Version), V.VersionTuple, 'VersionTuple')
    same(conv(V.MinCompatibleVersion), V.MinCompatibleVersionTuple,
         'MinCompatibleVersionTuple')
    # a compiled module loads exactly if its version is not too old
    code = gate_code()
    old = V.MinCompatibleVersion, V.MinCompatibleVersionTuple
    try:
        for v, t in zip(vs[:3], tups):
            if v[0][0] == 3 or True:
                V.MinCompatibleVersion = vstring(v)
                V.MinCompatibleVersionTuple = t
                try:
                    exec(code, {'__name__': 'gate'})
                    loaded = True
                except AssertionError:
                    loaded = False
                same(loaded, old_version() >= t,
                     'module of version %s loads where at least %s is '
                     'required' % (V.Version, vstring(v)))
    finally:
        V.MinCompatibleVersion, V.MinCompatibleVersionTuple = old
    return ['%d parts' % len(v[0]) for v in vs] + [v[1] for v in vs]


def old_version():
    return V.convertVersionStringToTuple(V.Version)


GATE = []


def gate_code():
    if not GATE:
        src = tm.Template.compile('x', returnAClass=False, moduleName='gate',
                                  className='gate')
        GATE.append(compile(src, 'gate.py', 'exec'))
    return GATE[0]


# ---- MondoReport

class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Rec(%r)' % self.__dict__


def report_case(d):
    n = d.wpick([(1, 0), (2, 1), (6, d.i(2, 9)), (2, d.i(10, 40))])
    vals = d.wpick([(4, [0, 1, 2, 3, -1, 7]), (2, [1.5, 2, 0.25, -3.5]),
                    (2, [1, None, 2, 'x', 3.5]), (1, ['a', 'b', 'b']),
                    (1, [0])])
    return dict(kind=d.pick(['plain', 'dict', 'obj']),
                vals=[d.pick(vals) for _ in range(n)],
                size=d.i(1, 12), start=d.i(0, 14),
                dec=d.i(0, 4), suffix=d.pick(['%', None, ' pct']),
                default=d.pick(['N/A', '-', 0]),
                n=d.i(1, 3999))


def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'),
                 (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'),
                 (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


def num(v):
    return isinstance(v, (int, float))


def check_stats(st, lst, i, field, vals, c, what):
    same(st.index(), i, 'index of ' + what)
    same(st.number(), i + 1, 'number of ' + what)
    same((bool(st.even()), bool(st.odd())), (i % 2 == 1, i % 2 == 0),
         'even, odd of ' + what)
    same((bool(st.even_i()), bool(st.odd_i())), (i % 2 == 0, i % 2 == 1),
         'even_i, odd_i of ' + what)
    if i < 26:
        same((st.Letter(), st.letter()),
             ('ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i],
              'abcdefghijklmnopqrstuvwxyz'[i]), 'letters of ' + what)
    same((st.Roman(), st.roman()), (roman(i + 1), roman(i + 1).lower()),
         'numerals of ' + what)
    expect(st.item() is lst[i], 'item of %s is %r', what, st.item())
    same(st.length(), len(lst), 'length of ' + what)
    same((bool(st.first()), bool(st.last())), (i == 0, i == len(lst) - 1),
         'first, last of ' + what)
    same(bool(st.firstValue(field)), i == 0 or vals[i - 1] != vals[i],
         'firstValue of ' + what)
    same(bool(st.lastValue(field)),
         i == len(lst) - 1 or vals[i + 1] != vals[i], 'lastValue of ' + what)
    got = st.percentOfTotal(field, c['suffix'], c['default'], c['dec'])
    total = sum(v for v in vals if num(v))
    if not num(vals[i]) or total == 0:
        exp = c['default']
    else:
        exp = vals[i] / total * 100
        exp = int(exp) if c['dec'] == 0 else round(exp, c['dec'])
        if c['suffix']:
            exp = str(exp) + c['suffix']
        elif abs(got - exp) <= 1.0 / 10 ** c['dec'] and num(got):
            got = exp
    if isinstance(exp, str) and isinstance(got, str) and got != exp \
            and total and num(vals[i]):
        a, b = (float(x[:-len(c['suffix'])]) for x in (got, exp))
        if abs(a - b) <= 1.0 / 10 ** c['dec'] * 1.01 \
                and len(got) < len(exp) + 8:
            got = exp
    same(got, exp, 'percentOfTotal of ' + what)


def check_report(c):
    field = None if c['kind'] == 'plain' else 'f'
    vals = c['vals']
    lst = vals if field is None else \
        [{'f': v, 'g': 1} if c['kind'] == 'dict' else Rec(f=v) for v in vals]
    same(MR.Roman(c['n']), roman(c['n']), 'numeral of %d' % c['n'])
    mr = MR.MondoReport(lst)
    copy = list(lst)
    for name, got, start, size in (
            ('all()', mr.all(), 0, len(lst)),
            ('page(%(size)d, %(start)d)' % c, mr.page(c['size'], c['start']),
             c['start'], c['size']),
            ('batch()', mr.batch(c['size'], c['start']), c['start'],
             c['size'])):
        page = lst[start:start + size]
        what = '%s of a report on %r' % (name, lst)
        same(len(got), len(page), 'number of records in ' + what)
        for i, (r, a, b) in enumerate(got):
            expect(r is page[i], 'record %d in %s is %r', i, what, r)
            check_stats(a, lst, start + i, field, vals, c,
                        'record a %d in %s' % (i, what))
            check_stats(b, page, i, field, vals[start:start + size], c,
                        'record b %d in %s' % (i, what))
    # the pages one after another are the list
    seen = []
    for s in range(0, len(lst) + c['size'], c['size']):
        seen += [r for r, a, b in mr.page(c['size'], s)]
    same([id(x) for x in seen], [id(x) for x in lst],
         'records of all pages of %r' % (lst,))
    s = mr.summary()
    what = 'of %r' % (lst,)
    nums = [v for v in vals if num(v)]
    some = [v for v in vals if v is not None]
    near(s.sum(field), sum(nums), 'sum ' + what)
    near(s.total(field), sum(nums), 'total ' + what)
    same(s.count(field), len(some), 'count ' + what)
    if some and len({isinstance(v, str) for v in some}) == 1:
        same(s.min(field), min(some), 'min ' + what)
        same(s.max(field), max(some), 'max ' + what)
    mean = float(smean(nums)) if nums else 0.0
    near(s.mean(field), mean, 'mean ' + what)
    near(s.average(field), mean, 'average ' + what)
    if nums:
        srt = sorted(nums)
        m = s.median(field)
        same(m, srt[len(srt) // 2], 'median ' + what)
    same(lst, copy, 'the list itself')
    return [c['kind'], 'partial page' if 0 < len(lst[c['start']:])
            < c['size'] else 'page', 'mixed' if len(nums) < len(vals)
            else 'numbers', 'empty' if not vals else 'records']


def near(got, exp, what):
    expect(num(got) and abs(got - exp) <= 1e-9 * max(1, abs(exp)),
           '%s: expected %r, got %r', what, exp, got)


# ---- RecursiveNull

STEPS = ['.a', '.form.f1', '["k"]', '[0]', '()', '(1, x=2)', '.might("u")',
         '[1:2]', '.respond']


def null_case(d):
    return dict(steps=d.list(lambda: d.pick(STEPS), 0, 6),
                other=d.pick([0, '', None, [], False, {}, 1, 'x', [0], 2.5,
                              'null']))


def check_null(c):
    n = RecursiveNull()
    chain = ''.join(c['steps'])
    v = eval('n' + chain, {'n': n})
    expect(isinstance(v, RecursiveNull), 'null%s is %r', chain, v)
    same((str(v), repr(v), bool(v), '%s' % v), ('', '', False, ''),
         'text and truth of null' + chain)
    o = RecursiveNull() if c['other'] == 'null' else c['other']
    same((bool(v == o), bool(v != o)), (not o, bool(o)),
         'comparison of null with %r' % (c['other'],))
    src = '<${n%s}>#if $n%s#yes#else#no#end if#' % (chain, chain)
    same(tm.render(src, [{'n': n}]), '<>no',
         'rendering of %s with a null' % src)
    return ['steps %d' % len(c['steps'])]


# ---- SiteHierarchy

def tree(d, depth, counter):
    counter[0] += 1
    node = ('/u%d' % counter[0], 'T%d' % counter[0])
    kids = [tree(d, depth - 1, counter)
            for _ in range(d.i(0, 3))] if depth else []
    return [node] + kids if kids or (depth and d.chance(8)) else node


def site_case(d):
    c = [0]
    t = tree(d, 3, c)
    if isinstance(t, tuple):
        t = [t]
    return dict(tree=t, cur=d.i(1, c[0]),
                prefix=d.pick(['', '', '/here']),
                css=d.pick([None, 'k']), crumb=d.pick([None, 'm']))


def check_site(c):
    cur = '/u%d' % c['cur']
    css = ' class="%s"' % c['css'] if c['css'] else ''
    ccss = ' class="%s"' % c['crumb'] if c['crumb'] else ''

    def has(t):
        return t[0] == cur if isinstance(t, tuple) else any(map(has, t))

    def menu(t, ind):
        url, text = t if isinstance(t, tuple) else t[0]
        sp = '&nbsp;' * 2 * ind
        if url == cur:
            out = '%s<B%s>%s</B> <BR>\n' % (sp, css, text)
        else:
            out = '%s<A HREF="%s%s"%s>%s</A> <BR>\n' % (
                sp, c['prefix'], url, css, text)
        if isinstance(t, list) and has(t):
            out += ''.join(menu(x, ind + 1) for x in t[1:])
        return out
    h = Hierarchy(c['tree'], cur, c['prefix'], c['css'], c['crumb'])
    same(h.menuList(), ''.join(menu(x, 0) for x in c['tree'][1:]),
         'menu of %r at %s' % (c['tree'], cur))
    path, t = [], c['tree']
    while True:
        if isinstance(t, tuple):
            path.append(t)
            break
        path.append(t[0])
        if t[0][0] == cur:
            break
        t = [x for x in t[1:] if has(x)][0]
    links = ['<B%s>%s</B>' % (ccss, text) if url == cur else
             '<A HREF="%s%s"%s>%s</A>' % (c['prefix'], url, ccss, text)
             for url, text in path]
    same(h.crumbs(), '&nbsp;&gt;&nbsp;'.join(links) if len(path) > 1 else '',
         'crumbs of %r at %s' % (c['tree'], cur))
    return ['depth %d' % len(path)]


# ---- directive analysis

ATOMS = [('text $x\n', {}), ('#set $y = 1\n', {'set': 1}),
         ('#silent $x\n', {'silent': 1}), ('#echo 1+1\n', {'echo': 1}),
         ('## #if not counted\n', {}), ('#* #for *#\n', {}),
         ('\\#if escaped\n', {}), ('a#slurp\n', {'slurp': 1}),
         ('<%= 1 %>\n', {}), ('#raw\n#if $x\n#end raw\n', {'raw': 1}),
         ('#import os\n', {'import': 1}), ('#from os import path\n',
                                           {'from': 1}),
         ('#if 1 then 2 else 3\n', {'if': 1}), ('#pass\n', {'pass': 1}),
         ('#if 1: one\n', {'if': 1}), ('# notdirective\n', {}),
         ('#attr $q%d = 1\n', {'attr': 1}), ('#include source="#pass"\n',
                                             {'include': 1}),
         ('#compiler-settings\nuseNameMapper = True\n'
          '#end compiler-settings\n', {'compiler-settings': 1}),
         ('#assert 1\n', {'assert': 1}), ('#del $y9\n', {'del': 1})]
SUITES = [('if 1', 'if'), ('for $i in [1]', 'for'), ('while 0', 'while'),
          ('unless 1', 'unless'), ('repeat 1', 'repeat'),
          ('filter WebSafe', 'filter'), ('cache', 'cache'),
          ('capture v', 'capture'), ('def m%d', 'def'), ('block b%d', 'block'),
          ('call $str', 'call')]


def anal_case(d):
    n = [0]

    def block(depth):
        out = []
        for _ in range(d.i(1, 4)):
            if depth and d.chance(3):
                out.append((d.i(0, len(SUITES) - 1), block(depth - 1),
                            d.chance(3)))
            else:
                out.append(d.i(0, len(ATOMS) - 1))
        return out
    return block(2)


def check_anal(c):
    counts, n = {}, [0]

    def add(k):
        counts[k] = counts.get(k, 0) + 1

    def emit(b):
        out = ''
        for x in b:
            n[0] += 1
            if isinstance(x, int):
                t, k = ATOMS[x]
                out += t % n[0] if '%d' in t else t
                for y in k:
                    add(y)
            else:
                head, k = SUITES[x[0]]
                head = head % n[0] if '%d' in head else head
                add(k)
                out += '#%s\n' % head + emit(x[1]) + '#pass\n'
                add('pass')
                if x[2] and k == 'if':
                    out += '#else\nz\n'
                    add('else')
                out += '#end %s\n' % k
                add('end')
        return out
    src = emit(c)
    try:
        got = analyze(src)
    except Exception as e:
        if tm.outcome(lambda: tm.compile_(src))[0] != 'ok':
            raise Skip()
        raise e
    same({k: got[k] for k in got if got[k]}, counts,
         'directives counted in %r' % src)
    return ['kinds %d' % min(len(counts), 6)]


# ---- #indent

OPS = ['++', '--', 'on', 'off', 'push', 'pop', '=0', '=2', '= 3', '=-1']
LINES = ['word', '  two words', '\ttab', '', '    $x', 'x${x}y ', ' \t mix']


def indent_case(d):
    def lines():
        return d.list(lambda: d.wpick([(3, d.pick(LINES)),
                                       (3, '#indent ' + d.pick(OPS)),
                                       (1, '  #indent' + d.pick(OPS[-4:])),
                                       (1, '  #if $x')]), 1, 9)
    return dict(t=[lines(), lines()], order=d.list(lambda: d.i(0, 1), 1, 4))


def check_indent(c):
    insts, states = [], []
    for ls in c['t']:
        src = []
        for x in ['#indent ' + OPS[4], '#indent pop'] + ls:
            src += [x, 'in', '  #end if'] if x == '  #if $x' else [x]
        while src[-1] == '':
            src.pop()      # the end of the template
        insts.append((src, tm.compile_('\n'.join(src))(
            searchList=[{'x': 'X'}])))
        states.append(dict(on=True, level=0, stack=[]))
    for k in c['order']:
        src, t = insts[k]
        st = states[k]
        out = []
        for x in src:
            s = x.strip()
            if s.startswith('#indent'):
                a = s[7:].strip()
                if a == '++':
                    st['level'] += 1
                elif a == '--':
                    st['level'] = max(0, st['level'] - 1)
                elif a in ('on', 'off'):
                    st['on'] = a == 'on'
                elif a == 'push':
                    st['stack'].append(st['level'])
                elif a == 'pop':
                    st['level'] = st['stack'].pop() if st['stack'] else 0
                else:
                    st['level'] = max(0, int(a[1:]))
            elif not s.startswith('#'):
                rest = x.lstrip()
                ws = len(x[:len(x) - len(rest)].expandtabs(4))
                out.append(' ' * (4 * st['level'] if st['on'] else ws)
                           + rest.replace('${x}', 'X').replace('$x', 'X')
                           + '\n')
        exp = ''.join(out)
        if not src[-1].strip().startswith('#'):
            exp = exp[:-1]
        same(t.respond(), exp, 'output of %r, render order %r'
             % ('\n'.join(src), c['order']))
    return ['renders %d' % len(c['order'])]


PROPS = [
    Prop('versions', versions_case, check_versions, 4000, shards=1,
         rule='sets of 6-7 neighbouring version strings'),
    Prop('reports', report_case, check_report, 8000, shards=2,
         nontrivial=lambda c, l: 'records' in l,
         rule='reports on up to 40 records; non-trivial = not empty'),
    Prop('null', null_case, check_null, 1500, shards=1,
         modes=('c', 'pure'), rule='access chains on a RecursiveNull'),
    Prop('site', site_case, check_site, 6000, shards=1,
         rule='site trees of depth up to 4 with a current page'),
    Prop('analyze', anal_case, check_anal, 2500, shards=2,
         rule='templates of known directive inventory'),
    Prop('indent', indent_case, check_indent, 2000, shards=1,
         rule='two templates with #indent directives rendered in any order'),
]
