"""C03: name lookup follows the NameMapper rules."""
import builtins

from vlib.core import Prop, Violation, same, expect
from vlib import objs, tm
from Cheetah import NameMapper as NM

FUNCS = ['valueForName', 'valueFromSearchList', 'valueFromFrameOrSearchList',
         'valueFromFrame', 'valueForKey']


def gen_lookup(d):
    lab = [0]
    n = d.i(1, 3)
    specs = [objs.draw_container(d, 3, lab) for _ in range(n)]
    which = d.i(0, n - 1)
    name = objs.walk_names(d, specs[which], d.i(1, 4))
    nlocals = d.i(0, 1)
    api = d.pick(FUNCS)
    if api.startswith('valueFromFrame') and hasattr(
            {}, name.split('.')[0]):
        # the frame's own dictionaries have these as attributes: listed in
        # known_findings.txt (prop 'dictnames'), not searched for again
        api = 'valueFromSearchList'
    return (specs, name, api, d.i(0, 1), nlocals, d.i(0, 3))


def outcome(fn, b):
    try:
        return ('ok', fn())
    except objs.RefNotFound as e:
        return ('notfound', e.part)
    except NM.NotFound as e:
        if any(e is x for x in b.raised) or 'inner' in str(e):
            return ('raised-notfound',)
        return ('notfound', str(e))
    except Exception as e:
        return ('exc', type(e).__name__,
                any(e is x for x in b.raised), str(e))


def frame_locals(ns):
    """A function whose local variables are exactly ns, calling back."""
    names = sorted(ns)
    src = 'def f(_ns, _go):\n'
    for x in names:
        src += '    %s = _ns[%r]\n' % (x, x)
    src += '    return _go()\n'
    return src


def call_api(api, specs, name, ac, nlocals, glob):
    """-> (outcome, trace, reference outcome, reference trace)"""
    res = []
    for side in ('real', 'ref'):
        b = objs.Builder()
        live = [b.build(s) for s in specs]
        first = name.split('.')[0]
        loc = {}
        sl = live
        if nlocals and specs[0][0] in ('dict', 'odict') and \
                api.startswith('valueFromFrame'):
            loc = dict(live[0])
            sl = live[1:]
        if api == 'valueFromFrame':
            glob_ns = {}
            if specs[-1][0] in ('dict', 'odict') and len(specs) > nlocals:
                glob_ns = dict(live[-1])
        else:
            glob_ns = {}
        if side == 'ref':
            if api == 'valueForName':
                fn = lambda: objs.resolve(live[0], name, ac)  # noqa: E731
            elif api == 'valueForKey':
                fn = lambda: objs.step(live[0], first)  # noqa: E731
            elif api == 'valueFromSearchList':
                fn = lambda: objs.resolve_in(live, name, ac)  # noqa: E731
            elif api == 'valueFromFrameOrSearchList':
                fn = lambda: objs.resolve_in(  # noqa: E731
                    [loc] + sl + [glob_ns, vars(builtins)], name, ac)
            else:
                fn = lambda: objs.resolve_in(  # noqa: E731
                    [loc, glob_ns, vars(builtins)], name, ac)
        else:
            if api == 'valueForName':
                fn = lambda: NM.valueForName(live[0], name, ac)  # noqa: E731
            elif api == 'valueForKey':
                fn = lambda: NM.valueForKey(live[0], first)  # noqa: E731
            elif api == 'valueFromSearchList':
                fn = lambda: NM.valueFromSearchList(live, name, ac)  # noqa
            else:
                g = dict(glob_ns)
                g['__builtins__'] = vars(builtins)
                g['_NM_'] = getattr(NM, api)
                body = 'def f(_v_):\n'
                for x in sorted(loc):
                    body += '    %s = _v_[%r]\n' % (x, x)
                body += '    _v_ = _v_["_sl_"]\n'
                if api == 'valueFromFrame':
                    body += '    return _NM_(%r, %r)\n' % (name, bool(ac))
                else:
                    body += '    return _NM_(_v_, %r, %r)\n' % (name,
                                                                bool(ac))
                exec(body, g)
                arg = dict(loc)
                arg['_sl_'] = sl
                fn = lambda: g['f'](arg)  # noqa: E731
        res.append((outcome(fn, b), list(b.trace), live))
    return res


def norm(v, depth=4):
    """A comparable picture of a looked-up value (two builds of one spec)."""
    if isinstance(v, list):
        return [norm(x, depth - 1) for x in v]
    if isinstance(v, (int, str, type(None))):
        return v
    if isinstance(v, type):
        return 'class ' + v.__name__
    if callable(v):
        return 'callable ' + type(v).__name__
    if depth and isinstance(v, dict):
        return (type(v).__name__, [(k, norm(x, depth - 1))
                                   for k, x in v.items()])
    if depth and hasattr(v, '__dict__'):
        return (type(v).__name__, [(k, norm(x, depth - 1))
                                   for k, x in sorted(vars(v).items())])
    return type(v).__name__


def check_lookup(c):
    specs, name, api, ac, nlocals, g = c
    (got, gtrace, live), (exp, etrace, live2) = call_api(
        api, specs, name, ac, nlocals, g)
    ctx = '%s(%r, autocall=%r)' % (api, name, bool(ac))
    if exp[0] == 'notfound':
        expect(got[0] == 'notfound', '%s: expected NotFound, got %r', ctx,
               got)
        expect("'%s'" % exp[1] in got[1],
               '%s: message %r does not name the missing part %r', ctx,
               got[1], exp[1])
        if '.' in name and exp[1] != name.split('.')[0] and api not in (
                'valueFromSearchList', 'valueForKey'):
            expect(name in got[1],
                   '%s: message %r does not give the full name', ctx, got[1])
    elif exp[0] == 'ok':
        if got[0] != 'ok':
            raise Violation('%s: expected %r, got %r' % (
                ctx, norm(exp[1]), got))
        same(norm(got[1]), norm(exp[1]), ctx + ': wrong value')
    else:
        same(got, exp, ctx + ': wrong exception')
    # functions run once each, in order (properties may be probed more often)
    same(dedupe(gtrace), dedupe(etrace), ctx + ': wrong calls')
    return [api, exp[0], 'ac' if ac else 'noac',
            'parts-%d' % (name.count('.') + 1)]


def dedupe(t):
    return [x for i, x in enumerate(t) if i == 0 or t[i - 1] != x]


# ---------------------------------------------------------------- cascade
PLACES = ['local', 'globalset', 'selfattr', 'classattr', 'sl0', 'sl1', 'sl2',
          'module', 'builtin']
NAMES = ['aa', 'bb', 'cc', 'len']


def gen_cascade(d):
    places = []
    for nm in NAMES[:d.i(1, 4)]:
        where = {p: None for p in PLACES if p != 'builtin' and d.i(0, 2) == 0}
        places.append((nm, sorted(where)))
    return (places, d.i(0, 3), d.pick(['VFFSL', 'nostack']), d.i(0, 1),
            d.pick(['list', 'tuple', 'single', 'namespaces']),
            [d.pick(['dict', 'obj', 'func', 'nested']) for _ in range(3)],
            d.i(0, 1), d.i(0, 1))


def check_cascade(c):
    places, prio, stack, ac, how, kinds, usedef, defauto = c
    src = ''
    sl = [{}, {}, {}]
    selfattrs = {}
    expected = {}
    cls_src = ''
    local = {}
    fin = ''
    for nm, where in places:
        vals = {}
        for p in where:
            vals[p] = '%s@%s' % (nm, p)
        if 'classattr' in where:
            cls_src += '#attr $%s = %r\n' % (nm, vals['classattr'])
        if 'module' in where:
            cls_src += '#set module $%s = %r\n' % (nm, vals['module'])
        for i in range(3):
            if 'sl%d' % i in where:
                sl[i][nm] = vals['sl%d' % i]
        if 'selfattr' in where:
            selfattrs[nm] = vals['selfattr']
        if 'globalset' in where:
            fin += '#set global $%s = %r\n' % (nm, vals['globalset'])
        if 'local' in where:
            local[nm] = vals['local']
        order = ['local', 'globalset', 'selfattr', 'classattr', 'sl0', 'sl1',
                 'sl2', 'module']
        if prio == 1:
            order = ['local', 'sl0', 'sl1', 'sl2', 'globalset', 'selfattr',
                     'classattr', 'module']
        if how == 'single':
            order = [o for o in order if o not in ('sl1', 'sl2')]
        v = None
        for p in order:
            if p in where:
                v = vals[p]
                break
        inner = [p for p in order if p in where and p != 'local']
        expected[nm] = (v, vals[inner[0]] if inner else None)

    def ns(i):
        items = sl[i]
        k = kinds[i]
        if k == 'dict':
            return dict(items)
        o = type('NS', (), {})()
        for a, b in items.items():
            if k == 'func' and ac:
                b = (lambda b=b: b)
            setattr(o, a, b)
        return o
    settings = {}
    if stack == 'nostack':
        settings['useStackFrames'] = False
    if not ac:
        settings['useAutocalling'] = False
    body = cls_src + fin
    for a, b in local.items():
        body += '#set $%s = %r\n' % (a, b)
    exists = {}
    for nm, (v, inner) in expected.items():
        if v is None and nm != 'len':
            body += '[$!%s]' % nm
        elif v is None:
            body += '[${len(%r)}]' % nm
        else:
            body += '[$%s]' % nm
    want = ''.join('[%s]' % (v if v is not None else
                             ('' if nm != 'len' else '3'))
                   for nm, (v, i) in expected.items())
    cls = tm.must(lambda: tm.compile_(body, compilerSettings=settings),
                  'compile', body)
    args = [ns(0), ns(1), ns(2)]
    kw = {}
    if prio == 1:
        kw['compilerSettings'] = {'prioritizeSearchListOverSelf': True}
    if how == 'single':
        kw['searchList'] = args[0]
    elif how == 'tuple':
        kw['searchList'] = tuple(args)
    elif how == 'namespaces':
        kw['namespaces'] = args
    else:
        kw['searchList'] = args
    t = tm.must(lambda: cls(**kw), 'construct')
    for a, b in selfattrs.items():
        setattr(t, a, b)
    try:
        out = t.respond()
    except Exception as e:
        raise Violation('%r with %r raised %s: %s' % (
            body, kw, type(e).__name__, e))
    same(out, want, 'wrong namespace order for %r, places %r, %r' % (
        body, places, kw))
    # getVar / varExists look in the same places, except locals and globals
    for nm, where in places:
        seen = [p for p in where if p in order and
                p not in ('local', 'module')]
        val = next((p for p in order if p in seen), None)
        q = ('$' + nm) if usedef else nm
        if val is None:
            expect(t.varExists(q) is False, 'varExists(%r) is not False', q)
            expect(t.hasVar(q) is False, 'hasVar(%r) is not False', q)
            same(t.getVar(q, 'DEF'), 'DEF', 'getVar default')
            same(t.getVar(q, None), None, 'getVar default None')
            try:
                r = t.getVar(q)
                raise Violation('getVar(%r) returned %r' % (q, r))
            except tm.NotFound:
                pass
        else:
            expect(t.varExists(q) is True, 'varExists(%r) is not True', q)
            same(t.getVar(q, 'DEF'), '%s@%s' % (nm, val),
                 'getVar(%r) with %r' % (q, places))
            same(t.getVar(q + '.title', 'DEF'), ('%s@%s' % (nm, val)).title(),
                 'getVar(%r) with %r' % (q + '.title', places))
            expect(t.varExists(q + '.title') is True,
                   'varExists(%r) is not True', q + '.title')
        q += '.nope'
        expect(t.varExists(q) is False, 'varExists(%r) is not False', q)
        same(t.getVar(q, 'DEF'), 'DEF', 'getVar default')
        same(t.getVar(q, None), None, 'getVar default None')
    labs = [how, stack, 'prio' if prio == 1 else 'noprio',
            'ac' if ac else 'noac']
    return labs


# -------------------------------------------------- templates over graphs
def gen_tmpl(d):
    lab = [0]
    specs = [objs.draw_container(d, 3, lab) for _ in range(d.i(1, 3))]
    name = objs.walk_names(d, specs[d.i(0, len(specs) - 1)], d.i(1, 4))
    return (specs, name, d.i(0, 1), d.i(0, 5), d.i(0, 1))


IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
            '0123456789.')


DEF = 'the default'
METHODS = []


def check_tmpl(c):
    specs, name, ac, form, stack = c
    if set(name) - IDENT:
        return ['skipped']
    if hasattr({}, name.split('.')[0]) or hasattr(
            tm.Template, name.split('.')[0]):
        return ['skipped']
    st = {}
    if not ac:
        st['useAutocalling'] = False
    if stack:
        st['useStackFrames'] = False
    src = ['<$R($%s)>', '<${R($%s)}>', '#silent $R($%s)\n<>', 'getVar %s',
           'varExists %s', 'getVar %s with default'][form] % name
    res = []
    for side in (0, 1):
        b = objs.Builder()
        live = [b.build(s) for s in specs]
        got = []
        if form > 2:
            # the methods: they look in the searchList only
            if side == 0:
                if not METHODS:
                    METHODS.append(tm.compile_('text'))
                t = METHODS[0](searchList=live)

                def fn():
                    q = '$' + name if stack else name
                    if form == 4:
                        r = t.varExists(q, autoCall=bool(ac))
                        expect(r is True or r is False, '%s: %r', src, r)
                        return r
                    if form == 5:
                        return t.getVar(q, DEF, bool(ac))
                    return t.getVar(q, autoCall=bool(ac))
            else:
                def fn():
                    try:
                        v = objs.resolve_in(live, name, ac)
                    except (objs.RefNotFound, NM.NotFound):
                        if form == 3:
                            raise
                        return False if form == 4 else DEF
                    return True if form == 4 else v
        elif side == 0:
            cls = tm.compile_(src, compilerSettings=st)

            def R(v):
                got.append(v)
                return ''

            def fn():
                out = cls(searchList=[{'R': R}] + live).respond()
                same(out, '<>', 'output of %r' % src)
                return got[0]
        else:
            def fn():
                return objs.resolve_in(
                    live + [vars(builtins)], name, ac)
        res.append((outcome(fn, b), dedupe(b.trace)))
    (got, gt), (exp, et) = res
    if exp[0] == 'ok':
        if got[0] != 'ok':
            raise Violation('%s: expected %r, got %r' % (
                src, norm(exp[1]), got))
        same(norm(got[1]), norm(exp[1]), src + ': wrong value')
    elif exp[0] == 'notfound':
        expect(got[0] == 'notfound' and "'%s'" % exp[1] in got[1],
               '%s: expected NotFound for %r, got %r', src, exp[1], got)
    else:
        same(got, exp, src)
    same(gt, et, src + ': wrong calls')
    return [exp[0], 'form%d' % form]


# ------------------------------------------- names of dictionary methods
def gen_dictnames(d):
    return (d.pick(['aa', 'length', 'pages']), d.i(0, 1))


def check_dictnames(c):
    name, stack = c
    out = tm.render('<$' + name + '>', [{name: 'mine'}], compile_kw={
        'compilerSettings': {'useStackFrames': bool(stack)}})
    same(out, '<mine>', '$%s with searchList=[{%r: ...}]' % (name, name))
    return [name]


PROPS = [
    Prop('lookup', gen_lookup, check_lookup, 60000, shards=8,
         modes=('c', 'pure'),
         nontrivial=lambda c, l: '.' in c[1] or 'ok' not in l,
         rule='object graphs of depth <= 3 over 25 kinds of values, five API '
              'functions; non-trivial = a dotted name or a failing lookup'),
    Prop('cascade', gen_cascade, check_cascade, 9000, shards=8,
         modes=('c', 'pure'),
         nontrivial=lambda c, l: any(len(w) > 1 for _, w in c[0]),
         rule='templates with the same name in several of 8 namespaces; '
              'non-trivial = some name is in at least two'),
    Prop('templates', gen_tmpl, check_tmpl, 20000, shards=8,
         modes=('c', 'pure'),
         nontrivial=lambda c, l: '.' in c[1] or 'ok' not in l,
         rule='$name in a template over generated object graphs; non-trivial '
              '= a dotted name or a failing lookup'),
    Prop('dictnames', gen_dictnames, check_dictnames, 60, shards=1,
         rule='a searchList variable is found whatever its name'),
]
