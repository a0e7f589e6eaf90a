"""C20: buffered regions capture exactly their own output."""
from vlib.core import Prop, Skip, Violation, same
from vlib import lang, tm
from Cheetah.DummyTransaction import DummyTransaction

FEATURES = set('''text ph echo set silent tern pass psp gset
raise stop break continue return if for repeat try short def t
call capture filter cache block shortreg'''.split())


def cases(d):
    g = lang.Gen(d, FEATURES, flow=True)
    prog = g.program()
    return (prog, lang.draw_env(d), d.pick(['n', 'n', 'n', 'rn', 'r']))


def actual(src, env):
    trace = []

    def t(label, v):
        trace.append(label)
        return v
    ns = lang.recorded_funcs(trace)
    ns.update(env)
    ns['t'] = t
    try:
        out = ('ok', tm.render(src, [ns]))
    except Exception as e:
        if type(e).__name__ in ('ParseError', 'SyntaxError',
                                'IndentationError'):
            raise Violation('valid template rejected: %s: %s\n%r' % (
                type(e).__name__, e, src))
        out = ('exc', type(e).__name__)
    return out, trace


REGIONS = set('call capture filter cache shortreg'.split())


def check(c):
    prog, envt, eol = c
    em = lang.Emitter(lang.EOLS[eol])
    norm = em.program(prog)
    src = em.source()
    exp, etrace = lang.model(norm, lang.make_env(envt), calls=True)
    if exp is None:
        raise Skip()
    got, trace = actual(src, lang.make_env(envt))
    same(got, exp, 'wrong result for template %r' % src)
    same(trace, etrace, 'wrong calls for template %r' % src)
    labs = sorted(em.used) + [exp[0], 'eol-' + eol]
    n = len([x for x in trace if isinstance(x, tuple)])
    if n:
        labs.append('%s calls' % min(n, 5))
    return labs


# ---- the same programs within a transaction (as of an application server)

class TInterp(lang.Interp):
    """A method that runs while no region is being buffered writes to the
    transaction and returns nothing."""

    def __init__(self, *a):
        lang.Interp.__init__(self, *a)
        self.written = []
        self.buffering = False

    def method(self, body, locs):
        if self.buffering:
            return lang.Interp.method(self, body, locs)
        old = self.filter
        self.mouts.append([])
        try:
            self.block(body, locs, self.written)
        except lang.Ret as r:
            return r.v
        except lang.Stop:
            pass
        finally:
            self.filter = old
            self.mouts.pop()
        return ''

    def buffered(self, body, L, buf):
        old, self.buffering = self.buffering, True
        try:
            self.block(body, L, buf)
        finally:
            self.buffering = old

    def exec(self, n, L, out):
        k = n[0]
        if k == 'capture':
            buf = []
            self.buffered(n[2], L, buf)
            L[n[1]] = ''.join(buf)
        elif k in ('call', 'cache'):
            old, self.buffering = self.buffering, True
            try:
                lang.Interp.exec(self, n, L, out)
            finally:
                self.buffering = old
        else:
            lang.Interp.exec(self, n, L, out)


class TGen(lang.Gen):
    def ph(self):
        if self.methods and self.i(0, 1):
            return ('ph', self.mcall(), self.i(0, 4))
        return lang.Gen.ph(self)


def tcases(d):
    g = TGen(d, FEATURES | {'def'}, flow=True, maxdepth=2)
    g.f = g.f | {'def', 'text', 'ph'}
    prog = g.program()
    return (prog, lang.draw_env(d), d.i(1, 3), d.i(0, 1))


def has_mcall(x):
    return isinstance(x, (tuple, list)) and (
        len(x) > 0 and x[0] == 'mcall' or any(has_mcall(y) for y in x))


def strip_calls(x):
    """extra arguments of #call without method calls: whether those are
    buffered is not what is checked here"""
    if isinstance(x, tuple) and x and x[0] == 'mcall':
        return ('str', 'm')
    if isinstance(x, (tuple, list)):
        return type(x)(strip_calls(y) for y in x)
    return x


def no_arg_calls(x):
    if isinstance(x, tuple) and x and x[0] == 'call':
        return x[:2] + (no_arg_calls(x[2]), no_arg_calls(x[3]),
                        strip_calls(x[4]), x[5])
    if isinstance(x, tuple) and x and x[0] == 'shortreg':
        return x[:3] + (strip_calls(x[3]), no_arg_calls(x[4]))
    if isinstance(x, (tuple, list)):
        return type(x)(no_arg_calls(y) for y in x)
    return x


def tcheck(c):
    prog, envt, times, how = c
    prog = no_arg_calls(prog)
    em = lang.Emitter()
    norm = em.program(prog)
    src = em.source()
    it = TInterp(norm, lang.make_env(envt), lang.CALLS)
    try:
        cls = tm.compile_(src)
    except Exception as e:
        raise Violation('valid template rejected: %s: %s\n%r' % (
            type(e).__name__, e, src))
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(envt))
    ns['t'] = lambda label, v: v
    t = cls(searchList=[ns])
    labs = set(em.used)
    for step in range(times):
        it.written = []
        try:
            it.run()
            exp = ('ok', ''.join(it.written))
        except (lang.TooLong, lang.Brk, lang.Cont):
            raise Skip()
        except lang.Missing:
            exp = ('NotFound', ''.join(it.written))
        except Exception as e:
            exp = (type(e).__name__, ''.join(it.written))
        t.transaction = trans = DummyTransaction()
        try:
            t.respond(trans) if how else t.respond()
            got = 'ok'
        except Exception as e:
            got = type(e).__name__
        got = (got, trans.response().getvalue())
        same(got, exp, 'render %d within a transaction of template %r' % (
            step, src))
        labs.add(exp[0] if exp[0] == 'ok' else 'exc')
    if has_mcall(prog[1]):
        labs.add('method')
    return sorted(labs)


PROPS = [
    Prop('regions', cases, check, 24000, shards=8, modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: bool(REGIONS & set(l)) and len(l) >= 5,
         rule='programs of nesting depth <= 3 whose bodies mix #call (with '
              '#arg, extra arguments, short form), #capture, #filter, '
              '#cache and #block with control flow that leaves them early; '
              'non-trivial = at least one region'),
    Prop('transaction', tcases, tcheck, 8000, shards=4,
         modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: bool(REGIONS & set(l)) and 'method' in l,
         rule='such programs rendered up to three times by an instance that '
              'has a transaction, where methods write to the response '
              'unless a region is being buffered; non-trivial = a region '
              'and a method call'),
]
