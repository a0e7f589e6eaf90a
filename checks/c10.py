"""C10: rendering is repeatable and instances do not disturb each other."""
import threading

from vlib.core import Prop, Skip, Violation, same
from vlib import lang, tm

FEATURES = set('''text ph echo set silent tern pass gset psp
raise stop break continue return if for repeat while try short def t
call capture filter cache block shortreg'''.split())


class Injected(Exception):
    pass


class Model(lang.Interp):
    """One instance; renders repeatedly, keeping what an instance keeps."""
    fault = None
    calls = 0

    def ev(self, x, L):
        if x[0] == 't':
            v = self.ev(x[2], L)
            self.calls += 1
            if self.calls == self.fault:
                raise Injected()
            self.trace.append(x[1])
            return v
        return lang.Interp.ev(self, x, L)

    def render(self, how='respond', fault=None):
        self.fault, self.calls, self.steps = fault, 0, 0
        self.trace = []
        self.filter = self.initial
        del self.mouts[:]
        try:
            if how == 'respond':
                return ('ok', self.run())
            return ('ok', self.call(how, []))
        except (lang.TooLong, lang.Brk, lang.Cont):
            raise Skip()
        except lang.Missing:
            return ('exc', 'NotFound')
        except Exception as e:
            return ('exc', type(e).__name__)

    initial = staticmethod(lang.default_filter)


def program(d, depth=3):
    g = lang.Gen(d, FEATURES | {'t'}, flow=True, maxdepth=depth)
    g.f.add('t')
    return g.program()


def build(prog, eol):
    em = lang.Emitter(lang.EOLS[eol])
    norm = em.program(prog)
    return em, norm, em.source()


def compiled(src):
    try:
        return tm.compile_(src)
    except Exception as e:
        raise Violation('valid template rejected: %s: %s\n%r' % (
            type(e).__name__, e, src))


def run(fn):
    try:
        return ('ok', fn())
    except Violation:
        raise
    except Exception as e:
        return ('exc', type(e).__name__)


# ------------------------------------------------------------- histories
def hist_cases(d):
    prog = program(d)
    env = lang.draw_env(d)

    def op():
        return (d.i(0, 1), d.pick(['respond', 'respond', 'str', 'meth0',
                                   'meth1', 'change']),
                d.pick([None, None, d.i(1, 6)]))
    return (prog, env, d.pick(['n', 'rn']), d.list(op, 2, 7))


def check_hist(c):
    prog, envt, eol, ops = c
    em, norm, src = build(prog, eol)
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(envt))
    cur = {}

    def t(label, v):
        cur['calls'] += 1
        if cur['calls'] == cur['fault']:
            raise Injected()
        cur['trace'].append(label)
        return v
    ns['t'] = t
    cls = compiled(src)
    insts = [cls(searchList=[ns]) for _ in range(2)]
    mod_env = lang.make_env(envt)
    models = [Model(norm, mod_env, lang.CALLS) for _ in range(2)]
    snap = repr(sorted((k, repr(v)) for k, v in ns.items()))
    labs = sorted(em.used)
    done = []
    for which, how, fault in ops:
        if how == 'change':
            # the caller changes an input between renders
            ns['a'] = mod_env['a'] = (ns['a'] + 1) % 4
            snap = repr(sorted((k, repr(v)) for k, v in ns.items()))
            done.append((which, how))
            continue
        if how.startswith('meth') and (
                how not in models[0].defs
                or [1 for p, df in models[0].defs[how][0] if df is None]):
            how = 'respond'
        inst, m = insts[which], models[which]
        exp = m.render('respond' if how == 'str' else how, fault)
        cur.update(calls=0, fault=fault, trace=[])
        if how == 'str':
            got = run(lambda: str(inst))
        else:
            got = run(getattr(inst, how))
        done.append((which, how, fault))
        ctx = 'template %r\n   history %r' % (src, done)
        if how == 'str' and exp[0] == 'ok' and not isinstance(exp[1], str):
            # str() of something else is Python's business
            continue
        same(got, exp, 'wrong result of the last render', ctx)
        same(cur['trace'], m.trace, 'wrong evaluations in the last render',
             ctx)
        now = repr(sorted((k, repr(v)) for k, v in ns.items()))
        same(now, snap, 'the namespace of the caller was changed', ctx)
        same(len(inst.searchList()), 3, 'length of the searchList', ctx)
        if exp == ('exc', 'Injected'):
            labs.append('fault hit')
        labs.append(how)
    return labs


# ---------------------------------------------------------- interleaving
def inter_cases(d):
    n = d.i(2, 3)
    progs = [program(d, 2) for _ in range(n)]
    # plan: (i, k) -> j: at the k-th hand-over of instance i render j
    plan = [(d.i(0, n - 1), d.i(1, 4), d.i(0, n - 1))
            for _ in range(d.i(1, 6))]
    return (progs, lang.draw_env(d), plan, d.list(lambda: d.i(0, n - 1), 1, 4),
            d.i(0, 1))


def check_inter(c):
    progs, envt, plan, order, sameclass = c
    if sameclass:
        progs = [progs[0]] * len(progs)
    built = [build(p, 'n') for p in progs]
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(envt))
    mod_env = lang.make_env(envt)
    stack = []           # indexes of the instances being rendered
    counts = {}
    plan = dict(((i, k), j) for i, k, j in plan)
    problems = []
    nested = [0]

    def t(label, v):
        i = stack[-1]
        counts[i] = counts.get(i, 0) + 1
        traces[i].append(label)
        j = plan.get((i, counts[i]))
        if j is not None and j not in stack and len(stack) < 4:
            nested[0] += 1
            go(j)
        return v
    ns['t'] = t
    classes = []
    for k, b in enumerate(built):
        classes.append(classes[0] if sameclass and k else compiled(b[2]))
    insts = [cl(searchList=[ns]) for cl in classes]
    models = [Model(b[1], mod_env, lang.CALLS) for b in built]
    traces = [[] for _ in insts]

    def go(i):
        stack.append(i)
        saved, traces[i] = traces[i], []
        # an isolated render of the same instance
        exp = models[i].render()
        try:
            got = run(insts[i].respond)
        finally:
            stack.pop()
        if got != exp or traces[i] != models[i].trace:
            problems.append((i, got, exp))
        traces[i] = saved
    for i in order:
        counts.clear()
        go(i)
        if problems:
            raise Violation(
                'instance %d rendered\n   %r, alone it gives\n   %r\n'
                '   templates: %r' % (problems[0] + ([b[2] for b in built],)))
    labs = ['nested %d' % min(nested[0], 3)]
    return labs


# --------------------------------------------------------------- threads
class Sched(object):
    """Runs one thread at a time; hand-over points take the next turn."""

    def __init__(self, n, schedule):
        self.cv = threading.Condition()
        self.alive = set(range(n))
        self.schedule = list(schedule)
        self.turn = None
        self.switches = 0

    def pick(self):
        if not self.alive:
            self.turn = None
            return
        a = sorted(self.alive)
        k = self.schedule.pop(0) if self.schedule else 0
        new = a[k % len(a)]
        if new != self.turn:
            self.switches += 1
        self.turn = new

    def wait(self, me):
        while self.turn != me:
            if not self.cv.wait(120):
                raise RuntimeError('harness: no turn')

    def point(self, me):
        with self.cv:
            self.pick()
            self.cv.notify_all()
            self.wait(me)

    def start(self, me):
        with self.cv:
            self.wait(me)

    def end(self, me):
        with self.cv:
            self.alive.discard(me)
            self.pick()
            self.cv.notify_all()


def thread_cases(d):
    n = d.i(2, 3)
    return ([program(d, 2) for _ in range(n)], lang.draw_env(d),
            d.list(lambda: d.i(0, 2), 4, 30), d.i(0, 1), d.i(0, 1))


def check_threads(c):
    progs, envt, schedule, sameclass, compile_inside = c
    if sameclass:
        progs = [progs[0]] * len(progs)
    n = len(progs)
    built = [build(p, 'n') for p in progs]
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(envt))
    local = threading.local()
    sched = Sched(n, schedule)

    def t(label, v):
        sched.point(local.me)
        local.trace.append(label)
        return v
    ns['t'] = t
    if not compile_inside:
        classes = []
        for k, b in enumerate(built):
            classes.append(classes[0] if sameclass and k else compiled(b[2]))
    results = [None] * n

    def body(i):
        sched.start(i)
        local.me, local.trace = i, []
        out = []
        try:
            if compile_inside:
                cl = compiled(built[i][2])
                sched.point(i)
            else:
                cl = classes[i]
            inst = cl(searchList=[ns])
            for _ in range(2):
                del local.trace[:]
                out.append((run(inst.respond), list(local.trace)))
                sched.point(i)
        except BaseException as e:
            out.append(e)
        finally:
            results[i] = out
            sched.end(i)
    # the model's expectations
    exps = []
    for b in built:
        m = Model(b[1], lang.make_env(envt), lang.CALLS)
        e = []
        for _ in range(2):
            r = m.render()
            e.append((r, m.trace))
        exps.append(e)
    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
    for th in threads:
        th.start()
    with sched.cv:
        sched.pick()
        sched.cv.notify_all()
    for th in threads:
        th.join(600)
    for i in range(n):
        for r in results[i] or [RuntimeError('no result')]:
            if isinstance(r, BaseException):
                raise r
        same(results[i], exps[i], 'thread %d of %r' % (
            i, [b[2] for b in built]))
    labs = ['%s switches' % min(sched.switches, 6)]
    if sched.switches > n:
        labs.append('interleaved')
    return labs


PROPS = [
    Prop('histories', hist_cases, check_hist, 9000, shards=8,
         modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: len(l) >= 6,
         rule='histories of 2-7 renders of two instances (respond, str, '
              'single methods) with injected exceptions and changed inputs '
              'between them; non-trivial = programs of several node kinds'),
    Prop('interleaved', inter_cases, check_inter, 5000, shards=6,
         nontrivial=lambda c, l: 'nested 0' not in l,
         rule='2-3 instances (of one or several templates) rendered inside '
              'each other at generated points; non-trivial = at least one '
              'nested render took place'),
    Prop('threads', thread_cases, check_threads, 3000, shards=6,
         nontrivial=lambda c, l: 'interleaved' in l,
         rule='2-3 threads, each rendering its instance twice (optionally '
              'compiling it in the thread), switched at every $t() by a '
              'generated schedule; non-trivial = more switches than threads'),
]
