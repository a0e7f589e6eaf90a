"""Prop / Violation definitions shared by all checks, and the worker that runs one shard."""
import ast
import hashlib
import os
import sys
import time
import traceback
from collections import Counter


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Skip(BaseException):
    """The case is outside the property's domain (counted as trivial)."""


class _Stop(BaseException):
    pass


class _Hang(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(actual, expected, what, *ctx):
    if actual != expected or type(actual) is not type(expected):
        raise Violation('%s\n   expected: %r\n   actual:   %r%s' % (
            what, expected, actual,
            ''.join('\n   %s' % (c,) for c in ctx)))


class Prop:
    """One executable statement: a strategy of plain-literal cases and a check of one case.

    check(case) returns an iterable of labels (class names for the distribution)
    or None; it raises Violation.  A case is non-trivial when `nontrivial(case,
    labels)` says so; `rule` says in words what that is.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, shards=4,
                 modes=('c',), nontrivial=None, rule='', setup=None,
                 cpu_limit=25, gen=None):
        # strategy: a Hypothesis strategy, or a function Source -> case
        self.name = name
        if not hasattr(strategy, 'example'):
            strategy, gen = None, strategy
        self.strategy = strategy
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.modes = modes
        self.nontrivial = nontrivial or (lambda case, labels: True)
        self.rule = rule
        self.setup = setup
        self.cpu_limit = cpu_limit


REPO = os.environ.get('VERIF_REPO', '/repo')


def _touches_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        g = tb.tb_frame.f_globals
        if fn.startswith(REPO + '/') or '__CHEETAH_version__' in g:
            return True
        tb = tb.tb_next
    return False


def _purge_modules(before):
    for k in list(sys.modules):
        if k not in before:
            m = sys.modules.get(k)
            if m is not None and hasattr(m, '__CHEETAH_version__'):
                del sys.modules[k]


def evaluate(prop, case):
    """-> (labels, None) or (labels, message of the violation)."""
    import signal
    before = set(sys.modules)

    def onalarm(*a):
        raise _Hang()
    signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, prop.cpu_limit)
    try:
        try:
            labels = prop.check(case)
            return list(labels or ()), None
        except Skip:
            return ['skipped'], None
        except Violation as e:
            return [], str(e)
        except Exception as e:
            if _touches_repo(e.__traceback__):
                return [], 'unexpected exception from Cheetah:\n' + \
                    traceback.format_exc()
            if isinstance(e, (MemoryError, BlockingIOError)):
                raise
            # what Cheetah returned is not even what it takes to look at it
            return [], 'the result cannot be examined:\n' + \
                traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        _purge_modules(before)


def run_shard(prop, n, seedval, budget, curfile):
    """Generate and evaluate n cases; returns a result dict."""
    res = {'evaluations': 0, 'labels': Counter(), 'hashes': set(),
           'samples': [], 'failure': None, 'budget_hit': False}
    t0 = time.monotonic()
    state = {'first_fail': None}

    def body(case):
        now = time.monotonic()
        if state['first_fail'] is not None:
            if now - state['first_fail'] > 40:
                raise _Stop()
        elif now - t0 > budget:
            res['budget_hit'] = True
            raise _Stop()
        text = repr(case)
        if curfile:
            with open(curfile, 'w', encoding='utf-8',
                      errors='surrogatepass') as f:
                f.write(text)
        try:
            labels, msg = evaluate(prop, case)
        except _Hang:
            res['failure'] = (text, 'no answer within %s s of CPU time'
                              % prop.cpu_limit)
            raise _Stop()
        if state['first_fail'] is None:
            res['evaluations'] += 1
            for lab in set(labels):
                res['labels'][lab] += 1
            if msg is None and 'skipped' not in labels and \
                    prop.nontrivial(case, labels):
                h = hashlib.blake2b(
                    text.encode('utf-8', 'surrogatepass'),
                    digest_size=8).hexdigest()
                if h not in res['hashes']:
                    res['hashes'].add(h)
                    k = len(res['hashes'])
                    if k in (1, 10, 40) or (k % 400 == 0 and
                                            len(res['samples']) < 6):
                        res['samples'].append(text[:700])
        if msg is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.monotonic()
            old = res['failure']
            if old is None or len(text) <= len(old[0]):
                res['failure'] = (text, msg)
            raise Violation(msg)

    if prop.gen is not None:
        try:
            run_source(prop, n, seedval, body, res, state)
        except _Stop:
            pass
        return res
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    test = hypothesis.given(prop.strategy)(body)
    test = hypothesis.seed(seedval)(test)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), print_blob=False,
        verbosity=hypothesis.Verbosity.quiet)(test)
    try:
        test()
    except _Stop:
        pass
    except BaseException:
        if res['failure'] is None:
            raise
    return res


class Source:
    """Random choices for structured generators.

    A case is a function of a sequence of small integers; a failing case is
    shrunk by deleting and lowering entries of that sequence and generating
    again (an entry that is missing counts as the lowest choice).
    """

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.rec = []

    def i(self, a, b):
        n = len(self.rec)
        if self.prefix is not None:
            v = self.prefix[n] if n < len(self.prefix) else 0
            if v > b - a:
                v = b - a
        else:
            v = int(self.rng.random() * (b - a + 1))
        self.rec.append(v)
        return a + v

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1)]

    def chance(self, n):
        """true once in n"""
        return self.i(0, n - 1) == n - 1

    def list(self, fn, lo, hi):
        return [fn() for _ in range(self.i(lo, hi))]

    def sub(self, seq):
        return [x for x in seq if self.i(0, 1)]

    def shuffle(self, seq):
        out = list(seq)
        for k in range(len(out) - 1, 0, -1):
            j = k - self.i(0, k)
            out[k], out[j] = out[j], out[k]
        return out

    def wpick(self, pairs):
        """weighted choice of [(weight, value)]"""
        tot = sum(w for w, _ in pairs)
        r = self.i(0, tot - 1)
        for w, v in pairs:
            r -= w
            if r < 0:
                return v


def run_source(prop, n, seedval, body, res, state):
    import random
    for k in range(n):
        src = Source(random.Random('%s/%s/%s' % (prop.name, seedval, k)))
        case = prop.gen(src)
        try:
            body(case)
        except Violation:
            shrink(prop, src.rec, body)
            return


def shrink(prop, rec, body):
    """Lower the choice sequence while the case keeps failing."""
    seen = set()

    def fails(seq):
        key = tuple(seq)
        if key in seen:
            return None
        seen.add(key)
        s = Source(prefix=list(seq))
        try:
            case = prop.gen(s)
        except Exception:
            return None
        try:
            body(case)
        except Violation:
            out = s.rec
            while out and out[-1] == 0:
                out = out[:-1]
            return out
        return None

    best = list(rec)
    improved = True
    while improved:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            k = len(best) - size
            while k >= 0:
                r = fails(best[:k] + best[k + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    improved = True
                    k = min(k, len(best)) - size
                    continue
                if any(best[k:k + size]):
                    r = fails(best[:k] + [0] * size + best[k + size:])
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                k -= max(1, size // 2)
            size //= 2
        for k in range(len(best)):
            if k >= len(best):
                break
            for v in (best[k] // 2, best[k] - 1):
                if k < len(best) and 0 < v < best[k]:
                    r = fails(best[:k] + [v] + best[k + 1:])
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                        break


def load_check(pid):
    import importlib
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    return importlib.import_module('checks.' + pid.lower())


def literal(text):
    return ast.literal_eval(text)
