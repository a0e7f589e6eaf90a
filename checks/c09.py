"""C09: the compilation cache is transparent."""
import os
import re
import shutil
import sys
import tempfile

from vlib.core import Prop, Violation
from vlib import tm
from vlib.tm import Template
from Cheetah.Compiler import Compiler

SOURCES = [
    'x=$x', 'x=$x ', 'x=@x $x', 'a$self.bm()b', '#def f\n$x#end def\n$f',
    'T #if 1\nT#end if\nT', '#echo 1\n$x', '#shout hi#$x', '#set $x = 5\n$x',
    'caf\xe9 $x', '#encoding utf-8\ncaf\xe9 $x', '%x $x', '#attr $q = 3\n$q$x',
    '#super', '#implements bc\n$x', '', '$y', '$x',
]
VALUES = [-1, -2, 0, 1, True, False, 1.0, 0.0, -0.0, '1', '', None, (1,), (),
          (True,), [1], [1.0], [], {}, {'a': 1}, {'a': True}, {'a': -1},
          {'a': -2}, '-1', b'1', 12, 2, '12', 11, {1}]
NAMES = [None, 'a', 'ab', 'b', 'bc', 'c', 'abc', 'respond', 'None', '_a',
         'aNone', '__b']


class Base1(Template):
    def bm(self):
        return 'one'


class Base2(Template):
    def bm(self):
        return 'two'


def twin():
    class Base1(Template):
        def bm(self):
            return 'twin'
    return Base1


Base3 = twin()
BASES = [None, Base1, Base2, Base3, 'Cheetah.Template']


class Comp1(Compiler):
    pass


class Comp2(Compiler):
    def addStrConst(self, s):
        return Compiler.addStrConst(self, s.replace('T', 'tt'))


def shout1(src):
    return src.upper()


def shout2(src):
    return src + '!'


class Hook(object):
    def __init__(self, word):
        self.word = word

    def m(self, src):
        return self.word + src


H1, H2 = Hook('h1'), Hook('h2')

SETTINGS = [
    lambda: None,
    lambda: {},
    lambda: {'cheetahVarStartToken': '@'},
    lambda: {'cheetahVarStartToken': '%'},
    lambda: {'useNameMapper': False},
    lambda: {'useNameMapper': 0},
    lambda: {'macroDirectives': {'shout': shout1}},
    lambda: {'macroDirectives': {'shout': shout2}},
    lambda: {'macroDirectives': {'shout': H1.m}},
    lambda: {'macroDirectives': {'shout': H2.m}},
    lambda: {'disabledDirectives': ['if']},
    lambda: {'disabledDirectives': ['echo']},
    lambda: {'disabledDirectives': ['if', 'echo']},
    lambda: {'disabledDirectives': []},
    lambda: {'enabledDirectives': ['if']},
    lambda: {'alwaysFilterNone': False},
    lambda: {'outputRowColComments': False},
    lambda: {'outputRowColComments': True},
    lambda: {'mainMethodName': 'bc'},
    lambda: {'mainMethodName': 'c'},
    lambda: {'reprShortStrConstants': False},
    lambda: {'commentOffset': 1},
    lambda: {'commentOffset': 3},
    lambda: {'commentOffset': True},
]


def pre_t(source, file):
    return (source or 'FILE $x').replace('x', 'y'), None


def pre_u(source, file):
    return (source or 'FILE $x') + '$x', None


def pre_f(source, file):
    return source, file


PREPROC = [
    lambda: None,
    lambda: pre_t,
    lambda: [pre_u],
    lambda: [pre_t, pre_u],
    lambda: [pre_u, pre_t],
    lambda: [pre_f],
    lambda: [{'tokens': '@ %', 'searchList': [{'x': 'P1'}]}],
    lambda: [{'tokens': '@ %', 'searchList': [{'x': 'P2'}]}],
    lambda: [{'tokens': '% @', 'searchList': [{'x': 'P1'}]}],
]


class Sub(Template):
    _CHEETAH_defaultModuleGlobalsForTemplates = {'x': 'sub'}


class Sub2(Template):
    @classmethod
    def _getCompilerSettings(klass, source=None, file=None):
        return {'cheetahVarStartToken': '@'}


APIS = [Template, Sub, Sub2]
COMPS = [None, Comp1, Comp2]
FILES = ['t.tmpl', 'u.tmpl', 'a/t.tmpl', 'ab.tmpl']

# the dimensions of a compile call and how many choices each has
DIMS = [('src', len(SOURCES)), ('file', len(FILES) + 1),
        ('cls', len(NAMES)), ('mod', len(NAMES)), ('meth', len(NAMES)),
        ('base', len(BASES)), ('glob', len(VALUES) + 2),
        ('set', len(SETTINGS)), ('pre', len(PREPROC)),
        ('comp', len(COMPS)), ('api', len(APIS)), ('sheb', 3)]
WEIGHTS = [3, 3, 2, 2, 2, 2, 4, 3, 2, 1, 1, 1]
POOL = [n for (n, k), w in zip(DIMS, WEIGHTS) for _ in range(w)]
SIZE = dict(DIMS)


def cases(d):
    call = dict((n, 0) for n, k in DIMS)
    for n, k in DIMS:
        if d.chance(3):
            call[n] = d.i(0, k - 1)
    usefile = d.chance(3)
    past = [dict(call)]
    ops = []
    for _ in range(d.i(2, 9)):
        k = d.i(0, 11)
        if k == 11:
            ops.append(('write', d.i(0, 2), d.i(0, len(SOURCES) - 1),
                        d.i(0, 1)))
            continue
        if k == 10:
            ops.append(('chdir', d.i(0, 1)))
            continue
        if k == 9:
            ops.append(('mutate', d.i(0, 3)))
            continue
        if k >= 6:
            call = dict(d.pick(past))       # a call made before, again
        for _ in range(d.pick([0, 1, 1, 1, 2])):
            n = d.pick(POOL)
            call[n] = d.i(0, SIZE[n] - 1)
        c = dict(call)
        if not usefile:
            c['file'] = 0
        past.append(dict(call))
        flags = (d.pick([None, None, True, True, False]),
                 d.pick([None, None, True, True, False]),
                 d.pick([True, True, True, False]))
        ops.append(('compile', sorted(c.items()), flags))
    return ops


class Opts(object):
    def __init__(self, s):
        self.shbang = s


SHEB = [None, '#!/a', '#!/b']
TIME = re.compile(r"(?m)^(# *)?__CHEETAH_(genTime|genTimestamp|srcLastModified)"
                  r"__ =.*$")


def normal(code):
    if isinstance(code, bytes):
        code = code.decode('utf-8', 'replace')
    return TIME.sub('', code)


def observe(args, flags, shared):
    """What a user can see of the compiled template."""
    api = args.pop('API')
    kw = dict(args)
    if flags[0] is not None:
        kw['useCache'] = flags[0]
    if flags[1] is not None:
        kw['cacheCompilationResults'] = flags[1]
    if not flags[2]:
        try:
            return ('code', normal(api.compile(returnAClass=False, **kw))), None
        except Exception as e:
            return ('exc', type(e).__name__, clean(e)), None
    try:
        cls = api.compile(**kw)
    except Exception as e:
        return ('exc', type(e).__name__, clean(e)), None
    mod = sys.modules[cls.__module__]
    main = kw.get('mainMethodName') or 'respond'
    out = []
    for meth in (main, 'respond', 'bc', 'f'):
        fn = getattr(cls(searchList=[{'y': 'why'}]), meth, None)
        out.append(None if fn is None else tm.outcome(fn)[:2])
    out.append(tm.outcome(lambda: str(cls(searchList=[{'y': 'why'}])))[:2])
    x = vars(mod).get('x', 'no x')
    ident = [k for k, v in enumerate(shared) if v is x]
    return ('class', cls.__name__, [c for c in cls.__mro__[1:]],
            out, type(x).__name__, repr(x), ident,
            vars(mod).get('__orig_file__'),
            [n for n in ('respond', 'bc', 'c', 'a', 'ab', 'b', 'abc')
             if n in vars(cls)],
            normal(cls._CHEETAH_generatedModuleCode or '')), cls


def clean(e):
    return re.sub(r'cheetah_\w+|position \d+', 'MOD', str(e))


def check(ops):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    saved = dict(Template._CHEETAH_compileCache)
    Template._CHEETAH_compileCache.clear()
    # values which the history changes in place
    shared = [[1], {'a': 1}]
    clock = [1000000000]
    seen = []
    labs = []
    done = []
    try:
        for sub in ('d0', 'd1'):
            for k, f in enumerate(FILES):
                p = os.path.join(d, sub, f)
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                with open(p, 'w', encoding='utf-8') as fh:
                    fh.write('#encoding utf-8\n' + SOURCES[k] + sub)
                os.utime(p, (clock[0], clock[0]))
        os.chdir(os.path.join(d, 'd0'))
        for op in ops:
            if op[0] == 'write':
                clock[0] += (1, 0.001)[op[3]]
                p = FILES[op[1]]
                with open(p, 'w', encoding='utf-8') as fh:
                    fh.write('#encoding utf-8\n' + SOURCES[op[2]])
                os.utime(p, (clock[0], clock[0]))
                done.append(op)
                continue
            if op[0] == 'chdir':
                os.chdir(os.path.join(d, 'd%d' % op[1]))
                done.append(op)
                continue
            if op[0] == 'mutate':
                if op[1] & 1:
                    shared[0].append(2)
                else:
                    shared[1]['b'] = 2
                done.append(op)
                continue
            c = dict(op[1])

            def args():
                a = {'API': APIS[c['api']]}
                if c['file']:
                    a['file'] = FILES[c['file'] - 1]
                else:
                    a['source'] = SOURCES[c['src']]
                for n, key in (('className', 'cls'), ('moduleName', 'mod'),
                               ('mainMethodName', 'meth')):
                    if NAMES[c[key]]:
                        a[n] = NAMES[c[key]]
                if BASES[c['base']]:
                    a['baseclass'] = BASES[c['base']]
                g = c['glob']
                if g < 2:
                    a['moduleGlobals'] = {'x': shared[g]}
                else:
                    a['moduleGlobals'] = {'x': VALUES[g - 2]}
                s = SETTINGS[c['set']]()
                if s is not None:
                    a['compilerSettings'] = s
                p = PREPROC[c['pre']]()
                if p is not None:
                    a['preprocessors'] = p
                if COMPS[c['comp']]:
                    a['compilerClass'] = COMPS[c['comp']]
                if c['sheb']:
                    a['commandlineopts'] = Opts(SHEB[c['sheb']])
                return a
            got, cls = observe(args(), op[2], shared)
            exp, _ = observe(args(), (False, False, op[2][2]), shared)
            shown = args()
            done.append(('compile', shown, op[2]))
            if got != exp:
                raise Violation(
                    'the result differs from a fresh compilation\n'
                    '   got:   %r\n   fresh: %r\n   history:\n      %s' % (
                        diff(got, exp), diff(exp, got),
                        '\n      '.join('%r' % (o,) for o in done)))
            if cls is not None:
                if any(cls is s for s in seen):
                    labs.append('hit')
                else:
                    seen.append(cls)
                    labs.append('miss')
            else:
                labs.append(got[0])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        Template._CHEETAH_compileCache.clear()
        Template._CHEETAH_compileCache.update(saved)
    return labs


def diff(a, b):
    if a[0] != b[0]:
        return a[:9]
    out = []
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, str) and isinstance(y, str):
                lx, ly = x.split('\n'), y.split('\n')
                out.append([v for v in lx if v not in ly][:6])
            else:
                out.append(x)
    return out


PROPS = [
    Prop('histories', cases, check, 30000, shards=8, cpu_limit=60,
         nontrivial=lambda c, l: 'hit' in l and l.count('miss') > 1,
         rule='histories of 2-9 operations: compile calls that differ in a '
              'few near-colliding arguments, file changes, directory '
              'changes and in-place changes of argument objects; '
              'non-trivial = at least one cache hit and two distinct '
              'compilations'),
]
