"""C11: inheritance between templates works like Python inheritance.

The oracle builds a shadow hierarchy of plain Python classes, so that method
resolution, super() and attribute lookup in the expected result are Python's.
"""
import sys
import types

from vlib.core import Prop, Violation, same
from vlib import tm
from vlib.tm import Template

# a body may call only names after its own in this list (no recursion)
ORDER = ['respond', 'writeBody', 'foo', 'm0', 'm1', 'm2', 'm3']
ATTRS = ['at0', 'at1']
TEXT = ['a', 'B ', ' c', '<d>', "e'f", '\xe9', '.', '{}', '%s']
ARGFORMS = ['', '()', "('P')", "(x='K')", "(y='L')", "('P', 'Q')",
            "(y='R', x='S')"]
SUPERFORMS = ['', '()', '($x)', '(x)', '($y, $x)', '(x=$y)',
              "(y=$x+'!')", '(self, $x)', '(x=$x, y=$y)']
LINKS = ['extends', 'extends', 'baseclass', 'subclass', 'dotted', 'from',
         'import']


# ------------------------------------------------------------- generation
def body(d, name, params, depth, taken):
    rank = ORDER.index(name)
    later = ORDER[rank + 1:]
    items = []
    for _ in range(d.i(0 if depth else 1, 4)):
        k = d.i(0, 9)
        if k <= 2 or not later:
            items.append(('text', d.pick(TEXT)))
        elif k <= 4:
            m = d.pick(later)
            af = d.pick(ARGFORMS) if m in ('m0', 'm1') else \
                d.pick(['', '()'])
            items.append(('call', m, af, d.i(0, 4)))
        elif k == 5:
            items.append(('attr', d.pick(ATTRS), d.i(0, 1)))
        elif k <= 7:
            forms = SUPERFORMS if params and name in ('m0', 'm1') else ['', '()']
            items.append(('super', d.pick(forms)))
        elif k == 8 and params:
            items.append(('var', d.pick(['x', 'y'])))
        elif k == 8:
            items.append(('text', d.pick(TEXT)))
        else:
            free = [m for m in ('m2', 'm3')
                    if m in later and m not in taken]
            if free and depth < 2:
                m = d.pick(free)
                taken.add(m)
                items.append(('block', m, body(d, m, 0, depth + 1, taken),
                              d.i(0, 1)))
    return items


def template(d, root):
    taken = set()
    link = None if root else d.pick(LINKS)
    k = d.i(0, 7)
    how, name, params = None, None, 0
    if k == 0:
        how, name = 'implements', 'respond'
    elif k == 1:
        how, name = 'implements', d.pick(['foo', 'writeBody', 'm2', 'm3'])
    elif k == 2:
        how, name, params = 'implements', d.pick(['m0', 'm1']), 1
    elif k == 3:
        how, name = 'arg', d.pick(['respond', 'foo', 'writeBody', 'm2'])
    real = name or ('writeBody' if link in ('extends', 'dotted', 'from',
                                            'import') else 'respond')
    taken.add(real)
    attrs = [(a, d.pick(['1', "'v'", "'w%s'", 'None', '[1]']))
             for a in ATTRS if d.chance(2)]
    defs = []
    for m in ('m0', 'm1', 'm2', 'm3'):
        if m not in taken and d.chance(2):
            taken.add(m)
            p = 1 if m in ('m0', 'm1') else d.i(0, 1)
            defs.append((m, p, d.i(0, 3), body(d, m, p, 1, taken)))
    main = body(d, real, params, 0, taken)
    return ('tmpl', link, how, real, params, attrs, defs, main,
            d.i(0, 5) == 0)


def pyclass(d, root):
    attrs = [(a, d.pick(['2', "'pv'"])) for a in ATTRS if d.chance(2)]
    meths = []
    for m in ('m0', 'm1', 'm2', 'm3', 'respond'):
        if d.i(0, 3) == 0:
            meths.append((m, d.pick(TEXT), 0 if root else d.i(0, 1)))
    return ('py', d.i(0, 3) != 0, attrs, meths)


def cases(d):
    n = d.i(1, 4)
    levels = []
    for k in range(n):
        if k < n - 1 and d.i(0, 3) == 0:
            levels.append(pyclass(d, k == 0))
        else:
            levels.append(template(d, k == 0))
    return levels


# --------------------------------------------------------------- emission
def emit(items):
    # a bar separates adjacent directive tags (## would start a comment)
    out = ['|']
    for it in items:
        k = it[0]
        if k == 'text':
            out.append(it[1])
        elif k == 'call':
            f = ['$%s%s', '${%s%s}', '$self.%s%s', '#echo $%s%s#',
                 '${self.%s%s}'][it[3]]
            if it[2] == '' and it[3] in (0, 2):
                f = f.replace('$', '${') + '}'
            if it[2] == '' and it[3] == 3:
                f = '#echo $self.%s()%s#'
            out.append(f % (it[1], it[2]) + '|')
        elif k == 'attr':
            out.append(['${%s}', '${self.%s}'][it[2]] % it[1])
        elif k == 'super':
            out.append('#super%s#|' % it[1])
        elif k == 'var':
            out.append('${%s}' % it[1])
        elif k == 'block':
            b = emit(it[2])
            out.append(['#block %s#%s#end block#|',
                        '#block %s#%s#end block %s#|'][it[3]]
                       % ((it[1], b) if not it[3] else (it[1], b, it[1])))
    return ''.join(out)


PARAMS = "($x='dx', $y='dy')"


def source(spec, ext):
    kind, link, how, real, params, attrs, defs, main, mixin = spec
    lines = []
    if ext:
        lines.append(ext)
    if how == 'implements':
        lines.append('#implements %s%s' % (real, PARAMS if params else ''))
    for a, v in attrs:
        lines.append('#attr $%s = %s' % (a, v))
    head, tail = [], []
    for m, p, lay, b in defs:
        sig = m + (PARAMS if p else '()' if lay & 1 and not p else '')
        text = '#def %s#%s#end def#|' % (sig, emit(b))
        if lay == 2:
            # a line of its own
            text = '#def %s\n%s#slurp\n#end def\n' % (sig, emit(b))
            head.insert(0, text)
        elif lay == 1:
            head.append(text)
        else:
            tail.append(text)
    return ''.join(x + '\n' for x in lines) + ''.join(head) + emit(main) \
        + ''.join(tail)


# ------------------------------------------------------------------ model
class NotThere(Exception):
    pass


def find(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise NotThere(name)


def call(fn, argform, env):
    return eval('fn' + (argform or '()'), dict(env, fn=fn))


def run(items, cls, obj, env, name):
    out = ['|']
    for it in items:
        k = it[0]
        if k == 'text':
            out.append(it[1])
        elif k == 'call':
            v = call(find(obj, it[1]), it[2], {})
            out.append(v + '|')
        elif k == 'attr':
            v = find(obj, it[1])
            out.append('' if v is None else str(v))
        elif k == 'var':
            out.append(str(env[it[1]]))
        elif k == 'super':
            form = it[1].replace('$', '').replace('self, ', '')
            out.append(call(getattr(super(cls, obj), name), form, env))
            out.append('|')
        elif k == 'block':
            out.append(find(obj, it[1])() + '|')
    return ''.join(out)


def method(box, name, params, items, pre='', post=''):
    if params:
        def fn(self, x='dx', y='dy'):
            return pre + run(items, box[0], self, {'x': x, 'y': y},
                             name) + post
    else:
        def fn(self):
            return pre + run(items, box[0], self, {}, name) + post
    return fn


class Root(object):
    def respond(self):
        raise NotImplementedError()


class MixModel(object):
    at1 = 'mix'

    def m1(self, x='dx', y='dy'):
        return 'mix.m1' + x

    def m3(self):
        return 'mix.m3'


class Mix(object):
    at1 = 'mix'

    def m1(self, x='dx', y='dy'):
        return 'mix.m1' + x

    def m3(self, trans=None):
        return give('mix.m3', trans)


def give(text, trans):
    """What a Python method has to do to override a #block."""
    if trans:
        trans.response().write(text)
        return ''
    return text


def collect(items, out):
    for it in items:
        if it[0] == 'block':
            out.append((it[1], it[2]))
            collect(it[2], out)


def shadow(spec, base, mixin):
    box = []
    ns = {}
    if spec[0] == 'py':
        for a, v in spec[2]:
            ns[a] = eval(v)
        for m, t, sup in spec[3]:
            def fn(self, x='dx', y='dy', m=m, t=t, sup=sup):
                r = t
                if m in ('m0', 'm1'):
                    r += x + y
                if sup:
                    r += getattr(super(box[0], self), m)()
                return r
            ns[m] = fn
    else:
        kind, link, how, real, params, attrs, defs, main, mx = spec
        for a, v in attrs:
            ns[a] = eval(v)
        allb = []
        pre = '|' * len([1 for x in defs if x[2] == 1])
        post = '|' * len([1 for x in defs if x[2] in (0, 3)])
        ns[real] = method(box, real, params, main, pre, post)
        collect(main, allb)
        for m, p, lay, b in defs:
            ns[m] = method(box, m, p, b)
            collect(b, allb)
        for m, b in allb:
            ns[m] = method(box, m, 0, b)
    bases = (base,) if not mixin else (base, MixModel)
    box.append(type('M', bases, ns))
    return box[0]


def pyreal(spec, base, name):
    box = []
    ns = {}
    for a, v in spec[2]:
        ns[a] = eval(v)
    for m, t, sup in spec[3]:
        if m in ('m0', 'm1'):
            def fn(self, x='dx', y='dy', m=m, t=t, sup=sup):
                r = t + x + y
                if sup:
                    r += getattr(super(box[0], self), m)()
                return r
        else:
            def fn(self, trans=None, m=m, t=t, sup=sup):
                r = t
                if sup:
                    r += getattr(super(box[0], self), m)()
                return give(r, trans)
        ns[m] = fn
    box.append(type(name, (base,), ns))
    return box[0]


serial = [0]


class Decoy(Template):
    def m0(self, *a, **k):
        return 'decoy'

    m1 = m2 = m3 = foo = writeBody = respond = m0


def check(levels):
    serial[0] += 1
    stem = 'vc11_%d_' % serial[0]
    real, model = None, None
    mains = []
    labs = []
    built = []
    strmain = None
    extends_plain = False
    for k, spec in enumerate(levels):
        name = '%s%d' % (stem, k)
        if spec[0] == 'py':
            plain = not spec[1] and real is None
            rbase = (object if plain else Template) if real is None else real
            mbase = Root if model is None else model
            if plain:
                # a class that is no Template: has no respond() of its own
                mbase = object
                extends_plain = True
            new = pyreal(spec, rbase, name)
            mnew = shadow(spec, mbase, False)
            srcs = None
            labs.append('python class')
        else:
            link = spec[1]
            kw = dict(className=name, moduleName=name)
            if spec[2] == 'arg':
                kw['mainMethodName'] = spec[3]
            ext = None
            mixin = False
            prev = '%s%d' % (stem, k - 1)
            # what a user writes to make the base class reachable
            mod = types.ModuleType(prev)
            setattr(mod, prev, real)
            if real is not None:
                mixin = spec[8] and link in ('extends', 'from')
                mx = (', Mixin', ',\tMixin', ' , Mixin')[
                    len(spec[5]) % 3] if mixin else ''
                mod.Mixin = Mix
                if link == 'extends':
                    ext = '#extends %s%s' % (prev, mx)
                    if mixin:
                        ext = '#from %s import Mixin\n%s' % (prev, ext)
                elif link == 'dotted':
                    pkg = types.ModuleType(prev + 'p')
                    pkg.__path__ = []
                    setattr(pkg, prev, mod)
                    sys.modules[prev + 'p'] = pkg
                    sys.modules['%sp.%s' % (prev, prev)] = mod
                    ext = '#extends %sp.%s' % (prev, prev)
                elif link == 'from':
                    ext = '#from %s import %s%s\n#extends %s%s' % (
                        prev, prev, mx, prev, mx)
                elif link == 'import':
                    ext = '#import %s\n#extends %s.%s' % (prev, prev, prev)
                elif len(spec[5]) == 1 and issubclass(real, Template):
                    # an instance stands for its class
                    kw['baseclass'] = real()
                elif len(spec[5]) == 2 and link != 'subclass':
                    kw['baseclass'] = 'TheBase'
                    kw['moduleGlobals'] = {'TheBase': real}
                else:
                    kw['baseclass'] = real
                if ext and len(spec[5]) == 1:
                    kw['baseclass'] = Decoy     # #extends comes first
            srcs = source(spec, ext)
            if real is not None:
                sys.modules[prev] = mod
            try:
                if link == 'subclass' and hasattr(real, 'subclass'):
                    kw.pop('baseclass')
                    new = real.subclass(
                        srcs, useCache=False, cacheCompilationResults=False,
                        **kw)
                else:
                    new = tm.compile_(srcs, **kw)
            except Exception as e:
                raise Violation('valid template rejected: %s: %s\n%r' % (
                    type(e).__name__, e, srcs))
            mnew = shadow(spec, model or Root, mixin)
            if not hasattr(mnew, 'respond'):
                # a template whose base is no Template gets its interface
                mnew.respond = Root.respond
            if strmain is None:
                strmain = spec[3]
            labs.append(link or 'root')
            if mixin:
                labs.append('mixin')
        real, model = new, mnew
        built.append((spec, new, mnew, srcs, strmain))
    # render every level, the most derived ones first and last
    for spec, new, mnew, srcs, sm in built[::-1] + built[-1:]:
        if spec[0] == 'py':
            continue
        ctx = 'chain (root first): %r' % ([
            b[3] or ('python', b[0][2:]) for b in built],)
        same(new.__name__.startswith(stem), True, 'class name', ctx)
        inst = new() if extends_plain else new(searchList=[{}])
        minst = mnew()
        for entry in ORDER + ['str']:
            exp = expected(minst, entry, sm)
            got = actual(inst, entry)
            same(got, exp, 'wrong result of %s on level %d' % (
                entry, [b[1] for b in built].index(new)), ctx)
            if exp[0] == 'ok':
                labs.append('ok')
        for a in ATTRS:
            same(getattr(new, a, 'none'), getattr(mnew, a, 'none'),
                 'attribute %s' % a, ctx)
    return labs


EXC = {'NotFound': 'missing', 'NotThere': 'missing'}


def expected(obj, entry, sm):
    try:
        if entry == 'str':
            r = getattr(obj, sm)()
        else:
            fn = getattr(obj, entry, None)
            if fn is None:
                return ('none',)
            r = fn()
        return ('ok', r)
    except Exception as e:
        n = type(e).__name__
        return ('exc', EXC.get(n, n))


def actual(obj, entry):
    try:
        if entry == 'str':
            r = str(obj)
        else:
            fn = getattr(obj, entry, None)
            if fn is None:
                return ('none',)
            r = fn()
        return ('ok', r)
    except Exception as e:
        n = type(e).__name__
        return ('exc', EXC.get(n, n))



# ------------------------------------------- Template(source) of a subclass
KINDS = ['value', 'method', 'property', 'class', 'static']
VALUES = [0, 1, '', 'v', [], None, False, {'k': 1}, 2.5]


def inst_cases(d):
    names = d.sub(['aa', 'bb', 'cc', 'dd', 'ee'])
    members = [(n, d.pick(KINDS), d.i(0, len(VALUES) - 1)) for n in names]
    own = []
    for n in names:
        if d.chance(4):
            own.append((n, d.pick(['def', 'attr'])))
    uses = d.list(lambda: (d.pick(names or ['aa']), d.i(0, 2)), 1, 6)
    return members, own, uses, d.i(0, 2)


def check_inst(case):
    members, own, uses, how = case
    body = {}
    plain = {}
    for n, kind, v in members:
        val = VALUES[v]
        plain[n] = (kind, val)
        if kind == 'value':
            body[n] = val
        elif kind == 'method':
            body[n] = lambda self, n=n, val=val: \
                (n, val, isinstance(self, Template))
        elif kind == 'property':
            body[n] = property(lambda self, n=n, val=val: (n, val))
        elif kind == 'class':
            body[n] = classmethod(lambda cls, n=n, val=val: (n, val))
        else:
            body[n] = staticmethod(lambda n=n, val=val: (n, val))
    cls = type('Sub', (Template,), body)
    src, want = '', ''
    for n, k in own:
        src += '#def %s\nown-%s#slurp\n#end def\n' % (n, n) if k == 'def' \
            else "#attr $%s = 'own-%s'\n" % (n, n)
    mine = dict(own)
    labels = []
    for n, form in uses:
        if n not in plain:
            continue
        kind, val = plain[n]
        calls = kind in ('method', 'class', 'static')
        if n in mine:
            calls = mine[n] == 'def'
            exp = 'own-' + n
        elif kind == 'value':
            exp = val
        elif kind == 'method':
            exp = (n, val, True)
        else:
            exp = (n, val)
        src += '<' + ['$%s', '${%s}', '$%s()' if calls else '$self.%s'][
            form] % n + '>'
        want += '<%s>' % ('' if exp is None else exp,)
        labels.append(kind)
    if how == 0:
        t = cls(src)
    elif how == 1:
        t = cls(source=src, searchList=[{'zz': 1, 'aa': 'other'}])
    else:
        t = cls(src, compilerSettings={'useStackFrames': False})
    for _ in range(2):
        same(tm.text(t), want, 'instance of a Template subclass for %r' % src)
    return labels


PROPS = [
    Prop('instances', inst_cases, check_inst, 3000, shards=2,
         nontrivial=lambda c, l: len(set(l)) > 1,
         rule='a Template subclass with attributes, methods, properties, class '
              'and static methods, instantiated with a source that uses and '
              'overrides them; non-trivial = two kinds are used'),
    Prop('chains', cases, check, 28000, shards=8,
         modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: len(c) > 1 and l.count('ok') > 3,
         rule='chains of 1-4 templates and Python classes (linked by '
              '#extends in four spellings, baseclass=, subclass()), each '
              'defining or overriding methods, blocks, attributes and the '
              'main method; non-trivial = two levels or more and at least '
              'four successful entry points'),
]
