"""C31: the feature settings of the compiler do what they say.

portions - name mapping, search list, autocalling and filter settings changed
           from portion to portion; the placeholders are evaluated by a model
blocks   - includeBlockMarkers against the tree of blocks
imports  - where and how often an #import takes place in the two import modes
extends  - base classes with the handler, auto-import and expression settings
gettext  - calls of the gettext functions in the generated module
comments - gobbleWhitespaceAroundMultiLineComments off
"""
import ast
import builtins
import string
import re
import sys
import types

from Cheetah.Filters import Filter
from Cheetah.NameMapper import NotFound
from vlib.core import Prop, expect, same
from vlib import tm

# ------------------------------------------------------------------ portions

DEFAULT = {'useNameMapper': True, 'useSearchList': True,
           'useAutocalling': True, 'useFilters': True,
           'alwaysFilterNone': True, 'useStackFrames': True}
KEYS = sorted(DEFAULT)


class Obj(object):
    cls = 'c'

    def __init__(self, log, n):
        self.log, self.n = log, n
        self.v = n
        self.d = {'k': n + 1, 'f': self.meth, 'none': None}
        self.l = [n, {'k': n + 2}]
        self.none = None

    def __str__(self):
        return 'Obj%d' % self.n

    def meth(self, a=0):
        self.log.append(('meth', self.n, a))
        return {'k': self.n + a, 'o': self}

    def value(self):
        self.log.append(('value', self.n))
        return 'V%d' % self.n

    def obj(self):
        self.log.append(('obj', self.n))
        return self


class Tag(Filter):
    def filter(self, val, **kw):
        return '<%s>' % (val,)


def world(log):
    o, p = Obj(log, 1), Obj(log, 50)

    def fun(a=3):
        log.append(('fun', a))
        return {'k': a, 'o': p}

    def modfun():
        log.append(('modfun',))
        return o
    return {
        'local': {'lo': o, 'ld': {'k': 4, 'f': fun, 'o': p}, 'lf': fun,
                  'ln': None},
        'module': {'mo': p, 'md': {'k': 5, 'm': modfun}, 'mf': modfun,
                   'string': string},
        'list': {'so': o, 'sd': {'k': 6, 'f': fun, 'o': o}, 'sf': modfun,
                 'sn': None, 'lo': 'shadowed', 'mo': p}}


FIRST = ['lo', 'ld', 'lf', 'ln', 'mo', 'md', 'mf', 'string', 'so', 'sd', 'sf',
         'sn', 'zz', 'True', 'ord']
STEPS = ['.k', '.d', '.l', '.v', '.f', '.o', '.meth', '.value', '.obj', '.m',
         '.none', '.digits', '.cls', '.zz', '.upper', '.items']
SUBS = ['[1]', "['k']", '[0]', "['f']"]
CALLS = ['()', '(7)', "('k')"]


def chain(d):
    """first name, then steps; the steps carry what follows the name"""
    def tail():
        k = d.i(0, 7)
        return d.pick(CALLS) if k < 2 else d.pick(SUBS) if k == 2 else ''
    parts = [(d.pick(FIRST), tail())]
    good = {'lo': '.d .l .v .meth .value .obj .none .cls', 'so': '.d .meth .v',
            'ld': '.k .f .o', 'sd': '.k .f .o', 'mo': '.obj .value .l',
            'md': '.k .m', 'string': '.digits', 'lf': '.k .o', 'mf': '.v .obj',
            'sf': '.v .d', '.o': '.v .value .obj .d', '.f': '.k .o',
            '.meth': '.k .o', '.obj': '.v .value .meth', '.d': '.k .f .none',
            '.m': '.v .obj'}
    while d.chance(2) and len(parts) < 4:
        opts = good.get(parts[-1][0])
        if opts and not d.chance(5):
            parts.append((d.pick(opts.split()), tail()))
        else:
            parts.append((d.pick(STEPS), tail()))
    return parts


def gen_portions(d):
    def settings():
        if d.chance(8):
            return ('reset', {})
        return (d.pick(['line', 'region', 'region']),
                {k: d.chance(2) for k in d.sub(KEYS)})
    return {'first': {k: d.chance(2) for k in d.sub(KEYS)},
            'portions': [{'set': settings() if n or d.chance(3) else None,
                          'def': d.chance(5), 'form': d.i(0, 2),
                          'inner': d.i(0, 7),
                          'items': d.list(lambda: chain(d), 1, 3)}
                         for n in range(d.i(1, 4))]}


class Stop_(Exception):
    pass


def value_of(parts, st, w):
    """the value, or raise; the oracle of a placeholder"""
    def auto(x):
        if st['useAutocalling'] and callable(x) \
                and not isinstance(x, type):
            return x()
        return x

    def tail_of(x, tail):
        if tail.startswith('('):
            return x(*ast.literal_eval('(' + tail[1:-1] + ',)')
                     if tail != '()' else ())
        if tail:
            return x[ast.literal_eval(tail[1:-1])]
        return x

    name, tail = parts[0]
    mapped, listed = st['useNameMapper'], st['useSearchList']
    spaces = [w['local']]
    if mapped and listed:
        spaces.append(w['list'])
    spaces += [w['module'], vars(builtins)]
    for space in spaces:
        if name in space:
            x = space[name]
            break
    else:
        raise NotFound(name) if mapped and listed else NameError(name)
    if mapped and listed and not tail.startswith('('):
        x = auto(x)
    x = tail_of(x, tail)
    for name, tail in parts[1:]:
        key = name[1:]
        if not mapped:
            x = getattr(x, key)
        else:
            if hasattr(x, 'keys') and key in x:
                x = x[key]
            elif hasattr(x, key):
                x = getattr(x, key)
            else:
                raise NotFound(key)
            if not tail.startswith('('):
                x = auto(x)
        x = tail_of(x, tail)
    return x


def render_of(parts, st, w):
    try:
        v = value_of(parts, st, w)
    except NotFound:
        return '[NF]\n'
    except NameError:
        return '[NE]\n'
    except Exception:
        return '[EX]\n'
    if v is None and st['alwaysFilterNone']:
        return '\n'
    return ('<%s>\n' if st['useFilters'] else '%s\n') % (v,)


def check_portions(case):
    src = ['#set $lo = $W.local.lo\n#set $ld = $W.local.ld\n'
           '#set $lf = self.getVar("W")["local"]["lf"]\n#set $ln = None\n'
           '#import string\n']
    log = []
    w = world(log)
    out = []
    st = dict(DEFAULT)
    # the module variables live in a module of their own
    for n in ('mo', 'md', 'mf'):
        src.append('#from verif_c31_mod import %s\n' % n)
    if case['first']:
        # (also as an argument: reset goes back to the defaults)
        src.append('#compiler-settings\n%s#end compiler-settings\n' % ''.join(
            '%s = %s\n' % kv for kv in sorted(case['first'].items())))
        st.update(case['first'])
    defs = []
    for n, por in enumerate(case['portions']):
        if por['set']:
            kind, ch = por['set']
            if kind == 'reset':
                src.append('#compiler-settings reset\n')
                st = dict(DEFAULT)
            elif kind == 'line':
                src += ['#compiler %s = %s\n' % kv for kv in sorted(ch.items())]
                st.update(ch)
            elif ch:
                src.append(
                    '#compiler-settings\n%s#end compiler-settings\n' % ''.join(
                        '%s = %s\n' % kv for kv in sorted(ch.items())))
                st.update(ch)
        body = []
        if por['def']:
            src.append('#def m%d\n' % n)
        # a function in between changes nothing for what comes after it
        word = 'def' if por['def'] and por['inner'] & 2 else 'closure'
        if por['inner'] > 5:
            src.append('#%s inner%d(): text\n' % (word, n))
        elif por['inner'] > 3:
            src.append('#%s inner%d()\ntext\n#end %s\n' % (word, n, word))
        for parts in por['items']:
            name = ''.join(a + b for a, b in parts)
            # a bare placeholder ends after a subscript or call that is
            # followed by another bracket only; names may follow
            src.append('#try\n%s\n#except NotFound\n[NF]\n#except NameError\n'
                       '[NE]\n#except Exception\n[EX]\n#end try\n'
                       % ('$%s', '${%s}', '$(%s)')[por['form']] % name)
            body.append((parts, dict(st)))
        if por['def']:
            src.append('#end def\n')
            # the local variables of the main method are not seen in there
            w2 = dict(w, local={})
            src.append('$self.m%d()\n' % n)
            text = ''.join(render_of(p, s, w2) for p, s in body)
            out.append(('<%s>\n' if st['useFilters'] else '%s\n') % text)
        else:
            out += [render_of(p, s, w) for p, s in body]
    exp, explog = ''.join(out), list(log)
    del log[:]
    mod = types.ModuleType('verif_c31_mod')
    mod.mo, mod.md, mod.mf = (w['module'][k] for k in ('mo', 'md', 'mf'))
    sys.modules['verif_c31_mod'] = mod
    try:
        source = ''.join(src)
        cls = tm.must(lambda: tm.compile_(source), 'compiling', source)
        t = cls(searchList=[dict(w['list'], W=w)], filter=Tag)
        got = tm.must(lambda: t.respond(), 'rendering', source)
    finally:
        del sys.modules['verif_c31_mod']
    got, exp = (re.sub(' at 0x[0-9a-f]+', '', x) for x in (got, exp))
    same(got, exp, 'output of\n' + source)
    same(log, explog, 'calls made by\n' + source)
    return ['portions%d' % len(case['portions'])] + \
        ['def'] * any(p['def'] for p in case['portions']) + \
        ['changed'] * any(p['set'] for p in case['portions']) + \
        ['value'] * ('<' in exp or '4' in exp)


# -------------------------------------------------------------------- blocks

MARK = ['<!-- ', '\n<!-- START ', ' -->\n', '', '{', "'", '"""', '\\', '$x',
        '#set $y = 1\n', '%s', '\xe9', '*#', "'''", '\\n', '[[', ']]', '<%= 1 %>',
        '>\n\t', '>\n  ', ' ', '\n']


def gen_block(d, depth):
    if depth <= 0 or d.chance(3):
        return ['text', d.pick(['a\n', 'b c\n', '  i\n', '\n', 'q\\q\n'])]
    if d.chance(4):
        return ['short', d.pick(['w', 'two words', '$x', '"q"', "it's",
                                 '#echo $x#'])]
    if d.chance(4):
        return [d.pick(['if', 'for']), [gen_block(d, depth - 1)
                                        for _ in range(d.i(1, 3))]]
    return ['block', [gen_block(d, depth - 1) for _ in range(d.i(0, 3))]]


def gen_blocks(d):
    return {'on': d.chance(5) is False,
            'start': None if d.chance(4) else (d.pick(MARK), d.pick(MARK)),
            'end': None if d.chance(4) else (d.pick(MARK), d.pick(MARK)),
            'items': [gen_block(d, 3) for _ in range(d.i(1, 4))],
            'sub': d.chance(3)}


def check_blocks(case):
    start = case['start'] or ('\n<!-- START BLOCK: ', ' -->\n')
    end = case['end'] or ('\n<!-- END BLOCK: ', ' -->\n')
    count = [0]

    def walk(item):
        kind, body = item
        if kind == 'text':
            return body, body
        if kind in ('block', 'short'):
            name = 'b%d' % count[0]
            count[0] += 1
            if kind == 'short':
                s = '#block %s: %s\n' % (name, body)
                o = {'$x': '5', '#echo $x#': '5'}.get(body, body)
            else:
                subs = [walk(b) for b in body]
                s = '#block %s\n%s#end block\n' % (
                    name, ''.join(x[0] for x in subs))
                o = ''.join(x[1] for x in subs)
            if case['on']:
                o = start[0] + name + start[1] + o + end[0] + name + end[1]
            return s, o
        subs = [walk(b) for b in body]
        s, o = ''.join(x[0] for x in subs), ''.join(x[1] for x in subs)
        if kind == 'if':
            return '#if $x\nT\n%s#end if\n' % s, 'T\n' + o
        return '#for $i in (1, 2)\n$i\n%s#end for\n' % s, \
            '1\n' + o + '2\n' + o
    pairs = [walk(i) for i in case['items']]
    source, exp = ''.join(p[0] for p in pairs), ''.join(p[1] for p in pairs)
    settings = {'includeBlockMarkers': case['on']}
    if case['start']:
        settings['blockMarkerStart'] = case['start']
    if case['end']:
        settings['blockMarkerEnd'] = case['end']
    cls = tm.must(lambda: tm.compile_(source, compilerSettings=settings),
                  'compiling', source)
    same(tm.must(lambda: cls(searchList=[{'x': 5}]).respond(), 'rendering'),
         exp, 'output of\n%s\nwith %r' % (source, settings))
    if case['sub'] and count[0]:
        # an override has its own markers, the others keep theirs
        over = tm.must(lambda: tm.compile_(
            '#block b0\nnew\n#end block\n', baseclass=cls,
            compilerSettings={'includeBlockMarkers': True}), 'compiling sub')
        new = '\n<!-- START BLOCK: b0 -->\nnew\n\n<!-- END BLOCK: b0 -->\n'
        same(tm.must(lambda: over(searchList=[{'x': 5}]).b0(), 'rendering'),
             new, 'the overriding block')
    return ['blocks%d' % min(count[0], 4)] + ['on'] * case['on']


# ------------------------------------------------------------------- imports

class Recorder(types.ModuleType):
    """logs what is imported from it; each import gives a new value"""

    def __getattr__(self, name):
        if not name.startswith('n'):
            raise AttributeError(name)
        self.__dict__['_log'].append(name)
        return '%s.%d' % (name, len(self._log))


def gen_import(d, depth):
    kind = d.wpick([(4, 'import'), (4, 'use'), (2, 'text'),
                    (2 if depth else 0, 'if'), (2 if depth else 0, 'for')])
    if kind == 'import':
        return [kind, d.i(1, 3), d.chance(3)]
    if kind == 'use':
        return [kind, d.i(1, 3)]
    if kind == 'text':
        return [kind]
    return [kind, d.i(0, 2), [gen_import(d, depth - 1)
                              for _ in range(d.i(1, 3))]]


def gen_imports(d):
    return {'legacy': d.chance(2),
            'methods': [[gen_import(d, 2) for _ in range(d.i(1, 4))]
                        for _ in range(d.i(1, 3))]}


def check_imports(case):
    legacy = case['legacy']
    log, explog = [], []
    # in legacy mode the last statement for a name decides, for all methods
    glob = {}

    def scan(items):
        for it in items:
            if it[0] == 'import':
                explog.append('n%d' % it[1])
                glob['a%d' % it[1] if it[2] else 'n%d' % it[1]] = \
                    'n%d.%d' % (it[1], len(explog))
            elif it[0] in ('if', 'for'):
                scan(it[2])

    def code(items):
        s = ''
        for it in items:
            if it[0] == 'import':
                s += '#from verif_c31_rec import n%d%s\n' % (
                    it[1], ' as a%d' % it[1] if it[2] else '')
            elif it[0] == 'use':
                for n in ('n%d', 'a%d'):
                    s += '#try\n$%s\n#except NotFound\n-\n#end try\n' % (
                        n % it[1])
            elif it[0] == 'text':
                s += 't\n'
            elif it[0] == 'if':
                s += '#if %d\n.\n%s#end if\n' % (it[1], code(it[2]))
            else:
                s += '#for $i in range(%d)\n.\n%s#end for\n' % (
                    it[1], code(it[2]))
        return s

    def run(items, env):
        s = ''
        for it in items:
            if it[0] == 'import':
                if not legacy:
                    explog.append('n%d' % it[1])
                    env['a%d' % it[1] if it[2] else 'n%d' % it[1]] = \
                        'n%d.%d' % (it[1], len(explog))
            elif it[0] == 'use':
                for n in ('n%d', 'a%d'):
                    s += '%s\n' % env.get(n % it[1],
                                          glob.get(n % it[1], '-'))
            elif it[0] == 'text':
                s += 't\n'
            elif it[0] == 'if':
                if it[1]:
                    s += '.\n' + run(it[2], env)
            else:
                for _ in range(it[1]):
                    s += '.\n' + run(it[2], env)
        return s
    if legacy:
        for items in case['methods']:
            scan(items)
    source = ''
    for n, items in enumerate(case['methods']):
        # (an import in the first place of a method may always be moved)
        source += '#def m%d\n$x\n%s#end def\n' % (n, code(items))
    source += ''.join('$m%d()\n' % n for n in range(len(case['methods'])))
    rec = Recorder('verif_c31_rec')
    rec.__dict__['_log'] = log
    sys.modules['verif_c31_rec'] = rec
    try:
        cls = tm.must(lambda: tm.compile_(
            source, compilerSettings={'useLegacyImportMode': legacy}),
            'compiling', source)
        same(log, explog, 'imports made on compilation of\n' + source)
        exp = ''.join('5\n' + run(items, {}) + '\n'
                      for items in case['methods'])
        got = tm.must(lambda: cls(searchList=[{'x': 5}]).respond(),
                      'rendering', source)
    finally:
        del sys.modules['verif_c31_rec']
    got, exp = (re.sub(' at 0x[0-9a-f]+', '', x) for x in (got, exp))
    same(got, exp, 'output of\n' + source)
    same(log, explog, 'imports made by\n' + source)
    return ['legacy' if legacy else 'inline'] + ['imports'] * bool(explog)


# ------------------------------------------------------------------- extends

def gen_extends(d):
    return {'how': d.pick(['auto', 'auto2', 'same', 'import', 'handler',
                           'noauto', 'expr', 'two', 'object', 'pkg',
                           'member', 'alias']),
            'setting': d.pick(['arg', 'directive']),
            'names': d.shuffle(['Alpha', 'Beta', 'gamma', 'D_1'])[:3],
            'first': d.chance(2), 'legacy': d.chance(3), 'text': d.pick(['t\n', 'two\nlines\n'])}


def check_extends(case):
    a, b, c = case['names']
    how = case['how']
    made = {}

    def module(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        vars(m).update(attrs)
        made[name] = m
        head, _, last = name.rpartition('.')
        if head:
            setattr(made[head], last, m)
        return m

    from Cheetah.Template import Template
    base = type(a, (Template,), {'hi': lambda self: 'hi from ' + a,
                                 'respond': lambda self, trans=None:
                                     '[%s]' % self.writeBody()})
    mixin = type(b, (object,), {'yo': lambda self: 'yo from ' + b})
    calls = []
    settings, pre, second = {}, '', False
    if how == 'auto':           # from Alpha import Alpha
        module(a, **{a: base})
        ext = a
    elif how == 'auto2':        # from pkg.Alpha import Alpha
        module('verif_c31_p')
        module('verif_c31_p.' + a, **{a: base})
        ext = 'verif_c31_p.' + a
    elif how == 'same':         # from pkg.Alpha import Alpha
        module('verif_c31_p')
        module('verif_c31_p.' + a, **{a: base})
        ext = 'verif_c31_p.%s.%s' % (a, a)
    elif how == 'pkg':
        module('verif_c31_p')
        module('verif_c31_p.q')
        module('verif_c31_p.q.' + a, **{a: base})
        ext = 'verif_c31_p.q.' + a
    elif how == 'member':
        module('verif_c31_p')
        module('verif_c31_p.q', **{a: base})
        pre, ext = '#import verif_c31_p\n', 'verif_c31_p.q.' + a
    elif how == 'alias':
        module('verif_c31_p')
        module('verif_c31_p.q', **{a: base})
        pre, ext = '#import verif_c31_p as %s\n' % c, '%s.q.%s' % (c, a)
    elif how == 'import':
        module('verif_c31_m', **{a: base})
        pre = '#from verif_c31_m import %s\n' % a
        ext = a
    elif how == 'handler':
        module('verif_c31_m', **{a: base})

        def handler(compiler, baseClassName):
            calls.append(baseClassName)
            compiler.addImportStatement('from verif_c31_m import %s as %s'
                                        % (a, c))
            return c
        settings = {'handlerForExtendsDirective': handler}
        ext = 'some.thing.Else'
    elif how == 'noauto':
        module('verif_c31_m', **{a: base})
        pre = '#import verif_c31_m\n'
        settings = {'autoImportForExtendsDirective': False}
        ext = 'verif_c31_m.' + a
    elif how == 'expr':
        module('verif_c31_m', table={a: base})
        pre = '#import verif_c31_m\n'
        settings = {'allowExpressionsInExtendsDirective': True,
                    'autoImportForExtendsDirective': False}
        ext = "verif_c31_m.table['%s']" % a
    elif how == 'two':
        module('verif_c31_m', **{a: base, b: mixin})
        pre = '#from verif_c31_m import %s, %s\n' % (a, b)
        ext = '%s, %s' % (b, a) if case['first'] else '%s,%s' % (a, b)
        second = True
    else:
        base, ext = object, 'object'
    source = ''
    kw = {}
    if not case['legacy']:
        settings = dict(settings, useLegacyImportMode=False)
    if settings and case['setting'] == 'directive' and how != 'handler':
        source += '#compiler-settings\n%s#end compiler-settings\n' % ''.join(
            '%s = %s\n' % kv for kv in sorted(settings.items()))
    elif settings:
        kw['compilerSettings'] = settings
    source += pre + '#extends %s\n%s' % (ext, case['text'])
    if base is not object:
        source += '$hi\n'
    if second:
        source += '$yo\n'
    saved = {k: sys.modules.get(k) for k in made}
    sys.modules.update(made)
    try:
        cls = tm.must(lambda: tm.compile_(source, **kw), 'compiling', source)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    expect(issubclass(cls, base), '%s: the base class is not used: %r',
           source, cls.__mro__)
    if second:
        expect(issubclass(cls, mixin), '%s: the second base is not used: %r',
               source, cls.__mro__)
        order = (mixin, base) if case['first'] else (base, mixin)
        same([k for k in cls.__mro__ if k in order], list(order),
             'order of the bases of ' + source)
    same(calls, ['some.thing.Else'] if how == 'handler' else [],
         'calls of the handler')
    exp = case['text']
    if base is not object:
        exp += 'hi from %s\n' % a
    if second:
        exp += 'yo from %s\n' % b
    t = cls()
    if base is object:
        same(tm.must(lambda: t.writeBody(), 'rendering', source), exp, source)
    else:
        same(tm.must(lambda: t.writeBody(), 'rendering', source), exp, source)
        same(tm.must(lambda: t.respond(), 'rendering', source),
             '[%s]' % exp, source)
    return [how]


# ------------------------------------------------------------------- gettext

STRS = ['a', 'two words', '', "it's", 'q"q', '\xe9\u20ac', 'a\\b', '%s', '$x',
        '#if', '\n', '{', '}', ')', "'''"]
PLACES = ['%s\n', '${%s}\n', '#echo %s\n', '#set $v = %s\n$v\n',
          '#if %s is not None\ny\n#end if\n',
          '#if $x == 1\nn\n#elif %s is not None\ny\n#else\nn\n#end if\n',
          '#for $i in [%s]\n$i\n#end for\n', '$id(%s)\n', '$id([%s])[0]\n',
          '#unless %s is None\ny\n#end unless\n', '#silent %s\n',
          '#def m@\n%s\n#end def\n$m@\n', '#block k@\n%s\n#end block\n',
          '#filter None\n%s\n#end filter\n', '#call $id\n%s\n#end call\n',
          '#cache id="c@"\n%s\n#end cache\n', '#while %s is None\n-\n#end while\n',
          '#if 1 then %s else 0\n', '#for $i in (1, 2)\n%s\n#end for\n',
          '#if 0\n%s\n#end if\n', '#repeat len([%s])\nr\n#end repeat\n',
          '#try\n%s\n#except KeyError\n0\n#end try\n', '$id(a=%s)\n']


def gen_gettext(d):
    def call():
        return {'tok': d.i(0, 3), 'args': d.list(lambda: d.pick(STRS), 1, 3),
                'place': d.pick(PLACES),
                'tail': d.pick(['', '', '.upper()', '.title', '.k(2)',
                                '.strip().lower()'])}
    toks = d.pick([['_', 'N_', 'ngettext'], ['_'], ['tr', 'gt_2'], []])
    return {'tokens': toks, 'given': toks != ['_', 'N_', 'ngettext']
            or d.chance(2), 'calls': [call() for _ in range(d.i(1, 4))]}


class Text(str):
    def k(self, n):
        return self * n


def check_gettext(case):
    names = ['_', 'N_', 'ngettext', 'tr', 'gt_2']
    source, plain, want = '', '', []
    for n, c in enumerate(case['calls']):
        toks = case['tokens'] + ['other']
        tok = toks[c['tok'] % len(toks)]
        args = ', '.join(map(repr, c['args'])) + ')' + c['tail']
        s = c['place'].replace('@', str(n))
        source += s.replace('%s', '$%s(%s' % (tok, args)) \
            if not s.startswith('${') else '${%s(%s}\n' % (tok, args)
        # the same without anything for gettext to find
        call = 'f_%s(%s' % (names.index(tok) if tok != 'other' else 9, args)
        plain += s.replace('%s', '$' + call) \
            if not s.startswith('${') else '${%s}\n' % call
        if tok != 'other':
            want.append((tok, tuple(c['args'])))

    def run(src, prefix, settings):
        log = []

        def fn(k):
            def f(*args):
                log.append((k, args))
                return Text('|'.join(args) + '.')
            return f
        space = {'x': 2, 'id': lambda s=None, a=None: s or a}
        for k, name in list(enumerate(names)) + [(9, 'other')]:
            space['f_%d' % k if prefix else name] = fn(k)
        cls = tm.must(lambda: tm.compile_(src, compilerSettings=settings),
                      'compiling', src)
        t = cls(searchList=[space])
        return (tm.must(lambda: t.respond(), 'rendering', src), log,
                cls)
    settings = {'gettextTokens': case['tokens']} if case['given'] else {}
    out, log, cls = run(source, False, settings)
    eout, elog, _ = run(plain, True, settings)
    same(out, eout, 'output of\n' + source)
    same(log, elog, 'calls made by\n' + source)
    code = tm.must(lambda: cls().generatedModuleCode(), "code")
    found = set()
    for node in ast.walk(ast.parse(code)):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            try:
                found.add((node.func.id,
                           tuple(ast.literal_eval(a) for a in node.args)))
            except ValueError:
                pass
    for w in want:
        expect(w in found, 'the call %r cannot be found in the module of\n%s',
               w, source)
    return ['calls%d' % len(want)] + ['ran'] * bool(log)


# ------------------------------------------------------------------ comments

def gen_comments(d):
    return d.list(lambda: d.pick(
        ['a', ' ', '\n', '\t', '  ', 'x y', '\r\n', '$x', '#* c *#', '#**#',
         '#* a\nb\n *#', '#* c *#', '#* #if $zz *#', '#* a\n*#',
         '#*doc*#', '#* # *#']), 1, 12)


def check_comments(parts):
    source = ''.join(parts)
    exp = ''.join('' if p.startswith('#*') else '5' if p == '$x' else p
                  for p in parts)
    # a placeholder must not run into the text after it
    source, exp = source.replace('$x', '${x}'), exp
    got = tm.must(lambda: tm.compile_(source, compilerSettings={
        'gobbleWhitespaceAroundMultiLineComments': False})(
            searchList=[{'x': 5}]).respond(), 'rendering', source)
    same(got, exp, 'output of %r' % source)
    return ['comments'] * ('#*' in source)


PROPS = [
    Prop('portions', gen_portions, check_portions, 4000,
         nontrivial=lambda c, l: 'changed' in l or 'def' in l,
         rule='settings change within the template or a method is defined'),
    Prop('blocks', gen_blocks, check_blocks, 2000,
         nontrivial=lambda c, l: 'on' in l and 'blocks0' not in l,
         rule='markers are on and there is a block'),
    Prop('imports', gen_imports, check_imports, 2000,
         nontrivial=lambda c, l: 'imports' in l,
         rule='at least one import takes place'),
    Prop('extends', gen_extends, check_extends, 800,
         nontrivial=lambda c, l: True, rule='every case'),
    Prop('gettext', gen_gettext, check_gettext, 2000,
         nontrivial=lambda c, l: 'calls0' not in l,
         rule='a call of a gettext function is in the template'),
    Prop('comments', gen_comments, check_comments, 1500,
         nontrivial=lambda c, l: 'comments' in l,
         rule='there is a comment'),
]
