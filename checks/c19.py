"""C19: settings merge and parse as written."""
import copy
import io
import os
import re
import tempfile

from vlib.core import Prop, Skip, Violation, expect, same
from vlib import tm

from Cheetah.SettingsManager import (SettingsManager, convStringToNum,
                                     mergeNestedDictionaries, stringIsNumber)

KEYS = ['a', 'b', 'c', 'key', 'Key', 'tokens']


def value(d):
    return d.pick([0, 1, -3, 2.5, 'x', '', None, True, False, (1, 2), 'a b'])


def tree(d, depth=3):
    out = {}
    for _ in range(d.i(0, 3)):
        k = d.pick(KEYS)
        if depth and d.chance(2):
            out[k] = tree(d, depth - 1)
        elif d.chance(6):
            out[k] = [value(d)]
        else:
            out[k] = value(d)
    return out


def history(d):
    ops = []
    pool = d.i(1, 3)
    for _ in range(d.i(1, 8)):
        k = d.wpick([(6, 'update'), (1, 'overwrite'), (2, 'again'),
                     (1, 'set'), (1, 'pysrc'), (1, 'config'), (1, 'copy')])
        m = d.i(0, 1)
        if k in ('update', 'overwrite', 'copy'):
            ops.append((k, m, tree(d)))
        elif k == 'again':
            ops.append((k, m, d.i(0, pool), d.chance(3)))
        elif k == 'set':
            ops.append((k, m, d.pick(KEYS), tree(d) if d.chance(2)
                        else value(d)))
        elif k == 'pysrc':
            ops.append((k, m, tree(d), d.pick([None, None, True, False])))
        else:
            ops.append((k, m, [(x, d.pick(SCALARS)) for x in
                               d.sub(KEYS)[:3]]))
    return ops


def merged(a, b):
    """The settings a updated with b: nested dictionaries are merged."""
    out = dict(a)
    for k in b:
        if k in a and isinstance(a[k], dict) and isinstance(b[k], dict):
            out[k] = merged(a[k], b[k])
        else:
            out[k] = copy.deepcopy(b[k])
    return out


def strict(x):
    """A form in which 1, 1.0 and True differ."""
    if isinstance(x, dict):
        return {k: strict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [strict(v) for v in x])
    return (type(x).__name__, x)


def check_history(ops):
    ms = [SettingsManager(), SettingsManager()]
    model = [{}, {}]
    given = []
    labs = set()
    for k, op in enumerate(ops):
        m = op[1]
        name = op[0]
        if name in ('update', 'overwrite', 'again'):
            if name == 'again':
                if not given:
                    continue
                new = given[op[2] % len(given)][0]
                merge = not op[3]
            else:
                new = copy.deepcopy(op[2])
                given.append((new, copy.deepcopy(new)))
                merge = name == 'update'
            ms[m].updateSettings(new, merge=merge)
            if merge:
                if any(isinstance(model[m].get(x), dict)
                       and isinstance(new[x], dict) for x in new):
                    labs.add('nested merge')
                model[m] = merged(model[m], new)
            else:
                model[m] = dict(model[m], **copy.deepcopy(new))
        elif name == 'set':
            v = copy.deepcopy(op[3])
            if isinstance(v, dict):
                given.append((v, copy.deepcopy(v)))
            ms[m].setSetting(op[2], v)
            model[m] = dict(model[m], **{op[2]: copy.deepcopy(v)})
        elif name == 'pysrc':
            new = copy.deepcopy(op[2])
            if op[3] is not None:
                new['mergeSettings'] = op[3]
            src = ''.join('%s = %r\n' % i for i in new.items())
            ms[m].updateSettingsFromPySrcStr(src)
            model[m] = merged(model[m], new) if op[3] is not False \
                else dict(model[m], **copy.deepcopy(new))
        elif name == 'config':
            ms[m].updateSettingsFromConfigStr(
                ''.join('%s = %s\n' % (x, v[0]) for x, v in op[2]))
            model[m] = merged(model[m], {x: v[1] for x, v in op[2]})
        elif name == 'copy':
            c = ms[m].deepcopySettings()
            mergeNestedDictionaries(c, copy.deepcopy(op[2]))
            same(strict(c), strict(merged(model[m], op[2])),
                 'deep copy of the settings after %r' % (ops[:k + 1],))
        labs.add(name)
        for j in (0, 1):
            same(strict(ms[j].settings()), strict(model[j]),
                 'settings of manager %d after %r' % (j, ops[:k + 1]))
            for x in KEYS:
                same(ms[j].hasSetting(x), x in model[j],
                     'hasSetting(%r) after %r' % (x, ops[:k + 1]))
                same(strict(ms[j].setting(x, 'dflt')),
                     strict(model[j].get(x, 'dflt')),
                     'setting(%r, default) after %r' % (x, ops[:k + 1]))
        for g, orig in given:
            same(strict(g), strict(orig),
                 "a caller's dictionary was modified by %r" % (ops[:k + 1],))
    return sorted(labs)


def merge_case(d):
    return (tree(d), tree(d), d.i(0, 1))


def check_merge(c):
    a, b, mode = copy.deepcopy(c)
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    got = mergeNestedDictionaries(a, b, **[{'copy': True},
                                           {'deepcopy': True}][mode])
    same(strict(got), strict(merged(a0, b0)), 'merge of %r and %r' % (a0, b0))
    same(strict(a), strict(a0), 'the first dictionary was modified')
    same(strict(b), strict(b0), 'the second dictionary was modified')
    a = copy.deepcopy(c[0])
    got = mergeNestedDictionaries(a, b)
    expect(got is a, 'merge without copy does not return its argument')
    same(strict(a), strict(merged(a0, b0)), 'merge of %r and %r' % (a0, b0))
    same(strict(b), strict(b0), 'the second dictionary was modified')
    return ['merged'] if set(a0) & set(b0) else []


# ---- configuration texts

SCALARS = [('1', 1), ('-3', -3), ('+7', 7), ('0', 0), ('2.5', 2.5),
           ('-1e3', -1000.0), ('0x1F', 31), ('1_000', 1000), ('2j', 2j),
           ('1+2j', 1 + 2j), ('(1+2j)', 1 + 2j), ('.5', 0.5), ('1.', 1.0),
           ('None', None), ('True', True), ('False', False),
           ('text', 'text'), ('some words here', 'some words here'),
           ('#', '#'), ('$', '$'), ('%', '%'), ('<%', '<%'), ('%>', '%>'),
           ('@@', '@@'), ('012', '012'), ('1 2', '1 2'), ('1a', '1a'),
           ('-', '-'), ('+', '+'), ('.', '.'), ('1.2.3', '1.2.3'),
           ('(1', '(1'), ('1)', '1)'), ('e5', 'e5'), ('0x', '0x'),
           ('x=y', 'x=y'), ('a: b', 'a: b'), ('"quoted"', '"quoted"'),
           ("it's", "it's"), ('é€', 'é€'), ('\\n', '\\n'), ('{', '{'),
           ('Nonesuch', 'Nonesuch'), ('True story', 'True story'),
           ('pythonic', 'pythonic'), ('', ''), ('100%', '100%'),
           ('python:[1, 2]', [1, 2]), ("python:{'a': (1,)}", {'a': (1,)}),
           ('python: 2 + 3', 5), ("python:'#'", '#'), ('python:None', None),
           ("python:' x '", ' x '), ('python:True', True),
           ('Python:[1]', [1]), ('PYTHON: 2', 2), ('none', None),
           ('NONE', None), ('true', True), ('TRUE', True),
           ('false', False), ('FALSE', False)]


def config_case(d):
    secs = []
    for s in (d.sub(['globals', 'Globals', 'sect', 'Other Section']) or ['globals'])[:3]:
        secs.append((s, [(k, d.i(0, len(SCALARS) - 1),
                          d.pick([' = ', '=', ' : ', ': ']))
                         for k in d.sub(['one', 'Two', 'tHREE', 'four_4',
                                         'dotted.name', 'dashed-name'])]))
    return (secs, d.chance(4), d.i(0, 2), d.chance(3))


def check_config(c):
    secs, raw, route, comments = c
    if len({s.lower() for s, _ in secs}) < len(secs):
        raise Skip()
    exp = {}
    lines = []
    for s, opts in secs:
        if route != 1:
            lines.append('[%s]' % s)
        dest = exp if s.lower() == 'globals' else exp.setdefault(s, {})
        for k, i, sep in opts:
            text, v = SCALARS[i]
            if comments:
                lines += ['# a comment', '; another', '']
            lines.append(k + sep + text)
            dest[k] = text if raw else copy.deepcopy(v)
    if route == 1 and (len(secs) != 1 or secs[0][0].lower() != 'globals'):
        raise Skip()
    text = '\n'.join(lines) + '\n'
    m = SettingsManager()
    m.setSetting('kept', {'x': 1})
    if route == 0:
        got = m.readSettingsFromConfigFileObj(io.StringIO(text),
                                              convert=not raw)
    else:
        exp['kept'] = {'x': 1}
        if route == 1:
            m.updateSettingsFromConfigStr(text, convert=not raw)
        else:
            m.updateSettingsFromConfigFileObj(io.StringIO(text),
                                              convert=not raw)
        got = m.settings()
    same(strict(got), strict(exp), 'settings of the text %r' % text)
    return ['%d sections' % len(secs), 'raw' if raw else 'converted',
            'route %d' % route]


# ---- numbers

def num_case(d):
    if d.chance(3):
        k = d.i(0, 4)
        n = d.pick([0, 1, 7, 12, 255, 10 ** 20, 3])
        f = d.pick([0.5, 1e300, 2.25, 1e-7, 3.0])
        return ('num', [str(n), repr(f), hex(n), repr(f) + 'j',
                        '%s+%sj' % (n, n)][k])
    return ('text', ''.join(d.list(lambda: d.pick(
        list('0123456789') + ['.', '+', '-', 'j', 'e', 'E', '(', ')', '_',
                              'x', ' ', '0x', 'a', '**']), 0, 6)))


def check_num(c):
    kind, s = c
    is_num = stringIsNumber(s)
    expect(isinstance(is_num, bool), 'stringIsNumber(%r) is %r', s, is_num)
    if kind == 'num':
        for sign in ('', '-', '+'):
            expect(stringIsNumber(sign + s), '%r is not taken as a number',
                   sign + s)
            same(convStringToNum(sign + s), eval(sign + s),
                 'value of %r' % (sign + s))
        return ['number']
    if is_num:
        v = convStringToNum(s)
        expect(isinstance(v, (int, float, complex)), '%r gives %r', s, v)
        return ['number']
    try:
        convStringToNum(s)
    except Exception as e:
        expect(type(e).__name__ == 'Error', 'convStringToNum(%r) raises %r',
               s, e)
    else:
        raise Violation('convStringToNum(%r) accepts a non-number' % s)
    if re.match(r'[1-9][0-9]*$', s):
        raise Violation('%r is not taken as a number' % s)
    return ['no number']


# ---- settings given to a compilation stay the caller's

def macro(src):
    return src


def compile_case(d):
    s = {}
    if d.chance(2):
        s['macroDirectives'] = {'mac': 'MACRO'}
    if d.chance(2):
        s['compilerSettingsForDefMacro'] = {'useAutocalling': d.chance(2)}
    for k, vs in (('useAutocalling', [True, False]), ('commentOffset', [1, 3]),
                  ('gettextTokens', [['_'], []]),
                  ('disabledDirectives', [[], ['psp']]),
                  ('expressionFilterHooks', [[]])):
        if d.chance(2):
            s[k] = d.pick(vs)
    return (s, d.pick(['text $x', '#defmacro m1\nx#end defmacro\n#m1\n#end m1',
                       '#compiler-settings\ncommentOffset = 7\n'
                       'useNameMapper = 0\n#end compiler-settings\nx',
                       '#compiler commentOffset = 9\nx',
                       '#i18n id="b"\ntext\n#end i18n',
                       '#compiler-settings\ncheetahVarStartToken = @\n'
                       '#end compiler-settings\n@x']), d.chance(2))


def check_compile(c):
    s, src, string = c
    s = copy.deepcopy(s)
    if 'macroDirectives' in s:
        s['macroDirectives']['mac'] = macro
    before = copy.deepcopy(s)
    tm.Template.compile(src, compilerSettings=s,
                        cacheCompilationResults=False)
    same(s, before, 'compiling %r modified the caller\'s settings' % src)
    c1 = tm.Compiler('$x', settings={})
    c2 = tm.Compiler(src, settings=s)
    b1 = copy.deepcopy(c1.settings())
    c2.compile()
    str(c2)
    same(c1.settings(), b1, 'compiling %r modified another compiler\'s '
         'settings' % src)
    same(s, before, 'compiling %r modified the caller\'s settings' % src)
    c1.setSetting('commentOffset', 99)
    expect(c2.setting('commentOffset') != 99, 'two compilers share settings')
    return ['%d settings' % len(s)]


# ---- files: the routes that read a file object and Python source

def file_case(d):
    return (d.pick(['open', 'pysrc']),
            [(k, d.i(0, len(SCALARS) - 1)) for k in
             d.sub(['one', 'Two', 'three'])])


def check_file(c):
    route, opts = c
    with tempfile.TemporaryDirectory() as tmp:
        m = SettingsManager()
        if route == 'import':
            path = os.path.join(tmp, 'mySettings.py')
            with open(path, 'w') as f:
                f.write(''.join('%s = %r\n' % i for i in opts))
            try:
                m.updateSettingsFromConfigStr('importSettings=' + path)
            except Exception as e:
                raise Violation('importSettings=%s raises %r'
                                % ('mySettings.py', e))
            for k, v in opts:
                same(m.setting(k, None), v, 'imported setting %r' % k)
            return [route]
        exp = {k: SCALARS[i][1] for k, i in opts}
        if route == 'pysrc':
            m.updateSettingsFromPySrcStr(
                ''.join('%s = %r\n' % i for i in exp.items())
                + '_hidden = 1\n')
        else:
            path = os.path.join(tmp, 's.ini')
            with open(path, 'w', encoding='utf-8') as f:
                f.write('[globals]\n' + ''.join(
                    '%s = %s\n' % (k, SCALARS[i][0]) for k, i in opts))
            with open(path, encoding='utf-8') as f:
                m.updateSettingsFromConfigFileObj(f)
                expect(not f.closed, "the caller's file was closed")
        same(strict(m.settings()), strict(exp), 'settings by %s' % route)
    return [route]


PROPS = [
    Prop('histories', history, check_history, 24000, shards=4,
         nontrivial=lambda c, l: 'nested merge' in l,
         rule='up to 8 updates of two managers with trees of depth <= 3; '
              'non-trivial = two nested dictionaries were merged'),
    Prop('merge', merge_case, check_merge, 12000, shards=2,
         nontrivial=lambda c, l: 'merged' in l,
         rule='pairs of trees; non-trivial = they share a key'),
    Prop('config', config_case, check_config, 16000, shards=4,
         nontrivial=lambda c, l: 'skipped' not in l,
         rule='configuration texts of 1-3 sections over %d spellings of '
              'values' % len(SCALARS)),
    Prop('numbers', num_case, check_num, 20000, shards=2,
         nontrivial=lambda c, l: c[1] != '',
         rule='numeric literals and near-literals'),
    Prop('files', file_case, check_file, 2000, shards=1,
         rule='settings read from files and Python sources'),
    Prop('compile', compile_case, check_compile, 3000, shards=2,
         rule='compilations with the caller\'s settings dictionary'),
]
