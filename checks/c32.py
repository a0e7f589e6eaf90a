"""C32: templates are made from their arguments in every documented form.

make      - every way of construction with generated namespaces, filters and
            settings renders what a small model says
reject    - an argument of a wrong type is a TypeError that names it, and
            leaves no trace
truth     - generated code, cache regions, file contents, shutdown
"""
import ast
import io
import os
import re
import shutil
import sys
import tempfile
import types

from Cheetah import Filters
from Cheetah.Template import Template
from vlib.core import Prop, expect, same
from vlib import tm

# ---------------------------------------------------------------------- make

VALUES = [0, 1, 'v', '<a&b>', '\xe9', None, '', 2.5, [1], ' s ']
PARTS = ['t', '\n', ' ', '\xe9', '\\ ', "'''", '<b>', 'x', '12']
NAMES = ['alpha', 'beta', 'gam_1', 'Delta']


class Tag(Filters.Filter):
    def filter(self, val, **kw):
        return '<%s>' % (val,)


class Plain(object):
    def __init__(self, first, **kw):
        self.first = first


def gen_make(d):
    spaces = [{n: d.pick(VALUES) for n in d.sub(NAMES)}
              for _ in range(d.i(0, 3))]
    return {'how': d.pick(['pos', 'kw', 'file', 'fobj', 'text', 'compile',
                           'cfile', 'cfobj', 'dict', 'plain', 'sub']),
            'spaces': spaces,
            'kinds': [d.pick(['dict', 'obj', 'module']) for _ in spaces],
            'list': d.pick(['list', 'tuple', 'single']),
            'kw': d.pick(['searchList', 'namespaces']),
            'filter': d.pick([None, None, 'Filter', 'WebSafe', 'class', 'lib',
                              'RawOrEncodedUnicode']),
            'token': d.pick([None, None, '@', '~~']),
            'parts': d.list(lambda: d.pick(
                PARTS + ['${%s}' % n for n in NAMES]), 1, 6),
            'defaults': d.chance(4)}


def check_make(case):
    how, spaces = case['how'], list(case['spaces'])
    tok = case['token'] or '$'
    source = ''.join(p.replace('$', tok) if p.startswith('$') else p
                     for p in case['parts'])
    made = []
    for s, kind in zip(spaces, case['kinds']):
        if kind == 'dict':
            made.append(s)
        else:
            o = types.ModuleType('m') if kind == 'module' else \
                type('O', (object,), {})()
            vars(o).update(s)
            made.append(o)
    if case['list'] == 'single':
        made, spaces = made[:1], spaces[:1]
        arg = made[0] if made else None
    else:
        arg = list(made) if case['list'] == 'list' else tuple(made)
    kw = {case['kw']: arg}
    own = {}
    if how == 'dict':
        own = {n: 'own ' + n for n in NAMES[:2]}

    def fmt(v):
        f = case['filter']
        if v is None:
            return ''
        if f in ('class', 'lib'):
            return '<%s>' % (v,)
        if f == 'WebSafe':
            return str(v).replace('&', '&amp;').replace('<', '&lt;').replace(
                '>', '&gt;')
        return str(v)
    exp, missing = '', False
    for p in case['parts']:
        if not p.startswith('$'):
            exp += p
            continue
        for s in [own] + spaces:
            if p[2:-1] in s:
                exp += fmt(s[p[2:-1]])
                break
        else:
            missing = True
            break
    if case['filter'] == 'class':
        kw['filter'] = Tag
    elif case['filter'] == 'lib':
        lib = types.ModuleType('verif_c32_lib')
        lib.Mine = Tag
        kw.update(filter='Mine', filtersLib=lib)
    elif case['filter']:
        kw['filter'] = case['filter']
    settings = {'cheetahVarStartToken': case['token']} if case['token'] \
        else None
    before = dict(settings) if settings else None
    base = Template
    ckw = {}
    if settings and case['defaults'] and how not in ('dict', 'plain'):
        # settings that are the default of a subclass of Template
        base = type('MyTemplate', (Template,),
                    {'_CHEETAH_compilerSettings': settings})
    elif settings:
        ckw = {'compilerSettings': settings}
    tmp = tempfile.mkdtemp(prefix='verif-c32-')
    handles = []
    try:
        path = os.path.join(tmp, 'some page.tmpl')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(source)

        def fobj():
            f = open(path, 'r', encoding='utf-8', newline='')
            handles.append(f)
            return f

        def make():
            if how == 'pos':
                return base(source, **dict(kw, **ckw))
            if how == 'kw':
                return base(source=source, **dict(kw, **ckw))
            if how == 'file':
                return base(file=path, **dict(kw, **ckw))
            if how == 'fobj':
                return base(file=fobj(), **dict(kw, **ckw))
            if how == 'text':
                return base(file=io.StringIO(source, newline=''),
                            **dict(kw, **ckw))
            if how == 'compile':
                return base.compile(source, **ckw)(**kw)
            if how == 'cfile':
                return base.compile(file=path, **ckw)(**kw)
            if how == 'cfobj':
                return base.compile(file=fobj(), **ckw)(**kw)
            if how == 'dict':
                return Template.compile(source, baseclass=dict, **ckw)(
                    own, **kw)
            if how == 'plain':
                return Template.compile(source, baseclass=Plain, **ckw)(
                    7, **kw)
            return type('Sub', (base.compile(source, **ckw),), {})(**kw)
        t = tm.must(make, 'making', case)
        got = tm.outcome(lambda: t.respond())
        if missing:
            same(got[:2], ('exc', 'NotFound'), 'rendering of %r' % source)
        else:
            same(got, ('ok', exp), 'rendering of %r' % source)
            same(str(t), exp, 'str() of %r' % source)
            if how in ('pos', 'kw', 'compile', 'sub'):
                same(tm.outcome(lambda: t.respond()), ('ok', exp),
                     'second rendering')
        same(settings, before, "the caller's settings")
        if case['list'] == 'list':
            expect(len(arg) == len(made) and all(
                a is b for a, b in zip(arg, made)),
                "the caller's list of namespaces was changed: %r", arg)
    finally:
        for h in handles:
            h.close()
        shutil.rmtree(tmp)
    return [how, case['list']] + ['missing'] * missing + \
        ['filter'] * bool(case['filter']) + ['settings'] * bool(settings)


# -------------------------------------------------------------------- reject

NOT_TEXT = [5, b'x', [], ['a'], {}, 1.5, object(), True, ('a',)]
NOT_BOOL = ['', 'x', None, [], {}, 1.5, b'', object()]
NOT_DICT = [5, 'x', [], None, (('a', 1),), True, object()]
NOT_MODULE = [5, None, [], {}, True, Tag]
INIT = {'source': [v for v in NOT_TEXT], 'file': NOT_TEXT,
        'filter': [5, None, [], {}, Tag.filter, b'Filter', 1.5],
        'filtersLib': NOT_MODULE, 'errorCatcher': [5, [], {}, b'Echo', True],
        'compilerSettings': NOT_DICT}
COMPILE = {'source': NOT_TEXT, 'file': NOT_TEXT,
           'baseclass': [5, [], {}, b'x', 1.5, ('a',), True],
           'cacheCompilationResults': NOT_BOOL, 'useCache': NOT_BOOL,
           'compilerSettings': NOT_DICT, 'keepRefToGeneratedCode': NOT_BOOL,
           'moduleName': NOT_TEXT, 'className': NOT_TEXT,
           'mainMethodName': NOT_TEXT,
           'cacheModuleFilesForTracebacks': NOT_BOOL,
           'cacheDirForModuleFiles': NOT_TEXT}


def gen_reject(d):
    which = d.pick(['init', 'init', 'compile', 'compile', 'both', 'spaces'])
    case = {'which': which, 'good': d.sub(
        ['searchList', 'filter', 'filtersLib', 'compilerSettings']),
        'cgood': d.sub(['className', 'moduleName', 'baseclass', 'useCache',
                        'compilerSettings', 'cacheCompilationResults',
                        'mainMethodName', 'keepRefToGeneratedCode']),
        'file': d.chance(3)}
    if which in ('init', 'compile'):
        table = INIT if which == 'init' else COMPILE
        case['name'] = d.pick(sorted(table))
        case['value'] = d.i(0, len(table[case['name']]) - 1)
    return case


def check_reject(case):
    which = case['which']
    good = {'searchList': [{'x': 1}], 'filter': 'WebSafe',
            'filtersLib': Filters, 'compilerSettings': {}}
    cgood = {'className': 'Cn', 'moduleName': 'Mn', 'baseclass': Template,
             'useCache': True, 'compilerSettings': {'commentOffset': 2},
             'cacheCompilationResults': False, 'mainMethodName': 'mm',
             'keepRefToGeneratedCode': 0}
    mods = set(sys.modules)
    if which == 'compile':
        kw = {k: cgood[k] for k in case['cgood']}
        kw.setdefault('source', 'text $x')
        fn, table = Template.compile, COMPILE
    else:
        kw = {k: good[k] for k in case['good']}
        kw['source'] = 'text $x'
        fn, table = Template, INIT
    if which == 'both':
        kw['file'] = '/nonexistent/page.tmpl'
        got = tm.outcome(lambda: fn(**kw))
        same(got[:2], ('exc', 'TypeError'), 'source and file together: %r'
             % (kw,))
    elif which == 'spaces':
        kw.update(searchList=[{'x': 1}], namespaces=[{'x': 2}])
        got = tm.outcome(lambda: fn(**kw))
        same(got[:2], ('exc', 'AssertionError'),
             'searchList and namespaces together: %r' % (kw,))
    else:
        name = case['name']
        value = table[name][case['value']]
        kw[name] = value
        if name == 'file':
            del kw['source']
        got = tm.outcome(lambda: fn(**kw))
        same(got[:2], ('exc', 'TypeError'), '%s with %s=%r'
             % (which, name, value))
        expect(name.lower() in got[2].lower(),
               'the message %r does not name the argument %s', got[2], name)
    left = [m for m in set(sys.modules) - mods if 'heetah' in m or m == 'Mn']
    same(left, [], 'modules left behind by a rejected call')
    return [which]


# --------------------------------------------------------------------- truth

def gen_truth(d):
    return {'defs': d.i(0, 3), 'keep': d.pick([None, True, False]),
            'caches': d.list(lambda: d.pick(['a', 'b', None, '*x', '*2*x']),
                             0, 4),
            'reached': d.chance(4) is False,
            'name': d.pick([None, 'Cn', 'Name_2', '_x']),
            'text': d.list(lambda: d.pick(
                ['t\n', '\xe9\n', '\r\n', '\r', 'q"\n', '\u20ac']), 0, 4),
            'shut': d.i(0, 2)}


def check_truth(case):
    body = ''.join('#def m%d\nd%d\n#end def\n' % (n, n)
                   for n in range(case['defs']))
    want, seen = 0, set()
    body += '#if $x\n.\n'
    for c in case['caches']:
        if c is None:
            body += '#cache\nc\n#end cache\n'
            want += 1
        elif c.startswith('*'):
            body += '$%s\n' % c
            want += 1
        else:
            body += '#cache id="%s"\nc\n#end cache\n' % c
            seen.add(c)
    body += '#end if\n'
    kw = {}
    if case['keep'] is not None:
        kw['keepRefToGeneratedCode'] = case['keep']
    if case['name']:
        kw['className'] = case['name']
    cls = tm.must(lambda: tm.compile_(body, **kw), 'compiling', body)
    sl = [{'x': 5 if case['reached'] else 0}]
    t, other = cls(searchList=sl), cls(searchList=sl)
    # the code
    code = t.generatedModuleCode()
    if case['keep'] is False:
        same(code, None, 'code that was not kept')
        same(tm.must(lambda: t.generatedClassCode(), 'class code'), None,
             'code that was not kept')
    else:
        tree = ast.parse(code)
        part = tm.must(lambda: t.generatedClassCode(), 'class code')
        expect(part in code, 'the class code is not part of the module code')
        body_of = ast.parse(part).body
        expect(len(body_of) == 1 and isinstance(body_of[0], ast.ClassDef),
               'the class code is not one class: %r', part[:300])
        names = [n.name for n in body_of[0].body
                 if isinstance(n, ast.FunctionDef)]
        same(sorted(names), sorted(['__init__', 'respond'] + [
            'm%d' % n for n in range(case['defs'])]), 'methods in the code')
        same(body_of[0].name, cls.__name__, 'the name of the class')
        klass = [n for n in tree.body if isinstance(n, ast.ClassDef)][0]
        same(ast.dump(klass), ast.dump(body_of[0]), 'the class')
    # regions
    same(t.getCacheRegions(), {}, 'cache regions before the first rendering')
    tm.must(lambda: t.respond(), 'rendering', body)
    regions = t.getCacheRegions()
    if case['reached']:
        expect(seen <= set(regions), 'regions %r of\n%s', sorted(regions),
               body)
        same(len(regions), want + len(seen), 'number of regions of\n' + body)
    else:
        same(regions, {}, 'regions that were not reached')
    regions['mine'] = 1
    expect('mine' not in t.getCacheRegions(), 'getCacheRegions() is no copy')
    for k in seen:
        if case['reached']:
            expect(t.getCacheRegion(k) is regions[k],
                   'getCacheRegion(%r) is another region', k)
    # files
    tmp = tempfile.mkdtemp(prefix='verif-c32-')
    try:
        path = os.path.join(tmp, 'f')
        text = ''.join(case['text'])
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        same(tm.must(lambda: t.getFileContents(path), 'getFileContents'),
             re.sub('\r\n?', '\n', text), 'contents of the file')
        same(tm.outcome(lambda: t.getFileContents(path + 'x'))[:2],
             ('exc', 'FileNotFoundError'), 'contents of no file')
    finally:
        shutil.rmtree(tmp)
    # shutdown
    exp = tm.must(lambda: other.respond(), 'rendering', body)
    for _ in range(case['shut']):
        tm.must(lambda: t.shutdown(), 'shutdown')
        same(vars(t), {}, 'what is left after a shutdown')
    same(tm.must(lambda: other.respond(), 'rendering'), exp,
         'another instance after a shutdown')
    same(tm.must(lambda: cls(searchList=sl).respond(), 'rendering'), exp,
         'a new instance after a shutdown')
    return ['regions%d' % min(len(regions) - 1, 3)] + \
        ['kept'] * (case['keep'] is not False)


PROPS = [
    Prop('make', gen_make, check_make, 3000,
         nontrivial=lambda c, l: 'missing' not in l and bool(c['spaces']),
         rule='everything is found and there are namespaces'),
    Prop('reject', gen_reject, check_reject, 1500,
         nontrivial=lambda c, l: True, rule='every case'),
    Prop('truth', gen_truth, check_truth, 1500,
         nontrivial=lambda c, l: bool(c['caches']) or bool(c['defs']),
         rule='there are methods or cached regions'),
]
