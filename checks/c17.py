"""C17: every way of compiling a template yields the same template.

Each route runs in a forked child with a directory of its own, because
import hooks and imported modules change the whole process.
"""
import io
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from vlib.core import Prop, Skip, Violation, expect, same
from vlib import lang, tm
import Cheetah.CheetahWrapper as CW
import Cheetah.ImportHooks as IH
import Cheetah.LoadTemplate as LT
import Cheetah.TemplateCmdLineIface  # noqa: F401

FEATURES = set('''text ph echo set silent tern comment mlc pass slurp gset psp
assert raise stop break continue
if for unless repeat while try short def t call capture filter block
shortreg'''.split())
PLAIN = FEATURES - {'call', 't', 'shortreg'}

# encodings that extend ASCII, and text each can represent
ENC = {
    None: 'é日ß',
    'utf-8': 'é日\u2028\xa0😀',
    'UTF8': 'é日',
    'latin-1': 'éß\xa0ÿ',
    'iso-8859-15': 'é€',
    'cp1252': '“é”€',
    'koi8-r': 'Привет',
    'cp1251': 'Привет',
    'shift_jis': '表ソ能日本',
    'euc-jp': '表ソ日',
    'gbk': '汉字乗',
    'big5': '功許',
    'ascii': 'plain',
}
ENCS = sorted(ENC, key=str)

PARTS = [
    # source, what it renders to; U is text of the encoding
    ('U\n', 'U\n'),
    ('$str("U")\n', 'U\n'),
    ("#set $u0 = 'U'\n<$u0>\n", '<U>\n'),
    ('## U\n', ''),
    ('#* U\n U *#\n', ''),
    ("a\\\\b 'q' \"\"\" U '''\n", "a\\\\b 'q' \"\"\" U '''\n"),
    ('#echo "U"[0] + "\\\\" + "\\t"#\n', 'V\\\t\n'),
    ('#if "U" == $str("U")\nyes U\n#end if\n', 'yes U\n'),
    ('#raw\n$x #if U\n#end raw\n', '$x #if U\n'),
    ('#attr $at = "U"\n$at\n', 'U\n'),
    ('#from os.path import basename as bn\n$bn("x/U")\n', 'U\n'),
    ('#block bk\nU [$str(1)]\n#end block\n', 'U [1]\n'),
    ('$mm("U")\n#def mm(x="U")\n($x U)\n#end def\n', '(U U)\n\n'),
    ('%s %(x)s {} \\$x \\# \\n U\n', '%s %(x)s {} $x # \\n U\n'),
    ('${"U"}\n', 'U\n'),
    ('<%= "U" %>|\n', 'U|\n'),
    ('tab\there U\n', 'tab\there U\n'),
]

NAMES = ['page', 'Page2', 'pg', 'aPage', 'p_1', 'index', 'zz']


def case(d, features=FEATURES):
    g = lang.Gen(d, features, maxdepth=2)
    prog = g.program()
    parts = d.sub(range(len(PARTS)))
    if len(parts) > 4:
        parts = parts[:4]
    return dict(prog=prog, env=lang.draw_env(d), parts=parts,
                enc=d.pick(ENCS), eol=d.pick(['n', 'n', 'n', 'rn', 'r']),
                head=d.chance(6), name=d.pick(NAMES),
                routes=d.sub(range(len(ROUTES)))[:d.i(1, 3)]
                or [d.i(0, len(ROUTES) - 1)],
                k=d.i(0, 7), j=d.i(0, 7), fn=d.i(0, 16))


def spelt(x, u):
    """The program with its accented letters replaced."""
    if isinstance(x, str):
        return x.replace('\xe9', u)
    if isinstance(x, (list, tuple)):
        return type(x)(spelt(y, u) for y in x)
    return x


def build(c):
    u = ENC[c['enc']]
    em = lang.Emitter(lang.EOLS[c['eol']])
    norm = em.program(spelt(c['prog'], u[0]))
    src = em.source()
    pre, out = '', ''
    for p in c['parts']:
        s, o = PARTS[p]
        pre += s.replace('U', u)
        out += o.replace('V', u[0]).replace('U', u)
    head = ''
    if c['enc']:
        head = '#encoding %s\n' % c['enc']
        if c['head']:
            head = '## a comment first\n' + head
    eol = lang.EOLS[c['eol']]
    return (head + pre).replace('\n', eol) + src, out.replace('\n', eol), norm


def namespace(c):
    ns = dict(lang.FUNCS)
    ns.update(lang.make_env(c['env']))
    ns['t'] = lambda label, v: v
    return ns


def rendered(cls, c):
    try:
        return ('ok', str(cls(searchList=[namespace(c)])))
    except Exception as e:
        return ('exc', type(e).__name__)


# ------------------------------------------------------------- the routes
# each yields (label, class); the current directory is an empty one
def put(path, src, enc='utf-8'):
    p = os.path.dirname(path)
    if p and not os.path.isdir(p):
        os.makedirs(p)
    with open(path, 'wb') as f:
        f.write(src.encode(enc))
    return path


def named(cls, name, mod=None):
    expect(isinstance(cls, type), 'not a class: %r', cls)
    same(cls.__name__, name, 'name of the class')
    if mod:
        same(cls.__module__.split('.')[-1], mod, 'name of the module')


def r_source(src, c):
    kw = {}
    k = c['k']
    if k & 1:
        kw['className'] = 'K' + c['name']
    if k & 2:
        kw['moduleName'] = 'm_' + c['name']
    if k & 4:
        kw['mainMethodName'] = 'main_' + c['name']
    cls = tm.Template.compile(source=src, **kw)
    named(cls, kw.get('className') or kw.get('moduleName')
          or 'DynamicallyCompiledCheetahTemplate')
    if k & 2:
        expect(cls.__module__.startswith('m_' + c['name']),
               'module is called %s', cls.__module__)
    if k & 4:
        expect(kw['mainMethodName'] in cls.__dict__, 'no main method %s in %s',
               kw['mainMethodName'], sorted(cls.__dict__))
        expect('respond' not in cls.__dict__, 'respond defined as well')
        m = getattr(cls, kw['mainMethodName'])
        yield 'main method', type('X', (), dict(
            __init__=lambda self, searchList: setattr(
                self, 't', cls(searchList=searchList)),
            __str__=lambda self: m(self.t)))
    if not k & 4:
        yield 'class', cls
    os.mkdir('mods')
    yield 'module file kept', tm.Template.compile(
        source=src, cacheModuleFilesForTracebacks=True,
        cacheDirForModuleFiles='mods', useCache=False,
        cacheCompilationResults=bool(c['j'] & 1))
    expect(len(os.listdir('mods')) == 1, 'no module file')
    yield 'class again', tm.Template.compile(source=src, **kw) \
        if not k & 4 else tm.Template.compile(source=src)
    yield 'instance', lambda searchList: tm.Template(
        source=src, searchList=searchList)


def r_bytes(src, c):
    enc = c['enc']
    if enc is None:
        return
    b = src.encode(enc)
    yield 'binary file object', tm.Template.compile(file=io.BytesIO(b))


def r_filename(src, c):
    n = ['a.tmpl', 'sub/b-c.tmpl', './d e.html', 'sub/../f.tmpl', 'noext',
         'sub/\xe9.tmpl', 'x.y.z.tmpl', 'a_1.txt', '1a.tmpl', '(x).html',
         '\u65e5\u672c.tmpl', '\U0001f600.tmpl', '\ufb01.tmpl', '-.tmpl',
         '9/_.tmpl', '_1.tmpl', '__x.tmpl'][c['fn']]
    put('sub/x', '')
    put(n, src)
    if c['k'] & 1:
        n = os.path.abspath(n)
    yield 'file name', tm.Template.compile(file=n)
    yield 'instance from file name', lambda searchList: tm.Template(
        file=n, searchList=searchList)
    cls = tm.Template.compile(file=n, className='Cn', moduleName='Mn')
    named(cls, 'Cn')
    yield 'file name, named', cls
    if c['enc']:
        put(n, src, c['enc'])
        yield 'file name, encoding setting', tm.Template.compile(
            file=n, compilerSettings={'encoding': c['enc']})


def r_fileobj(src, c):
    n = put('a.tmpl', src)
    with io.open(n, encoding='utf-8', newline='') as f:
        yield 'file object', tm.Template.compile(file=f)
    with io.open(n, encoding='utf-8', newline='') as f:
        t = tm.Template(file=f)
    yield 'instance from file object', lambda searchList: (
        t.searchList().extend(searchList), t)[1]
    yield 'StringIO', tm.Template.compile(file=io.StringIO(src, newline=''))


def representable(src, c):
    """Module source needs an encoding that holds it."""
    try:
        src.encode(c['enc'] or 'ascii')
        return True
    except UnicodeError:
        return False


def r_module(src, c):
    """Module source: executed, and imported from a file."""
    if not representable(src, c):
        return
    kw = {}
    if c['k'] & 1:
        kw['className'] = 'K' + c['name']
    code = tm.Template.compile(source=src, returnAClass=False,
                               moduleName=c['name'], **kw)
    expect(isinstance(code, bytes), 'module source is %r', type(code))
    ns = {'__name__': 'executed'}
    exec(compile(code, 'executed.py', 'exec'), ns)
    name = kw.get('className') or c['name']
    expect(name in ns, 'no class %s in the module', name)
    named(ns[name], name)
    yield 'module source', ns[name]
    with open(c['name'] + '.py', 'wb') as f:
        f.write(code)
    sys.path.insert(0, os.getcwd())
    import importlib
    importlib.invalidate_caches()
    mod = importlib.import_module(c['name'])
    named(getattr(mod, name), name, c['name'])
    yield 'module imported', getattr(mod, name)
    # from a file name
    fn = put('f.tmpl', src)
    code = tm.Template.compile(file=fn, returnAClass=False,
                               moduleName='other')
    ns = {'__name__': 'executed2'}
    exec(compile(code, 'executed2.py', 'exec'), ns)
    named(ns['other'], 'other')
    yield 'module source of a file', ns['other']


def r_compiler(src, c):
    from Cheetah.Compiler import Compiler
    comp = Compiler(source=src, moduleName='mm', mainClassName=c['name'])
    for k in range(2):
        code = str(comp) if c['k'] & 1 else comp.getModuleCode()
        ns = {'__name__': 'mm'}
        exec(compile(code, 'mm.py', 'exec'), ns)
        yield 'Compiler', ns[c['name']]


def r_cli(src, c):
    if not representable(src, c):
        return
    n = c['name']
    args = ['cheetah', 'compile', '--quiet']
    dst = n
    enc = 'utf-8'
    if c['enc'] and c['k'] & 1:
        enc = c['enc']
        args += ['--encoding', enc]
    if c['k'] & 2:
        args += ['--odir', 'o']
        dst = 'o/' + n
    if c['k'] & 4:
        args += ['--idir', 'i']
        put('i/%s.tmpl' % n, src, enc)
    else:
        put('%s.tmpl' % n, src, enc)
    CW.CheetahWrapper().main(args + [n + ('.tmpl' if c['j'] & 1 else '')])
    sys.path.insert(0, os.path.dirname(os.path.abspath(dst)))
    import importlib
    importlib.invalidate_caches()
    mod = importlib.import_module(n)
    same(os.path.abspath(mod.__file__), os.path.abspath(dst + '.py'),
         'module imported from')
    named(getattr(mod, n), n, n)
    yield 'command line', getattr(mod, n)


def r_load(src, c):
    n = c['name']
    dirs = ['', 'views', 'views/sub', './views', 'views//sub', 'views/', '',
            'a b']
    p = dirs[c['j']]
    ext = '.tmpl' if not c['k'] & 1 else '.txt'
    put(os.path.join(p, n + ext), src)
    full = os.path.join(p, n)
    if c['k'] & 2:
        full = os.path.abspath(full)
    if ext == '.txt' or c['k'] & 4:
        full += ext
    mod = LT.loadTemplateModule(full)
    same(mod.__name__, n, 'module name')
    named(getattr(mod, n), n, n)
    yield 'loadTemplateModule', getattr(mod, n)
    # the second time the compiled module is loaded
    cls = LT.loadTemplateClass(full)
    named(cls, n, n)
    yield 'loadTemplateClass again', cls
    shutil.rmtree(os.path.join(p, '__pycache__'), ignore_errors=True)
    yield 'loadTemplateClass from source', LT.loadTemplateClass(full)
    py = os.path.join(p, n) + '.py'
    if os.path.exists(py):
        os.unlink(py)
    shutil.rmtree(os.path.join(p, '__pycache__'), ignore_errors=True)
    yield 'loadTemplateClass from template', LT.loadTemplateClass(full)


def r_hook(src, c):
    import importlib  # noqa: F401
    import traceback  # noqa: F401
    import linecache  # noqa: F401
    n = c['name']
    pkg = ['', 'pk', 'pk/sub'][c['j'] % 3]
    ext = '.tmpl' if not c['k'] & 1 else '.txt'
    if pkg:
        put('pk/__init__.py', '')
        put(pkg + '/__init__.py', '')
    put(os.path.join(pkg, n + ext), src)
    put('user.py', 'from %s import %s\nK = %s.%s\n' % (
        pkg.replace('/', '.') or n, n, n, n) if pkg else
        'from %s import %s\nK = %s\n' % (n, n, n))
    sys.path.insert(0, os.getcwd())
    if c['k'] & 2:
        os.mkdir('cache')
        IH.setCacheDir(os.path.abspath('cache'))
    IH.install(templateFileExtensions=(ext,))
    try:
        full = (pkg.replace('/', '.') + '.' if pkg else '') + n
        __import__(full)
        mod = sys.modules[full]
        named(getattr(mod, n), n)
        yield 'import hook', getattr(mod, n)
        expect(sys.modules[full] is mod, 'module replaced')
        import user
        expect(user.K is getattr(mod, n), 'a second class %r %r', user.K,
               getattr(mod, n))
        if c['k'] & 2:
            same(os.path.exists(os.path.join(pkg, n + '.py')), False,
                 'module file beside the template')
            expect(os.listdir('cache'), 'nothing in the cache directory')
        # a new process finds the compiled module
        del sys.modules[full]
        __import__(full)
        expect(sys.modules[full] is not mod, 'not imported again')
        yield 'import hook again', getattr(sys.modules[full], n)
    finally:
        IH.uninstall()
    if not c['k'] & 2:
        # and Python alone can import what the hook wrote
        del sys.modules[full]
        importlib.invalidate_caches()
        yield 'import after the hook', getattr(
            importlib.import_module(full), n)


ROUTES = [r_source, r_bytes, r_filename, r_fileobj, r_module, r_compiler,
          r_cli, r_load, r_hook]
# routes that read text files translate line endings
TEXT_MODE = {'r_filename', 'r_module', 'r_cli', 'r_load', 'r_hook'}


def child(fn, src, c):
    """[(label, outcome)] of a route, computed in a forked child."""
    d = tempfile.mkdtemp(prefix='case-')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(d)
            try:
                res = []
                for label, cls in fn(src, c):
                    res.append((label, rendered(cls, c)))
                msg = ('res', res)
            except Violation as e:
                msg = ('violation', '%s: %s' % (fn.__name__, e))
            except BaseException:
                import traceback
                msg = ('failed', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(msg, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    if not data:
        raise Violation('%s: the process died' % fn.__name__)
    kind, val = pickle.loads(data)
    if kind == 'violation':
        raise Violation('%s\ntemplate %r' % (val, src))
    if kind == 'failed':
        raise Violation('%s failed for template %r\n%s' % (
            fn.__name__, src, val[-2000:]))
    return val


def expected(c):
    src, out, norm = build(c)
    exp, _ = lang.model(norm, lang.make_env(c['env']))
    if exp is None:
        raise Skip()
    if exp[0] == 'ok':
        exp = ('ok', out + exp[1])
    return src, exp


def check(c):
    src, exp = expected(c)
    labs = ['enc-%s' % c['enc']]
    for k in c['routes']:
        fn = ROUTES[k]
        s, e = src, exp
        if c['eol'] != 'n' and fn.__name__ in TEXT_MODE:
            s, e = expected(dict(c, eol='n'))
        got = child(fn, s, c)
        for label, res in got:
            same(res, e, '%s: %s of template %r' % (fn.__name__, label, s))
        if got:
            labs.append(fn.__name__)
    if c['parts']:
        labs.append('parts')
    labs.append(exp[0])
    return labs


# ------------------------------------------------------- run as a script
def script_case(d):
    c = case(d, PLAIN)
    c['data'] = d.pick(['json', 'pickle', 'json-', 'pickle-', 'jsonenv'])
    c['enc'] = d.pick([None, 'utf-8', 'latin-1', 'koi8-r', 'shift_jis'])
    c['eol'] = 'n'
    return c


def script(c):
    src, exp = expected(c)
    if not representable(src, c):
        raise Skip()
    # the given variables come before those of the template itself
    at = src.index('\n') + 1 if src.startswith('#encoding') else 0
    src = src[:at] + '#attr $own_ = 0\n$own_\n' + src[at:]
    if exp[0] == 'ok':
        exp = ('ok', 'given\n' + exp[1])
    d = tempfile.mkdtemp(prefix='case-')
    try:
        code = tm.Template.compile(source=src, returnAClass=False,
                                   moduleName=c['name'])
        path = os.path.join(d, c['name'] + '.py')
        with open(path, 'wb') as f:
            f.write(code)
        env = dict(lang.make_env(c['env']), own_='given')
        env['pairs'] = [list(x) for x in env['pairs']]
        jsn, pkl = json.dumps(env).encode(), pickle.dumps(env)
        for n, b in (('d.json', jsn), ('d.pkl', pkl)):
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
        e = {'PATH': os.environ['PATH'], 'PYTHONIOENCODING': 'utf-8',
             'PYTHONPATH': os.environ.get('PYTHONPATH')
             or os.path.dirname(os.path.dirname(CW.__file__)),
             'PYTHONDONTWRITEBYTECODE': '1'}
        args, stdin = {
            'json': (['--json', 'd.json'], b''),
            'pickle': (['--pickle', 'd.pkl'], b''),
            'json-': (['--json', '-'], jsn),
            'pickle-': (['--pickle', '-'], pkl),
            'jsonenv': (['--env', '--json', 'd.json'], b''),
        }[c['data']]
        if c['data'] == 'jsonenv':
            e['s'] = 'shadowed'
        p = subprocess.run([sys.executable, path] + args, input=stdin, cwd=d,
                           env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        got = p.stdout.decode('utf-8')
        if exp[0] == 'ok':
            if p.returncode:
                raise Violation('script failed for %r\n%s' % (
                    src, p.stderr.decode()[-1500:]))
            same(got, exp[1] + '\n', 'output of the script of %r' % src)
        else:
            expect(p.returncode != 0, 'script succeeded for %r', src)
            expect(exp[1] in p.stderr.decode(), 'no %s in %s', exp[1],
                   p.stderr.decode()[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ['script', c['data'], exp[0]] + (['parts'] if c['parts'] else [])


PROPS = [
    Prop('routes', case, check, 2400, shards=8,
         nontrivial=lambda c, l: 'ok' in l and 'parts' in l
         and any(x.startswith('r_') for x in l),
         rule='a generated program with text of the encoding in several '
              'lexical places, compiled by one to three of nine routes and '
              'compared with the reference interpreter; non-trivial = '
              'renders, with encoded text, by at least one route'),
    Prop('script', script_case, script, 160, shards=8,
         nontrivial=lambda c, l: 'ok' in l and 'parts' in l,
         rule='a compiled module run as a script with its data given by '
              '--env, --json or --pickle; non-trivial = it renders'),
]
