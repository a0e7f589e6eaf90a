"""C18: the command line tool writes exactly the files it should.

Every case runs CheetahWrapper in a forked child (as an unprivileged user)
inside a directory tree of its own; the whole tree before and after is
compared with a model of the documented path mapping.
"""
import json
import os
import pickle
import shutil
import sys
import tempfile

from vlib.core import Prop, Skip, Violation, expect, same
from vlib import tm  # noqa: F401  (boots Cheetah)

import Cheetah.CheetahWrapper as CW
import Cheetah.ImportHooks  # noqa: F401  (before giving up privileges)

NAMES = ['a', 'b', 'sub/a', 'sub/c', 'sub/deep/d', 'x1', 'other/a', 'A_b',
         'sub2/e', 'aa', 'sub/b', 'sub.tmpl/a', 'x.txt.d/tmpl', 'other.t.t/a']


def case(d):
    cmd = d.pick(['compile', 'fill', 'fill', 'c', 'f'])
    idir = d.pick([None, None, 'in', 'in', './in', 'in/', 'in/../in', 'ABS',
                   'in/sub', '.'])
    odir = d.pick([None, None, 'out', 'out/', './out', 'deep/er/out', 'ABSO',
                   'in', '.'])
    iext = d.pick([None, None, None, '.tmpl', 'tmpl', '.txt', 'txt', '.t.t'])
    oext = d.pick([None, None, '.out', 'xyz', '.py'])
    ext = '.tmpl' if iext is None else '.' + iext.lstrip('.')
    files = []
    for n in d.sub(NAMES):
        files.append((n + ext, d.i(0, 4)))
    if not files:
        files.append(('a' + ext, 0))
    for n in d.sub(['a', 'sub/a', 'noext', 'a.bin', 'b.tmpl.old', 'b-ad.tmpl',
                    'sub/z.html', 'tmpl']):
        if d.chance(3):
            files.append((n, d.i(0, 4)))
    # existing outputs and backups, relative to the output directory
    old = [(n + d.pick(['.html', '.py', '.out', '.xyz', '.html.bak']),
            'old %s' % d.i(0, 9))
           for n in d.sub(NAMES) if d.chance(2)]
    args = []
    for _ in range(d.i(0, 3)):
        k = d.i(0, 6)
        n = d.pick(files)[0]
        if k <= 2:
            args.append(n)
        elif k == 3 and n.endswith(ext):
            args.append(n[:-len(ext)])
        elif k == 4:
            args.append(d.pick(['sub', 'sub/deep', 'other', '.', 'sub/',
                                'sub.tmpl', 'x.txt.d']))
        elif k == 5:
            args.append('./' + n)
        else:
            args.append(d.pick(['missing', 'sub/../' + n, n + 'x']))
    return dict(cmd=cmd, idir=idir, odir=odir, iext=iext, oext=oext,
                files=sorted(set(files)), old=sorted(set(old)), args=args,
                recurse=d.chance(2) if args else not d.chance(8),
                flat=d.chance(3), nobackup=d.chance(3), stdout=d.chance(5),
                quiet=d.chance(2), parallel=d.pick([0, 0, 0, 0, 2, 3]),
                data=d.sub(['env', 'pickle', 'json']),
                settings=d.chance(4), shbang=d.chance(5),
                enc=d.pick([None, None, None, 'utf-8', 'latin-1']),
                joined=d.chance(2))


# ---- templates with a known rendering

def source(i, n, enc):
    """Text of template i in file n."""
    body = [
        'T0 %s\n' % n,
        'é %s #if $varExists("x")#$x#else#none#end if#\n' % n,
        '// %s ## c\n$len("ab")\nend' % n,
        '#for $i in range(3)\n$i %s\n#end for\n' % n,
        '$y(3) %s\n#def y(k)\n$k!\n#end def\n' % n,
    ][i]
    if i == 1:
        body = '#encoding %s\n' % (enc or 'utf-8') + body
    return body


def rendered(i, n, x, settings):
    return [
        'T0 %s\n' % n,
        'é %s %s\n' % (n, x),
        ('' if settings else '// %s \n' % n) + '2\nend',
        ''.join('%d %s\n' % (k, n) for k in range(3)),
        '3!\n %s\n' % n,
    ][i]


# ---- running

def snapshot(top):
    out = {}
    for root, dirs, files in os.walk(top):
        r = os.path.relpath(root, top)
        for x in dirs:
            out[os.path.normpath(os.path.join(r, x))] = None
        for x in files:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.normpath(os.path.join(r, x))] = f.read()
    return out


def run(argv, cwd, env, stdin=b'', log=None):
    """Exit code, stdout and stderr of the tool."""
    o, e, i = (os.path.join(log, x) for x in ('o', 'e', 'i'))
    with open(i, 'wb') as f:
        f.write(stdin)
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            fo = os.open(o, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            fe = os.open(e, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            fi = os.open(i, os.O_RDONLY)
            for a, b in ((fi, 0), (fo, 1), (fe, 2)):
                os.dup2(a, b)
            os.chdir(cwd)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            os.environ.clear()
            os.environ.update(env)
            sys.dont_write_bytecode = True
            sys.stdin = open(0, encoding='utf-8', closefd=False)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            sys.argv = ['cheetah'] + argv
            try:
                CW._cheetah()
                code = 0
            except SystemExit as x:
                code = x.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    sys.stderr.write('%s\n' % (code,))
                    code = 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
    out = []
    for x in (o, e):
        with open(x, 'rb') as f:
            out.append(f.read())
        os.unlink(x)
    return code, out[0], out[1]


def opened(p):
    """Let the unprivileged child reach its directory."""
    if os.getuid() == 0:
        os.umask(0o022)
        os.chmod(p, 0o755)
        while '/verif-' in p:
            os.chmod(p, 0o755)
            p = os.path.dirname(p)


def write(path, data, owned):
    parts = []
    p = os.path.dirname(path)
    while not os.path.isdir(p):
        parts.append(p)
        p = os.path.dirname(p)
    for p in reversed(parts):
        os.mkdir(p)
        os.chown(p, *owned)
    with open(path, 'wb') as f:
        f.write(data)
    os.chown(path, *owned)


def plan(c, case_dir, before):
    """(abort, bundles): the sources in order and where they go."""
    top = os.path.join(case_dir, 'w')
    idir = c['idir'] or ''
    if idir == 'ABS':
        idir = os.path.join(top, 'in')
    odir = c['odir'] or ''
    if odir == 'ABSO':
        odir = os.path.join(case_dir, 'abs')
    iext = '.tmpl' if c['iext'] is None else '.' + c['iext'].lstrip('.')
    isc = c['cmd'][0] == 'c'
    oext = ('.py' if isc else '.html') if c['oext'] is None \
        else '.' + c['oext'].lstrip('.')

    def full(p):
        return os.path.normpath(os.path.join(top, p))

    def rel(p):
        return os.path.relpath(p, case_dir)

    def under(p):
        r = rel(full(p))
        return sorted(x for x in before if before[x] is not None
                      and (r == '.' or x.startswith(r + '/'))
                      and x.endswith(iext))

    base_dir = rel(full(idir or '.'))
    srcs = []
    if not c['args']:
        if not c['recurse']:
            return 'usage', []
        srcs = under(idir or '.')
    else:
        for a in c['args']:
            p = full(os.path.join(idir, a))
            r = rel(p)
            # 'sub/../a' is only a path if 'sub' exists
            if '/../' in a and rel(full(os.path.join(idir, 'sub'))) \
                    not in before:
                raise Skip()
            if r in before and before[r] is None or r == '.' \
                    or p == top:
                if not c['recurse']:
                    return 'directory', []
                srcs += under(os.path.join(idir, a))
            elif r in before:
                if a.endswith('/'):
                    raise Skip()
                srcs.append(r)
            elif not a.endswith(iext) and r + iext in before \
                    and before[r + iext] is not None:
                srcs.append(r + iext)
    bundles = []
    for s in srcs:
        b = os.path.relpath(s, base_dir)
        if b.startswith('..'):
            raise Skip()
        if b.endswith(iext):
            b = b[:-len(iext)]
        if c['flat']:
            b = os.path.basename(b)
        bundles.append((s, rel(full(os.path.join(odir, b + oext))),
                        os.path.basename(b)))
    if c['flat']:
        if len({s for s, _, _ in bundles}) < len(bundles):
            raise Skip()
        if len({x for _, x, _ in bundles}) < len(bundles):
            return 'collision', bundles
    return None, bundles


def check(c):
    tmp = tempfile.mkdtemp()
    try:
        return check_in(c, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(c, tmp):
    isc = c['cmd'][0] == 'c'
    root = os.getuid() == 0
    owned = (65534, 65534) if root else (os.getuid(), os.getgid())
    opened(tmp)
    case_dir = os.path.join(tmp, 'c')
    for x in (case_dir, os.path.join(case_dir, 'w')):
        os.mkdir(x)
        os.chown(x, *owned)
    top = os.path.join(case_dir, 'w')
    log = os.path.join(tmp, 'log')
    os.mkdir(log)
    enc = c['enc']
    idir = {None: '.', 'ABS': 'in', 'in/sub': 'in/sub', '.': '.'}.get(
        c['idir'], 'in')
    odir = {None: '.', 'ABSO': '../abs', '.': '.', 'in': 'in',
            'deep/er/out': 'deep/er/out'}.get(c['odir'], 'out')
    what = {}
    for n, i in c['files']:
        p = os.path.normpath(os.path.join(top, idir, n))
        if os.path.exists(p):
            continue
        write(p, source(i, n, enc).encode(enc or 'utf-8'), owned)
        what[os.path.relpath(p, case_dir)] = (i, n)
    for n, text in c['old']:
        p = os.path.normpath(os.path.join(top, odir, n))
        if not os.path.exists(p):
            write(p, text.encode(), owned)
    data = {}
    argv = [c['cmd']]
    env = {}

    def opt(name, v):
        if c['joined']:
            argv.append('%s=%s' % (name, v))
        else:
            argv.extend([name, v])
    x = 'none'
    if 'env' in c['data']:
        argv.append('--env')
        env['x'] = x = 'from env'
    if 'pickle' in c['data']:
        write(os.path.join(log, 'p'), pickle.dumps({'x': 'from pickle'}),
              owned)
        opt('--pickle', os.path.join(log, 'p'))
        x = 'from pickle'
    if 'json' in c['data']:
        write(os.path.join(log, 'j'), json.dumps({'x': 'from json'}).encode(),
              owned)
        opt('--json', os.path.join(log, 'j'))
        x = 'from json'
    for name in ('idir', 'odir', 'iext', 'oext'):
        v = c[name]
        if v == 'ABS':
            v = os.path.join(top, 'in')
        elif v == 'ABSO':
            v = os.path.join(case_dir, 'abs')
        if v is not None:
            opt('--' + name, v)
    for name, flag in (('recurse', '-R'), ('flat', '--flat'),
                       ('nobackup', '--nobackup'), ('quiet', '--quiet')):
        if c[name]:
            argv.append(flag)
    if c['stdout']:
        argv.append('--stdout' if c['joined'] else '-p')
    if c['parallel']:
        opt('--parallel', str(c['parallel']))
    if c['settings']:
        opt('--settings', "commentStartToken='//', useFilters=False")
    if c['shbang']:
        opt('--shbang', '#!/bin/special')
    if enc:
        opt('--encoding', enc)
    argv += c['args']
    before = snapshot(case_dir)
    abort, bundles = plan(c, case_dir, before)
    outs = [b[1] for b in bundles]
    srcs = {b[0] for b in bundles}
    if srcs & set(outs) or srcs & {o + '.bak' for o in outs} \
            or set(outs) & {o + '.bak' for o in outs}:
        raise Skip()    # overwrites its own sources
    if c['parallel'] and len(set(outs)) < len(outs):
        raise Skip()
    # a destination that is a directory, or below a file
    for o in outs:
        if o in before and before[o] is None:
            raise Skip()
        p = os.path.dirname(o)
        while p:
            if before.get(p, None) is not None or p in outs:
                raise Skip()
            p = os.path.dirname(p)
    for b in bundles:
        if b[0] not in what:
            raise Skip()     # an earlier output taken as a source
    code, out, err = run(argv, top, env, log=log)
    after = snapshot(case_dir)
    ctx = 'cheetah %s on %r' % (' '.join(argv), sorted(before))

    def changed():
        return sorted(k for k in set(before) | set(after)
                      if before.get(k, 0) != after.get(k, 0))
    bad = isc and any('-' in b[2] or '.' in b[2] for b in bundles)
    labs = ['compile' if isc else 'fill']
    if abort or bad:
        expect(code != 0, '%s: exit status 0, expected a failure (%s)\n%s',
               ctx, abort or 'module name', err[-500:])
        if abort:
            same(changed(), [], 'files changed by %s, which must stop (%s)'
                 % (ctx, abort))
            if abort == 'collision':
                expect(b'ollision' in err, '%s: no word about collisions',
                       ctx)
        else:
            ok = set(outs) | {o + '.bak' for o in outs}
            for k in changed():
                expect(k in ok or os.path.basename(k) == '__init__.py'
                       or after.get(k, 0) is None, '%s wrote %s', ctx, k)
        return labs + [abort or 'bad name']
    expect(code == 0, '%s: exit status %s\n%s', ctx, code,
           err[-1500:].decode('utf-8', 'replace'))
    texts = []
    exp = dict(before)
    judge = {}
    for s, o, base in bundles:
        i, n = what[s]
        text = rendered(i, n, x, c['settings'])
        texts.append(text)
        if c['stdout']:
            continue
        if o in exp and not c['nobackup']:
            exp[o + '.bak'] = judge.get(o, exp[o])
            labs.append('backup')
        p = os.path.dirname(o)
        new = []
        while p and p not in exp:
            new.append(p)
            p = os.path.dirname(p)
        for p in new:
            exp[p] = None
            if isc:
                exp[p + '/__init__.py'] = b''
            labs.append('new directory')
        if isc:
            exp[o] = judge[o] = ('module', base, i, n)
        else:
            exp[o] = text.encode(enc or 'utf-8')
    same(sorted(after), sorted(exp), 'files present after %s' % ctx)
    for k in sorted(exp):
        if isinstance(exp[k], tuple):
            module(after[k], exp[k], x, c, k, ctx)
        else:
            same(after[k], exp[k], 'content of %s after %s' % (k, ctx))
    if c['stdout']:
        labs.append('stdout')
        if isc:
            if len(bundles) == 1:
                s, o, base = bundles[0]
                i, n = what[s]
                module(out, ('module', base, i, n), x, c, 'stdout', ctx)
            elif not bundles:
                same(out, b'', 'standard output of %s' % ctx)
        else:
            got = out.decode('utf-8')
            for t in texts:
                expect(t in got, 'standard output of %s lacks %r: %r', ctx,
                       t, got)
            same(len(got), sum(map(len, texts)),
                 'length of the standard output of %s (%r)' % (ctx, got))
    elif c['quiet']:
        same(out, b'', 'standard output of %s' % ctx)
    labs.append('%s sources' % min(len(bundles), 4))
    for k in ('flat', 'recurse', 'parallel', 'idir', 'odir', 'enc'):
        if c[k]:
            labs.append(k)
    return labs


def module(code, what, x, c, name, ctx):
    """The code of a compiled template defines its class."""
    _, base, i, n = what
    expect(isinstance(code, bytes), 'no module %s', name)
    if c['shbang']:
        expect(code.startswith(b'#!/bin/special\n'),
               '%s: %s begins with %r', ctx, name, code[:40])
    ns = {'__name__': base}
    try:
        exec(compile(code, base + '.py', 'exec'), ns)
        t = ns[base](searchList=[{'x': x}] if x != 'none' else [])
        got = t.respond()
    except Exception as e:
        raise Violation('%s: module %s: %s: %s' % (ctx, name,
                                                   type(e).__name__, e))
    same(got, rendered(i, n, x, c['settings']),
         'output of the module %s compiled by %s' % (name, ctx))


# ---- standard input

def stdin_case(d):
    return dict(cmd=d.pick(['compile', 'fill', 'f', 'c']), i=d.i(0, 4),
                data=d.sub(['env', 'json']), settings=d.chance(3))


def check_stdin(c):
    isc = c['cmd'][0] == 'c'
    tmp = tempfile.mkdtemp()
    try:
        opened(tmp)
        log, cwd = os.path.join(tmp, 'log'), os.path.join(tmp, 'w')
        os.mkdir(log)
        os.mkdir(cwd)
        if os.getuid() == 0:
            os.chown(cwd, 65534, 65534)
        argv, env, x = [c['cmd']], {}, 'none'
        if 'env' in c['data']:
            argv.append('--env')
            env['x'] = x = 'from env'
        if 'json' in c['data']:
            with open(os.path.join(log, 'j'), 'w') as f:
                f.write('{"x": "J"}')
            argv += ['--json', os.path.join(log, 'j')]
            x = 'J'
        if c['settings']:
            argv += ['--settings', "commentStartToken='//'"]
        code, out, err = run(argv + ['-'], cwd, env, log=log,
                             stdin=source(c['i'], 'n', None).encode('utf-8'))
        ctx = 'cheetah %s -' % ' '.join(argv)
        expect(code == 0, '%s: exit status %s\n%s', ctx, code, err[-1500:])
        same(snapshot(cwd), {}, 'files written by %s' % ctx)
        if not isc:
            same(out.decode('utf-8'),
                 rendered(c['i'], 'n', x, c['settings']),
                 'standard output of %s' % ctx)
        else:
            module(out, ('module', 'DynamicallyCompiledCheetahTemplate',
                         c['i'], 'n'), x,
                   {'shbang': False, 'settings': c['settings']},
                   'stdout', ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return ['compile' if isc else 'fill', 'x ' + x]


PROPS = [
    Prop('trees', case, check, 6000, shards=7,
         nontrivial=lambda c, l: any(x.endswith('sources')
                                     and x[0] != '0' for x in l)
         or len(l) == 2,
         rule='command lines over 20 options on generated trees of up to 19 '
              'files with existing outputs; non-trivial = at least one '
              'source was processed or the run had to stop'),
    Prop('stdin', stdin_case, check_stdin, 400, shards=1,
         rule='one template from standard input'),
]
