"""C21: web input becomes template variables of the declared type.

Every case is one request.  CGI requests run in a forked child, as one CGI
process serves one request; Webware requests go through a stand-in for the
request object.  The expected dictionary follows the documentation of
webInput().
"""
import io
import os
import pickle
import pprint
import sys
from urllib.parse import urlencode

from vlib.core import Prop, Violation, expect, same
from vlib import tm

NAMES = ['a', 'b', 'height', 'days', 'x_1', 'respond2', 'zip-code']
VALUES = ['5', ' 7 ', '-3', 'x', '1.5', '1e3', 'nan', 'inf', '1_0', '٣',
          'é ü', 'a&b=c;d', '0', '0x1f', ' ', '+8', '%41+', "it's", 'None',
          '99999999999999999999', 'two\nlines', '\ud7ff']
CONSTS = ['', 0, None, 'D', -1, 2.5, [], 'ValueError', 'KeyError', 'NNIE',
          'RuntimeError']


class Boom(Exception):
    pass


def const(v):
    if isinstance(v, str):
        return {'ValueError': ValueError, 'KeyError': KeyError,
                'RuntimeError': RuntimeError, 'NNIE': nnie()}.get(v, v)
    return v


def nnie():
    return tm.Template.NonNumericInputError


def name(d):
    n = d.pick(NAMES)
    return n + d.wpick([(6, ''), (4, ':int'), (4, ':float'), (1, ':')]
                       + [(1, ':str'), (0, '')][:1 if d.chance(6) else 0])


def fields(d, cgi):
    out = []
    for n in d.sub(NAMES):
        key = n + d.wpick([(5, ''), (2, ':int'), (2, ':float')])
        out.append((key, d.list(lambda: d.pick(VALUES), 1, 3)))
    return sorted(dict(out).items())


def case(d):
    kind = d.wpick([(3, 'get'), (2, 'post'), (2, 'multipart'),
                    (2, 'nocgi'), (6, 'webware')])
    web = kind == 'webware'
    srcs = {s: fields(d, not web) for s in ('fcvs' if web else 'f')}
    files = [(n, d.pick([b'5', b'\x00\xff', b'abc\r\ndef', b'42']
                        + [b''] * (n == 'upload')))
             for n in ('upload', 'up:int')] if kind == 'multipart' else []
    calls = []
    for _ in range(d.wpick([(6, 1), (2, 2)])):
        have = [k for s in srcs.values() for k, _ in s] + [k for k, _ in files]

        def nm():
            if have and not d.chance(3):
                n = d.pick(have)
                if ':' not in n and d.chance(3):
                    n += d.pick([':int', ':float', ':'])
                elif ':' in n and d.chance(3):
                    n = n.split(':')[0]
                return n
            return name(d)
        kw = {}
        for k in ('default', 'defaultInt', 'defaultFloat', 'badInt',
                  'badFloat'):
            if d.chance(3):
                kw[k] = d.pick(CONSTS)
        calls.append(dict(names=d.list(nm, 0, 4), multi=d.list(nm, 0, 2),
                          kw=kw, debug=d.chance(5),
                          src=d.wpick([(6, 'f'), (2, 'v'), (1, 'c'),
                                       (1, 's'), (1, 'F')]
                                      + [(3, 'C'), (3, 'S'), (3, 'v')] * web
                                      + [(1, 'q')] * d.chance(5))))
    return dict(kind=kind, srcs=srcs, files=files, calls=calls,
                tmpl=d.chance(2),
                shadow=d.sub(['searchList', 'global', 'attr']))


# ---- model

def model_call(c, call):
    """('ok', dict) or ('raise', exception types)."""
    src = call['src'].lower()
    if src not in 'fcvs':
        return 'raise', (TypeError, ValueError)
    if c['kind'] != 'webware':
        if src in 'cs':
            return 'raise', (RuntimeError,)
        src = 'f'
        data = {k: [x for x in v if x] for k, v in c['srcs']['f']}
        data.update((k, [v]) for k, v in c['files'])
        data = {k: v for k, v in data.items() if v}
    elif src == 'v':
        data = dict(c['srcs']['c'])
        data.update(dict(c['srcs']['f']))
    else:
        data = dict(c['srcs'][src])
    kw = dict(default='', defaultInt=0, defaultFloat=0.0, badInt=0,
              badFloat=0.0)
    kw.update({k: const(v) for k, v in call['kw'].items()})

    class Raised(Exception):
        pass

    def use(v):
        if isinstance(v, type):
            raise Raised(v)
        return v
    out = {}
    try:
        for n, multi in [(n, 0) for n in call['names']] \
                + [(n, 1) for n in call['multi']]:
            short, _, ext = n.partition(':')
            vals = data.get(n)
            if vals is None:
                vals = data.get(short, [])
            if ext not in ('', 'int', 'float'):
                return 'raise', (TypeError,)
            if ext:
                bad = kw['bad' + ext.capitalize()]
                conv = int if ext == 'int' else float
                done = []
                for v in vals:
                    try:
                        done.append(conv(v))
                    except (ValueError, TypeError):
                        done.append(use(bad))
                vals = done
            if multi:
                out[short] = list(vals)
            elif vals:
                out[short] = vals[0]
            else:
                out[short] = use(kw['default' + ext.capitalize()])
    except Raised as e:
        return 'raise', (e.args[0],)
    return 'ok', out


# ---- the real thing

def doublet(v):
    return 'from %s' % v


class Request:
    def __init__(self, srcs):
        self.srcs = {k: dict(v) for k, v in srcs.items()}
        self.srcs['v'] = dict(self.srcs['c'], **self.srcs['f'])

    def get(self, s, name, default):
        v = self.srcs[s].get(name)
        if v is None:
            return default
        return v[0] if len(v) == 1 else list(v)

    def field(self, name, default=None):
        return self.get('f', name, default)

    def cookie(self, name, default=None):
        return self.get('c', name, default)

    def value(self, name, default=None):
        return self.get('v', name, default)

    def session(self):
        return Session(self)


class Go:
    """Not called by name lookup."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self):
        return self.fn()


class Session:
    def __init__(self, req):
        self.req = req

    def value(self, name, default=None):
        return self.req.get('s', name, default)


READ = [n for n in NAMES if '-' not in n]


def template():
    src = '#attr $height = "attr"\n#set global $b = "global"\n' \
          '#if $varExists("go")\n#silent $go()\n#end if\n'
    src += ''.join('#if $varExists("%s")#<$getVar("%s")>#else#<>#end if#\n'
                   % (n, n) for n in READ)
    return tm.compile_(src)


def run_calls(c, klass):
    """Results of the calls, then the rendered template."""
    ns = {n: 'sl' for n in ('a', 'days')} if 'searchList' in c['shadow'] \
        else {}
    results = []

    def go():
        for call in c['calls']:
            kw = {k: const(v) for k, v in call['kw'].items()}
            out = io.StringIO()
            old = sys.stdout
            sys.stdout = out
            try:
                dic = t.webInput(call['names'], call['multi'],
                                 src=call['src'], debug=call['debug'], **kw)
            except Exception as e:
                r = ('raise', [x.__name__ for x in type(e).__mro__], None)
            else:
                r = ('ok', dict(dic), out.getvalue())
            finally:
                sys.stdout = old
            results.append(r)
        return ''
    t = klass(searchList=[ns])
    if c['kind'] == 'webware':
        t._CHEETAH__isControlledByWebKit = True
        req = Request(c['srcs'])
        t.request = lambda: req
    if c['tmpl']:
        ns['go'] = Go(go)
    else:
        t.respond()        # sets the global
        go()
    text = t.respond()
    return results, text


def child(c):
    """Run a CGI request in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = [(k, x) for k, v in c['srcs']['f'] for x in v]
            env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': ''}
            body = b''
            if c['kind'] in ('get', 'nocgi'):
                env['QUERY_STRING'] = urlencode(data)
            elif c['kind'] == 'post':
                body = urlencode(data).encode()
                env['REQUEST_METHOD'] = 'POST'
                env['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
            else:
                parts = []
                for k, v in data:
                    parts.append(b'--BoUnD\r\nContent-Disposition: form-data;'
                                 b' name="' + k.encode() + b'"\r\n\r\n'
                                 + v.encode() + b'\r\n')
                for k, v in c['files']:
                    parts.append(b'--BoUnD\r\nContent-Disposition: form-data;'
                                 b' name="' + k.encode() +
                                 b'"; filename="f.bin"\r\nContent-Type: '
                                 b'application/octet-stream\r\n\r\n'
                                 + v + b'\r\n')
                body = b''.join(parts) + b'--BoUnD--\r\n'
                env['REQUEST_METHOD'] = 'POST'
                env['CONTENT_TYPE'] = 'multipart/form-data; boundary=BoUnD'
            if body:
                env['CONTENT_LENGTH'] = str(len(body))
            for k in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
                os.environ.pop(k, None)
            os.environ.update(env)
            sys.stdin = io.TextIOWrapper(io.BytesIO(body), encoding='utf-8')
            sys.argv = ['x']
            res = run_calls(c, NOCGI[0] if c['kind'] == 'nocgi' else TMPL[0])
            os.write(w, pickle.dumps(res))
        except BaseException as e:
            try:
                import traceback
                os.write(w, pickle.dumps('%s: %s\n%s' % (
                    type(e).__name__, e, traceback.format_exc()[-1500:])))
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    res = pickle.loads(b''.join(chunks))
    if isinstance(res, str):
        raise Violation('%s request %r: %s' % (c['kind'], c, res))
    return res


TMPL, NOCGI = [], []


def boot():
    if TMPL:
        return
    TMPL.append(template())
    # the same package in a Python without the cgi module
    saved = {k: sys.modules.pop(k) for k in list(sys.modules)
             if k == 'Cheetah' or k.startswith('Cheetah.')}
    cgi = sys.modules.get('cgi')
    sys.modules['cgi'] = None
    try:
        from Cheetah.Template import Template
        src = '#attr $height = "attr"\n#set global $b = "global"\n' \
              '#if $varExists("go")\n#silent $go()\n#end if\n'
        src += ''.join('#if $varExists("%s")#<$getVar("%s")>#else#<>'
                       '#end if#\n' % (n, n) for n in READ)
        NOCGI.append(Template.compile(src))
    finally:
        if cgi is None:
            del sys.modules['cgi']
        else:
            sys.modules['cgi'] = cgi
        for k in list(sys.modules):
            if k == 'Cheetah' or k.startswith('Cheetah.'):
                del sys.modules[k]
        sys.modules.update(saved)


def eq(a, b):
    """Equal with types; nan equals nan."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    return a == b or (a != a and b != b)


def check(c):
    boot()
    if c['kind'] == 'webware':
        results, text = run_calls(c, TMPL[0])
    else:
        results, text = child(c)
    labs = [c['kind']]
    top = {}
    # a template calls go() in one render, otherwise only Python does
    same(len(results), len(c['calls']), 'calls made')
    for call, got in zip(c['calls'], results):
        what = 'webInput(%r, %r, src=%r, %r) on the %s request %r %r' % (
            call['names'], call['multi'], call['src'], call['kw'], c['kind'],
            c['srcs'], c['files'])
        kind, exp = model_call(c, call)
        if kind == 'raise':
            expect(got[0] == 'raise' and
                   any(x.__name__ in got[1] for x in exp),
                   '%s: expected %s, got %r', what,
                   '/'.join(x.__name__ for x in exp), got)
            labs.append('raises')
            continue
        expect(got[0] == 'ok', '%s: expected %r, got %r', what, exp, got)
        expect(set(got[1]) == set(exp) and
               all(eq(got[1][k], exp[k]) for k in exp),
               '%s:\n   expected %r\n   actual   %r', what, exp, got[1])
        if call['debug']:
            same(got[2], '<PRE>\n%s\n</PRE>\n\n\n' % pprint.pformat(exp),
                 'debug output of %s' % what)
        else:
            same(got[2], '', 'standard output of %s' % what)
        top.update(exp)
        labs.append('ok')
        if any(':' in n for n in call['names'] + call['multi']):
            labs.append('converted')
        if call['multi']:
            labs.append('multi')
    ns = {'height': 'attr', 'b': 'global'}
    if 'searchList' in c['shadow']:
        ns.update(a='sl', days='sl')
    ns.update(top)
    exp = ''.join('<%s>\n' % ('' if ns.get(n) is None else ns[n])
                  for n in READ)
    same(text, exp, 'placeholders after %r on the %s request %r'
         % (c['calls'], c['kind'], c['srcs']))
    return labs


PROPS = [
    Prop('requests', case, check, 24000, shards=7,
         nontrivial=lambda c, l: len(l) > 2,
         rule='requests (CGI GET/POST/multipart/without cgi module, Webware) '
              'with up to 7 fields, 1-2 calls; non-trivial = values were '
              'converted, several or an error was due'),
]
