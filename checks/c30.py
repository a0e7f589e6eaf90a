"""C30: the web base classes build the page from the parts they are given."""
import os
import time

from vlib.core import Prop, expect, same
from vlib import tm

from Cheetah.DummyTransaction import DummyTransaction, DummyResponse, \
    TransformerResponse
from Cheetah.Templates import _SkeletonPage as SK
from Cheetah.Templates.SkeletonPage import SkeletonPage
from Cheetah.Tools.CGITemplate import CGITemplate
from Cheetah import Filters

WORDS = ['x', 'Main Page', 'a "q"', "it's", '<b>', '&amp;', '\xe9', '', 'A\nB',
         '$x', '#if', 'back\\slash', '100%', '{0}', 'text/html', 0, 7, None]
NAMES = ['keywords', 'Content-Type', 'robots', 'X', 'onLoad', 'BGCOLOR',
         '.cls', 'h1', '#id', 'p', 'k1', 'k2']


def word(d):
    return d.pick(WORDS)


def adict(d, hi=3, val=word):
    return [(n, val(d)) for n in d.sub(NAMES)[:d.i(0, hi)]]


def script(d):
    return d.pick([word, lambda d: [word(d), word(d)],
                   lambda d: (d.pick(['1.2', '', 1.5]), word(d))])(d)


ATTRS = ['title', 'docType', 'htmlTag', 'siteCopyrightName',
         'siteDomainName', 'siteCredits']


def page(d):
    sheets = adict(d, 4, lambda d: adict(d))
    return dict(
        attrs=[(a, word(d), d.i(0, 1)) for a in ATTRS if d.chance(3)],
        meta=d.pick([None, None] + [{'H': adict(d), 'N': adict(d)}] * 3),
        only=d.i(0, 5),
        sheets=sheets,
        order=d.shuffle([n for n, _ in sheets])[:d.i(0, 4)],
        libs=adict(d), js=adict(d, 3, script), jslibs=adict(d, 3, script),
        body=adict(d), blocks=d.i(0, 7), times=d.i(1, 3),
        change=d.i(0, 2), refresh=d.i(0, 1))


HEAD = '#extends Cheetah.Templates.SkeletonPage\n'
PARTS = ['body of $title and $v\n',
         '#def writeHeadTag\n<head>own</head>\n#end def\n',
         '#def bodyTag\n<body own>#slurp\n#end def\n']


def attr(name, val):
    return '#attr $%s = %r\n' % (name, val)


def txt(v):
    return '' if v is None else str(v)


DOC = '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" ' \
    '"http://www.w3.org/TR/html4/loose.dtd">'


def scripts(c):
    out = ''
    for name, v in c['js']:
        ver, code = v if isinstance(v, (list, tuple)) else ('', v)
        out += '<script language="JavaScript%s" type="text/javascript"><!--' \
            '\n%s\n//--></script>\n' % (ver, code)
    for name, v in c['jslibs']:
        ver, code = v if isinstance(v, (list, tuple)) else ('', v)
        out += '<script language="JavaScript%s" type="text/javascript" ' \
            'src="%s" />\n' % (ver, code)
    return out


def styles(c):
    out = ''.join('<link rel="stylesheet" type="text/css" href="%s" />\n'
                  % (v,) for n, v in c['libs'])
    if c['order']:
        d = dict(c['sheets'])
        out += '<style type="text/css"><!--\n' + ''.join(
            '\n%s {%s}' % (n, '; '.join('%s: %s' % x for x in d[n]))
            for n in c['order']) + '\n//--></style>\n'
    return out


def metas(c):
    m = c['meta']
    if m is None:
        h = [('keywords', 'Cheetah'),
             ('Content-Type', 'text/html; charset=iso-8859-1')]
        n = [('generator', 'Cheetah: The Python-Powered Template Engine')]
    else:
        h, n = m['H'], m['N']
        if c['only'] == 1:
            h = []
        if c['only'] == 2:
            n = []
    return ''.join('<meta http-equiv="%s" content="%s" />\n' % x for x in h) \
        + ''.join('<meta name="%s" content="%s" />\n' % x for x in n)


def header(c, a):
    head = '<head>own</head>\n' if c['blocks'] & 2 else \
        '<head>\n<title>%s</title>\n%s\n%s\n%s\n</head>\n' % (
            txt(a['title']), metas(c), styles(c), scripts(c))
    return '''%s
%s
<!-- This document was autogenerated by Cheetah (https://cheetahtemplate.org/).
Do not edit it directly!

Copyright %s - %s - All Rights Reserved.
Feel free to copy any javascript or html you like on this site,
provided you remove all links and/or references to %s
However, please do not copy any content or images without permission.

%s

-->


%s
''' % (txt(a['docType']), txt(a['htmlTag']), a['year'],
       txt(a['siteCopyrightName']), txt(a['siteDomainName']),
       txt(a['siteCredits']), head)


def rest(c, a):
    tag = '<body own>' if c['blocks'] & 4 else '<body%s>' % ''.join(
        ' %s="%s"' % (n.lower(), v) for n, v in c['body'])
    text = 'body of %s and %s\n' % (txt(a['title']), a['v']) \
        if c['blocks'] & 1 else '' if a['own'] else 'This skeleton page has no flesh. Its ' \
        'body needs to be implemented.\n'
    return '\n%s\n\n%s\n</body>\n</html>\n\n\n\n' % (tag, text)


def check_page(c):
    src = HEAD + ''.join(attr(n, v) for n, v, inst in c['attrs'] if not inst)
    src += ''.join(p for k, p in enumerate(PARTS) if c['blocks'] & 1 << k)
    cls = tm.must(lambda: tm.compile_(src), 'compiling %r' % src) \
        if c['blocks'] or any(not x[2] for x in c['attrs']) else SkeletonPage
    # a template that extends the skeleton gives the body
    ns = {'v': 'V0'}
    t = cls(searchList=[ns])
    other = SkeletonPage()
    a = dict(title='', docType=DOC, htmlTag='<html>',
             siteCopyrightName='Tavis Rudd', siteDomainName='www.example.com',
             siteCredits='Designed & Implemented by Tavis Rudd', v='V0',
             own=cls is not SkeletonPage)
    for n, v, inst in c['attrs']:
        if inst:
            setattr(t, n, v)
        a[n] = v
    if c['meta'] is not None:
        t._metaTags = {}
        if c['only'] != 1:
            t._metaTags['HTTP-EQUIV'] = dict(c['meta']['H'])
        if c['only'] != 2:
            t._metaTags['NAME'] = dict(c['meta']['N'])
    t._stylesheets = {n: dict(v) for n, v in c['sheets']}
    t._stylesheetsOrder = list(c['order'])
    t._stylesheetLibs.update(c['libs'])
    t._javascriptTags.update(c['js'])
    t._javascriptLibs.update(c['jslibs'])
    t._bodyTagAttribs.update(c['body'])
    a['year'] = time.strftime('%Y')
    what = 'page of %r with %r' % (src, c)
    same(t.metaTags(), metas(c), 'meta tags of ' + what)
    same(t.stylesheetTags(), styles(c), 'style sheets of ' + what)
    same(t.javascriptTags(), scripts(c), 'scripts of ' + what)
    head = header(c, a)
    for k in range(c['times']):
        same(str(t), head + rest(c, a), 'render %d of %s' % (k, what))
        if c['change'] == 1:        # the header is cached, the rest is not
            t.title = a['title'] = 'changed'
            ns['v'] = a['v'] = 'V%d' % (k + 1)
            if c['refresh']:
                t.refreshCache('header')
                head = header(c, a)
    # another page is not affected
    same((other.metaTags(), other.stylesheetTags(), other.javascriptTags(),
          other.bodyTag(), other.title),
         (metas(dict(c, meta=None)), '', '', '<body>', ''),
         'parts of another page after ' + what)
    return ['%s' % k for k in ('meta', 'order', 'libs', 'js', 'jslibs',
                               'body', 'blocks', 'attrs') if c[k]]


# ---- tags

def tag_case(d):
    size = d.pick([None, 0, 5, '7', 100])
    return dict(src=d.pick(['a.gif', '/x/y.png', 'p q.jpg', '']),
                alt=d.pick(['', 'alt text', 'x']), w=size,
                h=d.pick([None, 0, 5, '7']), border=d.pick([0, 1, '2']),
                tag=d.pick(['A', 'td', 'Input']), attrs=adict(d, 4))


class Pipe:
    def read(self):
        return ''


def check_tag(c):
    asked = []
    orig = os.popen
    t = SkeletonPage()
    try:
        # (image sizes are asked from an external program: stand-in)
        SK.os.popen = lambda cmd: asked.append(cmd) or Pipe()
        got = t.imgTag(c['src'], c['alt'], c['w'], c['h'], c['border'])
    finally:
        SK.os.popen = orig
    exp = '<img src="%s"' % c['src']
    if c['w']:
        exp += ' width="%s"' % c['w']
    if c['h']:
        exp += ' height="%s"' % c['h']
    exp += ' alt="%s" border="%s" />' % (c['alt'], c['border'])
    same(got, exp, 'image tag of %r' % (c,))
    same(t.formHTMLTag(c['tag'], dict(c['attrs'])), '<%s%s>' % (
        c['tag'].lower(), ''.join(' %s="%s"' % (n.lower(), v)
                                  for n, v in c['attrs'])),
         'tag of %r' % (c,))
    same(t.spacer(c['w'], c['h']), '<img src="spacer.gif" width="%s" '
         'height="%s" alt="" />' % (c['w'], c['h']), 'spacer')
    return ['sizes'] if c['w'] and c['h'] else ['no sizes']


# ---- CGI

def cgi_case(d):
    return dict(own=d.i(0, 1), text=d.pick(['', 'X: y\n\n', 'A\n']),
                steps=d.list(lambda: (d.pick([None, 'GET', 'POST', '']),
                                      d.i(0, 4) == 0), 1, 4),
                form=d.i(0, 1), body=d.pick(['hello\n', '$x', '', '<b>']))


def check_cgi(c):
    base = CGITemplate
    if c['own']:
        class base(CGITemplate):
            def cgiHeadersHook(self):
                return c['text']
    src = ['$cgiHeaders#slurp\n', '$cgiHeaders()#slurp\n'][c['form']] \
        + c['body']
    t = tm.compile_(src, baseclass=base)(searchList=[{'x': 'X'}])
    body = c['body'].replace('$x', 'X')
    hook = c['text'] if c['own'] else 'Content-type: text/html\n\n'
    old = os.environ.pop('REQUEST_METHOD', None)
    try:
        for method, webkit in c['steps']:
            os.environ.pop('REQUEST_METHOD', None)
            if method is not None:
                os.environ['REQUEST_METHOD'] = method
            t._CHEETAH__isControlledByWebKit = webkit
            cgi = method is not None and not webkit
            same(bool(t.isCgi()), cgi, 'isCgi for %r' % ((method, webkit),))
            same(t.respond(), (hook if cgi else '') + body,
                 'output of %r with request method %r' % (src, method))
    finally:
        os.environ.pop('REQUEST_METHOD', None)
        if old is not None:
            os.environ['REQUEST_METHOD'] = old
    return ['cgi' if m is not None and not w else 'no cgi'
            for m, w in c['steps']]


# ---- responses

def resp_case(d):
    def op():
        k = d.i(0, 6)
        w = d.pick(['a', '', '\n', 'x\xe9', '<&>', 'two\nlines'])
        return d.pick([('write', w), ('write', w), ('writeln', w),
                       ('writelines', d.list(lambda: d.pick(['p', '', 'q']),
                                             0, 3)),
                       ('get',), ('flush',), ('again',),
                       ('chunks', d.list(lambda: d.pick(['1', '', '2']),
                                         0, 3))])
    return dict(kind=d.i(0, 2), ops=d.list(op, 1, 10))


class Upper(Filters.Filter):
    def filter(self, val, **kw):
        return '<' + str(val).upper() + '>'


def check_resp(c):
    f = str
    if c['kind'] == 0:
        tr = DummyTransaction()
        r = tr.response()
    else:
        tr = None
        r = TransformerResponse()
        if c['kind'] == 2:
            r._filter = Upper if len(c['ops']) % 2 else Upper()
            f = Upper().filter
    text = ''
    for op in c['ops']:
        if op[0] == 'write':
            r.write(op[1])
            text += op[1]
        elif op[0] == 'writeln':
            r.writeln(op[1])
            text += op[1] + '\n'
        elif op[0] == 'writelines':
            r.writelines(*op[1])
            text += ''.join(x + '\n' for x in op[1])
        elif op[0] == 'flush':
            r.flush()
        elif op[0] == 'again' and tr:
            expect(tr.response() is r and tr.response(DummyResponse()) is r,
                   'the transaction has several responses')
        elif op[0] == 'chunks':
            same(r.getvalue(outputChunks=op[1]),
                 f(''.join(op[1]) if op[1] else text),
                 'value of given chunks')
        same(r.getvalue(), f(text), 'text after %r' % (c['ops'],))
    return [op[0] for op in c['ops']]


# ---- paths

def path_case(d):
    seg = lambda: d.pick(['a', 'b c', '..', '.', '', '\xe9', 'x.tmpl'])
    p = d.pick(['/', '/', '\\' ]).join(seg() for _ in range(d.i(1, 5)))
    return (d.pick(['', '/', '\\']) + p, d.pick([None, 'd/f.tmpl', '/q/../r',
                                                 '']))


def check_path(c):
    path, own = c
    t = tm.Template('x')
    if own is not None:
        t._filePath = own
    # resolve by hand
    p = path.replace('\\', '/') if path else own
    if not p:
        exp = None
    else:
        if not p.startswith('/'):
            p = os.getcwd() + '/' + p
        parts = []
        for s in p.split('/'):
            if s == '..':
                del parts[-1:]
            elif s not in ('', '.'):
                parts.append(s)
        exp = '/' + '/'.join(parts)
    got = t.serverSidePath(path)
    if got is not None and got.startswith('//'):
        got = got[1:]       # POSIX allows two leading slashes
    same(got, exp, 'server side path of %r (file %r)' % c)
    return ['relative' if path[:1] not in ('/', '\\') else 'absolute']


PROPS = [
    Prop('page', page, check_page, 3000, shards=4,
         nontrivial=lambda c, l: len(l) >= 3,
         rule='pages of the skeleton template with generated attributes, '
              'tags, overridden blocks and changes between renders; '
              'non-trivial = at least three kinds of parts'),
    Prop('tags', tag_case, check_tag, 3000, shards=1,
         nontrivial=lambda c, l: bool(c['attrs']),
         rule='image, spacer and generic tags; non-trivial = attributes'),
    Prop('cgi', cgi_case, check_cgi, 1500, shards=2,
         nontrivial=lambda c, l: 'cgi' in l,
         rule='templates based on CGITemplate under generated environments; '
              'non-trivial = some render as CGI'),
    Prop('response', resp_case, check_resp, 4000, shards=1,
         nontrivial=lambda c, l: len(set(l)) > 2,
         rule='histories of writes on the response; non-trivial = three '
              'kinds of operations'),
    Prop('path', path_case, check_path, 3000, shards=1,
         nontrivial=lambda c, l: '..' in c[0],
         rule='paths with generated segments; non-trivial = with ..'),
]
