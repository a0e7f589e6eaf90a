"""C12: #include inserts exactly the included text, parsed or raw."""
import io
import os
import shutil
import tempfile

from vlib.core import Prop, Violation, same
from vlib import tm
from Cheetah.Filters import Filter

NS = 4          # sources 0..3; source i includes only sources after i
TEXTS = ['a', 'B b', '<c>&', "d'\"", '\xe9', '\n', ' \n ', '.', '%s', '{}',
         '\\n', '#', '$ ', '|##x\n', '\\$a']
# what the texts above render to
PLAIN = {'|##x\n': '|\n', '\\$a': '$a'}


class Mark(Filter):
    def filter(self, val, **kw):
        return '<' + Filter.filter(self, val, **kw) + '>'


class Mark2(Filter):
    def filter(self, val, **kw):
        return '(' + Filter.filter(self, val, **kw) + ')'


def f_plain(v):
    return '' if v is None else str(v)


def f_mark(v):
    return '<' + f_plain(v) + '>'


def f_mark2(v):
    return '(' + f_plain(v) + ')'


# ------------------------------------------------------------- generation
def body(d, k, depth=0, loop=False):
    items = []
    for _ in range(d.i(0, 5)):
        c = d.i(0, 15)
        if c <= 2:
            items.append(('text', d.pick(TEXTS)))
        elif c <= 4:
            items.append(('ph', d.pick(['a', 'loc', 'g', 'h', 'none'])))
        elif c == 5:
            items.append(('set', d.pick(['loc', 'g']), d.i(0, 9)))
        elif c == 6:
            items.append(('gset', d.pick(['g', 'h', 'loc']), d.i(0, 9)))
        elif c == 7:
            items.append(('phm', d.pick(['om', 'om', 'im'])))
        elif c == 8 and depth < 2:
            items.append(('if', d.pick(['a', 'none', 'one']),
                          body(d, k, depth + 1, loop)))
        elif c == 9 and depth < 2:
            items.append(('for', d.i(0, 2), body(d, k, depth + 1, loop)))
        elif c == 10 and depth < 2:
            items.append(('region', d.pick(['capture', 'call', 'filter']),
                          body(d, k, depth + 1, True)))
        elif c == 11 and not loop:
            if d.chance(2):
                items.append(('stop',))
        elif k + 1 < NS:
            items.append(inc(d, k))
    return items


def inc(d, k):
    raw = d.i(0, 2) == 0
    kinds = ['fl', 'fa', 'fv', 'sl', 'sv', 'fl', 'fv', 'sv']
    if not raw and k == 0:
        kinds.append('fo')
    return ('inc', raw, d.pick(kinds), d.i(k + 1, NS - 1), d.i(0, 2))


def flatten(items):
    for it in items:
        yield it
        for x in it:
            if isinstance(x, list):
                for y in flatten(x):
                    yield y


def cases(d):
    srcs = [body(d, k) for k in range(NS)]
    om = body(d, 0, 1, True)
    im = body(d, 1, 1, True)

    def clean(b, names):
        return [it for it in b if it[0] != 'phm' or it[1] in names]

    def strip(b, names):
        out = []
        for it in clean(b, names):
            out.append(tuple(strip(x, names) if isinstance(x, list) else x
                             for x in it))
        return out
    # the included templates may call methods of the including one; the
    # methods themselves call nothing
    om, im = strip(om, ()), strip(im, ())
    # neither do the sources that the methods include
    reach = set()

    def mark(b):
        for it in flatten(b):
            if it[0] == 'inc':
                # the variables of source k may come to mean later ones
                for j in range(it[3], NS):
                    if j not in reach:
                        reach.add(j)
                        mark(srcs[j])
    mark(om)
    mark(im)
    srcs = [strip(b, () if k in reach else
                  ('om',) if k == 0 else ('om', 'im'))
            for k, b in enumerate(srcs)]
    if not any(it[0] == 'inc' for it in srcs[0]):
        srcs[0].append(inc(d, 0))

    def op():
        c = d.i(0, 5)
        if c <= 2:
            return ('render', d.i(0, 1))
        if c == 3:
            k = d.i(1, NS - 1)
            b = strip(body(d, k), ())
            return ('write', k, b, d.i(0, 1))
        if c == 4:
            return ('src', d.i(1, NS - 1), d.i(1, NS - 1))
        return ('var', d.i(0, 9))
    return (srcs, om, im, d.i(0, 2), [('render', 0)] + d.list(op, 1, 5),
            d.i(0, 1))


# --------------------------------------------------------------- emission
class World(object):
    def __init__(self, case, path):
        self.srcs = [list(b) for b in case[0]]
        self.om, self.im = case[1], case[2]
        self.path = path
        self.texts = [None] * NS
        self.env = {'a': 'a&', 'loc': 'SLloc', 'g': 'SLg', 'h': None,
                    'none': None, 'one': 1}
        # which source a variable fn<k>/src<k> stands for
        self.target = dict((k, k) for k in range(NS))
        for k in range(NS - 1, -1, -1):
            self.emit_source(k)
        # file-like objects keep the original text
        self.fo = list(self.srcs)

    def emit_source(self, k):
        self.texts[k] = self.emit(self.srcs[k]) + (
            '#def im#%s#end def#|' % self.emit(self.im) if k > 0 else
            '#def om#%s#end def#|' % self.emit(self.om))
        # a source literal holds the text its target had when the including
        # source was written
        return self.texts[k]

    def emit(self, items):
        out = ['|']
        for it in items:
            k = it[0]
            if k == 'text':
                t = it[1]
                out.append(t + ('|' if t in ('#', '$ ') else ''))
            elif k in ('ph', 'phm'):
                out.append('${%s}' % it[1])
            elif k == 'set':
                out.append("#set $%s = 'L%d'#|" % it[1:])
            elif k == 'gset':
                out.append("#set global $%s = 'G%d'#|" % it[1:])
            elif k == 'stop':
                out.append('#stop#|')
            elif k == 'if':
                out.append('#if $%s#%s#end if#|' % (it[1], self.emit(it[2])))
            elif k == 'for':
                out.append('#for $i in range(%d)#%s#end for#|' % (
                    it[1], self.emit(it[2])))
            elif k == 'region':
                b = self.emit(it[2])
                if it[1] == 'capture':
                    out.append('#capture cap#%s#end capture#${cap}|' % b)
                elif it[1] == 'call':
                    out.append('#call $wrap#%s#end call#|' % b)
                else:
                    out.append('#filter $mf#%s#end filter#|' % b)
            elif k == 'inc':
                raw = 'raw ' if it[1] else ''
                kind, j = it[2], it[3]
                if kind == 'fl':
                    e = '"f%d.txt"' % j
                elif kind == 'fa':
                    e = repr(os.path.join(self.path, 'f%d.txt' % j))
                elif kind == 'fv':
                    e = '$fn%d' % j
                elif kind == 'fo':
                    e = '$fo%d' % j
                elif kind == 'sl':
                    e = 'source=' + repr(self.texts[j])
                else:
                    e = 'source = $src%d' % j
                if it[4] == 2:
                    out.append('\n#include %s%s\n|' % (raw, e))
                else:
                    if it[4] == 1 and kind in ('fv', 'sv'):
                        # by a local variable, as in Python
                        v = 'source_%d' % j if raw else 'raw%d' % j
                        out.append('#set %s = %s#' % (v, e.split('=')[-1]))
                        e = e.replace(e[e.index('$'):], v)
                    out.append('#include %s%s#|' % (raw, e))
        return ''.join(out)


# ------------------------------------------------------------------ model
class Stop(Exception):
    pass


class Inst(object):
    """A template instance: its filter, its globals, the namespaces."""

    def __init__(self, world, initial, gvars, om_inst, which):
        self.w, self.initial, self.cur = world, initial, initial
        self.gvars, self.outer, self.which = gvars, om_inst, which

    def name(self, n, L):
        if n in L:
            return L[n]
        if n in self.gvars:
            return self.gvars[n]
        return self.w.env[n]

    def respond(self, items, out):
        try:
            self.run(items, {}, out)
            out.append('|')         # the text after #end def#
        except Stop:
            pass

    def run(self, items, L, out):
        out.append('|')
        w = self.w
        for it in items:
            k = it[0]
            if k == 'text':
                t = it[1]
                out.append(PLAIN.get(t, t) + ('|' if t in ('#', '$ ')
                                              else ''))
            elif k == 'ph':
                v = self.name(it[1], L)
                if v is not None:
                    out.append(self.cur(v))
            elif k == 'phm':
                o = []
                try:
                    if it[1] == 'om':
                        self.outer.run(w.om, {}, o)
                    else:
                        self.im_owner().run(w.im, {}, o)
                except Stop:
                    pass
                out.append(self.cur(''.join(o)))
            elif k == 'set':
                L[it[1]] = 'L%d' % it[2]
                out.append('|')
            elif k == 'gset':
                self.gvars[it[1]] = 'G%d' % it[2]
                out.append('|')
            elif k == 'stop':
                raise Stop()
            elif k == 'if':
                if self.name(it[1], L):
                    self.run(it[2], L, out)
                out.append('|')
            elif k == 'for':
                for _ in range(it[1]):
                    self.run(it[2], L, out)
                out.append('|')
            elif k == 'region':
                o = []
                if it[1] == 'filter':
                    prev, self.cur = self.cur, f_mark2
                    self.run(it[2], L, out)
                    self.cur = prev
                    out.append('|')
                    continue
                self.run(it[2], L, o)
                if it[1] == 'capture':
                    out.append(self.cur(''.join(o)) + '|')
                else:
                    out.append(self.cur('[' + ''.join(o) + ']') + '|')
            elif k == 'inc':
                self.include(it, out)

    def im_owner(self):
        # the outermost included template comes first on the searchList
        return self.first

    def include(self, it, out):
        w = self.w
        raw, kind, j, lay = it[1:]
        if lay == 2:
            out.append('\n')
        if kind in ('fv', 'sv'):
            j = w.target[j]
        if kind in ('fl', 'fa', 'fv'):
            text, items = w.files[j]
        elif kind == 'fo':
            text, items = None, w.fo[j]
        elif kind == 'sl':
            text, items = w.literal[j]
        else:
            text, items = w.strings[j]
        if raw:
            out.append(text)
        else:
            n = Inst(w, self.initial, self.gvars, self.outer, j)
            n.first = getattr(self, 'first', None) or n
            n.respond(items, out)
        out.append('|')


def check(case):
    cwd = os.getcwd()
    path = tempfile.mkdtemp()
    try:
        os.chdir(path)
        return go(case, path)
    finally:
        os.chdir(cwd)
        shutil.rmtree(path)


def go(case, path):
    srcs, om, im, initial, ops, crlf = case
    w = World(case, path)
    w.literal = [(w.texts[k], w.srcs[k]) for k in range(NS)]
    w.strings = list(w.literal)
    w.files = list(w.literal)
    clock = 1000000000
    eol = '\r\n' if crlf else '\n'

    def put(k, text, mt):
        p = os.path.join(path, 'f%d.txt' % k)
        with open(p, 'w', encoding='utf-8', newline=eol) as fh:
            fh.write(text)
        os.utime(p, (mt, mt))

    def wrap(body):
        return '[' + body + ']'
    env = dict(w.env, wrap=wrap, mf=Mark2)
    for k in range(1, NS):
        put(k, w.texts[k], clock)
        env['fn%d' % k] = 'f%d.txt' % k
        env['src%d' % k] = w.texts[k]
    kw, filt = [({}, f_plain), (dict(filter=Mark), f_mark),
                (dict(filter=Mark2), f_mark2)][initial]
    main = w.texts[0]
    try:
        cls = tm.compile_(main)
    except Exception as e:
        raise Violation('valid template rejected: %s: %s\n%r' % (
            type(e).__name__, e, main))
    insts = []
    for _ in range(2):
        # every instance has its own file-like objects
        e = dict(('fo%d' % k, io.StringIO(w.texts[k]))
                 for k in range(1, NS))
        insts.append(cls(searchList=[e, env], **kw))
    gvars = [{}, {}]
    labs = []
    done = []
    for op in ops:
        done.append(op)
        if op[0] == 'write':
            k = op[1]
            text = w.emit(op[2]) + '#def im#%s#end def#|' % w.emit(w.im)
            clock += 1 if op[3] else 0.5
            put(k, text, clock)
            w.files[k] = (text, op[2])
            labs.append('file changed')
        elif op[0] == 'src':
            # the variables for source k stand for source j now
            k, j = op[1], op[2]
            if j < k:
                k, j = j, k
            w.target[k] = j
            env['fn%d' % k] = 'f%d.txt' % j
            env['src%d' % k] = w.strings[j][0]
        elif op[0] == 'var':
            env['a'] = w.env['a'] = 'v%d' % op[1]
        else:
            m = Inst(w, filt, gvars[op[1]], None, 0)
            m.outer = m
            out = []
            m.respond(w.srcs[0], out)
            got = tm.outcome(insts[op[1]].respond)
            same(got, ('ok', ''.join(out)), 'wrong output',
                 'template %r' % main,
                 'sources %r' % (w.texts[1:],),
                 'files %r' % ([f[0] for f in w.files[1:]],),
                 'history %r' % (done,))
            labs.append('render')
    for it in flatten(srcs[0]):
        if it[0] == 'inc':
            labs.append(('raw ' if it[1] else 'parsed ') + it[2])
    return labs


PROPS = [
    Prop('includes', cases, check, 24000, shards=8,
         modes=('c', 'c', 'pure'),
         nontrivial=lambda c, l: l.count('render') > 1
         and len([x for x in l if x[:3] in ('raw', 'par')]) > 1,
         rule='acyclic include graphs of a template, three files and the '
              'same texts as strings and file-like objects, with histories '
              'of renders of two instances, file and variable changes; '
              'non-trivial = two renders and two includes in the main '
              'template'),
]
