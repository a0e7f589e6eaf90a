"""C27: source positions are exact."""
import re

from vlib.core import Prop, Skip, expect, same
from vlib import tm

from Cheetah.SourceReader import SourceReader

CH = ['a', 'b', ' ', '\t', '\n', '\n', '\r\n', '\r\n', '\r', '\x0b', '\x0c',
      '\u2028', '\x85', '\x1c', 'é', '#', '$x', '\n\n', '  ', '\r\r', '\n\r']


def texts(d):
    return ''.join(d.list(lambda: d.pick(CH), 0, 14))


def count(src):
    """-> for each position (row, col), list of (bol, eol, next)."""
    lines = []
    i = bol = 0
    n = len(src)
    while i < n:
        if src[i] == '\r' and src[i + 1:i + 2] == '\n':
            lines.append((bol, i, i + 2))
            i += 2
            bol = i
        elif src[i] in '\r\n':
            lines.append((bol, i, i + 1))
            i += 1
            bol = i
        else:
            i += 1
    lines.append((bol, n, n))
    return lines


def line_of(lines, pos):
    for k, (b, e, nxt) in enumerate(lines):
        if b <= pos < nxt:
            return k
    return len(lines) - 1


def check_positions(src):
    r = SourceReader(src)
    lines = count(src)
    n = len(src)
    labs = ['%d lines' % min(len(lines), 6)]
    for pos in range(n):
        k = line_of(lines, pos)
        b, e, nxt = lines[k]
        same(r.getRowCol(pos), (k + 1, pos - b + 1),
             'row and column of position %d of %r' % (pos, src))
        same(r.getRowColLine(pos), (k + 1, pos - b + 1, src[b:e]),
             'row, column and line of position %d of %r' % (pos, src))
        same(r.getLine(pos), src[b:e], 'line of %d of %r' % (pos, src))
        same(r.lineNum(pos), k, 'line number of %d of %r' % (pos, src))
        r.setPos(pos)
        same(r.getRowCol(), (k + 1, pos - b + 1),
             'row and column at position %d of %r' % (pos, src))
        if src[pos] == '\n' and pos and src[pos - 1] == '\r':
            continue            # the middle of a line ending
        same(r.findBOL(pos), b, 'start of the line of %d of %r' % (pos, src))
        same(r.findBOL(), b, 'start of the line at %d of %r' % (pos, src))
        same(r.findEOL(pos), e, 'end of the line of %d of %r' % (pos, src))
        same(r.findEOL(), e, 'end of the line at %d of %r' % (pos, src))
        same(r.findEOL(gobble=True), nxt, 'next line at %d of %r' % (pos, src))
        same(r.findEOL(pos, gobble=True), nxt,
             'next line of %d of %r' % (pos, src))
        clear = not src[b:pos].strip(' \t\f')
        same(bool(r.isLineClearToPos()), clear,
             'isLineClearToPos() at %d of %r' % (pos, src))
        r.setPos(0)
        same(bool(r.isLineClearToPos(pos)), clear,
             'isLineClearToPos(%d) of %r' % (pos, src))
        r.setPos(pos)
        same(r.readToEOL(gobble=False), src[pos:e],
             'readToEOL from %d of %r' % (pos, src))
        same(r.pos(), e, 'position after readToEOL from %d of %r' % (pos, src))
        r.setPos(pos)
        same(r.readToEOL(), src[pos:nxt],
             'readToEOL(gobble) from %d of %r' % (pos, src))
        same(r.pos(), nxt, 'position after readToEOL from %d of %r'
             % (pos, src))
    got = r.splitlines()
    exp = [src[b:e] for b, e, nxt in lines]
    if exp[-1] == '':
        exp.pop()
    same(got, exp, 'lines of %r' % src)
    same(r.findEOL(n), n, 'end of the last line of %r' % src)
    same(r.findBOL(n), lines[-1][0], 'start of the last line of %r' % src)
    if '\r\n' in src:
        labs.append('crlf')
    if re.search('[\x0b\x0c\u2028\x85\x1c]', src):
        labs.append('other separators')
    return labs


# ---- the cursor, against a pair (text, position)

OPS = ['advance', 'rev', 'read', 'readTo', 'setPos', 'getc', 'peek', 'ws',
       'nonws', 'ws1', 'toeol', 'bookmark', 'goto', 'break', 'find',
       'startswith', 'matches']


def cursor_case(d):
    return (texts(d), d.list(lambda: (d.pick(OPS), d.i(0, 8)), 1, 12))


def check_cursor(c):
    src, ops = c
    if not src:
        raise Skip()
    r = SourceReader(src)
    pos, end, mark = 0, len(src), None
    labs = []
    for k, (op, a) in enumerate(ops):
        what = '%s(%d) in %r at %d (history %r)' % (op, a, src, pos, ops[:k])
        new, val, err = pos, None, False
        if op == 'advance':
            new = pos + a
            f = lambda: r.advance(a)
        elif op == 'rev':
            new = pos - a
            f = lambda: r.rev(a)
        elif op == 'read':
            new = pos + a
            val = src[pos:new]
            f = lambda: r.read(a)
        elif op == 'readTo':
            new = a
            val = src[pos:new]
            f = lambda: r.readTo(a)
        elif op == 'setPos':
            new = a
            f = lambda: r.setPos(a)
        elif op == 'getc':
            if pos >= len(src):
                continue
            new = pos + 1 if pos + 1 <= end else pos
            val = src[pos]
            f = lambda: r.getc()
        elif op == 'peek':
            if not pos + a < len(src):
                continue
            if pos + a <= end:
                val = src[pos + a]
            else:
                err = True
            f = lambda: r.peek(a)
        elif op in ('ws', 'ws1'):
            m = 1 if op == 'ws1' else end
            while new < end and new < pos + m and src[new] in ' \f\t':
                new += 1
            val = src[pos:new]
            f = ((lambda: r.getWhiteSpace(max=1)) if op == 'ws1'
                 else (lambda: r.getWhiteSpace()))
        elif op == 'nonws':
            while new < end and src[new] not in ' \f\t\n\r':
                new += 1
            val = src[pos:new]
            f = lambda: r.getNonWhiteSpace()
        elif op == 'toeol':
            lines = count(src)
            if pos < len(src) and src[pos] == '\n' and src[pos - 1:pos] == '\r':
                continue
            b, e, nxt = lines[line_of(lines, pos)] if pos < len(src) \
                else (pos, pos, pos)
            new = nxt if a % 2 else e
            val = src[pos:new]
            f = lambda: r.readToEOL(gobble=bool(a % 2))
        elif op == 'bookmark':
            r.setBookmark('m')
            mark = pos
            continue
        elif op == 'goto':
            if mark is None:
                err = True
            else:
                new = mark
            f = lambda: r.gotoBookmark('m')
        elif op == 'break':
            if a <= len(src):
                end = a
            else:
                err = True
            f = lambda: r.setBreakPoint(a)
        elif op == 'find':
            val = src.find(src[a:a + 1] or 'zz', pos)
            f = lambda: r.find(src[a:a + 1] or 'zz')
        elif op == 'startswith':
            if not src[a:a + 2]:
                continue
            val = src[pos:].startswith(src[a:a + 2])
            f = lambda: r.startswith(src[a:a + 2])
        elif op == 'matches':
            rx = re.compile('[a-z ]+')
            m = rx.match(src, pos)
            val = m and m.span()
            f = lambda: (lambda m: m and m.span())(r.matches(rx))
        if op in ('advance', 'rev', 'read', 'readTo', 'setPos', 'goto',
                  'toeol') and not 0 <= new <= end:
            err = True
        try:
            got = f()
        except Exception as e:
            expect(err and type(e).__name__ == 'Error',
                   '%s raises %r', what, e)
            labs.append('rejected')
        else:
            expect(not err, '%s is accepted', what)
            if val is not None:
                same(got, val, 'result of ' + what)
            pos = new
        same(r.pos(), pos, 'position after ' + what)
        same(r.atEnd(), pos >= end, 'atEnd after ' + what)
        same(r.atStart(), pos == 0, 'atStart after ' + what)
        same(len(r), end, 'length after ' + what)
        labs.append(op)
    return labs


# ---- positions recorded for failing placeholders and in generated comments

def ph_case(d):
    out = []
    for _ in range(d.i(1, 6)):
        out.append(d.pick(['text', ' ', '\n', '\r\n', '\r', 'P', 'P', '\x0b',
                           '\u2028', '#if 1\n', '## c\n', '#* x\ny *#',
                           '#set $q = 1\n', '#raw\n$x\n#end raw\n', '\t']))
    return out


def check_ph(parts):
    src = '#errorCatcher ListErrors\n'
    exp = []
    opened = 0
    for p in parts:
        if p == 'P':
            name = '$gone%d' % len(exp)
            lines = count(src + '$')
            k = line_of(lines, len(src))
            exp.append((name, (k + 1, len(src) - lines[k][0] + 1)))
            src += name
            src += '|'
        else:
            if p[0] == '#' and src[-1:] == '#':
                src += '|'
            src += p
            if p.startswith('#if'):
                opened += 1
                src += '|'
    src += '\n#end if' * opened + '\n#end errorCatcher\n'
    t = tm.compile_(src)()
    str(t)
    catcher = t.errorCatcher()
    got = [(e['rawCode'], e['lineCol']) for e in catcher.listErrors()]
    same(got, exp, 'recorded positions of the placeholders of %r' % src)
    return ['%d placeholders' % len(exp)]


PROPS = [
    Prop('positions', texts, check_positions, 30000, shards=4,
         nontrivial=lambda c, l: len(count(c)) > 1,
         rule='every position of texts of up to 14 pieces over all line '
              'endings and the other Unicode separators; non-trivial = two '
              'or more lines'),
    Prop('cursor', cursor_case, check_cursor, 40000, shards=4,
         nontrivial=lambda c, l: len(l) >= 4,
         rule='histories of up to 12 cursor operations against a text and '
              'an index; non-trivial = four or more effective operations'),
    Prop('placeholders', ph_case, check_ph, 6000, shards=4,
         nontrivial=lambda c, l: 'P' in c,
         rule='positions ListErrors records for missing placeholders in '
              'generated layouts; non-trivial = at least one placeholder'),
]
