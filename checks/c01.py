"""C01: plain text reaches the output character for character."""
import re

from hypothesis import strategies as st
from vlib.core import Prop, Skip, same
from vlib import tm

DIRECTIVES = set('''
import from extends implements super attr
compiler-settings compiler breakpoint shBang encoding
def block closure defmacro set del
if elif else unless for while repeat continue break pass stop return yield
try except finally raise assert errorCatcher transform
filter echo silent call arg include cache capture raw slurp end
silent i18n @
'''.split())
IDENT0 = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
DNAME = IDENT0 | set('0123456789-@')

PH = re.compile(r'\$!?(?:\*[0-9.]+[smhdw]?\*|\*|)(?:[{(\[][ \t\f]*)?[A-Za-z_]')
PHX = re.compile(r'\$(?:\*[0-9.]+[smhdw]?\*|\*|)[{(\[][ \t\f]*[^)}\]]')
SLURP = re.compile(r'#[ \t\f]*(?:\r\n|\n|\r)')


def active_token(s):
    """Position of the first character run in s that is Cheetah syntax, or None.
    (an independent statement of the documented lexical rules)"""
    for i, c in enumerate(s):
        if c not in '$#<':
            continue
        if c == '#' and SLURP.match(s, i):
            return i
        if i and s[i - 1] == '\\':
            continue
        if c == '$' and (PH.match(s, i) or PHX.match(s, i)):
            return i
        if c == '<' and s.startswith('<%', i):
            return i
        if c == '#':
            if s.startswith('##', i) or s.startswith('#*', i):
                return i
            j = i + 1
            while j < len(s) and s[j] in DNAME:
                j += 1
            word = s[i + 1:j]
            if word in DIRECTIVES:
                return i
            if word.startswith('@'):
                return i
    return None


def unescape(s):
    return re.sub(r'\\([$#])', r'\1', s)


ANY = st.characters(blacklist_categories=('Cs',))
frag = st.one_of(
    st.text(ANY, max_size=6),
    st.text(st.sampled_from(list('\\"\'\n\r\t abnrxuN{}0178%')), max_size=10),
    st.sampled_from([
        '"""', "'''", '"', "'", '""', "''", '\\', '\\\\', '\\n', '\\r', '\\t',
        '\\x41', '\\u0041', '\\N{DASH}', '\\\n', '\\\r\n', '\\"', "\\'",
        '\\"""', "\\'''", '%', '%s', '%(x)s', '{', '}', '{0}', '%%', '\n',
        '\r\n', '\r', '\n\n', ' \n', '\x00', '\x0b', '\x0c', '\x1c', '\x85',
        '\u2028', '\u2029', '\ufeff', '\xa0', '\u00e9', '\U0001f600', '\x1a',
        '\x7f', '\t', '    ', '<', '>', '&', '<a href="x">', '%>', '*#', ':',
        'None', 'if x:', 'self', ';', '`', '@', '@x', '->', '\\0', '\\1',
    ]),
    # dollar signs and hashes that start nothing
    st.sampled_from([
        '$', '$$', '$5', '$15.50', '$ x', '$@var', '$^var', '$.x', '$-', '$*',
        '$!', '${}', '$()', '$[]', '$\u00e9', '$\n', '$"', '$\\', '$1a',
        '#', '#1', '# x', '#-', '#foo', '#iffy', '#If', '#fff', '#ends',
        '#\u00e9', '#"', '#!', '#$', '#.', '#endif', '#for_', '#set1',
        '#defs', '#raw2', '#cache-x', '#END', 'a#b', '#&', '#\\', '&#65;',
    ]),
    # escaped syntax
    st.sampled_from([
        '\\$x', '\\$', '\\${x}', '\\$(x)', '\\$x.y[1]', '\\$!x', '\\$*x',
        '\\$5', '\\\\$x', '\\#', '\\#if $', '\\#if 1', '\\##', '\\## c',
        '\\#*', '\\#* c', '\\#end if', '\\#set', '\\#foo', '\\\\#if',
        '\\$$', '\\#include', '\\#@x', '\\#slurp', '\\<%', '\\$\\$a\\#echo',
    ]),
)
texts = st.lists(frag, max_size=8).map(''.join)
CONTEXTS = [
    # (before, after, expected-before, expected-after)
    ('', '', '', ''),
    ('[', ']', '[', ']'),
    ('#def m#[', ']#end def#$m', '[', ']'),
    ('#block b#[', ']#end block#!', '[', ']!'),
    ('#if $x#[', ']#end if#!', '[', ']!'),
    ('#for $i in (1,2)#[', ']#end for#!', None, None),
    ('#call $up#[', ']#end call#!', '[', ']!'),
    ('#capture c#[', ']#end capture#$c', '[', ']'),
    ('#filter WebSafe#[', ']#end filter#!', '[', ']!'),
    ('#try#[', ']#except#no#end try#!', '[', ']!'),
    ('#cache#[', ']#end cache#!', '[', ']!'),
    ('#if 0#no#else#[', ']#end if#!', '[', ']!'),
    ('$x', '', '1', ''),
    ('#def m2($a=3)\n(', ')\n#end def\n$m2', '(', ')\n'),
]
case = st.tuples(texts, st.integers(0, len(CONTEXTS) - 1),
                 st.sampled_from([None, None, 0, 1, 3, 8, 1000]),
                 st.booleans())


def ident(s):
    return s


def build(c):
    text, ctx, thr, ends = c
    if ctx in (0, 12):
        # only the raw ends of the source: no leading/trailing guard
        tok_at = active_token(text)
        if ctx == 12:
            if text[:1] in tuple('.[(') or (text[:1] or ' ') in DNAME:
                raise Skip()
    else:
        tok_at = active_token('[' + text + ']')
    if tok_at is not None:
        raise Skip()
    b, a, eb, ea = CONTEXTS[ctx]
    src = b + text + a
    t = unescape(text)
    if eb is None:
        exp = '[' + t + ']' + '[' + t + ']' + '!'
    else:
        exp = eb + t + ea
    return src, exp, t


def check_text(c):
    src, exp, t = build(c)
    kw = {}
    if c[2] is not None:
        kw['compilerSettings'] = {'reprNewlineThreshold': c[2],
                                  'reprShortStrConstants': c[3]}
    out = tm.must(lambda: tm.render(
        src, [{'x': 1, 'up': ident, 'ident': ident}], kw),
        'rendering %r' % src)
    same(out, exp, 'literal text changed; template source %r' % src)
    labs = ['ctx%d' % c[1]]
    for ch, n in (('\\', 'backslash'), ('"', 'dquote'), ("'", 'squote'),
                  ('\n', 'newline'), ('\r', 'cr'), ('$', 'dollar'),
                  ('#', 'hash')):
        if ch in c[0]:
            labs.append(n)
    if not c[0].isascii():
        labs.append('nonascii')
    if t != c[0]:
        labs.append('escaped')
    return labs


def nontrivial(c, labels):
    return len(labels) >= 2


# ---------------------------------------------------------------- #raw
rawfrag = st.one_of(frag, st.sampled_from([
    '$x', '${x}', '$x.y()', '#if 1', '#end if', '#for $i in 1', '## c',
    '#* c *#', '#set $x = 1', '<% x %>', '<%= x %>', '#slurp', '$!x', '\\$x',
    '\\#if', '#raws', '#end', '#end for', '#include "x"', '#\n',
    '#compiler-settings\n', '#extends x', '#def x', '$(1', '"""$x"""',
]))
rawtexts = st.lists(rawfrag, max_size=8).map(''.join)
rawcase = st.tuples(rawtexts, st.integers(0, 3))


def check_raw(c):
    text, form = c
    if re.search(r'#\s*end\s+raw', text) or '#end raw' in text:
        raise Skip()
    if form == 0:
        src = '#raw#[' + text + ']#end raw#!'
        exp = '[' + text + ']!'
    elif form == 1:
        src = 'a\n#raw\n[' + text + ']\n#end raw\n!'
        exp = 'a\n[' + text + ']\n!'
    elif form == 2:
        if '\n' in text or '\r' in text:
            raise Skip()
        src = 'a\n#raw: [' + text + ']\nb'
        exp = 'a\n[' + text + ']\nb'
    else:
        src = '#if $x\n  #raw\n[' + text + ']\n  #end raw\n#end if\n!'
        exp = '[' + text + ']\n!'
    out = tm.must(lambda: tm.render(src, [{'x': 1}]), 'rendering %r' % src)
    same(out, exp, '#raw text changed; template source %r' % src)
    labs = ['form%d' % form]
    if '$' in text:
        labs.append('dollar')
    if '#' in text:
        labs.append('hash')
    if '\\' in text:
        labs.append('backslash')
    return labs


PROPS = [
    Prop('text', case, check_text, 16000, shards=7,
         modes=('c', 'c', 'pure'), nontrivial=nontrivial,
         rule='text assembled from arbitrary Unicode, quote/backslash/EOL '
              'fragments, inert and escaped $ and # fragments, placed in one '
              'of 14 template contexts; non-trivial = contains at least one '
              'of backslash, quote, EOL, $, #, non-ASCII'),
    Prop('raw', rawcase, check_raw, 5000, shards=3,
         nontrivial=lambda c, l: len(l) >= 2,
         rule='#raw bodies built from arbitrary text and live Cheetah syntax; '
              'non-trivial = contains $, # or backslash'),
]
