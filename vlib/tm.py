"""Thin helpers around Cheetah's public API used by the checks."""
import sys

from Cheetah.Template import Template  # noqa: F401
from Cheetah.Compiler import Compiler  # noqa: F401
from Cheetah.Parser import ParseError  # noqa: F401
from Cheetah import NameMapper
from vlib.core import Violation

NotFound = NameMapper.NotFound
PURE = not NameMapper.C_VERSION


def compile_(src, **kw):
    kw.setdefault('cacheCompilationResults', False)
    kw.setdefault('useCache', False)
    return Template.compile(source=src, **kw)


def render(src, searchList=None, compile_kw=None, **kw):
    cls = compile_(src, **(compile_kw or {}))
    t = cls(searchList=searchList if searchList is not None else [], **kw)
    return text(t)


def text(t):
    out = t.respond()
    if not isinstance(out, str):
        raise Violation('respond() returned %r, not a string' % (out,))
    return out


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', type name, message)."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__, str(e))


def must(fn, what, *ctx):
    """Run fn; any exception is a violation."""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        raise Violation('%s: raised %s: %s%s\n%s' % (
            what, type(e).__name__, e,
            ''.join('\n   %s' % (c,) for c in ctx), tb[-1500:]))


def src_of(cls):
    try:
        return cls.generatedModuleCode()
    except Exception:
        return '?'
