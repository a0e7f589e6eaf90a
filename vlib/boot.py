"""Imports Cheetah from /repo's working tree.

The C extension is compiled from /repo/Cheetah/c into a scratch directory (never
into /repo) and put into sys.modules as Cheetah._namemapper, so a stale .so that
lies in /repo is never used.  Byte code goes to a scratch directory as well.

Environment:  VERIF_EXT=<path of the compiled .so> or '' for the pure mode.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def boot():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    ext = os.environ.get('VERIF_EXT', '')
    import warnings
    warnings.simplefilter('ignore')
    if ext:
        import importlib.util
        import importlib.machinery
        import Cheetah
        loader = importlib.machinery.ExtensionFileLoader(
            'Cheetah._namemapper', ext)
        spec = importlib.util.spec_from_file_location(
            'Cheetah._namemapper', ext, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        # the extension imports Cheetah.NameMapper for nothing; load it first
        sys.modules['Cheetah._namemapper'] = mod
        loader.exec_module(mod)
        Cheetah._namemapper = mod
    else:
        sys._cheetah_namemapper_pure = True
        sys.modules['Cheetah._namemapper'] = None
    import Cheetah.NameMapper as NM
    assert os.path.realpath(NM.__file__).startswith(
        os.path.realpath(REPO) + '/'), NM.__file__
    assert bool(NM.C_VERSION) == bool(ext), (NM.C_VERSION, ext)
    return NM
