"""A second copy of Cheetah/NameMapper.py, in pure-Python mode."""
import importlib.util
import os
import sys

from vlib.boot import REPO


def load():
    old = getattr(sys, '_cheetah_namemapper_pure', None)
    sys._cheetah_namemapper_pure = True
    try:
        spec = importlib.util.spec_from_file_location(
            'Cheetah._verif_pure_namemapper',
            os.path.join(REPO, 'Cheetah', 'NameMapper.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        if old is None:
            del sys._cheetah_namemapper_pure
        else:
            sys._cheetah_namemapper_pure = old
    assert not mod.C_VERSION
    return mod
