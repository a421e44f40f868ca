"""Imports the code under test from the working tree, always from source, and silences library noise."""
import importlib.machinery
import os
import sys
import warnings

from .core import REPO


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Never trusts byte code: what runs is what the working tree says now."""

    def path_stats(self, path):
        raise OSError('no byte code')

    def set_data(self, *a, **k):
        pass


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == 'chaosmagpy' or name.startswith('chaosmagpy.'):
            rel = name.split('.')
            base = os.path.join(REPO, *rel)
            if os.path.isfile(os.path.join(base, '__init__.py')):
                f = os.path.join(base, '__init__.py')
                return _spec(name, f, True)
            if os.path.isfile(base + '.py'):
                return _spec(name, base + '.py', False)
        return None


def _spec(name, f, pkg):
    from importlib.util import spec_from_file_location
    return spec_from_file_location(name, f, loader=_SourceOnly(name, f),
                                   submodule_search_locations=[os.path.dirname(f)] if pkg else None)


def load():
    """Import third-party libraries first, then chaosmagpy with simulated locks."""
    if 'chaosmagpy' in sys.modules:
        return sys.modules['chaosmagpy']
    warnings.simplefilter('ignore')
    import numpy, scipy.interpolate, scipy.special, pandas, h5py, hdf5storage, lxml.html, requests, shapefile  # noqa
    import matplotlib.pyplot, matplotlib.colors, matplotlib.ticker, matplotlib.dates, zipfile, tempfile, shutil  # noqa
    import mpl_toolkits.axes_grid1, scipy.linalg, functools, threading, multiprocessing, concurrent.futures  # noqa
    import asyncio, numpy.lib.format, encodings.idna, unicodedata, urllib.request, ssl, logging, copy, io  # noqa
    from . import sched
    sys.meta_path.insert(0, _Finder)
    with sched.simulated_locks():
        import chaosmagpy
        import chaosmagpy.chaos, chaosmagpy.config_utils, chaosmagpy.coordinate_utils  # noqa
        import chaosmagpy.data_utils, chaosmagpy.model_utils, chaosmagpy.plot_utils  # noqa
    assert os.path.realpath(chaosmagpy.__file__).startswith(os.path.realpath(REPO)), chaosmagpy.__file__
    return chaosmagpy
