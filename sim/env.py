"""
Process environment of the simulator.

Everything that could make one run differ from the next one, and that is not
decided by the simulator, is pinned here, before numpy / OpenCV / GDAL and the
code under test are imported.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
PYTHON = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')

_PIN = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1',
    'GDAL_NUM_THREADS': '1',
    'GDAL_PAM_ENABLED': 'NO',      # never write .aux.xml next to a file
    'CPL_DEBUG': 'OFF',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
    'OPENCV_OPENCL_RUNTIME': 'disabled',
}


def reexec(argv, scratch):
    """
    Run ourselves again with the pinned environment, without address space
    randomisation (default object hashes are addresses) and with every user
    cache below the scratch directory.
    """
    env = dict(os.environ)
    env.update({k: v for k, v in _PIN.items() if not (k == 'PYTHONHASHSEED' and 'SIM_HASHSEED' in env)})
    if 'SIM_HASHSEED' in env:
        env['PYTHONHASHSEED'] = env['SIM_HASHSEED']
    for k in ('DELAYED_IMAGE_DEBUG_SEGFAULT', 'DELAYED_IMAGE_WARP_DEBUG',
              'PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONWARNINGS'):
        env.pop(k, None)
    home = os.path.join(scratch, 'home')
    os.makedirs(home, exist_ok=True)
    env.update({
        'HOME': home, 'XDG_CACHE_HOME': os.path.join(home, 'cache'),
        'XDG_CONFIG_HOME': os.path.join(home, 'config'),
        'XDG_DATA_HOME': os.path.join(home, 'data'),
        'TMPDIR': os.path.join(scratch, 'tmp'),
        'SIM_SCRATCH': scratch, 'SIM_CHILD': '1',
    })
    os.makedirs(env['TMPDIR'], exist_ok=True)
    try:
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)   # ADDR_NO_RANDOMIZE, inherited over exec
    except Exception:
        pass
    os.execve(PYTHON, [PYTHON] + list(argv), env)


_loaded = {}


def load():
    """Import the code under test and everything it may import lazily."""
    if _loaded:
        return _loaded
    import warnings
    warnings.simplefilter('ignore')
    from . import locks
    locks.install()
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    # finder hooks of editable installs must not win over SIM_REPO
    import importlib
    if REPO != '/repo':
        sys.meta_path[:] = [f for f in sys.meta_path
                            if '__editable__' not in getattr(f, '__module__', '')
                            and '__editable__' not in str(f)]
    import numpy as np
    import cv2
    cv2.setNumThreads(1)
    try:
        cv2.ocl.setUseOpenCL(False)
    except Exception:
        pass
    from osgeo import gdal, gdal_array  # noqa
    gdal.SetErrorHandler('CPLQuietErrorHandler')
    # A global handler as well: the quiet handler above is the process default
    gdal.SetConfigOption('GDAL_PAM_ENABLED', 'NO')
    gdal.SetConfigOption('GDAL_NUM_THREADS', '1')
    import kwarray
    import kwimage
    import ubelt as ub
    import xarray  # noqa
    import networkx  # noqa
    import rasterio  # noqa
    import spectral
    import spectral.io.envi  # noqa
    import lark  # noqa
    import kwimage.im_io  # noqa
    import pickle, copy, io, itertools, math, ctypes  # noqa
    try:
        import rich  # noqa
    except Exception:
        pass
    import delayed_image
    from delayed_image import (channel_spec, delayed_base, delayed_leafs,  # noqa
                               delayed_nodes, helpers, lazy_loaders,
                               sensorchan_spec, constants, debug_utils)
    from delayed_image.util import util_network_text  # noqa
    got = os.path.realpath(os.path.dirname(delayed_image.__file__))
    want = os.path.realpath(os.path.join(REPO, 'delayed_image'))
    if got != want:
        raise RuntimeError('imported %s instead of %s' % (got, want))
    # Lazily imported pieces of dependencies are imported now, so that a
    # simulated thread is never suspended while it holds an import lock.
    a = np.zeros((4, 4, 3), dtype=np.float32)
    kwimage.warp_affine(a, kwimage.Affine.scale(0.5), dsize=(2, 2), antialias=True)
    kwimage.imresize(a, scale=0.5, interpolation='area')
    xarray.DataArray(a, dims=('y', 'x', 'c'))
    ub.urepr({'a': a})
    import skimage.transform
    skimage.transform.AffineTransform
    for obj in (dict(scale=0.5), np.eye(3), dict(offset=(1, 2)), dict(theta=0.1)):
        t = kwimage.Affine.coerce(obj)
        t.inv(), t.decompose(), t @ t
        kwimage.warp_affine(a, t, dsize=(3, 3), interpolation='lanczos', border_value=0)
    kwimage.Projective.coerce(np.eye(3))
    import kwimage.util_warp, kwimage._typing  # noqa
    kwimage.Boxes([[0, 0, 2, 2]], 'ltrb').to_polygons()
    _loaded.update(np=np, gdal=gdal, kwimage=kwimage, kwarray=kwarray, ub=ub,
                   spectral=spectral, rasterio=rasterio, di=delayed_image,
                   channel_spec=channel_spec, base=delayed_base,
                   leafs=delayed_leafs, nodes=delayed_nodes, helpers=helpers,
                   lazy=lazy_loaders, sensorchan=sensorchan_spec,
                   constants=constants, debug=debug_utils,
                   nettext=util_network_text.write_network_text)
    return _loaded
