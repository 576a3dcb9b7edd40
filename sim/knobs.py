"""Tuning and diagnostic switches of the library."""
import os

from . import core

DEF = dict(fast=0, exc=0, cache=None, trace=0, debug=0, warpdbg=0, err='ok')


def gen_knobs(r):
    k = {}
    if r.random() < 0.5:
        k['fast'] = r.choice([0, 1, 1])
    if r.random() < 0.35:
        k['exc'] = r.choice([0, 1])
    if r.random() < 0.45:
        k['cache'] = r.choice([None, 1, 1, 2, 3, 32])
    if r.random() < 0.35:
        k['trace'] = r.choice([0, 1])
    if r.random() < 0.4:
        k['debug'] = r.choice([0, 1, 1])
    if r.random() < 0.15:
        k['warpdbg'] = r.choice([0, 1])
    if r.random() < 0.4:
        k['err'] = r.choice(['ok', 'full', 'rdonly', 'pipe', 'blocked'])
    return k or {'fast': 1}


def set_flag(name, val):
    """Wherever the package keeps a copy of the switch."""
    import sys
    for mn, m in list(sys.modules.items()):
        if m is not None and mn.startswith('delayed_image') and name in getattr(m, '__dict__', {}):
            setattr(m, name, val)


def set_stderr(how):
    fd = None
    if how == 'ok':
        fd = os.open(os.devnull, os.O_WRONLY)
    elif how == 'full':
        fd = os.open('/dev/full', os.O_WRONLY)
    elif how == 'rdonly':
        fd = os.open(os.devnull, os.O_RDONLY)
    elif how == 'pipe':
        a, fd = os.pipe()
        os.close(a)
    elif how == 'blocked':
        a, fd = os.pipe()
        os.set_blocking(fd, False)
        try:
            while True:
                os.write(fd, b'x' * 65536)
        except BlockingIOError:
            pass
        _keep.append(a)
    os.dup2(fd, 2)
    os.close(fd)


_keep = []


def apply_knobs(k):
    lazy, gdal = core.MODS['lazy'], core.MODS['gdal']
    for n, v in k.items():
        if n == 'fast':
            set_flag('GDAL_FAST_PATH', v)
        elif n == 'exc':
            gdal.UseExceptions() if v else gdal.DontUseExceptions()
        elif n == 'nogdal':
            # a machine without the GDAL Python bindings
            if v:
                lazy.LazyGDalFrameFile.available = classmethod(lambda cls: False)
        elif n == 'cache':
            lazy.GLOBAL_GDAL_CACHE = None if v is None else lazy.CacheDict(cache_len=v)
        elif n == 'trace':
            set_flag('TRACE_OPTIMIZE', v)
        elif n == 'debug':
            set_flag('DEBUG_ARRAY_EVENTS', v)
        elif n == 'warpdbg':
            if v:
                os.environ['DELAYED_IMAGE_WARP_DEBUG'] = '1'
            else:
                os.environ.pop('DELAYED_IMAGE_WARP_DEBUG', None)
        elif n == 'err' and not os.environ.get('SIM_VERBOSE'):
            set_stderr(v)


# what a whole run may be configured with
CHOICES = {'nogdal': [1], 'fast': [1], 'exc': [1], 'cache': [1, 1, 2, 32], 'trace': [1]}


def gen_conf(r, names):
    """The configuration of a run: mostly the default."""
    if not names or r.random() < 0.65:
        return []
    out = []
    for n in names:
        if r.random() < (0.3 if n == 'nogdal' else 0.55):
            out.append([n, r.choice(CHOICES[n])])
    return out
