"""
The storage seam.

All file access of the code under test goes through a handful of functions of
GDAL, kwimage, rasterio, spectral and ``open``.  They are wrapped here, once,
before any run.  A wrapper

* records the access (what file, which band, which pixel window, which level),
* asks the fault plan of the current run whether it fails, and how,
* is a point at which the simulated scheduler may switch threads and at which
  an asynchronous exception may be delivered,

and otherwise runs the real code on the real (scratch) file.

Outside of an active run the wrappers are transparent.
"""
import builtins
import os
import sys
import threading

import numpy as np

ACTIVE = None       # the Seam of the current run
_tls = threading.local()
_orig = {}

POISON_VALUE = 0


class Fault(Exception):
    pass


def _exc(mode, call):
    if mode.endswith('memerr'):
        return MemoryError('injected: cannot allocate (%s)' % call)
    if mode.endswith('oserror'):
        return OSError(5, 'injected: Input/output error (%s)' % call)
    return RuntimeError('injected: %s failed' % call)


class Seam:
    """State of the storage during one run."""

    def __init__(self, faults=(), sched=None):
        self.faults = [dict(f) for f in faults]
        self.log = []               # list of event dicts
        self.per_step = {}          # step id -> number of events
        self.fired = {}             # kind -> count
        self.fired_events = []
        self.sched = sched
        self.deny = None            # if set: every access fails with this mode
        self.deny_reads = None
        self.rule = None            # optional callable(event) -> mode | None
        self.poisoned = set()       # dataset handles that now return garbage
        self.handles = 0
        self.counting = True
        self.steps = {}             # thread ident -> step id
        self.busy = set()           # handles with a native read in progress
        self.overlaps = 0
        self.hold = False           # while true no fault is injected

    # -- bookkeeping -----------------------------------------------------
    def step(self):
        return self.steps.get(threading.get_ident())

    def set_step(self, sid):
        self.steps[threading.get_ident()] = sid

    def event(self, call, **info):
        sid = self.step()
        n = self.per_step.get(sid, 0)
        self.per_step[sid] = n + 1
        ev = dict(call=call, step=sid, n=n, **info)
        if self.sched is not None:
            self.sched.io_point(call)
        self.log.append(ev)
        mode = None
        if self.hold:
            mode = None
        elif self.deny is not None:
            mode = self.deny
        elif self.deny_reads is not None and call in ('read',):
            mode = self.deny_reads
        else:
            if self.rule is not None:
                mode = self.rule(ev)
            if mode is None:
                for f in self.faults:
                    if f['step'] == sid and f['at'] <= n and (f['len'] < 0 or n < f['at'] + f['len']):
                        m = f['m']
                        mode = m.get(call, m.get('*')) if isinstance(m, dict) else m
                        if mode is not None:
                            break
        if mode is not None:
            k = call + ':' + mode
            self.fired[k] = self.fired.get(k, 0) + 1
            self.fired_events.append([sid, n, call, mode])
            ev['fault'] = mode
        return mode


def _inside():
    return getattr(_tls, 'depth', 0) > 0


class _Enter:
    def __enter__(self):
        _tls.depth = getattr(_tls, 'depth', 0) + 1

    def __exit__(self, *a):
        _tls.depth -= 1


_enter = _Enter()


def _rel(p):
    try:
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
    except TypeError:
        return '?'
    if os.path.isabs(p):
        # never bake the scratch location into a log
        for base in (os.getcwd(), os.environ.get('SIM_SCRATCH', '/nonexistent')):
            if p.startswith(base + os.sep):
                return p[len(base) + 1:]
    return p


def _fail_simple(mode, call):
    """Generic failing call: None or exception."""
    if mode in ('none', 'garbage_none', 'short_none', 'poison', 'zero_none'):
        return None
    raise _exc(mode, call)


# ---------------------------------------------------------------- GDAL

def _mark(obj, **kw):
    if obj is not None:
        for k, v in kw.items():
            try:
                setattr(obj, '_sim_' + k, v)
            except Exception:
                pass
    return obj


def _wrap_open(name):
    orig = _orig[name]

    def opener(path, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return orig(path, *a, **kw)
        rel = _rel(path)
        mode = s.event('open', path=rel)
        if mode is not None:
            return _fail_simple(mode, 'open')
        with _enter:
            ds = orig(path, *a, **kw)
        s.handles += 1
        _mark(ds, path=rel, level=0, handle=s.handles)
        return ds
    opener.__name__ = name
    return opener


def _wrap_getter(cls, name, call, mk):
    orig = getattr(cls, name)
    _orig[cls.__name__ + '.' + name] = orig

    def getter(self, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return orig(self, *a, **kw)
        mode = s.event(call, path=getattr(self, '_sim_path', '?'), name=name)
        if mode is not None:
            return _fail_simple(mode, call)
        with _enter:
            out = orig(self, *a, **kw)
        if mk is not None:
            mk(self, out, a)
        return out
    getter.__name__ = name
    setattr(cls, name, getter)


def _mk_band(ds, band, a):
    _mark(band, path=getattr(ds, '_sim_path', '?'), level=getattr(ds, '_sim_level', 0),
          handle=getattr(ds, '_sim_handle', 0), band=a[0] if a else None)


def _mk_ovr(band, out, a):
    _mark(out, path=getattr(band, '_sim_path', '?'), level=(a[0] if a else 0) + 1,
          handle=getattr(band, '_sim_handle', 0), band=getattr(band, '_sim_band', None))


def _mk_ds(band, out, a):
    _mark(out, path=getattr(band, '_sim_path', '?'), level=getattr(band, '_sim_level', 0),
          handle=getattr(band, '_sim_handle', 0))


def _spoil(buf, mode, good=None):
    """What a failed read leaves in the caller's buffer."""
    if buf is None:
        return
    try:
        flat = buf
        if mode.startswith('garbage'):
            flat[...] = 77
        elif mode.startswith('short'):
            if good is not None:
                half = max(1, flat.shape[-2] // 2)
                flat[..., :half, :] = good[..., :half, :]
                flat[..., half:, :] = 77
        elif mode.startswith('zero'):
            flat[...] = 0
    except Exception:
        pass


def _wrap_read(cls, name, is_band):
    orig = getattr(cls, name)
    _orig[cls.__name__ + '.' + name] = orig

    def read(self, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return orig(self, *a, **kw)
        names = (['xoff', 'yoff', 'win_xsize', 'win_ysize', 'buf_xsize', 'buf_ysize', 'buf_type', 'buf_obj']
                 if is_band else ['xoff', 'yoff', 'xsize', 'ysize', 'buf_obj'])
        if name == 'ReadRaster':
            names = ['xoff', 'yoff', 'xsize', 'ysize']
        args = dict(zip(names, a))
        args.update(kw)
        xo = args.get('xoff', 0) or 0
        yo = args.get('yoff', 0) or 0
        ws = args.get('win_xsize', args.get('xsize'))
        hs = args.get('win_ysize', args.get('ysize'))
        if ws is None:
            ws = getattr(self, 'XSize', None) or getattr(self, 'RasterXSize', 0)
        if hs is None:
            hs = getattr(self, 'YSize', None) or getattr(self, 'RasterYSize', 0)
        if is_band:
            bands = [getattr(self, '_sim_band', None)]
        else:
            bands = args.get('band_list') or list(range(1, self.RasterCount + 1))
        handle = getattr(self, '_sim_handle', 0)
        ev = dict(path=getattr(self, '_sim_path', '?'), level=getattr(self, '_sim_level', 0),
                  win=[int(xo), int(yo), int(ws), int(hs)], bands=list(bands), handle=handle)
        mode = s.event('read', **ev)
        if mode is None and handle and handle in s.poisoned:
            # a handle that already failed: the driver now claims success
            with _enter:
                out = orig(self, *a, **kw)
            if isinstance(out, np.ndarray):
                out[...] = POISON_VALUE
            s.fired['read:after_poison'] = s.fired.get('read:after_poison', 0) + 1
            s.log[-1]['fault'] = 'after_poison'
            return out
        if mode is not None:
            buf = args.get('buf_obj')
            good = None
            if buf is not None and mode.startswith('short'):
                kw2 = {k: v for k, v in kw.items() if k != 'buf_obj'}
                try:
                    with _enter:
                        good = orig(self, *a, **kw2)
                except Exception:
                    good = None
            _spoil(buf, mode, good)
            if mode == 'poison' and handle:
                s.poisoned.add(handle)
            if mode == 'poison_raise':
                if handle:
                    s.poisoned.add(handle)
                raise _exc('raise', 'read')
            return _fail_simple(mode, 'read')
        sched = s.sched
        if sched is None or not sched.thr:
            with _enter:
                out = orig(self, *a, **kw)
            if sched is not None:
                sched.io_point('read-done')
            return out
        # Several threads: the native read takes time, during which GDAL has
        # released the GIL.  A dataset handle that is read by two threads at
        # the same time gives undefined results.
        clash = handle and handle in s.busy
        if not clash and handle:
            s.busy.add(handle)
        try:
            with _enter:
                out = orig(self, *a, **kw)
            sched.io_point('read-done')
        finally:
            if not clash:
                s.busy.discard(handle)
        if clash:
            s.overlaps += 1
            if isinstance(out, np.ndarray):
                out[...] = 77
        return out
    read.__name__ = name
    setattr(cls, name, read)


# ------------------------------------------------------------ others

def _wrap_func(mod, name, call, key=None):
    orig = getattr(mod, name)
    _orig[key or name] = orig

    def func(*a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return orig(*a, **kw)
        path = a[0] if a else kw.get('fpath', kw.get('file', kw.get('fp', '?')))
        mode = s.event(call, path=_rel(path), name=name)
        if mode is not None:
            if mode in ('none', 'garbage_none', 'short_none', 'poison', 'zero_none'):
                mode = 'oserror'
            raise _exc(mode, call)
        with _enter:
            out = orig(*a, **kw)
        if key == 'rasterio.open':
            return _RioProxy(out, _rel(path))
        return out
    func.__name__ = name
    func.__wrapped__ = orig
    setattr(mod, name, func)


class _RioProxy:
    """rasterio datasets are C objects; only ``read`` has to be intercepted."""

    def __init__(self, ds, path):
        self.__dict__['_ds'] = ds
        self.__dict__['_path'] = path

    def __getattr__(self, k):
        return getattr(self._ds, k)

    def read(self, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return self._ds.read(*a, **kw)
        mode = s.event('read', path=self._path, level=0, win=[0, 0, 0, 0],
                       bands=[], handle=0, name='rasterio')
        if mode is not None:
            raise _exc('raise' if mode in ('none', 'garbage_none', 'short_none', 'poison', 'zero_none') else mode, 'read')
        with _enter:
            return self._ds.read(*a, **kw)


class _FileProxy:
    """Text/binary file handle whose reads may fail."""

    def __init__(self, f, path):
        self.__dict__['_f'] = f
        self.__dict__['_path'] = path

    def __getattr__(self, k):
        return getattr(self._f, k)

    def _do(self, name, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return getattr(self._f, name)(*a, **kw)
        mode = s.event('hdrread', path=self._path, name=name)
        if mode is not None:
            raise _exc('oserror' if mode != 'memerr' else mode, 'hdrread')
        return getattr(self._f, name)(*a, **kw)

    def read(self, *a, **kw):
        return self._do('read', *a, **kw)

    def readline(self, *a, **kw):
        return self._do('readline', *a, **kw)

    def readlines(self, *a, **kw):
        return self._do('readlines', *a, **kw)

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)


_audit_on = [False]


def _caller_is_lib(depth=2):
    f = sys._getframe(depth)
    return _is_lib(f.f_code.co_filename)


_lib_dir = [None]


def _is_lib(fn):
    return _lib_dir[0] is not None and fn.startswith(_lib_dir[0])


def _audit(event, args):
    s = ACTIVE
    if s is None or not s.counting or _inside():
        return
    if event == 'open':
        path = args[0]
        if isinstance(path, int):
            return
        rel = _rel(path)
        if rel.startswith('/') and not rel.startswith(('/sim-missing',)):
            return      # imports, /proc ...
        with _enter:
            s.log.append(dict(call='pyopen', path=rel, step=s.step(), n=-1))


def install(mods):
    """Install all wrappers (idempotent, before any run)."""
    if _orig:
        return
    from osgeo import gdal, gdal_array
    lazy = mods['lazy']
    kwimage = mods['kwimage']
    _lib_dir[0] = os.path.realpath(os.path.dirname(mods['di'].__file__)) + os.sep
    for name in ('Open', 'OpenEx', 'OpenShared'):
        _orig[name] = getattr(gdal, name)
        setattr(gdal, name, _wrap_open(name))
    D, B = gdal.Dataset, gdal.Band
    _wrap_getter(D, 'GetRasterBand', 'band', _mk_band)
    _wrap_getter(B, 'GetOverview', 'ovr', _mk_ovr)
    _wrap_getter(B, 'GetDataset', 'ovrds', _mk_ds)
    _wrap_getter(B, 'GetOverviewCount', 'count', None)
    _wrap_getter(B, 'GetNoDataValue', 'nodata', None)
    _wrap_getter(D, 'GetMetadata', 'meta', None)
    for name in ('ReadAsArray', 'ReadRaster'):
        _wrap_read(B, name, True)
        _wrap_read(D, name, False)
    _wrap_func(gdal_array, 'LoadFile', 'imread')
    _wrap_func(kwimage, 'imread', 'imread')
    _wrap_func(kwimage, 'load_image_shape', 'imshape')
    import rasterio
    _wrap_func(rasterio, 'open', 'open', key='rasterio.open')
    import spectral.io.envi
    import spectral
    _wrap_func(spectral.io.envi, 'open', 'open', key='spectral.open')
    try:
        spectral.envi.open = spectral.io.envi.open
    except Exception:
        pass
    from spectral.io import bilfile, bipfile, bsqfile
    for m, c in ((bilfile, 'BilFile'), (bipfile, 'BipFile'), (bsqfile, 'BsqFile')):
        cls = getattr(m, c)
        for name in ('read_subregion', 'read_bands', 'read_band', 'read_subimage'):
            if name in cls.__dict__:
                _wrap_spectral(cls, name)

    def lib_open(path, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return builtins.open(path, *a, **kw)
        mode = s.event('hdropen', path=_rel(path))
        if mode is not None:
            raise _exc('oserror' if mode not in ('memerr',) else mode, 'hdropen')
        with _enter:
            f = builtins.open(path, *a, **kw)
        return _FileProxy(f, _rel(path))
    # module level name shadows the builtin inside the library only
    lazy.open = lib_open
    if not _audit_on[0]:
        sys.addaudithook(_audit)
        _audit_on[0] = True


def _wrap_spectral(cls, name):
    orig = cls.__dict__[name]

    def read(self, *a, **kw):
        s = ACTIVE
        if s is None or _inside():
            return orig(self, *a, **kw)
        mode = s.event('read', path=_rel(getattr(self, 'filename', '?')), level=0,
                       win=[0, 0, 0, 0], bands=[], handle=0, name='spectral')
        if mode is not None:
            raise _exc('oserror' if mode in ('none', 'garbage_none', 'short_none', 'poison', 'zero_none') else mode, 'read')
        with _enter:
            return orig(self, *a, **kw)
    read.__name__ = name
    setattr(cls, name, read)


class active:
    """``with active(seam):`` routes storage access of this process to it."""

    def __init__(self, seam):
        self.seam = seam

    def __enter__(self):
        global ACTIVE
        self.prev = ACTIVE
        ACTIVE = self.seam
        return self.seam

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.prev


class paused:
    """The simulator's own file accesses are not the code's."""

    def __enter__(self):
        _enter.__enter__()

    def __exit__(self, *a):
        _enter.__exit__()
