"""
The files the simulated runs read.

They are written by GDAL drivers directly (not by the code under test) from
seeded noise; the written arrays are kept, so that the content of every file,
band and overview is known independently of every reader.
"""
import os
import shutil

import numpy as np

SPEC = {
    # key: (driver, ext, w, h, bands, dtype, options)
    'rgb':   ('GTiff', '.tif', 61, 47, 3, 'uint8', dict(opts=['INTERLEAVE=PIXEL', 'BLOCKYSIZE=8'], ov=[2, 4])),
    'tile':  ('GTiff', '.tif', 96, 80, 4, 'uint16', dict(opts=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16', 'COMPRESS=DEFLATE', 'INTERLEAVE=BAND'], ov=[2, 4, 8])),
    'i16':   ('GTiff', '.tif', 53, 41, 2, 'int16', dict(opts=['INTERLEAVE=BAND'], ov=[2, 4], nodata=-9999)),
    'f32':   ('GTiff', '.tif', 40, 33, 1, 'float32', dict(opts=['COMPRESS=LZW'])),
    'u8':    ('GTiff', '.tif', 45, 64, 1, 'uint8', dict(opts=['BLOCKYSIZE=4'], ov=[2, 4], nodata=0)),
    'u16b':  ('GTiff', '.tif', 61, 47, 3, 'uint8', dict(opts=['INTERLEAVE=BAND'], ov=[2, 4])),
    'six':   ('GTiff', '.tif', 36, 30, 6, 'uint16', dict(opts=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16', 'INTERLEAVE=BAND'], ov=[2])),
    'big':   ('GTiff', '.tif', 400, 352, 4, 'uint8', dict(opts=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16', 'COMPRESS=DEFLATE', 'INTERLEAVE=BAND'], ov=[2, 4, 8])),
    'bigp':  ('GTiff', '.tif', 384, 320, 3, 'uint16', dict(opts=['INTERLEAVE=PIXEL', 'BLOCKYSIZE=8'], ov=[2, 4])),
    'pngc':  ('PNG', '.png', 50, 38, 3, 'uint8', {}),
    'pngg':  ('PNG', '.png', 31, 27, 1, 'uint8', {}),
    'envi':  ('ENVI', '.bsq', 30, 26, 5, 'uint16', dict(opts=['INTERLEAVE=BSQ', 'SUFFIX=REPLACE'])),
    'bip':   ('ENVI', '.bip', 27, 22, 3, 'int16', dict(opts=['INTERLEAVE=BIP', 'SUFFIX=REPLACE'])),
    'bil':   ('ENVI', '.bil', 24, 25, 4, 'float32', dict(opts=['INTERLEAVE=BIL', 'SUFFIX=REPLACE'])),
}
GT = {'Byte': 1}


def _img(rng, h, w, c, dtype):
    yy, xx = np.mgrid[0:h, 0:w]
    out = np.empty((h, w, c), dtype=np.float64)
    for k in range(c):
        a = rng.uniform(0.05, 0.4, 4)
        base = 0.5 + 0.2 * np.sin(a[0] * xx + a[1] * yy) + 0.2 * np.cos(a[2] * xx - a[3] * yy)
        out[..., k] = 0.7 * base + 0.3 * rng.uniform(0, 1, (h, w))
    if dtype == 'uint8':
        return (1 + out * 250).clip(1, 255).astype(np.uint8)
    if dtype == 'uint16':
        return (1 + out * 60000).clip(1, 65535).astype(np.uint16)
    if dtype == 'int16':
        return (out * 20000 - 5000).astype(np.int16)
    return out.astype(dtype)


class Fix:
    pass


FIX = {}


def _write(gdal, path, drv, arr, o, variant=0):
    h, w, c = arr.shape
    t = {'uint8': gdal.GDT_Byte, 'uint16': gdal.GDT_UInt16, 'int16': gdal.GDT_Int16,
         'float32': gdal.GDT_Float32}[str(arr.dtype)]
    if drv == 'PNG':
        mem = gdal.GetDriverByName('MEM').Create('', w, h, c, t)
        for k in range(c):
            mem.GetRasterBand(k + 1).WriteArray(arr[..., k])
        ds = gdal.GetDriverByName('PNG').CreateCopy(path, mem)
        ds = None
        return
    ds = gdal.GetDriverByName(drv).Create(path, w, h, c, t, options=o.get('opts', []))
    for k in range(c):
        b = ds.GetRasterBand(k + 1)
        b.WriteArray(arr[..., k])
        if 'nodata' in o:
            b.SetNoDataValue(o['nodata'])
    ds.FlushCache()
    if o.get('ov'):
        gdal.SetConfigOption('GDAL_TIFF_OVR_BLOCKSIZE', '64')
        ds.BuildOverviews('NEAREST' if variant % 2 else 'AVERAGE', o['ov'])
    ds = None


def build(root, gdal):
    """Write every fixture (two variants of content each) below root."""
    os.makedirs(root, exist_ok=True)
    for key, (drv, ext, w, h, c, dt, o) in SPEC.items():
        for variant in (0, 1):
            rng = np.random.RandomState(abs(hash_str(key)) % 10000 + 77 * variant)
            arr = _img(rng, h, w, c, dt)
            if 'nodata' in o:
                arr[2:9, 3:11] = o['nodata']
                arr[h // 2:, w - 6:w - 2, 0] = o['nodata']
            f = Fix()
            f.key, f.variant, f.ext, f.drv = key, variant, ext, drv
            f.w, f.h, f.c, f.dtype = w, h, c, dt
            f.nodata = o.get('nodata')
            f.path = os.path.join(root, '%s_%d%s' % (key, variant, ext))
            _write(gdal, f.path, drv, arr, o, variant)
            f.levels = [arr]
            ds = gdal.Open(f.path)
            for k in range(c):
                got = ds.GetRasterBand(k + 1).ReadAsArray()
                assert (got == arr[..., k]).all(), key
            for lv in range(len(o.get('ov', []))):
                lay = [ds.GetRasterBand(k + 1).GetOverview(lv).ReadAsArray() for k in range(c)]
                f.levels.append(np.stack(lay, axis=2))
            f.blocks = _blocks(ds) if drv == 'GTiff' else {}
            ds = None
            f.nov = len(f.levels) - 1
            f.parts = [os.path.basename(f.path)]
            if drv == 'ENVI':
                f.hdr = f.path[:-len(ext)] + '.hdr'
                assert os.path.exists(f.hdr)
                f.parts.append(os.path.basename(f.hdr))
            f.bytes = {p: open(os.path.join(root, p), 'rb').read() for p in f.parts}
            FIX[(key, variant)] = f
    return FIX


def _blocks(ds):
    """(level, band, bx, by) -> (offset, size) of the stored blocks."""
    out = {}
    sep = ds.GetMetadata('IMAGE_STRUCTURE').get('INTERLEAVE') == 'BAND'
    for k in range(ds.RasterCount):
        base = ds.GetRasterBand(k + 1)
        for lv in range(base.GetOverviewCount() + 1):
            b = base if lv == 0 else base.GetOverview(lv - 1)
            bw, bh = b.GetBlockSize()
            for by in range(-(-b.YSize // bh)):
                for bx in range(-(-b.XSize // bw)):
                    off = b.GetMetadataItem('BLOCK_OFFSET_%d_%d' % (bx, by), 'TIFF')
                    siz = b.GetMetadataItem('BLOCK_SIZE_%d_%d' % (bx, by), 'TIFF')
                    if off and siz:
                        out[(lv, k + 1, bx, by)] = (int(off), int(siz), bw, bh)
    return out


def hash_str(s):
    v = 0
    for ch in s:
        v = (v * 131 + ord(ch)) & 0x7fffffff
    return v


def place(name, key, variant, dst='.'):
    """Put a fixture into the run directory, returns the path to load."""
    f = FIX[(key, variant)]
    stem = os.path.join(dst, name)
    if os.sep in name:
        os.makedirs(os.path.dirname(stem), exist_ok=True)
    for p, data in f.bytes.items():
        ext = os.path.splitext(p)[1]
        with open(stem + ext, 'wb') as h:
            h.write(data)
    return name + ('.hdr' if f.drv == 'ENVI' else f.ext)


def load_name(name, key):
    drv, ext = SPEC[key][:2]
    return name + ('.hdr' if drv == 'ENVI' else ext)


def data_name(name, key):
    return name + SPEC[key][1]
