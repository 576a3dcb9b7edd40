"""
Operation scripts over delayed images: generation, execution and an
independent model.

A script is a list of JSON steps.  Building steps create nodes, the others use
them; references are step ids.
"""
import gc
import os
import re

import numpy as np

from . import canon as C
from . import env, fixtures, seam as seam_mod

BUILD = {'load', 'nans', 'nodata', 'ident', 'crop', 'pcrop', 'warp', 'resize', 'scale',
         'deq', 'ov', 'take', 'cat', 'xr', 'opt', 'eval', 'undo', 'upart'}


# ------------------------------------------------------------------ generate

class Shadow:
    __slots__ = ('id', 'w', 'h', 'ch', 'ov', 'kind', 'prep', 'depth', 'isfloat')

    def __init__(self, id, w, h, ch, ov=0, kind='', prep=True, depth=0, isfloat=False):
        self.id, self.w, self.h, self.ch, self.ov = id, w, h, list(ch), ov
        self.kind, self.prep, self.depth, self.isfloat = kind, prep, depth, isfloat


class Gen:
    """Random pipelines.  ``rng`` is a random.Random."""

    def __init__(self, rng, pool=None, max_files=3, known=0.35, warps=True, unprepared=0.0,
                 nodata=True, ident=True, partial=0.15, dup=0.25, prefix='', fprefix='', sized=0):
        self.rng = rng
        self.pool = pool or ['rgb', 'tile', 'i16', 'f32', 'u8', 'u16b', 'six', 'pngc', 'pngg', 'envi']
        self.files = []
        self.steps = []
        self.n = 0
        self.nodes = []
        self.known = known
        self.partial = partial
        self.dup = dup
        self.warps = warps
        self.unprepared = unprepared
        self.nodata = nodata
        self.max_files = max_files
        self.ident = ident
        self.prefix = prefix
        self.fprefix = fprefix
        self.chprefix = prefix
        self.nch = 0
        # operations that are more likely in this tree
        self.negidx = False
        self.sized = sized        # how many known images say nothing about overviews
        self.xrs = []           # nodes that yield xarrays (there is nothing to build on them)
        self.favour = []
        if rng.random() < 0.4:
            self.favour = [rng.choice(['crop', 'take', 'deq', 'deq', 'warp', 'ov', 'pcrop', 'resize'])
                           for _ in range(rng.choice([1, 1, 2]))] * 6

    def add(self, k, **kw):
        self.n += 1
        sid = '%s%s%d' % (self.prefix, k[0], self.n)
        st = dict(id=sid, k=k, **kw)
        self.steps.append(st)
        return sid

    def names(self, n):
        out = []
        for _ in range(n):
            out.append('%sc%d' % (self.chprefix, self.nch))
            self.nch += 1
        return out

    # leafs
    def leaf(self, want=None):
        r = self.rng
        if want is None:
            x = r.random()
            want = 'load' if x < 0.86 or not self.ident else ('ident' if x < 0.95 else 'nans')
        if want == 'load':
            if self.files and (len(self.files) >= self.max_files or r.random() < 0.25):
                f = r.choice(self.files)
            else:
                key = r.choice(self.pool)
                f = dict(name='%sf%d' % (self.fprefix, len(self.files)), key=key, var=r.randrange(2))
                self.files.append(f)
            return self.load(f)
        if want == 'ident':
            w, h, c = r.randint(12, 40), r.randint(12, 40), r.randint(1, 3)
            dt = r.choice(['uint8', 'float32', 'uint16'])
            ch = self.names(c)
            sid = self.add('ident', seed=r.randrange(10000), whc=[w, h, c], dt=dt, ch='|'.join(ch))
            s = Shadow(sid, w, h, ch, 0, 'ident', isfloat=dt == 'float32')
        else:
            w, h, c = r.randint(12, 40), r.randint(12, 40), r.randint(1, 2)
            ch = self.names(c)
            nd = 'float'
            if r.random() < 0.5:
                sid = self.add('nans', wh=[w, h], ch='|'.join(ch))
            else:
                if self.nodata:
                    nd = r.choice(['float', 'float', 'ma'])
                sid = self.add('nodata', wh=[w, h], ch='|'.join(ch), nd=nd)
            s = Shadow(sid, w, h, ch, 0, 'nans', isfloat=nd == 'float')
        self.nodes.append(s)
        return s

    def load(self, f, nd='?', known=None, prep=None):
        r = self.rng
        drv, ext, w, h, c, dt, o = fixtures.SPEC[f['key']]
        nov = len(o.get('ov', []))
        ch = self.names(c)
        if nd == '?':
            nd = r.choice([None, None, None, 'float', 'auto', 'ma'] if self.nodata else [None])
        known = (r.random() < self.known) if known is None else known
        kw = {}
        if known:
            kw['wh'] = [w, h]
            if self.sized and r.random() < self.sized:
                pass            # nobody has asked for overviews
            else:
                kw['nov'] = nov
        elif r.random() < self.partial and prep is not False:
            # only some of the metadata is given
            if r.random() < 0.7:
                kw['wh'] = [w, h]
            else:
                kw['nov'] = nov
            prep = True
        sid = self.add('load', f=f['name'], key=f['key'], ch='|'.join(ch), nd=nd, **kw)
        s = Shadow(sid, w, h, ch, nov, 'load', isfloat=nd in ('float', 'auto') or dt == 'float32')
        if not known:
            prep = (r.random() >= self.unprepared) if prep is None else prep
            if prep:
                self.add('prep', a=sid)
            else:
                s.prep = False
                s.ov = 0
        self.nodes.append(s)
        return s

    # operations
    def op(self, s, k=None):
        r = self.rng
        ops = ['crop'] * 4 + ['take'] * 2 + ['deq']
        if not s.prep:
            ops = ['take', 'take', 'deq']
        else:
            if self.warps:
                ops += ['warp'] * 3 + ['resize', 'scale']
                if s.w > 20:
                    ops += ['pcrop']
            if s.w >= 12 and s.h >= 12:
                ops += ['ov'] * 2
        ops += [x for x in self.favour if x in ops]
        if len(set(s.ch)) != len(s.ch):
            ops = [x for x in ops if x != 'take']     # by name it would be ambiguous
        k = k or r.choice(ops)
        if k in ('crop', 'pcrop') and (s.w < 6 or s.h < 6):
            k = 'take' if len(set(s.ch)) == len(s.ch) else 'deq'
        if k == 'crop':
            x0 = r.randint(0, s.w - 4)
            x1 = r.randint(x0 + 3, s.w)
            y0 = r.randint(0, s.h - 4)
            y1 = r.randint(y0 + 3, s.h)
            ci = None
            ch = s.ch
            if r.random() < 0.2:
                ci = [r.randrange(len(s.ch)) for _ in range(r.randint(1, len(s.ch)))]
                if r.random() < 0.7:
                    ci = sorted(set(ci))
                ch = [s.ch[i] for i in ci]
            if ci is None and r.random() < 0.08:
                sid = self.add('crop', a=s.id, sl=[y0, y1, x0, x1], ci=ci, lazy=True)
            else:
                kw = {}
                if r.random() < 0.25:
                    # other ways to write the same
                    kw['how'] = r.choice(['neg', 'index', 'negindex', 'none', 'tuple'])
                sid = self.add('crop', a=s.id, sl=[y0, y1, x0, x1], ci=ci, **kw)
            n = Shadow(sid, x1 - x0, y1 - y0, ch, s.ov, 'crop', True, s.depth + 1, s.isfloat)
            if ci is not None and len(set(ci)) != len(ci):
                n.ov = s.ov
        elif k == 'pcrop':
            x0, x1 = r.randint(-5, 3), s.w + r.randint(-6, 5)
            y0, y1 = r.randint(-5, 3), s.h + r.randint(-3, 5)
            y1 = max(y1, y0 + 4)
            if r.random() < 0.3:
                p = r.choice([1, 3, [[0, 2], [1, 0]], [[2, 2], [3, 3]]])
                sid = self.add('pcrop', a=s.id, sl=[y0, y1, x0, x1], pad=p)
                (t, b), (l, rr) = p if isinstance(p, list) else [[p, p]] * 2
                x0, x1, y0, y1 = x0 - l, x1 + rr, y0 - t, y1 + b
            else:
                sid = self.add('pcrop', a=s.id, sl=[y0, y1, x0, x1])
            n = Shadow(sid, x1 - x0, y1 - y0, s.ch, s.ov, 'warp', True, s.depth + 1, s.isfloat)
        elif k in ('warp', 'scale', 'resize'):
            kw = {}
            if r.random() < 0.6:
                kw['interpolation'] = r.choice(['nearest', 'linear', 'cubic', 'area', 'lanczos', 'linear'])
            if r.random() < 0.4:
                kw['antialias'] = r.random() < 0.5
            if r.random() < 0.2:
                kw['border_value'] = r.choice([0, 3, 'auto'])
            if r.random() < 0.08:
                kw['noop_eps'] = r.choice([0.01, 1e-6])
            sf = r.choice([0.5, 0.25, 0.4, 0.7, 1.0, 1.3, 2.0, 0.125])
            while min(s.w, s.h) * sf < 4:
                sf *= 2
            while max(s.w, s.h) * sf > 220:
                sf /= 2
            w, h = max(3, int(round(s.w * sf))), max(3, int(round(s.h * sf)))
            if k == 'resize':
                sid = self.add('resize', a=s.id, wh=[w, h], kw=kw)
            elif k == 'scale':
                sid = self.add('scale', a=s.id, s=sf, wh=[w, h], kw=kw)
            else:
                tf = {'scale': sf}
                x = r.random()
                if x < 0.35:
                    tf['offset'] = [round(r.uniform(-4, 4), 2), round(r.uniform(-4, 4), 2)]
                elif x < 0.5:
                    tf['theta'] = round(r.uniform(-0.3, 0.3), 3)
                elif x < 0.65:
                    tf = {'offset': [r.randint(-4, 4), r.randint(-4, 4)]}
                    w, h = s.w, s.h
                elif x < 0.68:
                    tf = {'scale': 1.0}
                    w, h = s.w, s.h
                    kw['lazy'] = True
                st = {}
                if r.random() < 0.25:
                    st['form'] = r.choice(['affine', 'mat'])
                sid = self.add('warp', a=s.id, tf=tf, wh=[w, h], kw=kw, **st)
            n = Shadow(sid, w, h, s.ch, s.ov, 'warp', True, s.depth + 1, s.isfloat)
        elif k == 'deq':
            q = {'orig_dtype': 'float32', 'orig_min': 0, 'orig_max': 1, 'quant_min': 0,
                 'quant_max': r.choice([255, 65535, 1000]), 'nodata': r.choice([None, 0, -9999])}
            if r.random() < 0.15:
                # what has a default need not be given
                for x in r.sample(['orig_dtype', 'orig_min', 'orig_max', 'quant_min', 'nodata'], r.randint(1, 5)):
                    del q[x]
            sid = self.add('deq', a=s.id, q=q)
            n = Shadow(sid, s.w, s.h, s.ch, s.ov, 'deq', s.prep, s.depth + 1, True)
        elif k == 'ov':
            lv = r.randint(1, 2) if min(s.w, s.h) > 24 else 1
            sid = self.add('ov', a=s.id, n=lv)
            n = Shadow(sid, -(-s.w // 2 ** lv), -(-s.h // 2 ** lv), s.ch, max(0, s.ov - lv), 'ov',
                       True, s.depth + 1, s.isfloat)
        elif k == 'take':
            ch = [r.choice(s.ch) for _ in range(r.randint(1, len(s.ch)))]
            seen = []
            for c in ch:
                if c not in seen:
                    seen.append(c)
            ch = seen
            if r.random() < 0.2 and s.prep:
                # by position
                ci = [s.ch.index(c) for c in ch]
                if self.negidx and r.random() < 0.4:
                    ci = [i - len(s.ch) if r.random() < 0.6 else i for i in ci]
                sid = self.add('take', a=s.id, ch=ci)
            else:
                if r.random() < 0.12 and s.prep:
                    ch = ch + ['missing%d' % r.randrange(3)]
                kw = {}
                if r.random() < 0.08:
                    kw['pol'] = 'error'
                sid = self.add('take', a=s.id, ch='|'.join(ch), **kw)
            n = Shadow(sid, s.w, s.h, ch, s.ov, 'take', s.prep, s.depth + 1, s.isfloat)
        self.nodes.append(n)
        return n

    def cat(self, parts=None):
        r = self.rng
        if parts is None:
            cands = [s for s in self.nodes if s.prep]
            if not cands:
                return None
            a = r.choice(cands)
            parts = [a]
            for _ in range(r.randint(1, 2)):
                b = r.choice(cands)
                parts.append(b)
        a = parts[0]
        used = set(a.ch)
        out = [a]
        dup = r.random() < self.dup
        if dup and a.kind in ('warp', 'crop', 'load', 'ov') and r.random() < 0.6:
            # the same node directly and below something of the same size
            k = r.choice(['deq', 'deq', 'crop', 'warp']) if self.warps else 'deq'
            if k == 'deq':
                b = self.op(a, 'deq')
            elif k == 'crop':
                sid = self.add('crop', a=a.id, sl=[0, a.h, 0, a.w], ci=list(range(len(a.ch)))[::-1])
                b = Shadow(sid, a.w, a.h, a.ch[::-1], a.ov, 'crop', True, a.depth + 1, a.isfloat)
                self.nodes.append(b)
            else:
                sid = self.add('warp', a=a.id, tf={'offset': [r.randint(-3, 3), 1]}, wh=[a.w, a.h], kw={})
                b = Shadow(sid, a.w, a.h, a.ch, a.ov, 'warp', True, a.depth + 1, a.isfloat)
                self.nodes.append(b)
            parts = [a, b]
            if r.random() < 0.5:
                parts = [b, a]
                a = b
                out = [a]
        for b in parts[1:]:
            if set(b.ch) & used and not (dup and (b.w, b.h) == (a.w, a.h)):
                if len(set(b.ch)) != len(b.ch):
                    continue
                keep = [c for c in b.ch if c not in used]
                if not keep:
                    continue
                sid = self.add('take', a=b.id, ch='|'.join(keep))
                b = Shadow(sid, b.w, b.h, keep, b.ov, 'take', True, b.depth + 1, b.isfloat)
                self.nodes.append(b)
            if (b.w, b.h) != (a.w, a.h):
                if not self.warps:
                    continue
                sid = self.add('resize', a=b.id, wh=[a.w, a.h], kw={})
                b = Shadow(sid, a.w, a.h, b.ch, b.ov, 'warp', True, b.depth + 1, b.isfloat)
                self.nodes.append(b)
            out.append(b)
            used |= set(b.ch)
        sid = self.add('cat', ps=[p.id for p in out])
        n = Shadow(sid, a.w, a.h, sum([p.ch for p in out], []), min(p.ov for p in out), 'cat', True,
                   max(p.depth for p in out) + 1, any(p.isfloat for p in out))
        self.nodes.append(n)
        return n

    def tree(self, leafs=None, nops=None):
        """A pipeline with shared nodes; returns the last node."""
        r = self.rng
        for _ in range(leafs or r.randint(1, 3)):
            self.leaf()
        last = self.nodes[-1]
        for _ in range(nops if nops is not None else r.randint(1, 6)):
            x = r.random()
            if x < 0.22 and len(self.nodes) > 1:
                last = self.cat() or last
            else:
                src = last if r.random() < 0.7 else r.choice(self.nodes)
                if src.depth > 7:
                    src = r.choice(self.nodes)
                last = self.op(src)
        return last

    def targets(self, n=3, prepared=None):
        r = self.rng
        c = [s for s in self.nodes if s.w * s.h <= 16000]
        if prepared:
            c = [s for s in c if s.prep] or c
        c = sorted(c, key=lambda s: -s.depth)
        pick = c[:2] + [r.choice(c) for _ in range(n)]
        out = []
        for s in pick:
            if s not in out:
                out.append(s)
        return out[:n]


def gen_undo(r):
    kw = r.choice([{'remove': ['scale']}, {'remove': ['scale']}, {'retain': ['offset', 'theta']}, {'remove': ['offset']}, {'retain': ['scale']}, {}])
    kw = dict(kw)
    if r.random() < 0.3:
        kw['squash_nans'] = True
    if r.random() < 0.25:
        kw['rw'] = True
    return kw


def gen_kw(rng, nans=True):
    kw = {}
    if rng.random() < 0.7:
        kw['interpolation'] = rng.choice(['nearest', 'linear', 'cubic', 'area', 'lanczos'])
    if rng.random() < 0.5:
        kw['antialias'] = rng.random() < 0.5
    if rng.random() < 0.35:
        kw['nodata_method'] = rng.choice([None, 'float', 'auto'])
    if rng.random() < 0.3:
        kw['border_value'] = rng.choice([0, 5, 'auto'])
    return kw or {'interpolation': rng.choice(['nearest', 'cubic'])}


# ------------------------------------------------------------------- execute

class Skip(Exception):
    pass


def ident_array(st):
    w, h, c = st['whc']
    rs = np.random.RandomState(st['seed'])
    a = rs.uniform(0, 1, (h, w, c))
    if st['dt'] == 'uint8':
        return (a * 255).astype(np.uint8)
    if st['dt'] == 'uint16':
        return (a * 65535).astype(np.uint16)
    return a.astype(np.float32)


class Machine:
    """Executes scripts against the real library in the current process."""

    def __init__(self, mods, seam=None, sched=None, absdir=None):
        self.m = mods
        self.vals = {}
        self.out = {}
        self.info = {}          # err messages etc (not compared)
        self.seam = seam
        self.sched = sched
        self.inputs = []        # (label, object, digest) handed in by the caller
        self.arrays = []        # (label, array, digest) handed out to the caller
        self.keep_arrays = False
        self.absdir = absdir

    def get(self, sid):
        try:
            return self.vals[sid]
        except KeyError:
            raise Skip(sid)

    def path(self, st):
        p = fixtures.load_name(st['f'], st['key'])
        return os.path.join(self.absdir, p) if self.absdir else p

    def give(self, label, obj):
        if self.keep_arrays:
            self.inputs.append((label, obj, C.digest(C.canon(obj))))
        return obj

    def do(self, st):
        """Execute one step; returns its outcome (never raises)."""
        sid = st['id']
        seam, sched = self.seam, self.sched
        try:
            try:
                if seam is not None:
                    seam.set_step(sid)
                if sched is not None:
                    sched.set_step(sid)
                v = self._exec(st)
            finally:
                if sched is not None:
                    sched.set_step(None)
                if seam is not None:
                    seam.set_step(None)
        except Skip:
            out = ['skip']
        except BaseException as ex:
            from . import sched as S
            if isinstance(ex, (S.Deadlock, S.StepCap)):
                raise
            name = type(ex).__name__
            out = ['err', name]
            self.info[sid] = str(ex)[:300]
            ex.__traceback__ = None
            c = ex
            n = 0
            while c is not None and n < 20:
                nxt = c.__context__
                c.__traceback__ = None
                c = nxt
                n += 1
            del c, ex
        else:
            out = self.observe(st, v)
        self.out[sid] = out
        return out

    def observe(self, st, v):
        k = st['k']
        if k in BUILD:
            more = []
            if k == 'undo' and isinstance(v, tuple):
                v, more = v[0], [C.canon(v[1])]
            self.vals[st['id']] = v
            if k == 'undo':
                return ['ok', more + [self.node_view(n) for n in (v if isinstance(v, list) else [v])]]
            return ['ok', self.node_view(v)]
        if k == 'prep':
            return ['ok', self.node_view(self.vals[st['a']])]
        if k in ('fin', 'finxr'):
            out = ['ok', C.canon(v)]
            if self.keep_arrays and isinstance(v, np.ndarray):
                self.arrays.append((st['id'], v, C.digest(out[1])))
            return out
        return ['ok', v if isinstance(v, (str, int, bool, type(None), list)) else C.canon(v)]

    def node_view(self, n):
        out = [type(n).__name__]
        for name in ('shape', 'dsize', 'channels', 'num_channels', 'num_overviews'):
            try:
                out.append(C.canon(getattr(n, name)))
            except Exception as ex:
                out.append(['exc', type(ex).__name__])
        return out

    def _exec(self, st):
        m = self.m
        k = st['k']
        di = m['di']
        leafs, nodes = m['leafs'], m['nodes']
        if k == 'load':
            kw = {}
            if st.get('wh'):
                kw['dsize'] = tuple(st['wh'])
            if 'nov' in st:
                # (overviews cannot be used without GDAL)
                kw['num_overviews'] = st['nov'] if self.m['lazy'].LazyGDalFrameFile.available() else 0
            return leafs.DelayedLoad(self.path(st), channels=st.get('ch'), nodata_method=st.get('nd'), **kw)
        if k == 'nans':
            return leafs.DelayedNans(tuple(st['wh']), channels=st['ch'])
        if k == 'nodata':
            return leafs.DelayedNodata(tuple(st['wh']), channels=st['ch'], nodata_method=st['nd'])
        if k == 'ident':
            arr = self.give(st['id'], ident_array(st))
            return leafs.DelayedIdentity(arr, channels=st['ch'])
        if k == 'cat':
            return nodes.DelayedChannelConcat([self.get(p) for p in st['ps']])
        if k == 'fs':
            with seam_mod.paused():
                fs_action(st)
            return None
        if k == 'gc':
            gc.collect()
            return None
        if k == 'del':
            self.vals.pop(st['a'], None)
            return None
        a = self.get(st['a'])
        if k == 'crop':
            y0, y1, x0, x1 = st['sl']
            sl = (slice(y0, y1), slice(x0, x1))
            ci = st.get('ci')
            if ci is not None:
                ci = self.give(st['id'], list(ci))
            if st.get('lazy'):
                return a.crop(sl, ci, lazy=True)
            how = st.get('how')
            if how:
                w, h = a.dsize
                if how.startswith('neg'):
                    sl = (slice(y0 - h, y1 - h if y1 < h else None), slice(x0 - w, x1 - w if x1 < w else None))
                elif how == 'none':
                    sl = (slice(y0 or None, y1 if y1 < h else None), slice(x0 or None, x1 if x1 < w else None))
                elif how == 'tuple' and ci is not None:
                    ci = tuple(ci)
                if how.endswith('index'):
                    return a[sl] if ci is None else a[sl[0], sl[1], ci]
            return a.crop(sl, ci)
        if k == 'pcrop':
            y0, y1, x0, x1 = st['sl']
            kw = {}
            if 'pad' in st:
                p = st['pad']
                kw['pad'] = self.give(st['id'], [tuple(v) for v in p]) if isinstance(p, list) else p
            return a.crop((slice(y0, y1), slice(x0, x1)), clip=False, wrap=False, **kw)
        if k == 'warp':
            tf = {kk: (tuple(v) if isinstance(v, list) else v) for kk, v in st['tf'].items()}
            form = st.get('form')
            if form:
                tf = m['kwimage'].Affine.coerce(tf)
                if form == 'mat':
                    tf = np.array(tf)
            tf = self.give(st['id'], tf)
            return a.warp(tf, dsize=tuple(st['wh']) if st.get('wh') else 'auto', **st['kw'])
        if k == 'scale':
            return a.scale(st['s'], dsize=tuple(st['wh']), **st['kw'])
        if k == 'resize':
            return a.resize(tuple(st['wh']), **st['kw'])
        if k == 'deq':
            q = self.give(st['id'], dict(st['q']))
            return a.dequantize(q)
        if k == 'ov':
            return a.get_overview(st['n'])
        if k == 'take':
            ch = st['ch']
            if isinstance(ch, list):
                ch = self.give(st['id'], list(ch))
            if 'pol' in st:
                return a.take_channels(ch, missing_channel_policy=st['pol'])
            return a.take_channels(ch)
        if k == 'xr':
            return a.as_xarray()
        if k == 'opt':
            return a.optimize()
        if k == 'eval':
            return a.evaluate()
        if k == 'undo':
            kw = dict(st.get('kw') or {'remove': ['scale']})
            for kk in ('remove', 'retain'):
                if kk in kw:
                    v = self.give(st['id'], list(kw[kk]))
                    kw[kk] = v if kk == 'remove' else self.give(st['id'], set(v))
            rw = kw.pop('rw', False)
            many = hasattr(a, 'undo_warps')
            if rw:
                kw['return_warps' if many else 'return_warp'] = True
            return a.undo_warps(**kw) if many else a.undo_warp(**kw)
        if k == 'upart':
            return a[st['i'] % len(a)] if isinstance(a, list) else a
        if k == 'prep':
            a.prepare()
            return None
        if k == 'fin':
            kw = dict(st.get('kw') or {})
            if 'opt' in st:
                kw['optimize'] = st['opt']
            if 'pre' in st:
                kw['prepare'] = st['pre']
            kw = self.give(st['id'], kw)
            return a.finalize(**kw)
        if k == 'finxr':
            return a.as_xarray().finalize()
        if k == 'setkw':
            # what overrides mean: every node below has them
            kw = st['kw']
            stack, seen = [a], set()
            while stack:
                n = stack.pop()
                if id(n) in seen:
                    continue
                seen.add(id(n))
                for kk in kw:
                    if kk in n.meta:
                        n.meta[kk] = kw[kk]
                stack += list(n.children())
            return None
        if k == 'parts':
            return self.parts(a, [self.get(p) for p in st['ps']])
        if k == 'val':
            a._validate()
            return None
        if k == 'view':
            return [self.node_view(a), C.canon({str(kk): a.meta[kk] for kk in sorted(a.meta, key=str)})]
        if k == 'insp':
            return self.inspect(a, st['what'], st)
        raise ValueError(k)

    def parts(self, cat, ps):
        """Does a concatenation show its parts the way they look alone?"""
        whole = np.asarray(cat.finalize(), dtype=np.float64)
        if whole.ndim == 2:
            whole = whole[..., None]
        at = 0
        bad = []
        for i, p in enumerate(ps):
            own = np.asarray(p.finalize(), dtype=np.float64)
            if own.ndim == 2:
                own = own[..., None]
            if own.shape[:2] != whole.shape[:2]:
                # optimized alone it gets another size: the concatenation keeps all of its members as they are
                return []
            got = whole[..., at:at + own.shape[2]]
            at += own.shape[2]
            if got.shape != own.shape or not np.array_equal(got, own, equal_nan=True):
                bad.append(i)
        return bad

    def inspect(self, a, what, st):
        if what == 'meta':
            return C.canon([getattr(a, n, None) for n in ('shape', 'dsize', 'channels', 'num_channels')])
        if what == 'nov':
            return C.canon(a.num_overviews)
        if what == 'str':
            return str(a)
        if what == 'repr':
            return repr(a).split(' at ')[0]
        if what == 'nest':
            return C.digest(C.canon(_strip(a.nesting())))
        if what == 'graph':
            g = a.as_graph()
            return [[str(n), d.get('label')] for n, d in g.nodes(data=True)] + [list(map(str, e)) for e in g.edges()]
        if what == 'leafs':
            return [[type(x).__name__, str(getattr(x, 'fpath', None)), str(x.channels)] for x in a.leafs()]
        if what == 'paths':
            return [[type(l).__name__, str(p)] for l, p in a._leaf_paths()]
        if what == 'net':
            lines = []
            self.m['nettext'](a.as_graph(fields='all' if st.get('all') else 'auto'), path=lines.append, end='')
            return C.digest([re.sub('0x[0-9a-f]+', '', x) for x in lines])
        if what == 'tff':
            return C.canon(a.get_transform_from(self.get(st['ps'][0])))
        if what == 'tfl':
            return C.canon(a.get_transform_from_leaf())
        raise ValueError(what)


INSP = ['meta', 'nov', 'str', 'repr', 'nest', 'graph', 'leafs', 'paths', 'tfl', 'net']


def _strip(x):
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_strip(v) for v in x]
    return x


# --------------------------------------------------------------------- model

class Inexact(Exception):
    pass


def model(steps, sid, files):
    """
    Independent numpy model of what a node shows, for the operations whose
    semantics are exact; raises Inexact for the others.  Returns float64
    (h, w, c) with NaN for nodata.
    """
    by = {s['id']: s for s in steps}
    var = {f['name']: (f['key'], f['var']) for f in files}
    memo = {}

    def chans(i):
        return ev(i)[1]

    def ev(i):
        if i in memo:
            return memo[i]
        st = by[i]
        k = st['k']
        if k == 'load':
            f = fixtures.FIX[var[st['f']]]
            r = [f.levels, st['ch'].split('|'), st]
            a = f.levels[0].astype(np.float64)
            if st['nd'] in ('float', 'auto') and f.nodata is not None:
                a = np.where(f.levels[0] == f.nodata, np.nan, a)
            elif st['nd'] == 'ma':
                raise Inexact
            out = (a, st['ch'].split('|'), (f, st))
        elif k in ('nans', 'nodata'):
            w, h = st['wh']
            ch = st['ch'].split('|')
            out = (np.full((h, w, len(ch)), np.nan), ch, None)
        elif k == 'ident':
            out = (ident_array(st).astype(np.float64), st['ch'].split('|'), None)
        elif k == 'crop':
            a, ch, lf = ev(st['a'])
            y0, y1, x0, x1 = st['sl']
            a = a[y0:y1, x0:x1]
            if st.get('ci') is not None:
                a = a[..., st['ci']]
                ch = [ch[j] for j in st['ci']]
            out = (a, ch, None)
        elif k == 'take':
            a, ch, lf = ev(st['a'])
            want = [ch[j] for j in st['ch']] if isinstance(st['ch'], list) else st['ch'].split('|')
            lay = [a[..., ch.index(c)] if c in ch else np.full(a.shape[:2], np.nan) for c in want]
            out = (np.stack(lay, axis=2), want, None)
        elif k == 'ov':
            a, ch, lf = ev(st['a'])
            if lf is None:
                raise Inexact
            f, ld = lf
            if st['n'] > f.nov:
                raise Inexact
            b = f.levels[st['n']].astype(np.float64)
            if ld['nd'] in ('float', 'auto') and f.nodata is not None:
                b = np.where(f.levels[st['n']] == f.nodata, np.nan, b)
            out = (b, ch, None)
        elif k == 'cat':
            ps = [ev(p) for p in st['ps']]
            out = (np.concatenate([p[0] for p in ps], axis=2), sum([p[1] for p in ps], []), None)
        elif k in ('opt', 'eval'):
            a, ch, lf = ev(st['a'])
            out = (a, ch, None if k == 'eval' else lf)
        else:
            raise Inexact
        memo[i] = out
        return out
    return ev(sid)[0]


def model_digest(arr):
    return C.arr_digest(np.asarray(arr, dtype=np.float64))


def as_model(v):
    return np.asarray(v, dtype=np.float64)


# ---------------------------------------------------------------- sub scripts

def needed(steps, sid, extra=('prep',)):
    """The building steps (and prepares of loads) that node ``sid`` needs."""
    by = {s['id']: s for s in steps}
    need = set()

    def walk(i):
        if i in need or i not in by:
            return
        need.add(i)
        st = by[i]
        for k in ('a',):
            if k in st:
                walk(st[k])
        for p in st.get('ps', []):
            walk(p)
    walk(sid)
    out = []
    for s in steps:
        if s['id'] in need:
            out.append(s)
        elif s['k'] in extra and s.get('a') in need:
            out.append(s)
    return out


def fs_action(st):
    """Something happens to a file behind the back of the code."""
    key, name, op = st.get('key'), st['name'], st['op']
    path = fixtures.data_name(name, key)
    if op == 'rm':
        for p in [path] + ([fixtures.load_name(name, key)] if fixtures.SPEC[key][0] == 'ENVI' else []):
            if os.path.exists(p):
                os.unlink(p)
    elif op == 'rmdata':
        if os.path.exists(path):
            os.unlink(path)
    elif op == 'place':
        # a new inode: a file that is still open keeps its old content
        fs_action(dict(st, op='rm'))
        fixtures.place(name, key, st['var'])
    elif op == 'rewrite':
        fixtures.place(name, key, st['var'])
    elif op == 'swap':
        # another kind of file under the same path
        fs_action(dict(st, op='rm'))
        fixtures.place(name, st['key2'], st['var'])
    elif op == 'cut':
        with open(path, 'rb') as f:
            data = f.read(st['n'])
        os.unlink(path)
        with open(path, 'wb') as f:
            f.write(data)
    elif op == 'trunc':
        with open(path, 'r+b') as f:
            f.truncate(st['n'])
    elif op == 'fill':
        n = os.path.getsize(path)
        with open(path, 'r+b') as f:
            f.seek(st.get('off', 0))
            f.write(b'\xff' * (st.get('n') or n))
    else:
        raise ValueError(op)


def place_files(files, dst='.'):
    for f in files:
        fixtures.place(f['name'], f['key'], f['var'], dst)
