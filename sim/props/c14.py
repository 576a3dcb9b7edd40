"""C14: the GDAL, rasterio and spectral readers agree and fail cleanly."""
import gc
import os

import numpy as np

from .faulty import *  # noqa
from .c05 import gen_ints, place_ints

KINDS = ['gdal', 'gdal', 'ovr', 'rio', 'rio', 'spec']


def gen_part(r, n):
    x = r.random()
    if x < 0.2:
        return None
    if x < 0.35:
        return ['i', r.randrange(n)]
    a = r.randrange(n) if r.random() < 0.8 else None
    lo = a or 0
    b = r.randint(lo + 1, n) if r.random() < 0.75 else r.choice([None, n + 7])
    if b is not None and b < n and r.random() < 0.2:
        b = b - n           # counted from the end
    return ['s', a, b]


def gen_index(r, w, h, c):
    ix = [gen_part(r, h), gen_part(r, w)]
    x = r.random()
    if x < 0.35:
        ix.append(['l', [r.randrange(c) for _ in range(r.randint(1, c))]])
    elif x < 0.7:
        ix.append(gen_part(r, c))
    if len(ix) == 2 and r.random() < 0.2:
        ix = ix[:1]
    return ix


def to_index(ix):
    out = []
    for p in ix:
        if p is None:
            out.append(slice(None))
        elif p[0] == 'i':
            out.append(p[1])
        elif p[0] == 's':
            out.append(slice(p[1], p[2]))
        else:
            out.append(list(p[1]))
    return out[0] if len(out) == 1 and not isinstance(out[0], list) else tuple(out)


def expect(arr, ix):
    sel = []
    for p, n in zip(list(ix) + [None] * (3 - len(ix)), arr.shape):
        if p is None:
            sel.append(list(range(n)))
        elif p[0] == 'i':
            sel.append([p[1]])
        elif p[0] == 's':
            sel.append(list(range(n))[slice(p[1], p[2])])
        else:
            sel.append(list(p[1]))
    return arr[np.ix_(*sel)]


def as3(a):
    a = np.asarray(a)
    return a[:, :, None] if a.ndim == 2 else a


class Readers:
    """Executes the steps of a case."""

    def __init__(self, mods, sm, sc):
        self.m, self.sm, self.sc = mods, sm, sc
        self.r = {}
        self.info = {}

    def do(self, st):
        lazy = self.m['lazy']
        sid = st['id']
        try:
            try:
                self.sm.set_step(sid)
                if self.sc is not None:
                    self.sc.set_step(sid)
                v = self._exec(lazy, st)
            finally:
                if self.sc is not None:
                    self.sc.set_step(None)
                self.sm.set_step(None)
        except KeyError as ex:
            if ex.args == (st.get('a'),):
                return ['skip']
            return self.err(sid, ex)
        except BaseException as ex:
            return self.err(sid, ex)
        return ['ok', v]

    def err(self, sid, ex):
        if isinstance(ex, (S.Deadlock, S.StepCap)):
            raise ex
        self.info[sid] = str(ex)[:200]
        ex.__traceback__ = None
        return ['err', type(ex).__name__]

    def _exec(self, lazy, st):
        k = st['k']
        if k == 'fs':
            with seam_mod.paused():
                trees.fs_action(st)
            return None
        if k == 'drop':
            self.r.pop(st['a'], None)
            gc.collect()
            return None
        if k == 'new':
            key, name = st['key'], st['f']
            if st['kind'] in ('gdal', 'ovr'):
                p = fixtures.load_name(name, key) if st.get('hdr', True) else fixtures.data_name(name, key)
                self.r[st['id']] = lazy.LazyGDalFrameFile(p)
                if st['kind'] == 'ovr':
                    self.r[st['id']] = lazy.LazyGDalFrameFile(p, overview=st['ov'])
            elif st['kind'] == 'rio':
                self.r[st['id']] = lazy.LazyRasterIOFrameFile(fixtures.data_name(name, key))
            else:
                self.r[st['id']] = lazy.LazySpectralFrameFile(fixtures.load_name(name, key))
            return None
        rd = self.r[st['a']]
        if k == 'info':
            # (the third number of bands counts also when there is only one)
            return [[int(x) for x in rd.shape], int(rd.ndim), str(np.dtype(rd.dtype))]
        a = as3(rd[to_index(st['ix'])])
        return [list(a.shape), str(a.dtype.newbyteorder('=')), C.digest(C.canon(np.ascontiguousarray(a)))]


class P(Prop):
    ID = 'C14'
    RULE = ('histories of window / band requests and size queries on several GDAL (also at an overview level), rasterio and spectral '
            'readers over shared GeoTIFF and ENVI files, with injected failures of open / read / header access, asynchronous '
            'exceptions, removal, damage, replacement and restoration of the files; every result is compared with the array the file '
            'was written from; non-trivial: readers of different kinds read one file, or a failure occurred (distinct by history)')
    SHRINK = ['ints', 'faults', 'steps', 'files']

    def gen(self, r, seed):
        files = []
        for i in range(r.choice([1, 1, 2])):
            key = r.choice(['envi', 'bip', 'bil', 'envi', 'bip', 'bil', 'rgb', 'tile', 'i16', 'u8', 'f32', 'six', 'u16b'])
            files.append(dict(name='f%d' % i, key=key, var=r.randrange(2)))
        steps = []
        n = [0]

        def add(k, **kw):
            n[0] += 1
            steps.append(dict(id='%s%d' % (k[0], n[0]), k=k, **kw))
            return steps[-1]['id']
        readers = []

        def new():
            f = r.choice(files)
            drv, ext, w, h, c, dt, o = fixtures.SPEC[f['key']]
            kind = r.choice(KINDS)
            if kind == 'spec' and drv != 'ENVI':
                kind = 'rio'
            lv = 0
            kw = {}
            if kind == 'ovr':
                lv = len(o.get('ov', []))
                if not lv:
                    kind = 'gdal'
                else:
                    lv = kw['ov'] = r.randint(1, lv)
            if kind == 'gdal' and drv == 'ENVI':
                kw['hdr'] = r.random() < 0.6
            sid = add('new', f=f['name'], key=f['key'], kind=kind, **kw)
            for _ in range(lv):
                w, h = -(-w // 2), -(-h // 2)
            readers.append((sid, w, h, c))
        gone = {}
        for _ in range(r.randint(1, 3)):
            new()
        uses = []
        for _ in range(r.randint(3, 14)):
            x = r.random()
            if x < 0.12:
                new()
            elif x < 0.24:
                f = r.choice(files)
                if f['name'] in gone:
                    add('fs', name=f['name'], key=f['key'], op='place', var=gone.pop(f['name']))
                else:
                    op = r.choice(['rm', 'rm', 'rmdata', 'place', 'break'])
                    if op == 'rmdata' and fixtures.SPEC[f['key']][0] != 'ENVI':
                        op = 'rm'
                    if op == 'break' and fixtures.SPEC[f['key']][0] == 'ENVI':
                        op = 'rm'
                    if op == 'place':
                        f = dict(f)
                        add('fs', name=f['name'], key=f['key'], op='place', var=r.randrange(2))
                    elif op == 'break':
                        gone[f['name']] = r.randrange(2)
                        add('fs', name=f['name'], key=f['key'], op='rm')
                        add('fs', name=f['name'], key=f['key'], op='place', var=0)
                        add('fs', name=f['name'], key=f['key'], op='trunc', n=r.choice([0, 3, 9]))
                    else:
                        gone[f['name']] = r.randrange(2)
                        add('fs', name=f['name'], key=f['key'], op=op)
            elif x < 0.28 and len(readers) > 1:
                add('drop', a=readers.pop(r.randrange(len(readers)))[0])
            elif x < 0.4:
                uses.append(add('info', a=r.choice(readers)[0]))
            else:
                sid, w, h, c = r.choice(readers)
                ix = gen_index(r, w, h, c)
                for _ in range(r.choice([1, 1, 2])):
                    uses.append(add('get', a=sid, ix=ix))
                if r.random() < 0.5:
                    # the same request to another reader
                    o = r.choice(readers)
                    if o[1:] == (w, h, c):
                        uses.append(add('get', a=o[0], ix=ix))
        # everything is in order in the end
        for nme, v in sorted(gone.items()):
            add('fs', name=nme, key=[f['key'] for f in files if f['name'] == nme][0], op='place', var=v)
        for sid, w, h, c in readers:
            add('info', a=sid)
            add('get', a=sid, ix=gen_index(r, w, h, c))
        faults = core.gen_faults(r, uses, r.randint(1, 4)) if uses and r.random() < 0.55 else []
        ints = gen_ints(r, uses, r.randint(1, 2)) if uses and r.random() < 0.3 else []
        return dict(files=files, steps=steps, faults=faults, ints=ints)

    def run(self, case, ctx):
        steps = case['steps']
        need = any('at' not in i for i in case['ints'])

        def probe():
            trees.place_files(case['files'])
            sm = seam_mod.Seam()
            sc = S.Sched(seam_mod._lib_dir[0], gran='async') if need else None
            rd = Readers(core.MODS, sm, sc)
            with seam_mod.active(sm):
                if sc is not None:
                    sc.step_sites = {}
                    with sc:
                        for st in steps:
                            rd.do(st)
                else:
                    for st in steps:
                        rd.do(st)
            return dict(io=sm.per_step, log=sm.log, sites=sc.step_sites if sc else None)
        if need or any('at' not in f for f in case['faults']):
            ref = core.oracle(probe)
            case['faults'] = core.resolve(case['faults'], ref)
            if need:
                case['ints'] = place_ints(case['ints'], ref['sites'])
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints']) if case['ints'] else None
        sm.sched = sc
        rd = Readers(core.MODS, sm, sc)
        var = {f['name']: f['var'] for f in case['files']}     # None: missing / damaged
        kinds = {}
        opened = {}         # reader -> contents it may have opened
        new = {}
        hist = []

        def go(st):
            n0, nf, ni = len(sm.log), len(sm.fired_events), len(sc.fired_ints) if sc else 0
            got = rd.do(st)
            ctx.ops += 1
            quiet = len(sm.fired_events) == nf and (sc is None or len(sc.fired_ints) == ni)
            k = st['k']
            hist.append([k, got[0]])
            if k == 'fs':
                ctx.count('file:' + st['op'])
                var[st['name']] = st['var'] if st['op'] == 'place' else None
                return
            if k == 'new':
                if got[0] != 'ok' and quiet:
                    raise Violation('a reader cannot be created', dict(step=st, got=got, error=rd.info.get(st['id'])))
                new[st['id']] = st
                opened[st['id']] = set()
                return
            if k not in ('get', 'info') or got[0] == 'skip':
                return
            r = new[st['a']]
            f = fixtures.FIX
            now = var.get(r['f'])
            cand = set(opened[st['a']]) | ({now} if now is not None else set())
            info = dict(step=st, reader=r, got=got, error=rd.info.get(st['id']), fired=sm.fired_events[nf:][:4], file=now)
            if got[0] == 'ok':
                if not cand:
                    raise Violation('a missing or unreadable file is read', info)
                want = {v: self.want(st, r, f[(r['key'], v)]) for v in cand}
                ok = [v for v in want if core.same(got[1], want[v])]
                if not ok:
                    raise Violation('a reader returns something else than the file contains', dict(info, want=want))
                if st['k'] == 'get':
                    opened[st['a']] = set(ok) if now not in ok else {now} | (set(ok) & opened[st['a']])
                else:
                    opened[st['a']] = cand
                kinds.setdefault(r['f'], set()).add(r['kind'])
            elif quiet and now is not None and (not opened[st['a']] or opened[st['a']] == {now}):
                raise Violation('a reader fails on a healthy file', info)
            elif not quiet and now is not None:
                # it may or may not be open now
                opened[st['a']] = opened[st['a']] | {now}
            if sc is not None and len(sc.fired_ints) > ni:
                if got[0] == 'ok' and any(x[2] == 'KeyboardInterrupt' for x in sc.fired_ints[ni:]):
                    raise Violation('interrupt swallowed', dict(info, ints=sc.fired_ints[ni:]))
        with seam_mod.active(sm):
            if sc is not None:
                with sc:
                    for st in steps:
                        go(st)
            else:
                for st in steps:
                    go(st)
        ctx.use(sm, sc)
        if any(len(v) > 1 for v in kinds.values()):
            ctx.nontrivial = True
        ctx.sig.append(hist)

    def want(self, st, r, fx):
        a = fx.levels[r.get('ov', 0)]
        if st['k'] == 'info':
            return [list(a.shape), 3, str(a.dtype)]
        b = expect(a, st['ix'])
        return [list(b.shape), str(b.dtype), C.digest(C.canon(np.ascontiguousarray(b)))]


PROP = P()
