"""C16: the demo image cache survives crashes and failed writes."""
import io
import os
import resource
import shutil
import signal
import sys
import zlib

import numpy as np

from .common import *  # noqa

KEYS = ['checkerboard', 'astro', 'carl']
SIZES = [[64, 48], [48, 64], [32, 32], [33, 17], [64, 49], [130, 90]]

EXCS = ['KeyboardInterrupt', 'MemoryError', 'OSError', 'CRASH']

_grab = {}


def image(key, dsize):
    """The image a demo of this key and size has to show."""
    if key == 'checkerboard':
        with seam_mod.paused():
            return _grab['orig'](key, dsize=tuple(dsize) if dsize else None)
    w, h = dsize or (96, 80)
    rng = np.random.RandomState(zlib.crc32(('%s %s %s' % (key, w, h)).encode()) % (1 << 31))
    a = rng.randint(0, 256, (h, w, 3)).astype(np.uint8)
    a[h // 3:h // 2, :, :] = 9
    return a


def sq(a):
    a = np.asarray(a)
    return a[..., 0] if a.ndim == 3 and a.shape[2] == 1 else a


def state(dpath):
    """(name -> inode, size, mtime) of the surviving files."""
    out = {}
    for n in sorted(os.listdir(dpath)) if os.path.isdir(dpath) else []:
        s = os.stat(os.path.join(dpath, n))
        out[n] = [s.st_ino, s.st_size, s.st_mtime_ns]
    return out


class P(Prop):
    ID = 'C16'
    RULE = ('sequences of demo requests with different keys and sizes over one cache directory; at '
            'any byte written, library line or native call of a request the process is killed, interrupted, or the write fails, is '
            'cut short or is silently lost; between requests files are deleted, torn or damaged; every reader that is returned is '
            'compared with the image of its size, undisturbed requests have to succeed and must not rewrite a complete file; '
            'non-trivial: a crash, fault or damage took place (distinct by history)')
    SHRINK = ['steps']
    BUDGET = {'quick': (3000, 60), 'thorough': (40000, 780)}
    REAL = ['LazyGDalFrameFile.demo, LazyGDalFrameFile', 'ubelt.CacheStamp', 'kwimage.imwrite / GDAL on the scratch file system',
            'process death by SIGXFSZ at a byte offset of a written file']
    STUB = ['kwimage.grab_test_image for images that need the network (fixed pixels per key and size)',
            'lost / cut writes of kwimage.imwrite (the real write is skipped or damaged afterwards)']

    def warm(self):
        """Import everything that is imported on first use."""
        d = os.path.join(os.environ['SIM_SCRATCH'], 'warm')
        old = os.environ.get('XDG_CACHE_HOME')
        grab, write = core.MODS['kwimage'].grab_test_image, core.MODS['kwimage'].imwrite
        sys.stdout.flush()
        out = sys.stdout
        try:
            sys.stdout = io.StringIO()
            for i in range(2):
                self.session(dict(id='w', key='checkerboard', size=[64, 48], exc=dict(stamp=True)), d)
        finally:
            sys.stdout = out
            os.environ['XDG_CACHE_HOME'] = old
            core.MODS['kwimage'].grab_test_image, core.MODS['kwimage'].imwrite = grab, write
        shutil.rmtree(d)

    def gen(self, r, seed):
        keys = r.sample(KEYS, r.choice([1, 1, 2]))
        if r.random() < 0.7:
            sizes = r.sample(SIZES, r.choice([1, 2, 2, 3]))
        else:
            sizes = [r.choice(SIZES), None]
        steps = []
        for i in range(r.choice([2, 3, 4, 5, 7, 10])):
            x = r.random()
            if steps and x < 0.25:
                steps.append(dict(k='dmg', id='d%d' % i, key=r.choice(keys), what=r.choice(['product', 'product', 'stamp', 'meta', 'dir']),
                                  op=r.choice(['del', 'trunc', 'fill', 'flip', 'empty', 'touch', 'old']), f=r.random(), keep=r.random() < 0.5))
                continue
            st = dict(k='req', id='r%d' % i, key=r.choice(keys), size=r.choice(sizes))
            y = r.random()
            if y < 0.2:
                st['limit'] = dict(f=r.choice([0, r.random(), r.random(), r.random(), 0.99, 1.01]), die=r.random() < 0.5)
            elif y < 0.5:
                st['exc'] = dict(f1=r.random(), f2=r.random(), uniform=r.random() < 0.3, exc=r.choice(EXCS))
                if r.random() < 0.4:
                    st['exc']['stamp'] = True
            elif y < 0.7:
                st['write'] = r.choice(['raise', 'after', 'lost', 'cut', 'zero', 'part'])
                st['wf'] = r.random()
            if r.random() < 0.3:
                st['more'] = [[r.choice(keys), r.choice(sizes)] for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.5:
                    st['more'][0] = [st['key'], st['size']]
            steps.append(st)
        if r.random() < 0.7:
            # what survived is used once more
            for _ in range(r.choice([1, 2])):
                steps.append(dict(k='req', id='z%d' % len(steps), key=r.choice(keys), size=r.choice(sizes)))
        return dict(steps=steps, ints=[], faults=[], files=[])

    # ---------------------------------------------------------- one process
    def session(self, st, cache, probe=False):
        """All requests of one step; runs in a process of its own."""
        M = core.MODS
        os.environ['XDG_CACHE_HOME'] = cache
        kwimage, lazy = M['kwimage'], M['lazy']
        import ubelt.util_cache as uc
        dpath = os.path.join(cache, 'delayed_image', 'demo')
        calls = []
        _grab.setdefault('orig', kwimage.grab_test_image)
        real_write = _grab.setdefault('write', kwimage.imwrite)

        def grab(key, *a, **kw):
            calls.append('grab')
            return image(key, kw.get('dsize'))
        mode = [st.get('write')]

        def imwrite(fpath, img, *a, **kw):
            calls.append('write')
            m, mode[0] = mode[0], None
            if m is None or probe:
                return real_write(fpath, img, *a, **kw)
            calls.append('fault')
            if m == 'raise':
                raise OSError(28, 'injected: No space left on device')
            if m == 'lost':
                return fpath
            if m == 'part':
                # the data of the second half was not written
                img = np.array(img)
                img[img.shape[0] // 2:] = 0
                return real_write(fpath, img, *a, **kw)
            out = real_write(fpath, img, *a, **kw)
            n = os.stat(fpath).st_size
            if m == 'after':
                raise OSError(28, 'injected: No space left on device')
            with open(fpath, 'r+b') as f:
                if m == 'cut':
                    f.truncate(int(n * st['wf']))
                else:
                    f.write(b'\0' * n)
            return out
        kwimage.grab_test_image = grab
        kwimage.imwrite = imwrite
        gran = 'async'
        it = st.get('exc')
        ints = []
        if it and 'at' in it:
            ints = [dict(step=st['id'], at=it['at'], exc=it['exc'])]
        extra = (uc.__file__,) if not it or it.get('stamp') else ()
        if it and it.get('stamp'):
            gran = 'line'
        sc = S.Sched(seam_mod._lib_dir[0], gran=gran, ints=ints, extra_files=extra)
        if probe:
            sc.step_sites = {}
        out = []
        reqs = [[st['key'], st['size']]] + st.get('more', [])
        for i, (key, size) in enumerate(reqs):
            lim = st.get('limit') if i == 0 and not probe else None
            if i:
                mode[0] = None
            before = state(dpath)
            n0 = len(calls)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            old = signal.getsignal(signal.SIGXFSZ)
            try:
                if lim:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if lim['die'] else signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim['n'], hard))
                kw = {} if size is None else dict(dsize=tuple(size))
                try:
                    if i == 0:
                        with sc:
                            sc.set_step(st['id'])
                            reader = lazy.LazyGDalFrameFile.demo(key, **kw)
                            sc.set_step(None)
                    else:
                        reader = lazy.LazyGDalFrameFile.demo(key, **kw)
                    got = None
                except BaseException as ex:  # noqa
                    got = [type(ex).__name__, str(ex)[:200]]
            finally:
                if lim:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                    signal.signal(signal.SIGXFSZ, old)
            after = state(dpath)
            res = dict(err=got, changed=before.get(key + '.cog.tiff') != after.get(key + '.cog.tiff'), calls=calls[n0:],
                       fired=[list(f[2:]) for f in sc.fired_ints] if i == 0 else [])
            if got is None:
                want = sq(image(key, size))
                try:
                    px = sq(reader[:])
                    res['shape'] = [list(reader.shape), list(px.shape)]
                    res['right'] = px.shape == want.shape and px.dtype == want.dtype and bool((px == want).all()) and \
                        list(reader.shape[0:2]) == list(want.shape[0:2])
                except Exception as ex:
                    res['right'] = False
                    res['shape'] = '%s: %s' % (type(ex).__name__, str(ex)[:200])
            out.append(res)
        return dict(out=out, sites=sc.step_sites, n=sc.n)

    def run(self, case, ctx):
        run = os.environ['SIM_RUN']
        cache = os.path.join(run, 'cache')
        dpath = os.path.join(cache, 'delayed_image', 'demo')
        os.makedirs(dpath)
        valid = {}      # key -> size of the complete file
        hist = []
        for st in case['steps']:
            ctx.ops += 1
            if st['k'] == 'dmg':
                self.damage(st, dpath)
                valid = {}
                ctx.count('damage:%s:%s' % (st['what'], st['op']))
                ctx.nontrivial = True
                hist.append([st['what'], st['op']])
                continue
            self.place(st, cache, run)
            if st.get('limit') or (st.get('exc') or {}).get('exc') == 'CRASH':
                res = core.fork_call(lambda: self.session(st, cache), cpu=core.CPU_LIMIT)
            else:
                res = ('ok', self.session(st, cache))
            dies = (st.get('limit') or {}).get('die')
            if res[0] == 'sig' and ((res[1] == signal.SIGXFSZ and dies) or
                                    (res[1] == signal.SIGTERM and st.get('exc', {}).get('exc') == 'CRASH')):
                valid = {}
                kind = 'crash:write' if dies else 'crash:line'
                ctx.count(kind)
                ctx.nontrivial = True
                hist.append([kind, st.get('limit', {}).get('n'), st.get('exc', {}).get('at')])
                continue
            if res[0] != 'ok':
                if res[0] == 'sig':
                    raise Violation('crash', dict(step=st, signal=res[1]))
                raise core.Harness(str(res[1]))
            ctx.events += res[1]['n']
            for i, o in enumerate(res[1]['out']):
                key, size = ([[st['key'], st['size']]] + st.get('more', []))[i]
                # was this request disturbed?
                dist = i == 0 and bool(st.get('limit') or o['fired'] or 'fault' in o['calls'])
                hist.append([key, size, o['err'] and o['err'][0], o['calls'], o['changed']])
                if i == 0 and st.get('limit') and (o['err'] or o['changed']):
                    ctx.count('write:limit')
                    ctx.nontrivial = True
                if 'fault' in o['calls']:
                    ctx.count('write:' + st['write'])
                    ctx.nontrivial = True
                for f in o['fired']:
                    ctx.count('interrupt:' + f[0])
                    ctx.nontrivial = True
                info = dict(step=st, request=[key, size], got=o, history=hist[-6:])
                if o['err'] is None and not o['right']:
                    raise Violation('a demo request returned a wrong image', info)
                if o['err'] is not None and not dist:
                    raise Violation('an undisturbed demo request failed', info)
                if valid.get(key, 0) == size and not dist and (o['changed'] or 'write' in o['calls']):
                    raise Violation('a complete demo file was written again', info)
                if any(f[0] == 'KeyboardInterrupt' for f in o['fired']) and o['err'] is None:
                    raise Violation('interrupt swallowed', info)
                if o['err'] is None:
                    valid[key] = size
                else:
                    valid.pop(key, None)
        ctx.sig.append(repr(hist))

    def place(self, st, cache, run):
        """Turn relative fault positions into bytes / events."""
        it, lim = st.get('exc'), st.get('limit')
        if not ((it and 'at' not in it) or (lim and 'n' not in lim)):
            return
        tmp = os.path.join(run, 'probe')
        shutil.copytree(cache, tmp)
        res = ('ok', self.session({k: v for k, v in st.items() if k != 'more'}, tmp, probe=True))
        if it and 'at' not in it:
            seq = (res[1]['sites'] or {}).get(st['id'], [])
            if not seq:
                it['at'] = 0
            elif it['uniform']:
                it['at'] = int(it['f1'] * len(seq))
            else:
                idx = {}
                for i, s in enumerate(seq):
                    idx.setdefault(tuple(s), []).append(i)
                pos = list(idx.values())[int(it['f1'] * len(idx))]
                it['at'] = pos[int(it['f2'] * len(pos))]
            for k in ('f1', 'f2', 'uniform'):
                it.pop(k, None)
        if lim and 'n' not in lim:
            p = os.path.join(tmp, 'delayed_image', 'demo', st['key'] + '.cog.tiff')
            n = os.stat(p).st_size if os.path.exists(p) else 1000
            lim['n'] = int(lim.pop('f') * n)
        shutil.rmtree(tmp)

    def damage(self, st, dpath):
        if st['what'] == 'dir':
            shutil.rmtree(dpath, ignore_errors=True)
            return
        if not os.path.isdir(dpath):
            return
        for n in sorted(os.listdir(dpath)):
            if not n.startswith(st['key']):
                continue
            kind = 'product' if n.endswith('.tiff') else 'meta' if n.endswith('.meta') else 'stamp'
            if kind != st['what']:
                continue
            p = os.path.join(dpath, n)
            s = os.stat(p)
            if st['op'] == 'del':
                os.unlink(p)
                continue
            with open(p, 'r+b') as f:
                if st['op'] == 'trunc':
                    f.truncate(int(s.st_size * st['f']))
                elif st['op'] == 'empty':
                    f.truncate(0)
                elif st['op'] == 'fill':
                    f.write(b'\xa5' * s.st_size)
                elif st['op'] == 'flip' and s.st_size:
                    i = int(s.st_size * st['f'])
                    f.seek(i)
                    b = f.read(1)
                    f.seek(i)
                    f.write(bytes([b[0] ^ 0x41]))
            if st['op'] == 'old':
                os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns - 10 ** 12))
            elif st['op'] == 'touch':
                os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns + 7 * 10 ** 9))
            elif st['keep']:
                os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns))


PROP = P()
