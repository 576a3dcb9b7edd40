"""C19: the process and the storage are left as they were found."""
import decimal
import gc
import hashlib
import importlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .faulty import *  # noqa
from . import c02, c09, c14
from .c05 import gen_ints, place_ints

# modules whose functions somebody could replace "for a moment"
OTHERS = ['builtins', 'os', 'os.path', 'io', 'warnings', 'random', 'numpy', 'numpy.ma', 'kwimage', 'kwarray', 'ubelt', 'cv2',
          'osgeo.gdal', 'osgeo.gdal_array', 'rasterio', 'spectral', 'spectral.io.envi']


def gdal_handler(gdal):
    """What becomes of a warning that GDAL reports now."""
    sys.stderr.flush()
    fd = os.open('../err-probe', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    old = os.dup(2)
    try:
        os.dup2(fd, 2)
        try:
            gdal.Error(gdal.CE_Warning, 1, 'probe')
            how = 'returned'
        except Exception as ex:
            how = type(ex).__name__
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.lseek(fd, 0, 0)
        text = os.read(fd, 1000).decode()
        os.close(fd)
    gdal.ErrorReset()
    return [how, text]


class State:
    """Observable process-wide settings."""

    def __init__(self):
        self.mods = [(n, sys.modules[n]) for n in OTHERS if n in sys.modules]
        self.names = [(n, m, sorted(k for k, v in m.__dict__.items() if not k.startswith('__') and callable(v))) for n, m in self.mods]
        self.gone = object()
        self.loggers = sorted(n for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger))

    def take(self):
        import cv2
        import rasterio.env
        from osgeo import gdal, ogr, osr
        s = {}
        s['numpy error state'] = [sorted(np.geterr().items()), repr(np.geterrcall())]
        s['numpy print options'] = repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items()))
        s['warning filters'] = [repr(f) for f in warnings.filters]
        s['warning functions'] = [id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn)]
        s['random state'] = hashlib.sha1(repr(random.getstate()).encode()).hexdigest()
        st = np.random.get_state()
        s['numpy random state'] = [st[0], hashlib.sha1(st[1].tobytes()).hexdigest(), st[2:]]
        s['working directory'] = os.getcwd()
        s['environment'] = dict(os.environ)
        m = os.umask(0o22)
        os.umask(m)
        s['umask'] = m
        s['signal handlers'] = [repr(signal.getsignal(x)) for x in sorted(signal.valid_signals())]
        s['signal mask'] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
        s['timers'] = [signal.getitimer(x)[1] for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
        s['interpreter'] = [sys.getrecursionlimit(), sys.getswitchinterval(), sys.gettrace() is None, sys.getprofile() is None,
                            sys.get_int_max_str_digits(), sys.dont_write_bytecode]
        s['hooks'] = [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), id(sys.stdout),
                      id(sys.stderr), id(sys.stdin)]
        s['import path'] = [list(sys.path), len(sys.meta_path), len(sys.path_hooks)]
        s['garbage collector'] = [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)]
        s['threads'] = sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread))
        s['limits'] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK,
                                                       resource.RLIMIT_FSIZE)]
        s['locale'] = locale.setlocale(locale.LC_ALL)
        s['decimal context'] = repr(decimal.getcontext())
        root = logging.getLogger()
        s['logging'] = [logging.root.manager.disable, root.level, len(root.handlers),
                        [(n, x.level, len(x.handlers), x.disabled, x.propagate)
                         for n, x in [(n, root.manager.loggerDict[n]) for n in self.loggers]]]
        s['temporary directory'] = tempfile.tempdir
        s['OpenCV'] = [cv2.getNumThreads(), cv2.useOptimized()]
        s['GDAL exceptions'] = [gdal.GetUseExceptions(), ogr.GetUseExceptions(), osr.GetUseExceptions()]
        s['GDAL options'] = gdal.GetConfigOptions()
        s['GDAL thread options'] = [gdal.GetThreadLocalConfigOption(k) for k in ('GDAL_NUM_THREADS', 'GDAL_DISABLE_READDIR_ON_OPEN',
                                                                               'GDAL_PAM_ENABLED', 'CPL_DEBUG', 'SIM_PROBE')]
        s['GDAL cache limit'] = gdal.GetCacheMax()
        s['GDAL error handler'] = gdal_handler(gdal)
        s['GDAL drivers'] = gdal.GetDriverCount()
        s['rasterio environment'] = [rasterio.env.hasenv(), rasterio.env.getenv() if rasterio.env.hasenv() else None]
        for n, m, names in self.names:
            d = m.__dict__
            s['functions of ' + n] = tuple([id(d.get(k, self.gone)) for k in names])
        return s


def files():
    """Everything in the directories of the run."""
    out = {}
    for base, dirs, names in os.walk('..'):
        for n in dirs:
            out[os.path.join(base, n)] = 'dir'
        for n in names:
            if n in ('err-probe', 'stdout'):
                continue
            p = os.path.join(base, n)
            st = os.lstat(p)
            # (any write shows in the change time)
            out[p] = [st.st_size, st.st_mtime_ns, st.st_ctime_ns, st.st_mode, st.st_ino]
    return out


def diff(a, b, names={}):
    out = {}
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if k in names:
                out[k] = [n for n, i, j in zip(names[k], x, y) if i != j]
            elif isinstance(x, dict) and isinstance(y, dict):
                out[k] = [[q, x.get(q), y.get(q)] for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
            else:
                out[k] = [repr(x)[:150], repr(y)[:150]]
    return out


def settings(r):
    """What the caller has configured for itself."""
    s = {}
    if r.random() < 0.5:
        s['err'] = {k: r.choice(['ignore', 'warn', 'print']) for k in ('divide', 'over', 'under', 'invalid') if r.random() < 0.6}
    if r.random() < 0.4:
        s['filters'] = r.choice([['ignore'], ['always'], ['once', 'ignore'], []])
    if r.random() < 0.4:
        s['gdal'] = [r.choice([['GDAL_CACHEMAX', '16'], ['GDAL_DISABLE_READDIR_ON_OPEN', 'TRUE'], ['GDAL_PAM_ENABLED', 'NO'],
                               ['GDAL_PAM_ENABLED', 'YES'], ['SIM_PROBE', 'x']])]
    if r.random() < 0.3:
        s['cvthreads'] = r.choice([1, 2])
    if r.random() < 0.3:
        s['print'] = r.choice([2, 5])
    if r.random() < 0.3:
        s['umask'] = r.choice([0o77, 0o2])
    if r.random() < 0.3:
        s['seed'] = r.randrange(1000)
    if r.random() < 0.3:
        s['log'] = r.choice([10, 30, 50])
    if r.random() < 0.2:
        s['handler'] = 'quiet'
    return s


def configure(s):
    import cv2
    from osgeo import gdal
    # (enabled, but it never starts on its own: moments of collection are part of the script)
    gc.set_threshold(1 << 30)
    gc.enable()
    if 'err' in s:
        np.seterr(**s['err'])
    for f in s.get('filters', []):
        warnings.simplefilter(f)
    for k, v in s.get('gdal', []):
        gdal.SetConfigOption(k, v)
    if 'cvthreads' in s:
        cv2.setNumThreads(s['cvthreads'])
    if 'print' in s:
        np.set_printoptions(precision=s['print'])
    if 'umask' in s:
        os.umask(s['umask'])
    if 'seed' in s:
        random.seed(s['seed'])
        np.random.seed(s['seed'])
    if 'log' in s:
        logging.getLogger().setLevel(s['log'])
    if s.get('handler'):
        gdal.PushErrorHandler('CPLQuietErrorHandler')


class P(Prop):
    ID = 'C19'
    CONF = ('fast', 'cache', 'exc', 'trace', 'nogdal')
    RULE = ('histories of pipelines, direct readers and spec operations under storage failures and asynchronous exceptions, one after '
            'the other or in threads under the scheduler, in a process that the caller has configured at random; after every '
            'operation the process-wide settings (numpy, GDAL, OpenCV, warnings, random, signals, logging, environment, ...), '
            'functions of other packages, standard output and every file of the run are compared with what they were before; '
            'non-trivial: a failure, an interruption or a preemption happened (distinct by outcomes)')
    SHRINK = ['decisions', 'ints', 'faults', 'steps', 'threads', 'ops', 'files']
    SHRINK_NESTED = ['threads']

    def warm(self):
        for n in OTHERS:
            try:
                importlib.import_module(n)
            except ImportError:
                pass

    def gen(self, r, seed):
        x = r.random()
        kinds = ['fin'] * 5 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'val', 'undo', 'insp', 'op']
        base = dict(settings=settings(r), steps=[], files=[], faults=[], ints=[], ops=[], threads=[])
        if x < 0.45:
            g = gen_history(r, repeat=False, kinds=kinds)
            ios = io_steps(g)
            if ios and r.random() < 0.6:
                base['faults'] = core.gen_faults(r, ios, r.randint(1, 4))
            if r.random() < 0.6:
                heavy = ios or [g.steps[0]['id']]
                base['ints'] = gen_ints(r, heavy if r.random() < 0.7 else [s['id'] for s in g.steps], r.randint(1, 3))
            return dict(base, kind='tree', files=g.files, steps=g.steps)
        if x < 0.75:
            c = c02.PROP.gen(r, seed)
            if r.random() < 0.6:
                # the same work in every thread, nothing in common but the files
                g = gen_history(r, repeat=False, kinds=kinds, known=r.choice([0.3, 1.0]))
                nt = r.choice([2, 2, 3])
                c.update(files=g.files, setup=[], threads=[c02.twin(g.steps, 'w%d' % t) for t in range(nt)],
                         mode=c02.gen_mode(r, nt) if r.random() < 0.5 else
                         dict(kind='overtake', any=True, p=r.choice([0.003, 0.01, 0.03, 0.1, 0.3]), m=r.choice([1, 3, 8, 15, 40]),
                              reach=r.choice([100, 1000])))
            return dict(base, kind='threads', files=c['files'], steps=c['setup'], threads=c['threads'],
                        mode=c['mode'], gran=c['gran'], sseed=c['sseed'],
                        noise=r.random() < 0.5)
        if x < 0.87:
            c = c14.PROP.gen(r, seed)
            return dict(base, kind='reader', files=c['files'], steps=c['steps'], faults=c['faults'], ints=c['ints'])
        pool = {c: [c09.gen_spec(r, c) for _ in range(r.randint(2, 4))] for c in ('F', 'C', 'S', 'FS')}
        ops = [c09.gen_op(r, pool, r.random() < 0.3, i) for i in range(r.randint(6, 20))]
        if r.random() < 0.6:
            base['ints'] = gen_ints(r, [o['id'] for o in ops], r.randint(1, 3))
        return dict(base, kind='spec', ops=ops)

    def probe(self, case):
        if case['kind'] == 'tree':
            return core.run_reference(case['steps'], case['files'], probe_trace='async' if case['ints'] else None)

        def body():
            sc = S.Sched(seam_mod._lib_dir[0], gran='async')
            sc.step_sites = {}
            sm = seam_mod.Seam()
            if case['kind'] == 'reader':
                trees.place_files(case['files'])
                ex = c14.Readers(core.MODS, sm, sc)
            else:
                ex = c09.Spec(sc)
            with seam_mod.active(sm), sc:
                for st in case['steps'] or case['ops']:
                    ex.do(st)
            return dict(io=sm.per_step, log=sm.log, sites=sc.step_sites)
        return core.oracle(body)

    def run(self, case, ctx):
        if any('at' not in i for i in case['ints'] + case['faults']):
            ref = self.probe(case)
            case['faults'] = core.resolve(case['faults'], ref)
            if case['ints']:
                case['ints'] = place_ints(case['ints'], ref['sites'])
        root = os.path.join(os.getcwd(), 'home')
        work = os.path.join(root, 'work')
        for d in ('work', 'tmp', 'cache', 'config', 'data'):
            os.makedirs(os.path.join(root, d))
        os.chdir(work)
        os.environ.update(TMPDIR=os.path.join(root, 'tmp'), HOME=root, XDG_CACHE_HOME=os.path.join(root, 'cache'),
                          XDG_CONFIG_HOME=os.path.join(root, 'config'), XDG_DATA_HOME=os.path.join(root, 'data'))
        tempfile.tempdir = None
        trees.place_files(case['files'])
        out = os.open('../stdout', os.O_RDWR | os.O_CREAT | os.O_APPEND)
        sys.stdout.flush()
        keep = os.dup(1)
        os.dup2(out, 1)
        try:
            self.body(case, ctx)
        finally:
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
            os.close(out)
            os.chdir(os.path.dirname(root))

    def body(self, case, ctx):
        sm = seam_mod.Seam(case['faults'])
        kind = case['kind']
        lib = seam_mod._lib_dir[0]
        sc = S.Sched(lib, gran='async', ints=case['ints']) if kind != 'threads' else None
        sm.sched = sc
        configure(case['settings'])
        ctx.count('caller settings: ' + '+'.join(sorted(case['settings'])))
        state = State()
        last = [None, None]

        def look(st, got, fs=False):
            sys.stdout.flush()
            now, fl = state.take(), files()
            d = diff(last[0], now, {'functions of ' + n: k for n, m, k in state.names}) if last[0] is not None else {}
            e = {}
            if last[1] is not None and not fs:
                e = {k: 'new' if k not in last[1] else 'gone' if k not in fl else 'changed'
                     for k in sorted(set(fl) | set(last[1])) if fl.get(k) != last[1].get(k)}
            last[:] = [now, fl]
            more = dict(step=st, outcome=got and got[:2], ints=sc.fired_ints[-3:] if sc else [], faults=sm.fired_events[-3:])
            if d:
                raise Violation('changes the process: ' + ', '.join(sorted(d))[:80], dict(more, changes=d))
            if e:
                raise Violation('changes the storage', dict(more, changes=e))
            n = os.stat('../stdout').st_size
            if n and (sm.fired_events or sc is not None and sc.fired_ints or any(o and o[0] == 'err' for o in outs)):
                os.truncate('../stdout', 0)     # errors may be explained
            elif n:
                with open('../stdout') as f:
                    raise Violation('prints', dict(more, text=f.read()[:300]))
        outs = []
        ex = mach = None
        if kind == 'spec':
            ex = c09.Spec(sc)
            look(None, None)
            with seam_mod.active(sm):
                with sc:
                    for op in case['ops']:
                        got = ex.do(op)
                        ctx.ops += 1
                        outs.append(got)
                        look(op, got)
        elif kind == 'reader':
            ex = c14.Readers(core.MODS, sm, sc)
            look(None, None)
            with seam_mod.active(sm):
                with sc:
                    for st in case['steps']:
                        got = ex.do(st)
                        ctx.ops += 1
                        outs.append(got)
                        look(st, got, st['k'] == 'fs')
        else:
            look(None, None)

            def hook(mach, st):
                got = mach.do(st)
                outs.append(got)
                look(st, got)
            mach = execute(case, ctx, sm, sc, hook=hook)
            if case['threads']:
                mode = case['mode']
                if 'decisions' not in case and mode['kind'] == 'park':
                    here = os.getcwd()
                    ref = core.run_reference(case['steps'] + sum(case['threads'], []), case['files'], probe_trace=case['gran'])
                    os.chdir(here)
                    case['mode'] = mode = c02.place_parks(mode, [sum((ref['sites'].get(q['id'], []) for q in t), [])
                                                                 for t in case['threads']], case['gran'])
                sc = S.Sched(lib, gran=case['gran'], rng=random.Random(case['sseed']), decisions=case.get('decisions'), mode=mode)
                ok = c02.run_threads(case, ctx, mach, sm, sc)
                case['decisions'] = sc.decisions if not sc.replay else case['decisions']
                outs += [mach.out.get(s['id']) for t in case['threads'] for s in t]
                if ok:
                    look(dict(threads=len(case['threads'])), None)
                    if case['noise']:
                        # what threads have left is seen by everybody after them
                        for st in case['steps'][:4]:
                            look(st, mach.do(dict(st, id='again')))
        ctx.use(sm, sc)
        # what is written when things are closed
        sm.hold = True
        ex = mach = hook = None
        gc.collect()
        look(dict(k='dropped'), None, fs=any(st['k'] == 'fs' for st in case['steps']))
        ctx.sig.append(C.digest([o[0] if o else None for o in outs]))


PROP = P()
