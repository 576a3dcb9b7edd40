"""
Building blocks of one simulated run: forked pristine processes, snapshots of
node state, resolution of fault positions.
"""
import gc
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import traceback

from . import canon as C
from . import env, fixtures, locks, sched as sched_mod, seam as seam_mod, trees

MODS = {}


class Violation(Exception):
    """Raised inside a run: the property does not hold."""

    def __init__(self, kind, detail):
        Exception.__init__(self, kind)
        self.kind = kind
        self.detail = detail


class Harness(Exception):
    pass


def boot(scratch):
    """Prepare the template process."""
    MODS.update(env.load())
    seam_mod.install(MODS)
    sched_mod.load_writes(seam_mod._lib_dir[0])
    fixtures.build(os.path.join(scratch, 'fix'), MODS['gdal'])
    import gc as _gc
    _gc.collect()
    _gc.freeze()
    # Garbage collection moments must not depend on anything but the script
    _gc.disable()
    return MODS


CPU_LIMIT = 20


def fork_call(fn, cpu=None):
    """
    Run ``fn()`` in a forked process.  Returns ('ok', value), ('viol', kind,
    detail), ('sig', n) or ('exc', text).
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if cpu:
                used = resource.getrusage(resource.RUSAGE_SELF)
                resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 2))
            try:
                res = ('ok', fn())
            except Violation as ex:
                res = ('viol', ex.kind, ex.detail)
            except BaseException as ex:  # noqa
                res = ('exc', traceback.format_exc()[-3000:])
            data = pickle.dumps(res, protocol=4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
                f.flush()
        except BaseException:  # noqa
            try:
                os.write(2, traceback.format_exc().encode()[-2000:])
            except Exception:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, 'rb') as f:
        while True:
            b = f.read(1 << 16)
            if not b:
                break
            chunks.append(b)
    _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if os.WIFSIGNALED(status):
        return ('sig', os.WTERMSIG(status))
    if not data:
        return ('exc', 'child ended with status %r and no result' % status)
    return pickle.loads(data)


def in_dir(name):
    """Enter a fresh sub directory of the run directory."""
    d = os.path.join(os.environ['SIM_RUN'], name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    os.chdir(d)
    return d


_oracle_n = [0]


def oracle(fn, dirname=None):
    """Run ``fn`` in a pristine process of its own; it must not fail."""
    _oracle_n[0] += 1
    name = dirname or ('o%d' % _oracle_n[0])

    def body():
        in_dir(name)
        return fn()
    res = fork_call(body, cpu=CPU_LIMIT)
    shutil.rmtree(os.path.join(os.environ['SIM_RUN'], name), ignore_errors=True)
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'viol':
        raise Violation(res[1], res[2])
    if res[0] == 'sig':
        raise Violation('crash', 'undisturbed execution ended by signal %d' % res[1])
    raise Harness('oracle: %s' % res[1])


def run_reference(steps, files, probe_io=True, probe_trace=None, dirname=None):
    """
    Undisturbed sequential execution in a pristine process.

    Returns dict(out=..., io=events per step, ev=trace events per step,
    log=storage log).
    """
    def body():
        trees.place_files(files)
        sm = seam_mod.Seam()
        sc = None
        if probe_trace:
            sc = sched_mod.Sched(seam_mod._lib_dir[0], gran=probe_trace)
        mach = trees.Machine(MODS, sm, sc)
        with seam_mod.active(sm):
            if sc is not None:
                sc.step_sites = {}
                with sc:
                    for st in steps:
                        mach.do(st)
            else:
                for st in steps:
                    mach.do(st)
        res = dict(out=mach.out, io=sm.per_step, log=sm.log, info=mach.info)
        if sc is not None:
            res['ev'] = sc.step_events
            res['sites'] = sc.step_sites
        return res
    return oracle(body, dirname)


class Pristine:
    """
    A process that stays as it is now: executions that are asked for later
    start from its state, whatever the caller did since.
    """

    def __init__(self):
        self.req, req = os.pipe()
        res, self.res = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(req)
                os.close(res)
                self._serve(os.fdopen(self.req, 'rb'), os.fdopen(self.res, 'wb'))
            finally:
                os._exit(0)
        os.close(self.req)
        os.close(self.res)
        self.req, self.res = os.fdopen(req, 'wb'), os.fdopen(res, 'rb')

    def _serve(self, req, res):
        while True:
            try:
                steps, files = pickle.load(req)
            except EOFError:
                return
            try:
                out = ('ok', run_reference(steps, files, dirname='p%d' % _oracle_n[0]))
            except Violation as ex:
                out = ('viol', ex.kind, ex.detail)
            except BaseException:  # noqa
                out = ('exc', traceback.format_exc()[-3000:])
            pickle.dump(out, res, protocol=4)
            res.flush()

    def reference(self, steps, files):
        pickle.dump((steps, files), self.req, protocol=4)
        self.req.flush()
        out = pickle.load(self.res)
        if out[0] == 'ok':
            return out[1]
        if out[0] == 'viol':
            raise Violation(out[1], out[2])
        raise Harness(out[1])

    def close(self):
        self.req.close()
        self.res.close()
        os.waitpid(self.pid, 0)


MODES = {
    'read': ['none', 'raise', 'garbage_none', 'short_none', 'zero_none', 'memerr', 'poison', 'poison_raise', 'poison'],
    'open': ['none', 'raise', 'oserror', 'memerr'],
    'band': ['none', 'raise', 'memerr'], 'ovr': ['none', 'raise', 'memerr'], 'ovrds': ['none', 'raise', 'memerr'],
    'hdropen': ['oserror', 'memerr'], 'hdrread': ['oserror', 'memerr'],
    'imread': ['raise', 'oserror', 'memerr'], 'imshape': ['raise', 'oserror', 'memerr'],
}


def pick_event(it, log):
    """
    A failure at one of the distinct storage calls that the undisturbed
    execution makes: ``pick`` = which call, which of its occurrences, how.
    """
    f1, f2, f3 = it.pop('pick')
    among = set(it.pop('among'))
    groups = {}
    for e in log:
        if e['step'] in among and e['n'] >= 0:
            groups.setdefault((e['call'], e.get('name'), e.get('path'), e.get('level')), []).append(e)
    if not groups:
        return None
    keys = list(groups)
    key = keys[int(f1 * len(keys))]
    ev = groups[key][int(f2 * len(groups[key]))]
    modes = MODES.get(ev['call'], ['raise', 'raise', 'raise', 'memerr'])
    m = {ev['call']: modes[int(f3 * len(modes))]}
    if it.pop('rest', False):
        m['*'] = 'raise'
    return dict(it, step=ev['step'], at=ev['n'], m=m)


def resolve(items, counts, slack=0):
    """Turn relative positions of faults / interrupts into event numbers."""
    out = []
    log = ()
    if 'io' in counts and 'log' in counts:
        counts, log = counts['io'], counts['log']
    for it in items:
        it = dict(it)
        if 'pick' in it:
            it = pick_event(it, log)
            if it is None:
                continue
        if 'at' not in it:
            n = counts.get(it['step'], 0) + slack
            it['at'] = min(n - 1, int(it.pop('frac') * n)) if n > 0 else 0
        it.pop('frac', None)
        out.append(it)
    return out


# ----------------------------------------------------------- node snapshots

def snapshot(nodes):
    with seam_mod.paused():
        return {id(n): (n, C.shallow(n)) for n in nodes}


def live_nodes(mach):
    roots = []
    for v in mach.vals.values():
        if hasattr(v, 'children'):
            roots.append(v)
        elif isinstance(v, (list, tuple)):
            roots += [x for x in v if hasattr(x, 'children')]
    return C.reachable(roots)


def _unknown(c):
    """May a canonical value be refined by learning metadata?"""
    if c is None:
        return True
    if isinstance(c, list):
        return any(_unknown(x) for x in c)
    return False


def refined(a, b):
    """b equals a, except that unknown (None) parts of a may be known in b."""
    if a == b:
        return True
    if a is None:
        return True
    if isinstance(a, list) and a[:1] == ['exc']:
        return True            # e.g. a query that needs unknown metadata
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(refined(x, y) for x, y in zip(a, b))
    return False


def compare_snap(before, fill=(), over=()):
    """
    Compare the nodes of a snapshot with their present state.

    fill: whether unknown metadata may have been filled in; over: parameter
    names that may have changed.
    """
    bad = []
    with seam_mod.paused():
        for nid, (n, old) in before.items():
            new = C.shallow(n)
            if new == old:
                continue
            for key in old:
                if old[key] == new.get(key):
                    continue
                if key == 'meta':
                    for k in sorted(set(old['meta']) | set(new['meta'])):
                        o, w = old['meta'].get(k), new['meta'].get(k)
                        if o == w:
                            continue
                        if k in over:
                            continue
                        if fill and k in C.FILL and type(n).__name__ == 'DelayedLoad' and refined(o, w):
                            continue
                        bad.append([type(n).__name__, 'meta.' + k, o, w])
                elif fill and key in ('shape', 'dsize', 'channels', 'num_channels', 'num_overviews') and refined(old[key], new[key]):
                    continue
                else:
                    bad.append([type(n).__name__, key, old[key], new[key]])
    return bad


def check_arrays(mach):
    bad = []
    with seam_mod.paused():
        for label, obj, dig in mach.inputs:
            if C.digest(C.canon(obj)) != dig:
                bad.append(['input', label])
        for label, obj, dig in mach.arrays:
            if C.digest(C.canon(obj)) != dig:
                bad.append(['result array', label])
    return bad


# ------------------------------------------------------------- interpretation

def same(a, b):
    return C.dumps(a) == C.dumps(b)


def clip(x, n=400):
    s = x if isinstance(x, str) else C.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def fault_modes(rng, calls=None):
    """A random way for the storage to fail."""
    kinds = rng.choice([
        {'read': 'none'}, {'read': 'raise'}, {'read': 'garbage_none'}, {'read': 'short_none'},
        {'read': 'zero_none'}, {'read': 'memerr'}, {'read': 'poison'}, {'read': 'poison_raise'},
        {'read': 'poison'}, {'read': 'poison_raise'},
        {'open': 'none'}, {'open': 'raise'}, {'open': 'oserror'}, {'open': 'memerr'},
        {'band': 'none', 'read': 'none'}, {'band': 'raise'}, {'ovr': 'none'}, {'ovr': 'raise'}, {'ovrds': 'none'}, {'ovrds': 'raise'},
        {'count': 'raise'}, {'nodata': 'raise'}, {'meta': 'raise'},
        {'hdropen': 'raise'}, {'hdrread': 'raise'},
        {'open': 'none', 'read': 'none', 'band': 'raise', 'ovr': 'raise', 'count': 'raise', '*': 'raise'},
        {'open': 'raise', 'read': 'raise', 'band': 'raise', 'ovr': 'raise', 'count': 'raise', '*': 'raise'},
        {'open': 'none', 'read': 'poison', '*': 'raise'},
        {'read': 'short_none', 'open': 'raise'},
        {'*': 'memerr'},
    ])
    return kinds


def gen_faults(rng, steps, n=None, pick=True):
    out = []
    for _ in range(n if n is not None else rng.choice([1, 1, 2, 3])):
        if pick and rng.random() < 0.5:
            out.append(dict(pick=[rng.random(), rng.random(), rng.random()], among=list(steps),
                            rest=rng.random() < 0.25, len=rng.choice([1, 1, 1, 2, 3, -1])))
            continue
        st = rng.choice(steps)
        out.append(dict(step=st, frac=rng.random(), len=rng.choice([1, 1, 1, 2, 3, -1]), m=fault_modes(rng)))
    return out
