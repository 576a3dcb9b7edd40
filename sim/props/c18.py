"""C18: delayed images hold no pixels, and what is dropped is freed."""
import functools
import gc
import os
import sys
import tracemalloc

import numpy as np

from .faulty import *  # noqa
from .c05 import gen_ints, place_ints

LRU = type(functools.lru_cache(len))
BIG = 1500          # smaller allocations are matrices, names, ...


def traces():
    gc.collect()
    return list(tracemalloc.take_snapshot().traces)


def pixel_bytes(ts):
    """Live numpy buffers that are large enough to be image data."""
    return sum(t.size for t in ts if t.domain == np.lib.tracemalloc_domain and t.size >= BIG)


def static_containers():
    """Module and class level containers of the library."""
    out, todo, seen = [], [], set()
    for name, m in list(sys.modules.items()):
        if m is not None and name.split('.')[0] == 'delayed_image':
            todo.append((0, m.__dict__))
    while todo:
        d, o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (dict, list, set)):
            out.append(o)
        elif not (isinstance(o, type) and o.__module__.startswith('delayed_image')) and type(o) is not LRU:
            continue
        else:
            out.append(o)
        if d < 4:
            todo += [(d + 1, x) for x in gc.get_referents(o)]
    return out


def mass(static):
    """Size of everything the process holds, as far as it can grow step by step."""
    gc.collect()
    n = sum(map(sys.getsizeof, gc.get_objects()))
    for o in static:
        if type(o) is LRU:
            n += 100 * o.cache_info().currsize
        else:
            n += sys.getsizeof(o)
    return n


def owner(a):
    while isinstance(getattr(a, 'base', None), np.ndarray):
        a = a.base
    return a


def legit_bytes(mach):
    """Arrays that delayed images legitimately consist of."""
    own = {}
    for n in core.live_nodes(mach):
        if type(n).__name__ == 'DelayedIdentity':
            d = n.data
            for a in ([np.asarray(d.data), np.ma.getmaskarray(d)] if isinstance(d, np.ma.MaskedArray) else [d]):
                a = getattr(a, 'values', a)
                if isinstance(a, np.ndarray):
                    o = owner(a)
                    own[id(o)] = o.nbytes
    return sum(own.values())


def live_objects():
    base = __import__('delayed_image.delayed_base').delayed_base
    lazy = core.MODS['lazy']
    kinds = (base.DelayedOperation, lazy.LazyGDalFrameFile, lazy.LazyRasterIOFrameFile, lazy.LazySpectralFrameFile,
             base.OptimizeContext)
    return sorted(type(o).__name__ for o in gc.get_objects() if isinstance(o, kinds))


class P(Prop):
    ID = 'C18'
    CONF = ('fast', 'exc', 'nogdal')
    RULE = ('histories of pipelines under storage failures and asynchronous exceptions; every allocation is traced: after each '
            'operation (its result dropped) the live pixel buffers are those of in-memory leafs, repeating an operation does not '
            'grow memory, after dropping the pipelines no node, reader or buffer is left; non-trivial: an operation produced pixels '
            '(distinct by allocation history)')
    BUDGET = {'quick': (3000, 60), 'thorough': (60000, 780)}
    SHRINK = ['ints', 'faults', 'steps', 'again', 'files']

    def gen(self, r, seed):
        g = gen_history(r, repeat=False, kinds=['fin'] * 6 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'insp', 'op', 'cat', 'undo', 'val'])
        ios = io_steps(g)
        faults, ints = [], []
        if ios and r.random() < 0.4:
            faults = core.gen_faults(r, ios, r.randint(1, 3))
        if r.random() < 0.35:
            ints = gen_ints(r, ios or [g.steps[0]['id']], r.randint(1, 2))
        acts = [s['id'] for s in g.steps if s['k'] not in trees.BUILD or s['k'] in ('opt', 'undo')]
        again = r.sample(acts, min(len(acts), 3))
        return dict(files=g.files, steps=g.steps, faults=faults, ints=ints, again=again)

    def run(self, case, ctx):
        need = any('at' not in i for i in case['ints'])
        if need or case['faults'] and any('at' not in f for f in case['faults']):
            ref = core.run_reference(case['steps'], case['files'], probe_trace='async' if need else None)
            case['faults'] = core.resolve(case['faults'], ref)
            if need:
                case['ints'] = place_ints(case['ints'], ref['sites'])
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints'])
        sm.sched = sc
        before = live_objects()
        tracemalloc.start(1)
        hist = []

        def hook(mach, st):
            got = mach.do(st)
            ts = traces()
            have, own = pixel_bytes(ts), legit_bytes(mach)
            hist.append(have)
            if got[0] == 'ok' and st['k'] in ('fin', 'finxr', 'eval'):
                ctx.nontrivial = True
            if have > own:
                kept = sorted((t.size, t.traceback[-1].filename.split('/')[-1]) for t in ts
                              if t.domain == np.lib.tracemalloc_domain and t.size >= BIG)
                raise Violation('pixels are kept after %s' % st['k'], dict(step=st, outcome=got[:2], have=have, own=own, buffers=kept[-5:],
                                                                         ints=sc.fired_ints, faults=sm.fired_events[-3:]))
        mach = execute(case, ctx, sm, sc, hook=hook)
        ctx.use(sm, sc)
        ctx.sig.append(repr(hist))
        sm.sched = None
        mach.sched = None
        sm.hold = True
        by = {s['id']: s for s in case['steps']}
        static = static_containers()
        with seam_mod.active(sm):
            for sid in case['again']:
                st = by.get(sid)
                if st is None:
                    continue
                sizes = []
                for i in range(6):
                    for j in range(2 if i < 2 else 8):
                        mach.do(dict(st, id='again'))
                        mach.vals.pop('again', None)
                        del sm.log[:]
                    sizes.append(mass(static))
                ctx.ops += 36
                ctx.probe('repeated')
                grow = [b - a for a, b in zip(sizes[2:], sizes[3:])]
                if min(grow) >= 200:     # 25 bytes each time
                    raise Violation('memory grows with every %s' % st['k'], dict(step=st))
        mach.vals.clear()
        ts = traces()
        left = live_objects()
        for n in before:
            left.remove(n)
        if left:
            raise Violation('dropped objects stay alive', dict(objects=left[:10], ints=sc.fired_ints, faults=sm.fired_events[-3:]))
        if pixel_bytes(ts):
            raise Violation('pixels of dropped delayed images stay alive', dict(bytes=pixel_bytes(ts)))
        tracemalloc.stop()


PROP = P()
