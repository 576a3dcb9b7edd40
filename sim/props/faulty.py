"""Histories of operations over failing storage (C03, C04)."""
from .common import *  # noqa


def gen_history(r, repeat=True, kinds=None, **genkw):
    """Pipelines first, then operations on them, many of them repeated."""
    genkw.setdefault('known', 0.3)
    genkw.setdefault('unprepared', 0.4 if r.random() < 0.3 else 0)
    g = trees.Gen(r, **genkw)
    g.tree(nops=r.randint(1, 6))
    kinds = kinds or ['fin'] * 6 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'val']
    for _ in range(r.randint(2, 6)):
        s = r.choice(g.nodes if r.random() < 0.4 else g.nodes[-4:])
        sid = action(g, kinds, s)
        if sid and repeat and r.random() < 0.5:
            last = g.steps[-1]
            if last['k'] in ('fin', 'prep', 'finxr'):
                for _ in range(r.randint(1, 2)):
                    g.add(**{k: v for k, v in last.items() if k != 'id'})
    # retry some failed preparations before going on
    if repeat:
        out = []
        for st in g.steps:
            out.append(st)
            if st['k'] == 'prep' and r.random() < 0.5:
                g.n += 1
                out.append(dict(st, id='%s_%d' % (st['id'], g.n)))
        g.steps = out
    return g


IO_STEPS = ('fin', 'prep', 'eval', 'val', 'finxr')


def io_steps(g):
    return [s['id'] for s in g.steps if s['k'] in IO_STEPS]


def damage(r, f):
    """A damage of a real file that every correct reader notices."""
    fx = fixtures.FIX[(f['key'], f['var'])]
    size = len(fx.bytes[fx.parts[0]])
    base = dict(k='fs', name=f['name'], key=f['key'])
    if fx.drv == 'PNG' and r.random() < 0.8:
        return dict(base, op='trunc', n=r.randint(60, size - 30))
    if fx.drv == 'GTiff' and f['key'] == 'tile' and r.random() < 0.8:
        keys = sorted(fx.blocks)
        k = r.choice(keys)
        off, n = fx.blocks[k][:2]
        return dict(base, op='fill', off=off, n=n)
    if fx.drv == 'GTiff' and r.random() < 0.7:
        # a new, cut file under the same name: GDAL itself misreads a file whose
        # offset tables disappear while it is open
        return dict(base, op='cut', n=r.choice([0, 1, 7, 50]))
    return dict(base, op='rm')


def unknown_loads(mach, sid):
    """Files below a node whose metadata is not known."""
    if sid not in mach.vals or not hasattr(mach.vals[sid], 'children'):
        return []
    with seam_mod.paused():
        return [n for n in C.reachable([mach.vals[sid]])
                if type(n).__name__ == 'DelayedLoad' and (n.dsize is None or None in n.dsize or n.num_channels is None or n.num_overviews is None)]


class Guard:
    """
    Executes steps; images on a file whose preparation failed are not derived
    from until its metadata is known.
    """

    def __init__(self):
        self.parked = {}

    def __call__(self, mach, st):
        k = st['k']
        if k in trees.BUILD and self.parked:
            refs = [st.get('a')] + list(st.get('ps', []))
            if any(id(n) in self.parked for x in refs for n in unknown_loads(mach, x)):
                mach.out[st['id']] = ['skip']
                return ['skip']
        out = mach.do(st)
        if out[0] == 'err' and k in trees.BUILD and any(
                unknown_loads(mach, x) for x in [st.get('a')] + list(st.get('ps', []))):
            # undisturbed, an earlier operation would have filled in the metadata
            mach.out[st['id']] = ['skip']
            return ['skip']
        if out[0] == 'err' and k in IO_STEPS + ('opt', 'undo', 'insp'):
            for n in unknown_loads(mach, st['a']):
                self.parked[id(n)] = n
        return out


def judge(st, got, want):
    """Is the outcome of a step under faults acceptable?"""
    if got[0] in ('err', 'skip'):
        return True
    if want[0] != 'ok':
        # could not even be built without the metadata that is known by now
        return st['k'] in trees.BUILD or want[0] == 'skip'
    if st['k'] in ('fin', 'finxr', 'prep'):
        return core.same(got, want)
    if st['k'] == 'eval':
        return core.same(got, want)
    return core.refined(got, want) or core.refined(want, got)
