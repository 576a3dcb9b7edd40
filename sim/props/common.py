"""Shared parts of the property modules."""
from .. import canon as C
from .. import core, fixtures, sched as S, seam as seam_mod, trees
from ..core import Violation
from ..trees import Shadow

REAL = ['delayed_image (whole package, imported from /repo)', 'GDAL / kwimage / OpenCV / numpy native code',
        'the file system below the scratch directory']
STUB = ['thread scheduler (decided by the simulator)', 'storage failures (injected at the Python API of GDAL, kwimage, rasterio, spectral and open)',
        'asynchronous exceptions (delivered by the simulator)']
ASSUME = ['native GDAL / OpenCV / numpy calls are atomic, except that reads of one GDAL dataset may overlap with each other',
          'the oracle is the same code executed undisturbed in a pristine process, plus the known content of the fixture files where stated',
          'sampled, not exhaustive']


class Prop:
    REAL = REAL
    STUB = STUB
    ASSUME = ASSUME
    RULE = ''
    BUDGET = {'quick': (6000, 60), 'thorough': (60000, 780)}
    CONF = ()       # switches that a whole run may be configured with
    SHRINK = ['decisions', 'ints', 'faults', 'steps', 'files']

    def warm(self):
        """Called once in the template process."""

    def mods(self):
        return core.MODS


def other_node(g, s, k, **kw):
    """A build step that yields another node with the look of ``s``."""
    sid = g.add(k, a=s.id, **kw)
    n = Shadow(sid, s.w, s.h, s.ch, 0 if k == 'eval' else s.ov, k, s.prep, s.depth + 1, s.isfloat)
    g.nodes.append(n)
    return n


def small(s):
    return s.w * s.h <= 16000


def action(g, kinds, s=None, kw=False):
    """Append one random action; returns the step id (or None)."""
    r = g.rng
    k = r.choice(kinds)
    s = s or r.choice(g.nodes if r.random() < 0.5 else g.nodes[-4:])
    if k == 'op':
        return g.op(s).id
    if k == 'xr':
        if g.xrs and r.random() < 0.4:
            x = r.choice(g.xrs)
        else:
            sid = g.add('xr', a=s.id)
            x = Shadow(sid, s.w, s.h, s.ch, s.ov, 'xr', s.prep, s.depth + 1, s.isfloat)
            g.xrs.append(x)
        if r.random() < 0.5:
            x = other_node(g, x, 'opt')
            g.nodes.remove(x)
            g.xrs.append(x)
        k = r.choice(['fin', 'fin', 'fin', 'prep', 'insp'])
        return action(g, [k], x, kw)
    if k == 'cat':
        n = g.cat()
        return n and n.id
    if k == 'opt':
        return other_node(g, s, 'opt').id
    if k == 'eval':
        if not (s.prep and small(s)):
            k = 'fin'
        else:
            return other_node(g, s, 'eval').id
    if k == 'undo':
        if not s.prep:
            return None
        sid = g.add('undo', a=s.id, kw=trees.gen_undo(r))
        if 'fin' in kinds and small(s) and r.random() < 0.5:
            pid = g.add('upart', a=sid, i=r.randrange(3))
            g.add('fin', a=pid)
        return sid
    if k == 'insp':
        if r.random() < 0.12:
            return g.add('insp', a=s.id, what='tff', ps=[r.choice(g.nodes).id])
        return g.add('insp', a=s.id, what=r.choice(trees.INSP))
    if k in ('prep', 'val', 'finxr', 'fin') and not small(s):
        k = 'prep'
    if k == 'fin':
        st = {}
        if kw and r.random() < 0.6:
            st['kw'] = trees.gen_kw(r)
        if r.random() < 0.15:
            st['opt'] = False
        if r.random() < 0.1 and s.prep:
            st['pre'] = False
        return g.add('fin', a=s.id, **st)
    if k == 'gc':
        return g.add('gc')
    return g.add(k, a=s.id)


def execute(case, ctx, sm, sc=None, keep=False, hook=None, steps=None, mach=None):
    """Run steps one after the other in this process."""
    if mach is None:
        mach = trees.Machine(core.MODS, sm, sc)
        mach.keep_arrays = keep
    with seam_mod.active(sm):
        if sc is not None:
            with sc:
                for st in (case['steps'] if steps is None else steps):
                    if hook:
                        hook(mach, st)
                    else:
                        mach.do(st)
                    ctx.ops += 1
        else:
            for st in (case['steps'] if steps is None else steps):
                if hook:
                    hook(mach, st)
                else:
                    mach.do(st)
                ctx.ops += 1
    return mach


def probe_value(pristine, case, sid, kw=None, steps=None):
    """
    finalize(node) in a pristine process that executes nothing but what the
    node is made of.
    """
    steps = trees.needed(steps or case['steps'], sid)
    st = dict(id='probe', k='fin', a=sid)
    if kw:
        st['kw'] = kw
    ref = pristine.reference(steps + [st], case['files'])
    return ref['out']['probe']


FULL_KW = {'interpolation': 'linear', 'antialias': True, 'nodata_method': None, 'border_value': 'auto'}
