"""C11: open files are bounded and released."""
import gc
import os

from .faulty import *  # noqa
from .c05 import gen_ints, place_ints


def open_files():
    """Descriptors this process holds on the files of the run."""
    base = os.path.realpath(os.getcwd()) + os.sep
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(base):
            out.append(p[len(base):])
    return sorted(out)


def live_leafs(mach):
    """Number of live leafs over each file."""
    out = {}
    with seam_mod.paused():
        for n in core.live_nodes(mach):
            if type(n).__name__ == 'DelayedLoad':
                stem = os.fspath(n.meta['fpath']).split('.')[0]
                out[stem] = out.get(stem, 0) + 1
    return out


def excess(files, leafs):
    """Files open more often than there are live leafs over them."""
    return sorted({p for p in files if files.count(p) > leafs.get(p.split('.')[0], 0)})


class P(Prop):
    ID = 'C11'
    CONF = ('fast', 'exc')
    RULE = ('histories that create, use (each use repeated), damage and drop pipelines, with injected storage failures and '
            'asynchronous exceptions; after every operation the open descriptors are compared with the live leafs, after '
            'dropping everything none may be left; non-trivial: descriptors were open at some time (distinct by open history)')
    SHRINK = ['ints', 'faults', 'steps', 'files']

    def gen(self, r, seed):
        g = trees.Gen(r, known=0.4, ident=False, max_files=r.choice([1, 2, 3]),
                      pool=['rgb', 'tile', 'i16', 'f32', 'u8', 'six', 'pngc', 'pngg', 'envi', 'envi', 'bip', 'bil'])
        rounds = r.randint(1, 3)
        for _ in range(rounds):
            g.nodes = []
            n0 = len(g.steps)
            g.tree(nops=r.randint(1, 5))
            for _ in range(r.randint(1, 6)):
                s = r.choice(g.nodes if r.random() < 0.5 else g.nodes[-3:])
                sid = action(g, ['fin'] * 6 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'val', 'op'], s, kw=r.random() < 0.3)
                if sid and g.steps[-1]['k'] in ('fin', 'prep', 'finxr'):
                    for _ in range(r.randint(0, 4)):
                        g.add(**{k: v for k, v in g.steps[-1].items() if k != 'id'})
            made = [st['id'] for st in g.steps[n0:] if st['k'] in trees.BUILD]
            drop = [i for i in made if r.random() < (0.4 if _ < rounds - 1 else 0)]
            for i in drop:
                g.add('del', a=i)
            if drop:
                g.add('gc')
        ios = io_steps(g)
        faults, ints = [], []
        if ios and r.random() < 0.5:
            faults = core.gen_faults(r, ios, r.randint(1, 5))
        if r.random() < 0.4:
            ints = gen_ints(r, ios or [g.steps[0]['id']], r.randint(1, 3))
        return dict(files=g.files, steps=g.steps, faults=faults, ints=ints)

    def run(self, case, ctx):
        need = any('at' not in i for i in case['ints'])
        ref = core.run_reference(case['steps'], case['files'], probe_trace='async' if need else None)
        case['faults'] = core.resolve(case['faults'], ref)
        if need:
            case['ints'] = place_ints(case['ints'], ref['sites'])
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints'])
        sm.sched = sc
        last = {}
        hist = []

        def hook(mach, st):
            n0, nf, ni = len(sm.log), len(sm.fired_events), len(sc.fired_ints)
            got = mach.do(st)
            opens = sum(1 for e in sm.log[n0:] if e['call'] in ('open', 'hdropen'))
            quiet = len(sm.fired_events) == nf and len(sc.fired_ints) == ni
            files = open_files()
            leafs = live_leafs(mach)
            if excess(files, leafs):
                gc.collect()
                ctx.probe('needed_gc')
                files = open_files()
            hist.append(len(files))
            if excess(files, leafs):
                raise Violation('too many open files', dict(step=st, open=files, leafs=leafs, ints=sc.fired_ints,
                                                            faults=sm.fired_events[-3:]))
            k = C.dumps({a: b for a, b in st.items() if a != 'id'})
            if st['k'] in ('fin', 'finxr', 'prep'):
                # (prepare=False gives up the handle that later calls could reuse)
                if last.get('k') == k and st.get('pre', True) and last['ok'] and quiet and got[0] == 'ok' and opens:
                    raise Violation('repeated %s opens files' % st['k'], dict(step=st, opens=opens))
                last.update(k=k, ok=quiet and got[0] == 'ok')
            elif st['k'] not in ('insp', 'gc'):
                last.clear()
                last.update(k=None, ok=False)
            if files:
                ctx.nontrivial = True
            ctx.probe('max_open', 0)
        mach = execute(case, ctx, sm, sc, hook=hook)
        ctx.use(sm, sc)
        # drop everything
        want = set()
        mach.vals.clear()
        gc.collect()
        files = open_files()
        if files:
            raise Violation('files stay open', dict(open=files, ints=sc.fired_ints, faults=sm.fired_events[-3:]))
        ctx.sig.append(repr(hist))
        # partial drop: also in a fresh pool, leaf after leaf
        sm.sched = None
        sm.hold = True
        with seam_mod.active(sm):
            mach.sched = None
            for st in case['steps']:
                if st['k'] in ('load', 'prep', 'fin') or st['k'] in trees.BUILD:
                    mach.do(dict(st))
            by = {}
            for f in case['files']:
                by[f['name']] = [s['id'] for s in case['steps'] if s['k'] == 'load' and s['f'] == f['name']]
            for name in sorted(by):
                dead = set(by[name])
                for s in case['steps']:
                    if s['k'] in trees.BUILD and (s.get('a') in dead or any(p in dead for p in s.get('ps', []))):
                        if s['k'] != 'eval':
                            dead.add(s['id'])
                for i in dead:
                    mach.vals.pop(i, None)
                gc.collect()
                left = [p for p in open_files() if p.split('.')[0] == name]
                if left:
                    raise Violation('file of dropped nodes stays open', dict(file=name, open=left))


PROP = P()
