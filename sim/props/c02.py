"""C02: threads can evaluate delayed images that share nodes."""
from .common import *  # noqa
import random


def gen_mode(r, nthreads):
    x = r.random()
    if x < 0.45:
        return dict(kind='park', parks=[dict(t=r.randrange(nthreads), f1=r.random(), f2=r.random(), how=S.gen_how(r))
                                        for _ in range(r.choice([1, 1, 2, 3]))])
    if x < 0.7:
        return dict(kind='overtake', p=r.choice([0.02, 0.1, 0.3, 1.0]), m=r.choice([3, 8, 15, 40]), reach=r.choice([100, 1000, 1000000]))
    return dict(kind='uniform', p=r.choice([0.003, 0.01, 0.03, 0.1, 0.3]))


def place_parks(mode, seqs, gran):
    mode = dict(mode)
    if mode['kind'] != 'park':
        return mode
    parks = []
    for p in mode['parks']:
        if 'n' in p:
            parks.append(p)
            continue
        seq = seqs[p['t']] if p['t'] < len(seqs) else []
        if not seq:
            continue
        n = 1 + S.place(seq, p['f1'], p['f2'], p['how'], gran)
        parks.append(dict(t=p['t'], n=n))
    mode['parks'] = parks
    return mode


def twin(steps, new):
    """The same operations once more, in another thread."""
    ids = {st['id']: new + st['id'] for st in steps}
    out = []
    for st in steps:
        st = dict(st, id=ids[st['id']])
        if 'a' in st:
            st['a'] = ids.get(st['a'], st['a'])
        if 'ps' in st:
            st['ps'] = [ids.get(x, x) for x in st['ps']]
        out.append(st)
    return out


def run_threads(case, ctx, mach, sm, sc):
    """Execute the threads of a case under the scheduler."""
    bodies = []
    for steps in case['threads']:
        def body(steps=steps):
            for st in steps:
                mach.do(st)
        bodies.append(body)
    sm.sched = sc
    mach.sched = sc
    with seam_mod.active(sm):
        with sc:
            errs = sc.run_threads(bodies)
    sm.sched = None
    mach.sched = None
    ctx.ops += sum(map(len, case['threads']))
    for e in errs:
        if isinstance(e, S.StepCap):
            ctx.probe('event_cap')
            return False
        if isinstance(e, S.Deadlock) or sc.deadlock:
            raise Violation('deadlock', dict(threads=len(bodies), switches=sc.switch_sites[-6:]))
        if e is not None:
            raise core.Harness('thread failed: %r' % (e,))
    return True


class P(Prop):
    ID = 'C02'
    CONF = ('fast', 'cache', 'exc', 'trace', 'nogdal')
    RULE = ('2-4 threads with random operations over pipelines that share nodes and files, interleaved at library lines or '
            'call boundaries and around / inside native reads by a seeded scheduler (uniform preemption, or parking one thread at '
            'one site until the others are done); non-trivial: at least one preemption (distinct by switch sequence)')
    SHRINK = ['decisions', 'threads', 'setup', 'final', 'files']
    SHRINK_NESTED = ['threads']

    def gen(self, r, seed):
        unprep = r.random() < 0.35
        tight = r.random() < 0.15       # several files compete for a small shared cache
        g = trees.Gen(r, known=0.0 if unprep else 0.3, unprepared=0.8 if unprep else 0.15, max_files=3 if tight else 2,
                      ident=r.random() < 0.3)
        if tight:
            for i in range(r.randint(3, 6)):
                g.leaf('load')
        else:
            g.tree(leafs=r.choice([1, 1, 2]), nops=r.randint(0, 4))
        setup_nodes = list(g.nodes)
        if r.random() < 0.3:
            for s in g.targets(2):
                g.add('fin', a=s.id)
        setup = g.steps
        threads = []
        nt = r.choice([2, 2, 2, 3, 4])
        twins = r.random() < 0.45
        for t in range(nt):
            if twins and t and r.random() < 0.8:
                threads.append(twin(threads[0], 'w%d' % t))
                continue
            g.steps = []
            g.prefix = 'T%d' % t
            g.nodes = list(setup_nodes)
            g.xrs = []
            g.nch = 0 if r.random() < 0.5 else g.nch
            for _ in range(r.randint(1, 3)):
                s = r.choice(g.nodes if tight or r.random() < 0.5 else g.nodes[-3:])
                if not s.prep:
                    action(g, ['fin', 'fin', 'prep', 'finxr'], s)
                else:
                    action(g, ['fin'] * 5 + ['prep', 'opt', 'insp', 'op', 'op', 'cat', 'eval', 'finxr', 'xr', 'val', 'undo'], s)
            if g.steps and g.steps[-1]['k'] in ('opt', 'op', 'cat', 'take', 'crop', 'warp', 'ov'):
                action(g, ['fin'], g.nodes[-1])
            for st in g.steps:
                st.pop('kw', None) if st['k'] == 'fin' else None
            threads.append(g.steps)
        final = []
        for i, s in enumerate(setup_nodes):
            final.append(dict(id='v%d' % i, k='view', a=s.id))
            if small(s):
                final.append(dict(id='z%d' % i, k='fin', a=s.id))
        more = dict(conf=[['cache', r.choice([1, 1, 2])]]) if tight else {}
        return dict(more, files=g.files, setup=setup, threads=threads, final=final[:16],
                    mode=gen_mode(r, nt), gran=r.choice(['line', 'line', 'async']), sseed=r.randrange(1 << 30))

    def run(self, case, ctx):
        seq = case['setup'] + sum(case['threads'], []) + case['final']
        need = 'decisions' not in case and case['mode']['kind'] == 'park'
        ref = core.run_reference(seq, case['files'], probe_trace=case['gran'] if need else None)
        want = ref['out']
        trees.place_files(case['files'])
        sm = seam_mod.Seam()
        mode = case['mode']
        if need:
            mode = place_parks(mode, [sum((ref['sites'].get(s['id'], []) for s in t), []) for t in case['threads']], case['gran'])
            case['mode'] = mode
        mach = execute(case, ctx, sm, steps=case['setup'])
        sc = S.Sched(seam_mod._lib_dir[0], gran=case['gran'], rng=random.Random(case['sseed']),
                     decisions=case.get('decisions'), mode=mode)
        ok = run_threads(case, ctx, mach, sm, sc)
        case['decisions'] = sc.decisions if not sc.replay else case['decisions']
        ctx.use(sm, sc)
        ctx.probe('overlapping_reads', sm.overlaps)
        if not ok:
            return
        for ti, t in enumerate(case['threads']):
            for st in t:
                got = mach.out.get(st['id'])
                if got != want[st['id']] and not core.same(got, want[st['id']]):
                    raise Violation('thread result', dict(thread=ti, step=st, want=want[st['id']], got=got,
                                                          info=mach.info.get(st['id']), overlaps=sm.overlaps,
                                                          switches=sc.switch_sites[:12]))
        execute(case, ctx, sm, steps=case['final'], mach=mach)
        for st in case['final']:
            if not core.same(mach.out[st['id']], want[st['id']]):
                raise Violation('state after the threads', dict(step=st, want=want[st['id']], got=mach.out[st['id']],
                                                                info=mach.info.get(st['id']), switches=sc.switch_sites[:12]))


PROP = P()
