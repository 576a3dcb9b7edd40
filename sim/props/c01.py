"""C01: using a delayed image never changes the others around it."""
from .faulty import *  # noqa
from .. import runner


class P(Prop):
    ID = 'C01'
    CONF = ('fast', 'cache', 'exc', 'trace', 'nogdal')
    RULE = ('random pools of pipelines with shared nodes and histories of derive / optimize / prepare / finalize / '
            'evaluate / inspect operations, 40% with storage faults; every node reachable from the pool is compared '
            'before and after each operation; non-trivial: an operation was applied to a pool of several nodes '
            '(distinct by storage log and faults)')

    def gen(self, r, seed):
        g = trees.Gen(r, known=0.4, unprepared=0.3 if r.random() < 0.3 else 0)
        g.negidx = r.random() < 0.3
        g.tree(nops=r.randint(2, 7))
        g.nov = None
        kw = r.random() < 0.25
        kinds = ['fin', 'fin', 'prep', 'opt', 'opt', 'op', 'op', 'cat', 'eval', 'undo', 'insp', 'val', 'finxr', 'xr', 'gc']
        for _ in range(r.randint(5, 12)):
            action(g, kinds, kw=kw)
        probes = [s.id for s in g.targets(3)]
        probes = probes[:1] + probes[2:]
        if kw:
            # what evaluate and optimize settled depends on the overrides at that time
            probes = [p for p in probes if not any(s['k'] in ('eval', 'opt') for s in trees.needed(g.steps, p))]
        cats = [s['id'] for s in g.steps if s['k'] == 'cat']
        cats = [] if kw else r.sample(cats, min(1, len(cats)))
        faults = []
        if r.random() < 0.4:
            acts = [s['id'] for s in g.steps if s['k'] in ('fin', 'prep', 'eval', 'val', 'finxr')]
            if acts:
                faults = core.gen_faults(r, acts)
        return dict(files=g.files, steps=g.steps, faults=faults, probes=probes, cats=cats, kw=kw)

    SHRINK = ['faults', 'steps', 'probes', 'cats', 'files']

    def run(self, case, ctx):
        kw = FULL_KW if case['kw'] else None
        pristine = core.Pristine()
        if case['faults'] and any('at' not in f for f in case['faults']):
            ref = core.run_reference(case['steps'], case['files'])
            case['faults'] = core.resolve(case['faults'], ref)
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        guard = Guard()

        def hook(mach, st):
            pool = core.live_nodes(mach)
            before = core.snapshot(pool)
            out = guard(mach, st)
            fill = st['k'] in ('prep', 'fin', 'finxr', 'eval', 'val', 'opt', 'insp')
            over = ()
            only = None
            if st['k'] == 'fin' and st.get('kw'):
                over = set(st['kw'])
                tgt = C.reachable([mach.vals[st['a']]]) if st['a'] in mach.vals else []
                # an optimized form shares the parameters of the node it came from
                metas = {id(n.meta) for n in tgt}
                only = {id(n) for n in pool if id(n.meta) in metas}
            bad = []
            if over:
                b1 = {k: v for k, v in before.items() if k in only}
                b2 = {k: v for k, v in before.items() if k not in only}
                bad += core.compare_snap(b1, fill, over) + core.compare_snap(b2, fill)
            else:
                bad += core.compare_snap(before, fill)
            bad += core.check_arrays(mach)
            if len(before) > 1:
                ctx.nontrivial = True
            ctx.probe('nodes_compared', len(before))
            if bad:
                raise Violation('changed by %s' % st['k'], dict(step=st, outcome=out[:1], changed=bad[:6]))
        mach = execute(case, ctx, sm, keep=True, hook=hook)
        ctx.use(sm)
        sm2 = seam_mod.Seam()
        for i, sid in enumerate(case['probes']):
            if sid not in mach.vals:
                continue
            want = probe_value(pristine, case, sid, kw)
            st = dict(id='probe%d' % i, k='fin', a=sid)
            if kw:
                st['kw'] = kw
            with seam_mod.active(sm2):
                got = mach.do(st)
            ctx.probe('probes')
            if want == ['skip']:
                continue        # can only be built once the metadata is known
            if not core.same(got, want):
                raise Violation('probe differs', dict(node=sid, want=want, got=got, info=mach.info.get(st['id'])))
        # sharing a pipeline does not change what its members show
        for cid in case.get('cats', ()):
            cst = next((s for s in case['steps'] if s['id'] == cid), None)
            if cst is None:
                continue
            st = dict(id='parts', k='parts', a=cid, ps=cst['ps'])
            ref = pristine.reference(trees.needed(case['steps'], cid) + [st], case['files'])
            got = ref['out']['parts']
            ctx.probe('parts_compared')
            if got[0] == 'ok' and got[1]:
                raise Violation('members of a concatenation look different in it', dict(cat=cid, ps=cst['ps'], differ=got[1]))
        pristine.close()


PROP = P()
