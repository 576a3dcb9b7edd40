"""C13: the overrides given to finalize always take effect."""
from .faulty import *  # noqa
from .c05 import gen_ints, place_ints


def overrides(r):
    kw = trees.gen_kw(r)
    if r.random() < 0.4:
        kw['nodata_method'] = r.choice([None, 'float', 'auto', 'ma', 'float', None])
    return kw


class P(Prop):
    ID = 'C13'
    CONF = ('fast', 'cache', 'exc', 'nogdal')
    RULE = ('histories of finalize calls with differing overrides on nodes that share leaves, mixed with plain finalizations, '
            'preparations, optimizations, evaluations, failing reads and asynchronous exceptions; every finalization is compared with '
            'a pristine process that builds the same nodes, has the parameters given so far set on the nodes by the simulator, and '
            'finalizes once; non-trivial: two different override sets reached one node (distinct by pixels)')
    SHRINK = ['ints', 'faults', 'steps', 'files']
    BUDGET = {'quick': (3000, 60), 'thorough': (40000, 780)}

    def gen(self, r, seed):
        g = trees.Gen(r, known=0.4, ident=r.random() < 0.2, max_files=r.choice([1, 1, 2]),
                      pool=['i16', 'u8', 'i16', 'u8', 'rgb', 'tile', 'f32', 'six', 'pngc', 'envi'] if r.random() < 0.7 else None)
        g.tree(leafs=r.choice([1, 1, 2]), nops=r.randint(1, 5))
        focus = r.choice(g.nodes[-3:])
        pool = [overrides(r) for _ in range(r.randint(1, 3))]
        for _ in range(r.randint(2, 7)):
            x = r.random()
            s = focus if r.random() < 0.6 else r.choice(g.nodes)
            if x < 0.7 and small(s):
                st = {}
                if r.random() < 0.75:
                    st['kw'] = dict(r.choice(pool) if r.random() < 0.6 else overrides(r))
                if r.random() < 0.2:
                    st['opt'] = False
                a = s.id
                if r.random() < 0.08:
                    a = g.add('xr', a=a)
                g.add('fin', a=a, **st)
            else:
                action(g, ['prep', 'opt', 'eval', 'finxr', 'xr', 'insp', 'op', 'op', 'cat'], s)
        fins = [s['id'] for s in g.steps if s['k'] == 'fin']
        if not fins and small(focus):
            fins = [g.add('fin', a=focus.id, kw=overrides(r))]
        judge_ = fins[-1:] + r.sample(fins, min(len(fins), 3)) if fins else []
        ios = io_steps(g)
        faults, ints = [], []
        if len(ios) > 1 and r.random() < 0.5:
            faults = core.gen_faults(r, ios[:-1], r.randint(1, 3))
        if len(ios) > 1 and r.random() < 0.4:
            ints = gen_ints(r, ios[:-1], r.randint(1, 2))
        return dict(files=g.files, steps=g.steps, faults=faults, ints=ints, judge=sorted(set(judge_)))

    def run(self, case, ctx):
        steps = case['steps']
        need = any('at' not in i for i in case['ints'])
        pristine = core.Pristine()
        ref = core.run_reference(steps, case['files'], probe_trace='async' if need else None)
        case['faults'] = core.resolve(case['faults'], ref)
        if need:
            case['ints'] = place_ints(case['ints'], ref['sites'])
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints']) if case['ints'] else None
        sm.sched = sc
        dirty = set()
        guard = Guard()
        broken = set()
        got_all = {}
        order = []

        def hook(mach, st):
            nf, ni = len(sm.fired_events), len(sc.fired_ints) if sc else 0
            got = guard(mach, st)
            quiet = len(sm.fired_events) == nf and (sc is None or len(sc.fired_ints) == ni)
            if sc is not None and len(sc.fired_ints) > ni and st['k'] == 'fin' and st.get('kw'):
                dirty.update(st['kw'])
            if st['k'] in trees.BUILD:
                refs = ([st['a']] if 'a' in st else []) + list(st.get('ps', []))
                if not quiet or got[0] != 'ok' or any(x in broken for x in refs):
                    broken.add(st['id'])
            got_all[st['id']] = (got, quiet, frozenset(dirty), mach.info.get(st['id']))
        execute(case, ctx, sm, sc, hook=hook)
        ctx.use(sm, sc)
        # the same nodes, built in a pristine process, parameters set by hand
        for sid in case['judge']:
            if sid not in got_all:
                continue
            got, quiet, dirt, err = got_all[sid]
            st = next(s for s in steps if s['id'] == sid)
            if not quiet or got[0] == 'skip' or st['a'] in broken:
                continue
            if dirt - set(st.get('kw') or {}):
                continue
            need_ids = {s['id'] for s in trees.needed(steps, st['a'])}
            plan, sets = [], 0
            done = False
            for s in steps:
                if s['id'] == sid:
                    break
                if s['id'] in need_ids and s['k'] not in ('prep',):
                    plan.append(s)
                elif s['k'] == 'prep' and s['id'] in need_ids:
                    plan.append(s)
                elif s['k'] == 'fin' and s.get('kw') and got_all[s['id']][0][0] != 'skip':
                    # also nodes outside of this tree pass parameters on
                    plan += [x for x in trees.needed(steps, s['a']) if x['id'] not in {p['id'] for p in plan}]
                    plan.append(dict(id='k' + s['id'], k='setkw', a=s['a'], kw=s['kw']))
                    sets += 1
            have = {p['id'] for p in plan}
            # keep the original order of everything that builds
            pos = {s['id']: i for i, s in enumerate(steps)}
            plan = sorted(plan, key=lambda p: pos[p['id'][1:]] if p['k'] == 'setkw' else pos[p['id']])
            if st.get('kw'):
                plan.append(dict(id='klast', k='setkw', a=st['a'], kw=st['kw']))
            plan.append(dict({k: v for k, v in st.items() if k != 'kw'}))
            want = pristine.reference(plan, case['files'])['out'][sid]
            if want[0] == 'skip':
                continue
            if ['nogdal', 1] in case.get('conf', []) and got[0] == want[0] == 'err':
                continue    # for several reasons at once
            if not core.same(got, want):
                raise Violation('overrides did not take effect', dict(step=st, want=want, got=got, error=err, plan=[p['id'] for p in plan]))
            if sets and st.get('kw') and got[0] == 'ok':
                ctx.nontrivial = True
            ctx.sig.append(C.digest(got))
        pristine.close()


PROP = P()
