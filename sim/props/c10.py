"""C10: tuning and diagnostic switches never change results."""
from ..knobs import DEF, apply_knobs, gen_knobs
from .faulty import *  # noqa

class P(Prop):
    ID = 'C10'
    RULE = ('histories of operations during which the fast path, GDAL exceptions, the shared handle cache (several sizes), '
            'optimize tracing, array-event debugging and the state of stderr are switched between operations, with and without '
            'injected storage failures; reference is the default configuration; non-trivial: an operation that reads ran in '
            'a non default configuration (distinct by configuration and pixels)')
    SHRINK = ['faults', 'knobs', 'steps', 'files']

    def gen(self, r, seed):
        g = gen_history(r, kinds=['fin'] * 7 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'op', 'insp'])
        n = r.randint(1, 4)
        knobs = [dict(step=g.steps[0]['id'], k=gen_knobs(r))] if r.random() < 0.6 else []
        for _ in range(n):
            knobs.append(dict(step=r.choice(g.steps)['id'], k=gen_knobs(r)))
        faults = []
        ios = io_steps(g)
        if ios and r.random() < 0.5:
            faults = core.gen_faults(r, ios, r.randint(1, 3))
        return dict(files=g.files, steps=g.steps, knobs=knobs, faults=faults)

    def run(self, case, ctx):
        ref = core.run_reference(case['steps'], case['files'])
        want_out = ref['out']
        case['faults'] = core.resolve(case['faults'], ref)
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        conf = dict(DEF)
        guard = Guard()
        broken = [False]

        def hook(mach, st):
            for kn in case['knobs']:
                if kn['step'] == st['id']:
                    with seam_mod.paused():
                        apply_knobs(kn['k'])
                    conf.update(kn['k'])
                    for n, v in kn['k'].items():
                        ctx.count('switch:%s' % n)
            nf = len(sm.fired_events)
            got = guard(mach, st)
            want = want_out[st['id']]
            if len(sm.fired_events) > nf:
                broken[0] = True
            fired = sm.fired_events[nf:]
            info = dict(step=st, config=dict(conf), want=want, got=got, error=mach.info.get(st['id']), fired=fired[:4])
            if got[0] == 'skip' and broken[0]:
                return
            if st['k'] == 'insp' and conf['trace'] and st['what'] in ('nest', 'graph', 'str', 'repr', 'net'):
                # the trace itself is part of these
                if got[0] != want[0]:
                    raise Violation('switches change an inspection', info)
                return
            if fired or sm.poisoned:
                if not judge(st, got, want):
                    raise Violation('wrong result with failing storage', info)
                return
            if broken[0]:
                # some node may not have been built
                if got[0] == 'skip' or judge(st, got, want) and got[0] == 'ok' or (st['k'] in trees.BUILD and st['k'] != 'eval') or st['k'] == 'insp' or want[0] == 'skip':
                    return
                if got[0] == 'err' and want[0] == 'err':
                    return
            if not core.same(got, want):
                if want[0] != 'ok' and st['k'] in trees.BUILD:
                    return
                raise Violation('switches change the result', info)
            if st['k'] in IO_STEPS and conf != DEF and got[0] == 'ok':
                ctx.nontrivial = True
                ctx.sig.append(repr(sorted(conf.items(), key=str)) + C.digest(got))
        execute(case, ctx, sm, hook=hook)
        ctx.use(sm)


PROP = P()
