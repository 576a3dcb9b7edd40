"""C04: delayed images recover as soon as the storage works again."""
from .faulty import *  # noqa


class P(Prop):
    ID = 'C04'
    CONF = ('fast', 'exc', 'cache', 'trace', 'nogdal')
    RULE = ('histories of prepare / finalize / evaluate attempts while storage calls fail or files are missing or '
            'truncated, then the storage heals and every node is prepared / finalized once; non-trivial: at least one '
            'fault fired before the heal')

    def gen(self, r, seed):
        real = r.random() < 0.35
        g = gen_history(r)
        faults, damaged = [], []
        if real and g.files:
            for f in r.sample(g.files, r.randint(1, len(g.files))):
                fx = fixtures.FIX[(f['key'], f['var'])]
                if r.random() < 0.6:
                    damaged.append(dict(k='fs', op='rm', name=f['name'], key=f['key']))
                elif fx.drv == 'PNG':
                    damaged.append(dict(k='fs', op='trunc', name=f['name'], key=f['key'], n=r.choice([0, 5, 40])))
                elif fx.drv == 'ENVI':
                    damaged.append(dict(k='fs', op='rmdata', name=f['name'], key=f['key']))
                else:
                    damaged.append(dict(k='fs', op='trunc', name=f['name'], key=f['key'], n=r.choice([0, 1, 7, 50])))
            if r.random() < 0.3:
                ios = io_steps(g)
                faults = core.gen_faults(r, ios, 1) if ios else []
        else:
            ios = io_steps(g)
            if ios:
                faults = core.gen_faults(r, ios, r.randint(1, 4))
        order = [s.id for s in g.nodes]
        r.shuffle(order)
        return dict(files=g.files, steps=g.steps, faults=faults, damaged=damaged, order=order[:8])

    SHRINK = ['faults', 'damaged', 'steps', 'order', 'files']

    def run(self, case, ctx):
        after = []
        for st in case['steps']:
            if st['k'] == 'load':
                after.append(dict(id=st['id'] + '_hp', k='prep', a=st['id']))
        for sid in case['order']:
            after.append(dict(id=sid + '_hf', k='fin', a=sid))
            after.append(dict(id=sid + '_hp2', k='prep', a=sid))
        ref = core.run_reference(case['steps'] + after, case['files'])
        want_out = ref['out']
        case['faults'] = core.resolve(case['faults'], ref)
        trees.place_files(case['files'])
        removed = set()
        for d in case['damaged']:
            trees.fs_action(d)
            ctx.count('real:' + d['op'])
            if d['op'] == 'rm':
                removed.add(d['name'])
            ctx.nontrivial = True
        sm = seam_mod.Seam(case['faults'])
        guard = Guard()

        def hook(mach, st):
            got = guard(mach, st)
            if got[0] == 'err' and want_out[st['id']][0] == 'ok':
                ctx.probe('operations_failed')
                if ['nogdal', 1] not in case.get('conf', []) and removed and len(removed) == len(case['damaged']) and not case['faults'] and st['k'] in IO_STEPS:
                    msg = mach.info.get(st['id'], '').lower()
                    if 'not exist' not in msg and 'no such file' not in msg:
                        raise Violation('error does not say that the file is missing',
                                        dict(step=st, error=got, message=mach.info.get(st['id'])))
        mach = execute(case, ctx, sm, hook=hook)
        # ---- the storage is fine again
        for f in case['files']:
            if any(d['name'] == f['name'] for d in case['damaged']):
                with seam_mod.paused():
                    fixtures.place(f['name'], f['key'], f['var'])
        sm.hold = True
        first = list(after)

        def do(st, what):
            got = mach.do(st)
            want = want_out[st['id']]
            ok = core.same(got, want)
            if not ok and st['k'] in trees.BUILD and want[0] == 'ok' and got[0] == 'ok' and st['k'] != 'eval':
                ok = core.refined(got, want) or core.refined(want, got)
            if not ok and (want[0] == 'skip' or (want[0] == 'err' and st['k'] in trees.BUILD)):
                ok = True
            ctx.ops += 1
            if not ok:
                raise Violation('no recovery: %s' % what, dict(step=st, want=want, got=got, info=mach.info.get(st['id'])))
        with seam_mod.active(sm):
            # finalize of what exists already comes first: it is the very next operation
            for st in first:
                if st['k'] == 'fin' and st['a'] in mach.vals:
                    do(st, 'finalize')
            for st in first:
                if st['a'] in mach.vals and st['id'].endswith('_hp'):
                    do(st, 'prepare')
            for st in case['steps']:
                if st['k'] in trees.BUILD and st['id'] not in mach.vals:
                    do(st, 'build')
                elif st['k'] == 'prep' and st['a'] in mach.vals:
                    do(st, 'prepare')
            for st in first:
                if st['k'] in ('prep', 'fin') and st['a'] in mach.vals:
                    do(st, st['k'])
        ctx.use(sm)


PROP = P()
