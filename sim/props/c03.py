"""C03: a failing read never turns into wrong pixels."""
from .faulty import *  # noqa


class P(Prop):
    ID = 'C03'
    CONF = ('fast', 'cache', 'exc', 'nogdal')
    RULE = ('random pipelines over GeoTIFF / PNG / ENVI files, histories of prepare / finalize / evaluate with retries, '
            'failures injected at chosen opens / header calls / reads or real damage of the files; non-trivial: at '
            'least one fault fired (distinct by storage log and fired faults)')

    def gen(self, r, seed):
        pool = None
        real = r.random() < 0.2
        if real:
            pool = ['pngc', 'pngg', 'tile', 'tile', 'rgb', 'i16', 'u16b', 'envi']
        g = gen_history(r, pool=pool)
        faults = []
        if real:
            n = r.randint(1, 2)
            first = max(i for i, s in enumerate(g.steps) if s['k'] in trees.BUILD) if r.random() < 0.7 else 0
            for _ in range(n):
                if not g.files:
                    break
                d = damage(r, r.choice(g.files))
                g.n += 1
                d['id'] = 'd%d' % g.n
                at = r.randint(first, len(g.steps))
                if d['op'] in ('fill', 'trunc') and any(s['k'] == 'fs' for s in g.steps):
                    continue
                g.steps.insert(at, d)
        else:
            ios = io_steps(g)
            if ios:
                faults = core.gen_faults(r, ios)
        return dict(files=g.files, steps=g.steps, faults=faults)

    SHRINK = ['faults', 'steps', 'files']

    def run(self, case, ctx):
        clean = [s for s in case['steps'] if s['k'] != 'fs']
        ref = core.run_reference(clean, case['files'])
        case['faults'] = core.resolve(case['faults'], ref)
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        guard = Guard()

        def hook(mach, st):
            if st['k'] == 'fs':
                mach.do(st)
                ctx.count('real:' + st['op'])
                ctx.nontrivial = True
                ctx.sig.append(repr(st))
                return
            got = guard(mach, st)
            want = ref['out'][st['id']]
            if got[0] == 'err' and want[0] == 'ok':
                ctx.probe('operations_failed')
            if not judge(st, got, want):
                raise Violation('wrong %s' % ('metadata' if st['k'] == 'prep' else 'result'),
                                dict(step=st, want=want, got=got, info=mach.info.get(st['id'])))
        execute(case, ctx, sm, hook=hook)
        ctx.use(sm)


PROP = P()
