"""C12: independent delayed images never share or go stale on file data."""
from .faulty import *  # noqa

# files that can take each other's place under the same path
FAMILY = [['rgb', 'u16b', 'tile', 'i16', 'six', 'u8', 'f32'], ['rgb', 'u16b'], ['envi', 'bip', 'bil'], ['pngc', 'pngg']]


def ext_of(key):
    return fixtures.load_name('', key)


class P(Prop):
    ID = 'C12'
    CONF = ('fast', 'exc', 'trace', 'nogdal')
    RULE = ('several independently built pipelines over a few paths (same base names in different directories, several settings per '
            'path), their operations interleaved; between epochs files are replaced (new or same inode, same or other kind), removed '
            'and restored, old pipelines stay alive, are used on failing storage, or are dropped; each pipeline built and used within '
            'one epoch is compared with a pristine process that runs it alone on the files of that time; non-trivial: a pipeline was '
            'judged after another one had used the same path (distinct by file history and pixels)')
    SHRINK = ['faults', 'steps', 'files']
    BUDGET = {'quick': (3000, 60), 'thorough': (40000, 780)}

    def gen(self, r, seed):
        files = []
        for i in range(r.choice([1, 1, 2, 2, 3])):
            base = r.choice(['f0', 'f0', 'f1'])
            name = '%s/%s' % ('abc'[i], base) if r.random() < 0.6 else 'f%d' % i
            if any(f['name'] == name for f in files):
                continue
            fam = r.choice(FAMILY)
            files.append(dict(name=name, key=r.choice(fam), var=r.randrange(2), fam=fam))
        first = [dict(name=f['name'], key=f['key'], var=f['var']) for f in files]
        steps = []
        epochs = []
        judged = {}             # pipeline -> epoch
        noisy = []
        olds = []               # generators of older pipelines
        np_ = 0
        for ep in range(r.randint(1, 4)):
            epochs.append([dict(name=f['name'], key=f['key'], var=f['var']) for f in files])
            queues = []
            for _ in range(r.randint(1, 3)):
                g = trees.Gen(r, prefix='p%d' % np_, known=r.choice([0, 0.3, 1]), max_files=0, ident=False,
                              unprepared=0.3 if r.random() < 0.2 else 0)
                if r.random() < 0.6:
                    g.chprefix = 'q'
                g.files = [dict(f) for f in epochs[-1]]
                g.tree(leafs=r.randint(1, 2), nops=r.randint(0, 4))
                for _ in range(r.randint(1, 4)):
                    action(g, ['fin'] * 6 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'val', 'insp', 'op'], kw=r.random() < 0.3)
                for s in g.targets(2):
                    if small(s):
                        g.add('fin', a=s.id)
                name = 'p%d' % np_
                np_ += 1
                noise = r.random() < 0.25
                if noise:
                    noisy += [s['id'] for s in g.steps if s['k'] in IO_STEPS]
                else:
                    judged[name] = ep
                q = []
                for st in g.steps:
                    q.append(dict(st, p=name))
                queues.append(q)
                olds.append((name, g))
            # older pipelines are used on
            for name, g in olds:
                if judged.get(name) == ep or r.random() < 0.5:
                    continue
                q = []
                for _ in range(r.randint(1, 2)):
                    n0 = len(g.steps)
                    action(g, ['fin', 'fin', 'prep', 'opt', 'eval'])
                    for st in g.steps[n0:]:
                        if st['k'] in IO_STEPS and name not in judged:
                            noisy.append(st['id'])
                        q.append(dict(st, p=name, old=1))
                queues.append(q)
            # interleave
            burst = r.choice([1, 2, 5, 50])
            while queues:
                q = r.choice(queues)
                for _ in range(r.randint(1, burst)):
                    if q:
                        steps.append(dict(q.pop(0), ep=ep))
                queues = [x for x in queues if x]
            # drop some
            for name, g in olds:
                if r.random() < 0.2:
                    for s in g.nodes:
                        g.n += 1
                        steps.append(dict(id='%sd%d' % (name, g.n), k='del', a=s.id, p=name, old=1, ep=ep))
                    steps.append(dict(id='%sgc' % name + str(g.n), k='gc', p=name, old=1, ep=ep))
            olds = [o for o in olds if r.random() < 0.8]
            # the files change
            for f in files:
                if r.random() < 0.75:
                    x = r.random()
                    st = dict(id='x%d' % len(steps), k='fs', name=f['name'], key=f['key'], ep=ep, p='')
                    if x < 0.35:
                        f['var'] = 1 - f['var']
                        st.update(op='rewrite', var=f['var'])
                    elif x < 0.6:
                        f['var'] = 1 - f['var']
                        st.update(op='place', var=f['var'])
                    else:
                        same_ext = [k for k in f['fam'] if ext_of(k) == ext_of(f['key'])]
                        f['key'] = r.choice(same_ext)
                        f['var'] = r.randrange(2)
                        st.update(op='swap', key2=f['key'], var=f['var'])
                    steps.append(st)
        faults = core.gen_faults(r, noisy, r.randint(1, 4), pick=False) if noisy and r.random() < 0.7 else []
        return dict(files=first, steps=steps, judged=judged, faults=faults)

    def run(self, case, ctx):
        want = {}
        # the files as of each epoch
        epochs = {}
        cur = {f['name']: dict(f) for f in case['files']}
        for s in case['steps']:
            epochs.setdefault(s['ep'], [dict(f) for f in cur.values()])
            if s['k'] == 'fs' and s['name'] in cur:
                cur[s['name']].update(key=s.get('key2', s['key']), var=s['var'])
        bad = {f['step'] for f in case['faults']}
        steps = case['steps']
        for name, ep in sorted(case['judged'].items()):
            mine = [s for s in steps if s['p'] == name and s['ep'] == ep and not s.get('old')]
            if not mine or any(s['id'] in bad for s in mine):
                continue
            ref = core.run_reference(mine, epochs[ep])
            for s in mine:
                want[s['id']] = ref['out'][s['id']]
        case['faults'] = core.resolve(case['faults'], {s['id']: 6 for s in steps})
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        used = {}

        names = {f['name'] for f in case['files']}

        def hook(mach, st):
            if st['k'] == 'fs' and st['name'] not in names:
                return
            got = mach.do(st)
            if st['k'] == 'fs':
                ctx.count('file:' + st['op'])
                return
            if st['k'] == 'load':
                used.setdefault(st['f'], set()).add(st['p'])
            w = want.get(st['id'])
            if w is None:
                return
            if not core.same(got, w):
                raise Violation('an independent pipeline sees something else', dict(step=st, want=w, got=got, error=mach.info.get(st['id'])))
            if st['k'] in ('fin', 'finxr', 'prep') and got[0] == 'ok':
                if any(len(v) > 1 and st['p'] in v for v in used.values()):
                    ctx.nontrivial = True
                    ctx.sig.append([st['ep'], C.digest(got)])
        execute(case, ctx, sm, hook=hook)
        ctx.use(sm)


PROP = P()
