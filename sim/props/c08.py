"""C08: evaluate() freezes the data."""
from .faulty import *  # noqa


def frozen_ids(steps):
    """Nodes that, by construction, have no file below them."""
    fz = set()
    for st in steps:
        if st['k'] in ('eval', 'ident', 'nans', 'nodata'):
            fz.add(st['id'])
        elif st['k'] in trees.BUILD and st['k'] != 'load':
            refs = ([st['a']] if 'a' in st else []) + list(st.get('ps', []))
            if refs and all(x in fz for x in refs):
                fz.add(st['id'])
    return fz


def change(r, f):
    """Anything may happen to the file."""
    x = r.random()
    base = dict(k='fs', name=f['name'], key=f['key'])
    if x < 0.3:
        return dict(base, op='rm')
    if x < 0.55:
        return dict(base, op='place', var=1 - f['var'])
    if x < 0.75:
        return dict(base, op='rewrite', var=1 - f['var'])
    if x < 0.9:
        return dict(base, op='trunc', n=r.choice([0, 10, 200, 900]))
    return dict(base, op='fill')


class P(Prop):
    ID = 'C08'
    CONF = ('fast', 'cache', 'exc', 'nogdal')
    RULE = ('pipelines over files, some of whose nodes are evaluated (some evaluations hit injected read failures and are repeated); '
            'then the files are removed / replaced / overwritten / truncated, the original nodes are finalized with other '
            'parameters, optimized or dropped, all storage access is made to fail, and the evaluated nodes are used and derived '
            'from; non-trivial: an evaluated node over a file was finalized after the change (distinct by pixels)')
    SHRINK = ['faults', 'steps', 'files']

    def gen(self, r, seed):
        g = trees.Gen(r, known=0.4, ident=r.random() < 0.3)
        g.tree(nops=r.randint(1, 6))
        ev = []
        for _ in range(r.randint(1, 4)):
            cand = [s for s in g.nodes if small(s) and s.prep]
            if not cand:
                continue
            s = r.choice(cand if r.random() < 0.5 else cand[-3:])
            if r.random() < 0.2:
                g.add('fin', a=s.id)
            e = other_node(g, s, 'eval')
            # a second attempt, in case the first one is made to fail
            g.steps.append(dict(g.steps[-1], again=1))
            ev.append(e)
            if r.random() < 0.4:
                ev.append(g.op(e))
            if r.random() < 0.3:
                c = g.cat()
        src = [s for s in g.nodes]
        fz = frozen_ids(g.steps)
        cut = g.add('fs', name='', op='')
        # phase 2: anything happens to the files and the original nodes
        g.steps.pop()
        phase2 = []
        n0 = len(g.steps)
        for _ in range(r.randint(0, 4)):
            s = r.choice(src)
            x = r.random()
            if x < 0.45 and small(s) and not any(t['id'] in fz for t in trees.needed(g.steps, s.id, ())):
                # (overrides apply to everything below, also to evaluated nodes)
                g.add('fin', a=s.id, kw=trees.gen_kw(r))
            elif x < 0.6:
                g.add('insp', a=s.id, what=r.choice(trees.INSP))
            elif x < 0.8 and s.prep:
                other_node(g, s, 'opt')
                g.nodes.pop()
            elif s.id not in fz and s.prep:
                g.op(s)
                g.nodes.pop()
        for f in g.files:
            if r.random() < 0.8:
                g.steps.append(dict(change(r, f), id='x%d' % len(g.steps)))
        if r.random() < 0.4:
            for s in src:
                if s.id not in fz and r.random() < 0.7:
                    g.add('del', a=s.id)
            g.add('gc')
        phase2 = [s['id'] for s in g.steps[n0:]]
        # phase 3: use what was evaluated
        n1 = len(g.steps)
        nodes = [s for s in g.nodes if s.id in fz]
        g.nodes = list(nodes)
        for _ in range(r.randint(2, 7)):
            if not g.nodes:
                break
            s = r.choice(g.nodes)
            action(g, ['fin', 'fin', 'fin', 'op', 'op', 'opt', 'eval', 'insp', 'prep', 'finxr', 'xr', 'cat', 'undo'], s)
        for s in g.nodes:
            if small(s):
                g.add('fin', a=s.id)
        for s in ev:
            g.add('insp', a=s.id, what='meta')
        phase3 = [s['id'] for s in g.steps[n1:]]
        evs = [s['id'] for s in g.steps[:n0] if s['k'] == 'eval']
        faults = core.gen_faults(r, evs, r.choice([1, 1, 2])) if evs and r.random() < 0.45 else []
        return dict(files=g.files, steps=g.steps, phase2=phase2, phase3=phase3, faults=faults, deny=r.choice(['raise', 'oserror', 'none']))

    def run(self, case, ctx):
        p2, p3 = set(case['phase2']), set(case['phase3'])
        calm = []
        seen = set()
        for s in case['steps']:
            if s['id'] in p2 or s.get('again'):
                continue
            calm.append(s)
        ref = core.run_reference(calm, case['files'])
        want_out = ref['out']
        case['faults'] = core.resolve(case['faults'], ref)
        trees.place_files(case['files'])
        sm = seam_mod.Seam(case['faults'])
        fz = frozen_ids(case['steps'])
        by = {s['id']: s for s in case['steps']}
        done = set()
        real = {s['id'] for s in case['steps'] if s['k'] == 'eval'}
        changed = [False]

        def hook(mach, st):
            if st['id'] in p3:
                sm.faults = []
                sm.deny = case['deny']
            if st.get('again'):
                if mach.out.get(st['id'], ['skip'])[0] == 'ok':
                    return
                # repeat it with the storage in order
                sm.hold = True
            n0 = len(sm.log)
            nf = len(sm.fired_events)
            before = core.snapshot(core.live_nodes(mach)) if st['k'] == 'eval' else None
            got = mach.do(st)
            sm.hold = False
            evs = sm.log[n0:]
            want = want_out.get(st['id'])
            if st['k'] == 'eval':
                bad = core.compare_snap(before, fill=True)
                if bad:
                    raise Violation('evaluate changed existing nodes', dict(step=st, changed=bad[:5], got=got))
                if got[0] == 'err' and len(sm.fired_events) > nf:
                    ctx.probe('evaluate_failed')
                    return
            if st['id'] in p2:
                if st['k'] == 'fs':
                    ctx.count('file:' + st['op'])
                    changed[0] = True
                return
            if want is None or want[0] == 'skip' or got[0] == 'skip':
                return
            a = st.get('a')
            own = (st['id'] in fz and st['k'] != 'eval') or (a in fz)
            if own and evs:
                raise Violation('I/O on behalf of an evaluated image', dict(step=st, io=[[e['call'], e.get('path')] for e in evs[:5]]))
            if own and not core.same(got, want):
                raise Violation('evaluated image changed', dict(step=st, want=want, got=got, info=mach.info.get(st['id'])))
            if not own and st['k'] == 'eval' and not core.same(got, want):
                raise Violation('evaluate gives a wrong image', dict(step=st, want=want, got=got, info=mach.info.get(st['id'])))
            if own and st['k'] in ('fin', 'finxr') and changed[0] and got[0] == 'ok':
                ctx.nontrivial = True
                ctx.sig.append(C.digest(got))
        execute(case, ctx, sm, hook=hook)
        ctx.use(sm)


PROP = P()
