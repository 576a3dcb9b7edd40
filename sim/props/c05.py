"""C05: an interrupted operation can simply be repeated."""
import json
import re

from .faulty import *  # noqa
from .. import fixtures


def place_ints(r_ints, sites, gran='async'):
    """
    Turn relative interrupt positions into event numbers.  ``f1`` selects one
    of the distinct code sites a step visits, ``f2`` one of the visits.
    """
    out = []
    for it in r_ints:
        it = dict(it)
        if 'at' not in it:
            seq = sites.get(it['step'], [])
            it['at'] = S.place(seq, it['f1'], it['f2'], it['how'], gran) if seq else 0
        for k in ('f1', 'f2', 'how'):
            it.pop(k, None)
        out.append(it)
    return out


def gen_ints(r, steps, n):
    return [dict(step=r.choice(steps), f1=r.random(), f2=r.random(), how=S.gen_how(r),
                 exc=r.choice(['KeyboardInterrupt'] * 5 + ['MemoryError', 'MemoryError', 'TimeoutError']))
            for _ in range(n)]


class P(Prop):
    ID = 'C05'
    CONF = ('fast', 'cache', 'exc', 'trace', 'nogdal')
    RULE = ('random histories of build / optimize / prepare / finalize / evaluate operations, each interrupted by '
            'asynchronous exceptions at function entries, loop back edges, returns of native calls and I/O calls (where '
            'CPython runs signal handlers), then repeated; non-trivial: an exception was delivered (distinct by site)')
    SHRINK = ['ints', 'faults', 'steps', 'files']

    def gen(self, r, seed):
        kinds = ['fin'] * 4 + ['prep', 'finxr', 'xr', 'eval', 'opt', 'opt', 'insp', 'op', 'cat', 'undo']
        if r.random() < 0.3:
            # pipelines on files that nobody has looked at yet
            known = r.choice([0.1, 0.9])
            g = gen_history(r, repeat=False, kinds=kinds + ['prep'] * 4, known=known, unprepared=0.9, partial=0.3, sized=0.8)
            for st in list(g.steps):
                st.pop('pre', None)     # what is known then depends on the history
                if st['k'] in ('fin', 'finxr', 'opt', 'prep') and r.random() < 0.5:
                    g.add('prep', a=st['a'])
        else:
            g = gen_history(r, repeat=False, kinds=kinds)
        n = r.choice([1, 1, 2, 3, 4])
        cand = [s['id'] for s in g.steps]
        heavy = [s['id'] for s in g.steps if s['k'] in IO_STEPS + ('opt',)]
        steps = []
        ints = []
        for _ in range(n):
            ints += gen_ints(r, heavy if heavy and r.random() < 0.75 else cand, 1)
        return dict(files=g.files, steps=g.steps, ints=ints)

    def run(self, case, ctx):
        need = any('at' not in i for i in case['ints'])
        # some overview counts are only known once a file has been looked at
        self.open_counts = any(s['k'] == 'load' and 'nov' not in s for s in case['steps'])
        self.open_pixels = any(s['k'] == 'load' and 'nov' not in s and 'ov' in fixtures.SPEC[s['key']][6]
                               for s in case['steps'])
        ref = core.run_reference(case['steps'], case['files'], probe_trace='async' if need else None)
        want_out = ref['out']
        if need:
            case['ints'] = place_ints(case['ints'], ref['sites'])
        trees.place_files(case['files'])
        sm = seam_mod.Seam()
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints'])
        sm.sched = sc
        guard = Guard()
        hit = []

        def hook(mach, st):
            mine = any(i['step'] == st['id'] for i in case['ints'])
            before = core.snapshot(core.live_nodes(mach)) if mine else None
            nf = len(sc.fired_ints)
            got = guard(mach, st)
            want = want_out[st['id']]
            fired = sc.fired_ints[nf:]
            if fired:
                hit.append(st['id'])
                ctx.probe('interrupted:' + st['k'])
                names = [f[2] for f in fired]
                if got[0] == 'ok' and 'KeyboardInterrupt' in names:
                    raise Violation('interrupt swallowed', dict(step=st, fired=fired, got=got))
                bad = core.compare_snap(before, fill=True)
                if bad:
                    raise Violation('nodes changed by an interrupted %s' % st['k'],
                                    dict(step=st, fired=fired, changed=bad[:6]))
                if got[0] == 'ok' and not judge(st, got, want) and not self.loose(st, got, want):
                    raise Violation('wrong result of an interrupted %s' % st['k'],
                                    dict(step=st, fired=fired, want=want, got=got))
            elif got[0] != 'skip' and not self.same(st, got, want, lost=self.open_counts):
                raise Violation('wrong result after an interruption', dict(step=st, ints=sc.fired_ints, want=want, got=got,
                                                                           info=mach.info.get(st['id'])))
        mach = execute(case, ctx, sm, sc, hook=hook)
        ctx.use(sm, sc)
        if not hit:
            return
        sm.sched = None
        mach.sched = None
        with seam_mod.active(sm):
            # the same objects: repeat the interrupted operations first
            order = [s for s in case['steps'] if s['id'] in hit] + case['steps']
            for st in order:
                if st['k'] in trees.BUILD and st['id'] in mach.vals and st['id'] not in hit:
                    continue
                self.check(mach, st, want_out, 'repeated operation', ctx)
            # and everything from scratch in this process
            mach.vals = {}
            for st in case['steps']:
                self.check(mach, st, want_out, 'rebuilt pipeline', ctx)

    def loose(self, st, got, want):
        """
        What optimizing makes of a node depends on what is known about its
        files by then: the kind of node may differ, and which overview of the
        file the pixels come from.
        """
        if not self.open_counts or got[0] != 'ok' or want[0] != 'ok' or st['k'] == 'insp':
            return False
        a, b = got[1], want[1]
        if st['k'] == 'prep' or (st['k'] in trees.BUILD and st['k'] != 'eval'):
            a, b = [x[1:5] if isinstance(x, list) else x for x in (a, b)]
        elif self.open_pixels:
            a, b = [json.loads(re.sub(r'"[0-9a-f]{16}"', '"*"', json.dumps(x))) for x in (a, b)]
        return core.refined(a, b) or core.refined(b, a)

    def same(self, st, got, want, lost=False):
        if core.same(got, want):
            return True
        if self.loose(st, got, want):
            return True
        if want[0] == 'skip' or (want[0] == 'err' and st['k'] in trees.BUILD):
            return True      # the missing metadata is known by now
        if st['k'] in trees.BUILD and got[0] == 'ok' and want[0] == 'ok' and st['k'] != 'eval':
            return core.refined(got, want) or core.refined(want, got)
        if st['k'] == 'insp':
            return got[0] == want[0] or want[0] == 'err' or (got[0] == 'err' and lost)
        return False

    def check(self, mach, st, want_out, what, ctx):
        got = mach.do(st)
        ctx.ops += 1
        want = want_out[st['id']]
        if got[0] != 'skip' and not self.same(st, got, want):
            raise Violation('wrong result of a %s' % what, dict(step=st, want=want, got=got, info=mach.info.get(st['id'])))
        if got[0] == 'skip' and want[0] == 'ok':
            ctx.probe('skipped_after')


PROP = P()
