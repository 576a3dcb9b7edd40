"""C06: no I/O happens before it is needed."""
import os

from .common import *  # noqa


def watch_stat():
    """Looking for a file touches the storage as well."""
    def wrap(name):
        orig = getattr(os, name)

        def func(path, *a, **kw):
            sm = seam_mod.ACTIVE
            if sm is not None and not seam_mod._inside() and not isinstance(path, int):
                rel = seam_mod._rel(path)
                if not rel.startswith('/'):
                    sm.log.append(dict(call=name, path=rel, step=sm.step(), n=-1))
            return orig(path, *a, **kw)
        setattr(os, name, func)
    for name in ('stat', 'lstat', 'access', 'listdir', 'scandir'):
        wrap(name)


class P(Prop):
    ID = 'C06'
    CONF = ('fast', 'cache', 'exc', 'trace', 'nogdal')
    RULE = ('histories of building, deriving, optimizing, inspecting (and preparing) pipelines while the storage denies every '
            'access (known metadata, files missing) or every pixel read (unknown metadata); non-trivial: the history '
            'ran at least 4 operations on nodes over files that cannot be read (distinct by outcomes)')
    SHRINK = ['steps', 'files']

    def gen(self, r, seed):
        known = r.random() < 0.6
        g = trees.Gen(r, known=1.0 if known else 0.3, unprepared=0.1 if not known else 0, ident=r.random() < 0.4)
        if known and r.random() < 0.4:
            g.sized = r.choice([0.3, 1.0])
        g.tree(nops=r.randint(2, 8))
        kinds = ['opt', 'opt', 'op', 'op', 'op', 'cat', 'insp', 'insp', 'undo', 'prep']
        for _ in range(r.randint(3, 10)):
            s = r.choice(g.nodes if r.random() < 0.5 else g.nodes[-4:])
            if g.sized:
                kinds = [k for k in kinds if k != 'prep']
            if not s.prep:
                # inspecting an image of unknown size may have to look
                action(g, ['prep'], s)
                continue
            action(g, kinds, s)
        return dict(files=g.files, steps=g.steps, known=known, deny=r.choice(['raise', 'none', 'oserror', 'memerr']))

    def run(self, case, ctx):
        ref = core.run_reference(case['steps'], case['files'])
        want = ref['out']
        if not case['known']:
            trees.place_files(case['files'])
        sm = seam_mod.Seam()
        if case['known']:
            sm.deny = case['deny']
        else:
            sm.deny_reads = case['deny']
        watch_stat()
        ready = set()
        known = {s['id'] for s in case['steps'] if s['k'] == 'load' and s.get('wh') and 'nov' in s}

        def hook(mach, st):
            n0 = len(sm.log)
            got = mach.do(st)
            evs = sm.log[n0:]
            w = want[st['id']]
            if not core.same(got, w):
                raise Violation('outcome depends on the storage', dict(step=st, want=w, got=got,
                                                                       info=mach.info.get(st['id']), io=evs[:5]))
            if not evs:
                return
            desc = [[e['call'], e.get('path')] for e in evs[:6]]
            if case['known']:
                raise Violation('I/O by %s' % st['k'], dict(step=st, io=desc))
            if st['k'] != 'prep':
                raise Violation('I/O by %s' % st['k'], dict(step=st, io=desc))
            if any(e['call'] in ('read', 'imread') for e in evs):
                raise Violation('pixels read by prepare', dict(step=st, io=desc))
            if st['a'] in ready:
                raise Violation('prepare of a prepared image does I/O', dict(step=st, io=desc))
            kf = {s['f'] for s in case['steps'] if s['k'] == 'load' and s['id'] in known}
            uf = {s['f'] for s in case['steps'] if s['k'] == 'load' and s['id'] not in known}
            for e in evs:
                stem = (e.get('path') or '?').split('.')[0]
                if stem in kf and stem not in uf:
                    raise Violation('prepare touches a file that is fully known', dict(step=st, io=desc))
        ready_hook = hook

        def hook2(mach, st):
            ready_hook(mach, st)
            if st['k'] == 'prep' and mach.out[st['id']][0] == 'ok':
                ready.add(st['a'])
        execute(case, ctx, sm, hook=hook2)
        ctx.use(sm)
        if case['files'] and ctx.ops >= 4:
            ctx.nontrivial = True
            ctx.count('denied_storage:' + case['deny'])
            ctx.sig.append(C.digest([want[s['id']] for s in case['steps']]))
        ctx.events += ctx.ops


PROP = P()
