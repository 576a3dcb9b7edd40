"""C15: the dataset-handle cache is a bounded, correct LRU."""
import gc
from collections import OrderedDict

from .faulty import *  # noqa
from .c05 import gen_ints, place_ints
from .c11 import open_files
from . import c14


def handles(files):
    """Number of datasets that hold these descriptors."""
    by = {}
    for p in files:
        d = by.setdefault(p.split('.')[0], {})
        d[p] = d.get(p, 0) + 1
    return sum(max(d.values()) for d in by.values())


class Model:
    """Reference LRU."""

    def __init__(self, n):
        self.n = n
        self.d = OrderedDict()

    def set(self, k, v):
        self.d[k] = v
        self.d.move_to_end(k)
        while len(self.d) > self.n:
            self.d.popitem(last=False)

    def get(self, k):
        v = self.d[k]
        self.d.move_to_end(k)
        return v

    def drop(self, k):
        del self.d[k]

    def items(self):
        return [[k, v] for k, v in self.d.items()]


class P(Prop):
    ID = 'C15'
    RULE = ('(a) histories of store / lookup / miss / delete / clear operations on the bounded mapping, sizes 1-8, with asynchronous '
            'exceptions, compared after every operation with a reference LRU; (b) histories of GDAL readers created, used, hit by '
            'storage failures and dropped over more files than the shared handle cache has entries: pixels, number of entries, opens '
            'and descriptors are compared with the model; non-trivial: an entry was evicted (distinct by history)')
    SHRINK = ['ints', 'faults', 'steps', 'files']

    def gen(self, r, seed):
        if r.random() < 0.5:
            return self.gen_map(r)
        return self.gen_handles(r)

    def gen_map(self, r):
        n = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
        keys = list(range(n + r.randint(1, 4)))
        steps = []
        size = r.choice([5, 12, 25, 60])
        for i in range(size):
            x = r.random()
            k = r.choice(keys)
            if x < 0.5:
                st = dict(k='set', key=k, v=i)
            elif x < 0.85:
                st = dict(k='get', key=k)
            elif x < 0.92:
                st = dict(k='in', key=k)
            elif x < 0.98:
                st = dict(k='del', key=k)
            else:
                st = dict(k='clear')
            steps.append(dict(st, id='m%d' % i))
        init = [[r.choice(keys), -1 - j] for j in range(r.randint(1, 6))] if r.random() < 0.3 else []
        ints = gen_ints(r, [s['id'] for s in steps], r.randint(1, 4)) if r.random() < 0.5 else []
        return dict(mode='map', n=n, init=init, steps=steps, ints=ints, files=[], faults=[])

    def gen_handles(self, r):
        n = r.choice([1, 1, 2, 3, 4])
        files = []
        for i in range(n + r.randint(0, 3)):
            files.append(dict(name='f%d' % i, key=r.choice(['rgb', 'u16b', 'i16', 'f32', 'six', 'envi', 'bip', 'pngc', 'pngg', 'tile']), var=r.randrange(2)))
        steps = []
        live = []
        uses = []

        def add(k, **kw):
            steps.append(dict(id='%s%d' % (k[0], len(steps)), k=k, **kw))
            return steps[-1]['id']
        for _ in range(r.randint(4, 25)):
            x = r.random()
            if x < 0.45 or not live:
                f = r.choice(files)
                o = fixtures.SPEC[f['key']]
                live.append((add('new', f=f['name'], key=f['key'], kind='gdal'), o[2], o[3], o[4]))
                sid, w, h, c = live[-1]
                if r.random() < 0.85:
                    uses.append(add('get', a=sid, ix=c14.gen_index(r, w, h, c)))
            elif x < 0.8:
                sid, w, h, c = r.choice(live)
                uses.append(add('get', a=sid, ix=c14.gen_index(r, w, h, c)))
            elif x < 0.9:
                uses.append(add('info', a=r.choice(live)[0]))
            else:
                add('drop', a=live.pop(r.randrange(len(live)))[0])
        faults = core.gen_faults(r, uses, r.randint(1, 3)) if uses and r.random() < 0.35 else []
        ints = gen_ints(r, uses, r.randint(1, 3)) if uses and r.random() < 0.3 else []
        return dict(mode='handles', n=n, files=files, steps=steps, faults=faults, ints=ints)

    def run(self, case, ctx):
        if case['mode'] == 'map':
            self.run_map(case, ctx)
        else:
            self.run_handles(case, ctx)

    # ------------------------------------------------------------- the map
    def do_map(self, cd, st):
        k = st['k']
        try:
            if k == 'set':
                cd[st['key']] = st['v']
                return ['ok']
            if k == 'get':
                return ['ok', cd[st['key']]]
            if k == 'in':
                return ['ok', st['key'] in cd]
            if k == 'del':
                del cd[st['key']]
                return ['ok']
            cd.clear()
            return ['ok']
        except BaseException as ex:
            if isinstance(ex, (S.Deadlock, S.StepCap)):
                raise
            return ['err', type(ex).__name__]

    def run_map(self, case, ctx):
        CD = core.MODS['lazy'].CacheDict
        steps = case['steps']
        if any('at' not in i for i in case['ints']):
            def probe():
                sc = S.Sched(seam_mod._lib_dir[0], gran='line')
                sc.step_sites = {}
                cd = CD(cache_len=case['n'])
                with sc:
                    for st in steps:
                        sc.set_step(st['id'])
                        self.do_map(cd, st)
                        sc.set_step(None)
                return sc.step_sites
            case['ints'] = place_ints(case['ints'], core.oracle(probe), 'line')
        cd = CD([tuple(x) for x in case['init']], cache_len=case['n'])
        md = Model(case['n'])
        for k, v in case['init']:
            md.set(k, v)
        sc = S.Sched(seam_mod._lib_dir[0], gran='line', ints=case['ints'])
        evicted = 0
        hist = []
        last = {}               # key -> values that may be stored
        for k, v in md.items():
            last[k] = {v}
        with sc:
            for st in steps:
                before = md.items()
                ni = len(sc.fired_ints)
                sc.set_step(st['id'])
                got = self.do_map(cd, st)
                sc.set_step(None)
                ctx.ops += 1
                hit = len(sc.fired_ints) > ni
                now = [[k, v] for k, v in cd.items()]
                info = dict(step=st, size=case['n'], before=before, now=now, got=got, ints=sc.fired_ints)
                k = st['k']
                if k == 'set':
                    last[st['key']] = (last.get(st['key'], set()) if hit else set()) | {st['v']}
                if hit:
                    if got[0] == 'ok' and sc.fired_ints[-1][2] == 'KeyboardInterrupt':
                        raise Violation('interrupt swallowed', info)
                    # whatever is there now must be something that was stored,
                    # nothing but the oldest may be gone
                    keep = [kk for kk, _ in before if kk != st.get('key')]
                    here = [kk for kk, _ in now if kk != st.get('key')]
                    if k in ('set', 'get', 'in') and here != keep[len(keep) - len(here):]:
                        raise Violation('interrupted operation loses or reorders entries', info)
                    if k in ('get', 'in') and len(here) != len(keep):
                        raise Violation('interrupted lookup loses entries', info)
                    if k == 'set' and len(here) < min(len(keep), case['n'] - 1):
                        raise Violation('interrupted store evicts too much', info)
                    if any(v not in last.get(kk, ()) for kk, v in now):
                        raise Violation('entry with a value that was not stored', info)
                    md.d = OrderedDict(now)
                    continue
                want = ['ok']
                try:
                    if k == 'set':
                        md.set(st['key'], st['v'])
                    elif k == 'get':
                        want.append(md.get(st['key']))
                    elif k == 'in':
                        want.append(st['key'] in md.d)
                    elif k == 'del':
                        md.drop(st['key'])
                    else:
                        md.d.clear()
                except KeyError:
                    want = ['err', 'KeyError']
                if got != want:
                    raise Violation('wrong answer of the cache', dict(info, want=want))
                if now != md.items():
                    raise Violation('cache differs from an LRU', dict(info, model=md.items()))
                if len(cd) != len(md.d) or (k == 'set' and len(cd) > case['n']):
                    raise Violation('cache exceeds its size', info)
                if k == 'set' and len(before) == len(now) and st['key'] not in dict(map(tuple, before)):
                    evicted += 1
                hist.append(now)
        ctx.use(None, sc)
        ctx.events += len(steps)
        ctx.probe('evictions', evicted)
        if evicted:
            ctx.nontrivial = True
        ctx.sig.append(hist)

    # ---------------------------------------------------------- the readers
    def run_handles(self, case, ctx):
        steps = case['steps']
        lazy = core.MODS['lazy']
        need = any('at' not in i for i in case['ints'])

        def play(sm, sc, fn):
            trees.place_files(case['files'])
            lazy.GLOBAL_GDAL_CACHE = lazy.CacheDict(cache_len=case['n'])
            sm.sched = sc
            rd = c14.Readers(core.MODS, sm, sc)
            with seam_mod.active(sm):
                if sc is not None:
                    with sc:
                        for st in steps:
                            fn(rd, st)
                else:
                    for st in steps:
                        fn(rd, st)
            return rd
        if need or any('at' not in f for f in case['faults']):
            def probe():
                sm = seam_mod.Seam()
                sc = None
                if need:
                    sc = S.Sched(seam_mod._lib_dir[0], gran='async')
                    sc.step_sites = {}
                play(sm, sc, lambda rd, st: rd.do(st))
                return dict(io=sm.per_step, log=sm.log, sites=sc.step_sites if sc else None)
            ref = core.oracle(probe)
            case['faults'] = core.resolve(case['faults'], ref)
            if need:
                case['ints'] = place_ints(case['ints'], ref['sites'])
        sm = seam_mod.Seam(case['faults'])
        sc = S.Sched(seam_mod._lib_dir[0], gran='async', ints=case['ints']) if case['ints'] else None
        md = Model(case['n'])
        var = {f['name']: f['var'] for f in case['files']}
        new = {}
        opened = set()
        calm = [True]
        clean = [True]
        ev = [0]
        hist = []

        def go(rd, st):
            n0, nf, ni = len(sm.log), len(sm.fired_events), len(sc.fired_ints) if sc else 0
            got = rd.do(st)
            ctx.ops += 1
            quiet = len(sm.fired_events) == nf and (sc is None or len(sc.fired_ints) == ni)
            k = st['k']
            if not quiet:
                calm[0] = False
            if k == 'new':
                new[st['id']] = st
            elif k in ('get', 'info') and got[0] != 'skip':
                r = new[st['a']]
                opens = [e['path'] for e in sm.log[n0:] if e['call'] == 'open']
                v = var.get(r['f'])
                info = dict(step=st, reader=r, got=got, error=rd.info.get(st['id']), opens=opens, n=case['n'], fired=sm.fired_events[nf:][:3])
                if v is None:
                    if got[0] == 'ok':
                        raise Violation('data of another file', info)
                    calm[0] = False     # (only in minimised cases)
                elif got[0] == 'ok':
                    want = c14.PROP.want(st, r, fixtures.FIX[(r['key'], v)])
                    if not core.same(got[1], want):
                        raise Violation('wrong data through the handle cache', dict(info, want=want))
                elif quiet:
                    raise Violation('reading through the handle cache fails', info)
                if calm[0] and st['a'] not in opened:
                    opened.add(st['a'])
                    if r['f'] in md.d:
                        md.get(r['f'])
                        if opens:
                            raise Violation('a cached handle was not used', info)
                        ctx.probe('cache_hits')
                    else:
                        if len(opens) != 1:
                            raise Violation('a file is not opened once', info)
                        if len(md.d) == case['n']:
                            ev[0] += 1
                        md.set(r['f'], 1)
                elif calm[0] and opens:
                    raise Violation('an open reader opens again', info)
            size = len(lazy.GLOBAL_GDAL_CACHE)
            # an interrupted store may leave one too many until the next store
            if not quiet:
                clean[0] = False
            elif any(e['call'] == 'open' for e in sm.log[n0:]) and got[0] == 'ok':
                clean[0] = True
            if size > case['n'] and clean[0]:
                raise Violation('too many handles cached', dict(step=st, size=size, n=case['n']))
            if calm[0]:
                # one descriptor per cached or live reader's file handle
                fds = open_files()
                cap = case['n'] + len(rd.r)
                if handles(fds) > cap:
                    raise Violation('too many open files', dict(step=st, open=fds, cap=cap))
            hist.append([k, got[0]])
        rd = play(sm, sc, go)
        ctx.use(sm, sc)
        rd.r.clear()
        gc.collect()
        left = open_files()
        if handles(left) > case['n'] and clean[0]:
            raise Violation('handles stay open', dict(open=left, n=case['n']))
        lazy.GLOBAL_GDAL_CACHE.clear()
        gc.collect()
        left = open_files()
        if left:
            raise Violation('handles stay open', dict(open=left, n=0))
        ctx.probe('evictions', ev[0])
        if ev[0]:
            ctx.nontrivial = True
        ctx.sig.append(hist)


PROP = P()
