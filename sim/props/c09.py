"""C09: channel and sensor specs do not depend on what the process did before."""
import pickle
import random
import warnings

from .common import *  # noqa
from .c02 import gen_mode, place_parks
from .c05 import gen_ints, place_ints

CODES = ['a', 'b', 'c', 'rgb', 'r', 'g', 'flowx', 'z:3', 'z.1', 'z.2', 'z.0:2', 'B:2', 'bgr', 'hsv', 'chan with space', 'm.4', 'm.5', 'm.6']
SENS = ['S2', 'L8', 'WV', '*']
# (method, kind of argument)
F1 = [('numel', 0), ('sizes', 0), ('normalize', 0), ('concise', 0), ('spec', 'p'), ('intersection', 'F'), ('union', 'F'),
      ('difference', 'F'), ('issubset', 'F'), ('issuperset', 'F'), ('component_indices', 0), ('streams', 0), ('fuse', 0),
      ('split', 0), ('path_sanitize', 'n'), ('as_path', 0), ('__getitem__', 'i'), ('__len__', 0), ('__eq__', 'F'),
      ('late_fuse', 'F'), ('__add__', 'C'), ('__json__', 0), ('__str__', 0), ('__repr__', 0), ('parsed', 'p'), ('__sub__', 'F'), ('__and__', 'F'), ('__or__', 'F')]
FMEMO = [('unique', 0), ('code_list', 0), ('as_list', 0), ('as_oset', 0), ('as_set', 0), ('to_list', 0), ('to_oset', 0),
         ('__contains__', 's')]
C1 = [('numel', 0), ('sizes', 0), ('normalize', 0), ('concise', 0), ('spec', 'p'), ('intersection', 'C'), ('union', 'C'),
      ('difference', 'C'), ('component_indices', 0), ('streams', 0), ('fuse', 0), ('split', 0), ('path_sanitize', 'n'),
      ('as_path', 0), ('keys', 0), ('values', 0), ('items', 0), ('late_fuse', 'C'), ('__add__', 'C'), ('__str__', 0), ('__json__', 0),
      ('parse', 0), ('__sub__', 'C'), ('__and__', 'C'), ('__or__', 'C'), ('encode', 0), ('decode', 0)]
CMEMO = [('unique', 0), ('__contains__', 's'), ('info', 'p'), ('code_list', 0)]
S1 = [('numel', 0), ('normalize', 0), ('concise', 0), ('streams', 0), ('split', 0), ('late_fuse', 'S'), ('__add__', 'S'),
      ('matching_sensor', 'm'), ('chans', 'p'), ('spec', 'p'), ('__str__', 0), ('__json__', 0)]
FS1 = [('numel', 0), ('normalize', 0), ('concise', 0), ('chans', 'p'), ('spec', 'p'), ('split', 0), ('streams', 0)]
# delayed images whose channels are the spec
D1 = [('shape', 0), ('take', 'F'), ('take', 'F'), ('take', 'F'), ('takeidx', 'x'), ('cat', 'F'), ('cattake', 'FF'), ('cattake', 'FF'),
      ('xr', 0), ('xrfin', 0), ('text', 0), ('crop', 'x'), ('warpfin', 'F'), ('eval', 'F'), ('undo', 0)]
# collections that the caller may edit (see known_findings.txt for the others)
FRESH = {'F': {'sizes', 'component_indices', 'streams'},
         'C': {'sizes', 'component_indices', 'streams', 'unique'},
         'S': {'streams'}, 'FS': {'streams'}}


def gen_spec(r, cls, small=False):
    if cls == 'F':
        x = r.random()
        if x < 0.12:
            return r.choice([1, 2, 3, 5])
        if x < 0.16:
            return ''
        return '|'.join(r.choice(CODES) for _ in range(r.randint(1, 4)))
    if cls == 'C':
        x = r.random()
        if x < 0.08:
            return r.choice([1, 2, 3])
        return ','.join(gen_spec_s(r) for _ in range(r.randint(1, 3)))
    if cls == 'FS':
        return '%s:%s' % (r.choice(SENS), gen_spec_s(r, lex=True))
    parts = []
    for _ in range(r.randint(1, 3)):
        ch = gen_spec_s(r, lex=True)
        x = r.random()
        if x < 0.2:
            parts.append('(%s,%s):%s' % (r.choice(SENS[:3]), r.choice(SENS[:3]), ch))
        elif x < 0.4:
            parts.append('%s:(%s,%s)' % (r.choice(SENS), ch, gen_spec_s(r, lex=True)))
        elif x < 0.5:
            parts.append(ch)
        else:
            parts.append('%s:%s' % (r.choice(SENS), ch))
    return ','.join(parts)


def gen_spec_s(r, lex=False):
    codes = [c for c in CODES if not (lex and (' ' in c))]
    return '|'.join(r.choice(codes) for _ in range(r.randint(1, 3)))


def gen_op(r, pool, pickling, n):
    cls = r.choice(['F', 'F', 'F', 'C', 'C', 'S', 'FS'] + ([] if pickling else ['D', 'D']))
    tab = {'D': D1, 'F': F1, 'C': C1, 'S': S1, 'FS': FS1}[cls]
    if not pickling:
        tab = tab + {'F': FMEMO, 'C': CMEMO}.get(cls, [])
    op = dict(id='q%d' % n, cls=cls, spec=r.choice(pool['F' if cls == 'D' else cls]), chain=[])
    if r.random() < 0.2 and cls not in ('FS', 'D'):
        op['pre'] = 'normalize' if r.random() < 0.5 else 'concise'
    m, arg = r.choice(tab)
    a = None
    if arg == 'F':
        a = ['F', r.choice([s for s in pool['F'] if s != ''] or ['a'])]
    elif arg == 'C':
        a = ['C', r.choice(pool['C'])]
    elif arg == 'S':
        a = ['S', r.choice(pool['S'])]
    elif arg == 'FF':
        a = ['FF', r.choice([s for s in pool['F'] if s != ''] or ['a']), r.choice([s for s in pool['F'] if s != ''] or ['b'])]
    elif arg == 'x':
        a = [r.randrange(3) for _ in range(r.randint(1, 3))]
    elif arg == 'm':
        a = r.choice(SENS)
    elif arg == 'n':
        a = r.choice([16, 24, 128])
    elif arg == 's':
        a = r.choice(CODES + ['a', 'b', 'z.1'])
    elif arg == 'i':
        a = r.choice([0, [0, 1], ['slice', 0, 2], ['slice', 1, None]])
    op['m'], op['a'], op['p'] = m, a, arg == 'p'
    if m in FRESH.get(cls, ()) and r.random() < 0.5:
        op['mutate'] = r.choice(['add', 'clear', 'pop'])
    if pickling and r.random() < 0.4 and 'mutate' not in op:
        op['pickle'] = True
    return op


def klass(c):
    di = core.MODS['di']
    from delayed_image.sensorchan_spec import FusedSensorChanSpec
    return {'F': di.FusedChannelSpec, 'C': di.ChannelSpec, 'S': di.SensorChanSpec, 'FS': FusedSensorChanSpec}[c]


def view(v):
    """Everything about a spec that a caller sees."""
    if hasattr(v, 'spec') and type(v).__name__.endswith('Spec') and hasattr(v, 'numel'):
        out = ['spec', type(v).__name__, v.spec]
        try:
            out.append(int(v.numel()))
        except Exception as ex:
            out.append(type(ex).__name__)
        if type(v).__name__ == 'FusedChannelSpec':
            out.append(list(v.parsed))
            out.append(list(v.normalize().parsed))
        return out
    if isinstance(v, dict):
        return ['d', [[str(k), view(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return ['l', [view(x) for x in v]]
    if hasattr(v, '__next__') or type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
        return ['it', [view(x) for x in v]]
    if type(v).__name__ == 'SensorSpec':
        return ['sensor', v.spec]
    if isinstance(v, str):
        return v.split(' at 0x')[0]
    return C.canon(v)


def encode_item(c):
    import numpy as np
    item = {}
    for i, (k, shp) in enumerate(c._item_shapes((2, 2)).items()):
        item[k] = (np.arange(int(np.prod(shp))) + 100 * i).reshape(shp).astype(np.float32)
    return item


def image_view(n):
    c = n.channels
    out = [type(n).__name__, C.canon(n.shape), None if c is None else [c.spec, list(c.as_list()), int(c.numel())]]
    if hasattr(n, 'parts'):
        out.append([image_view(p) for p in n.parts])
    return out


def run_image_op(op):
    import numpy as np
    leafs, nodes = core.MODS['leafs'], core.MODS['nodes']
    F = klass('F')

    def img(spec, k=0):
        ch = F.coerce(spec)
        n = ch.numel()
        if k:
            return leafs.DelayedNans((4, 3), channels=ch)
        return leafs.DelayedIdentity(np.arange(12 * n).reshape(3, 4, n).astype(np.float32), channels=ch)
    m, a = op['m'], op['a']
    x = img(op['spec'])
    if m == 'shape':
        return image_view(img(op['spec'], 1))
    if m == 'take':
        t = x.take_channels(a[1])
        return [image_view(t), C.canon(t.finalize())]
    if m == 'takeidx':
        t = x.take_channels(list(a))
        return [image_view(t), C.canon(t.finalize())]
    if m == 'crop':
        t = x.crop((slice(0, 2), slice(1, 3)), list(a))
        return [image_view(t), C.canon(t.finalize())]
    if m == 'cat':
        t = nodes.DelayedChannelConcat([x, img(a[1], 1)])
        return [image_view(t), image_view(t.optimize())]
    if m == 'cattake':
        t = nodes.DelayedChannelConcat([x, img(a[1], 1)]).take_channels(a[2])
        return [image_view(t), C.canon(t.finalize())]
    if m == 'xr':
        return image_view(x.as_xarray())
    if m == 'xrfin':
        d = x.as_xarray().finalize()
        return [list(map(str, d.coords['c'].values)), list(d.shape)]
    if m == 'text':
        return [str(x), str(img(op['spec'], 1)), C.digest(C.canon([str(d.get('label')) for _, d in x.as_graph().nodes(data=True)]))]
    if m == 'warpfin':
        t = x.warp({'scale': 2}, dsize=(8, 6)).take_channels(a[1])
        return [image_view(t), C.canon(t.finalize())]
    if m == 'eval':
        return image_view(x.take_channels(a[1]).evaluate())
    if m == 'undo':
        return image_view(img(op['spec'], 1).warp({'scale': 2}, dsize=(8, 6)).undo_warp(remove=['scale'], squash_nans=True))
    raise ValueError(m)


def run_op(op, mutate=True, obj=None):
    if op['cls'] == 'D':
        return run_image_op(op)
    if obj is None:
        obj = klass(op['cls']).coerce(op['spec'])
    if op.get('pre'):
        obj = getattr(obj, op['pre'])()
    if op.get('pickle'):
        obj = pickle.loads(pickle.dumps(obj))
    a = op['a']
    if op['p']:
        v = getattr(obj, op['m'])
    elif op['m'] == 'encode':
        v = obj.encode(encode_item(obj))
    elif op['m'] == 'decode':
        v = obj.decode(obj.encode(encode_item(obj)), axis=0)
    elif a is None:
        v = getattr(obj, op['m'])()
    else:
        if isinstance(a, list) and a[0] in ('F', 'C', 'S'):
            a = klass(a[0]).coerce(a[1])
        elif isinstance(a, list) and a[0] == 'slice':
            a = slice(a[1], a[2])
        v = getattr(obj, op['m'])(a)
    out = view(v)
    if op.get('mutate') and mutate:
        edit(v, op['mutate'])
    return out


def edit(v, how):
    """The caller does as it pleases with what it was given."""
    try:
        if how == 'clear':
            v.clear()
        elif how == 'pop':
            v.popitem() if isinstance(v, dict) else v.pop()
        elif isinstance(v, dict):
            v['zzz'] = 99
        elif isinstance(v, list):
            v.append('zzz')
        else:
            v.add('zzz')
    except (KeyError, IndexError):
        pass


class Spec:
    """Executes spec operations under the scheduler / interrupts."""

    def __init__(self, sc):
        self.sc, self.out, self.info = sc, {}, {}

    def do(self, op):
        try:
            try:
                if self.sc is not None:
                    self.sc.set_step(op['id'])
                with warnings.catch_warnings() if self.sc is None or not self.sc.thr else nothing():
                    v = ['ok', run_op(op)]
            finally:
                if self.sc is not None:
                    self.sc.set_step(None)
        except BaseException as ex:
            if isinstance(ex, (S.Deadlock, S.StepCap)):
                raise
            v = ['err', type(ex).__name__]
            self.info[op['id']] = str(ex)[:200]
            ex.__traceback__ = None
        self.out[op['id']] = v
        return v


class nothing:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def key(op):
    return C.dumps({k: v for k, v in op.items() if k not in ('id', 'mutate')})


class P(Prop):
    ID = 'C09'
    RULE = ('histories of 10-40 spec operations over a small pool of strings (sequential, or in 2-3 threads under the scheduler, '
            'with interruptions, with callers that edit the collections they were given, with pickling), every result '
            'compared with the same operation in a pristine process; non-trivial: more than one operation on one string '
            'and an interruption, edit or preemption happened (distinct by trace)')
    SHRINK = ['decisions', 'ints', 'ops']
    SHRINK_NESTED = ['threads']
    REAL = ['channel_spec.py, sensorchan_spec.py, ubelt, lark', 'delayed images over arrays that use the specs']
    BUDGET = {'quick': (3000, 60), 'thorough': (60000, 780)}

    # the defects that are recorded in known_findings.txt
    FINDINGS = (
        [dict(finding=m, ops=[dict(id='q1', cls='F', spec='a|rgb', m=m, a=None, p=False, mutate='pop'),
                              dict(id='q2', cls='F', spec='a|rgb', m=m, a=None, p=False)])
         for m in ('unique', 'code_list', 'as_list', 'as_oset', 'as_set')] +
        [dict(finding='coerce ' + t, ops=[dict(id='q1', cls='F', spec=3, m='numel', a=None, p=False),
                                          dict(id='q2', cls='F', spec=3, m='spec', a=None, p=True, odd=t)])
         for t in ('float', 'int64')] +
        [dict(finding='pickle after ' + m, ops=[dict(id='q1', cls='F', spec='a|rgb', m=m, a=None, p=False),
                                                dict(id='q2', cls='F', spec='a|rgb', m='spec', a=None, p=True, pickle=True)])
         for m in ('unique', 'as_list', 'as_oset', 'as_set')] +
        [dict(finding='parse', parse=True, ops=[])])

    def gen(self, r, seed):
        pool = {c: [gen_spec(r, c) for _ in range(r.randint(2, 4))] for c in ('F', 'C', 'S', 'FS')}
        pool['F'] += [s for s in ['a|b'] if r.random() < 0.5]
        pickling = r.random() < 0.3
        n = r.randint(10, 30)
        ops = [gen_op(r, pool, pickling, i) for i in range(n)]
        kind = r.choice(['seq', 'seq', 'int', 'int', 'thr', 'thr'])
        case = dict(kind=kind, ops=ops, threads=[], ints=[], decisions=None, mode=None, s=r.randrange(1 << 30))
        if kind == 'thr':
            nt = r.choice([2, 2, 3])
            k = len(ops) // 3
            case['ops'] = ops[:r.choice([0, 0, k])]
            rest = ops[len(case['ops']):]
            same = r.random() < 0.4
            if same:
                case['threads'] = [[dict(o, id='%s_%d' % (o['id'], t)) for o in rest[:8]] for t in range(nt)]
            else:
                case['threads'] = [rest[t::nt] for t in range(nt)]
            case['mode'] = gen_mode(r, nt)
        elif kind == 'int':
            case['ints'] = gen_ints(r, [o['id'] for o in ops], r.randint(1, 4))
        return case

    def pristine(self, ops):
        want = {}
        for op in ops:
            k = key(op)
            if k in want:
                continue

            def body(op=op):
                return Spec(None).do(dict(op))
            res = core.fork_call(body, cpu=core.CPU_LIMIT)
            if res[0] != 'ok':
                raise core.Harness('pristine: %r' % (res,))
            want[k] = res[1]
        return want

    def probe_sites(self, seqs):
        """Trace events of each operation, executed in order."""
        def body():
            out = []
            for ops in seqs:
                sc = S.Sched(seam_mod._lib_dir[0], gran='async' if len(seqs) == 1 else 'line')
                sc.step_sites = {}
                sp = Spec(sc)
                with sc:
                    for op in ops:
                        sp.do(op)
                out.append(sc.step_sites)
            return out
        res = core.fork_call(body, cpu=core.CPU_LIMIT)
        if res[0] != 'ok':
            raise core.Harness('probe: %r' % (res,))
        return res[1]

    def run(self, case, ctx):
        if case.get('finding'):
            return self.run_finding(case, ctx)
        allops = case['ops'] + [o for t in case['threads'] for o in t]
        want = self.pristine(allops)
        lib = seam_mod._lib_dir[0]
        done_muts = []

        def judge(op, got, what, **kw):
            w = want[key(op)]
            if not core.same(got, w):
                raise Violation('spec operation depends on history', dict(op=op, want=w, got=got, when=what, **kw))

        if case['kind'] == 'int':
            if any('at' not in i for i in case['ints']):
                case['ints'] = place_ints(case['ints'], self.probe_sites([case['ops']])[0])
            sc = S.Sched(lib, gran='async', ints=case['ints'])
            sp = Spec(sc)
            with sc:
                for op in case['ops']:
                    nf = len(sc.fired_ints)
                    got = sp.do(op)
                    ctx.ops += 1
                    if len(sc.fired_ints) > nf:
                        names = [f[2] for f in sc.fired_ints[nf:]]
                        if got[0] == 'ok' and 'KeyboardInterrupt' in names:
                            if core.same(got, want[key(op)]):
                                # swallowed by a broad except clause around something optional
                                ctx.probe('interrupt_absorbed')
                        continue
                    judge(op, got, 'later operation', ints=sc.fired_ints)
            ctx.use(None, sc)
            for op in case['ops']:
                judge(op, Spec(None).do(op), 'repeated operation', ints=sc.fired_ints)
        else:
            sp = Spec(None)
            for op in case['ops']:
                judge(op, sp.do(op), 'sequence')
                ctx.ops += 1
            if case['threads']:
                dec = case['decisions']
                mode = case['mode']
                if dec is None:
                    mode = place_parks(mode, [[s for o in t for s in st.get(o['id'], [])]
                                              for t, st in zip(case['threads'], self.probe_sites(case['threads']))], 'line')
                sc = S.Sched(lib, gran='line', rng=random.Random(case['s']), decisions=dec, mode=mode)
                sp = Spec(sc)

                def mk(ops):
                    def body():
                        for op in ops:
                            sp.do(op)
                    return body
                with sc:
                    errs = sc.run_threads([mk(t) for t in case['threads']])
                for e in errs:
                    if isinstance(e, S.StepCap):
                        return
                    if isinstance(e, S.Deadlock):
                        raise Violation('deadlock', dict())
                    if e is not None:
                        raise core.Harness(repr(e))
                if dec is None:
                    case['decisions'] = sc.decisions
                ctx.use(None, sc)
                for t in case['threads']:
                    for op in t:
                        ctx.ops += 1
                        judge(op, sp.out[op['id']], 'threads', switches=sc.switch_sites[:8])
        # afterwards everything still behaves as in a new process
        for op in allops:
            judge(op, Spec(None).do(op), 'afterwards')
        n = sum(1 for o in allops if o.get('mutate'))
        ctx.count('caller_edit', n)
        ctx.count('pickled', sum(1 for o in allops if o.get('pickle')))
        if n or any(o.get('pickle') for o in allops):
            ctx.nontrivial = True
        ctx.events += ctx.ops
        ctx.sig.append(C.digest([want[key(o)] for o in allops]))

    def run_finding(self, case, ctx):
        """One of the recorded defects, executed exactly."""
        if case.get('parse'):
            c = klass('C').coerce('a|b,c')
            n = c.numel()
            c.parse().popitem()
            if c.numel() != n:
                raise Violation('spec operation depends on history', dict(finding='ChannelSpec.parse'))
            return
        f, ops = case['finding'], case['ops']

        def one(op):
            if op.get('odd'):
                import numpy as np
                v = {'float': 3.0, 'int64': np.int64(3)}[op['odd']]
                try:
                    return ['ok', klass('F').coerce(v).spec]
                except Exception as ex:
                    return ['err', type(ex).__name__]
            return Spec(None).do(op)
        res = core.fork_call(lambda: one(ops[-1]), cpu=core.CPU_LIMIT)
        if res[0] != 'ok':
            raise core.Harness(repr(res))
        for op in ops:
            got = one(op)
        if not core.same(got, res[1]):
            raise Violation('spec operation depends on history', dict(finding='FusedChannelSpec.' + f, want=res[1], got=got))


PROP = P()
