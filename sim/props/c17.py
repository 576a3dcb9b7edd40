"""C17: the same program gives the same results in every process."""
import pickle
import warnings

from .common import *  # noqa
from .. import peers
from . import c09


def outcomes(req):
    """Executes a request in the current process."""
    if req['kind'] == 'spec':
        return spec_outcomes(req)
    trees.place_files(req['files'])
    mach = trees.Machine(core.MODS, None, None)
    for st in req['steps']:
        mach.do(st)
    out = {k: v for k, v in mach.out.items()}
    for k, v in mach.vals.items():
        # the whole tree, not just what it says about itself
        for i, n in enumerate(v if isinstance(v, list) else [v]):
            out['%s/tree%d' % (k, i)] = ['ok', C.digest(C.canon(n))]
    return out


def spec_outcomes(req):
    out = {}
    sp = c09.Spec(None)
    for op in req['ops']:
        out[op['id']] = sp.do(op)
    for op, blob in zip(req['ships'], req['blobs']):
        # an object that another process has made (and used)
        try:
            with warnings.catch_warnings():
                out[op['id']] = ['ok', c09.run_op(op, obj=pickle.loads(blob))]
        except Exception as ex:
            out[op['id']] = ['err', type(ex).__name__]
    return out


def make_blob(op, q):
    obj = c09.klass(op['cls']).coerce(op['spec'])
    try:
        with warnings.catch_warnings():
            c09.run_op(dict(q, cls=op['cls']), obj=obj)
            hash(obj)
    except Exception:
        pass
    return pickle.dumps(obj)


class P(Prop):
    ID = 'C17'
    CONF = ()
    RULE = ('random pipelines (derive / optimize / finalize / evaluate / inspect) and spec operations, executed here and in up to '
            'three independently started processes that differ in hash seed, address space layout, allocation history, moments of '
            'garbage collection, working directory, locale and time zone; specs also travel pickled between them; every outcome '
            'and the structure of every tree is compared; non-trivial: several operations (distinct by the outcomes)')
    REAL = ['the whole package, GDAL, kwimage, ubelt, lark', 'process start (interpreter, hash seed, address layout)']
    SHRINK = ['steps', 'ops', 'ships', 'peers', 'files']

    def warm(self):
        peers.start(self.ID)

    def handle(self, req):
        return outcomes(req)

    def gen(self, r, seed):
        case = dict(files=[], steps=[], ops=[], ships=[], noise=r.choice([0, 0, 100, 1000, 5000]))
        if r.random() < 0.75:
            case['kind'] = 'tree'
            g = trees.Gen(r, known=0.4, unprepared=0.15)
            g.nov = None
            g.tree(nops=r.randint(2, 6))
            if r.random() < 0.5:
                # several leafs in common, below different transforms
                x, y = r.choice(g.nodes), r.choice(g.nodes)
                if x.prep and y.prep and not set(x.ch) & set(y.ch):
                    c1 = g.cat([x, y])
                    sid = g.add('warp', a=x.id, tf={'offset': [r.randint(-3, 3), 1]}, wh=[x.w, x.h], kw={})
                    w = Shadow(sid, x.w, x.h, x.ch, x.ov, 'warp', True, x.depth + 1, x.isfloat)
                    g.nodes.append(w)
                    c2 = g.cat([w, y] if r.random() < 0.5 else [y, w])
                    g.add('insp', a=c1.id, what='tff', ps=[c2.id])
                    g.add('insp', a=g.op(c2).id, what='tff', ps=[c1.id])
            for _ in range(r.randint(4, 10)):
                action(g, ['fin', 'fin', 'opt', 'opt', 'op', 'op', 'cat', 'eval', 'undo', 'undo', 'insp', 'insp', 'insp', 'val',
                           'finxr', 'xr'])
            case['files'], case['steps'] = g.files, g.steps
        else:
            case['kind'] = 'spec'
            pool = {c: [c09.gen_spec(r, c) for _ in range(r.randint(2, 4))] for c in ('F', 'C', 'S', 'FS')}
            ops = []
            for i in range(r.randint(8, 20)):
                op = c09.gen_op(r, pool, False, i)
                op.pop('mutate', None)
                ops.append(op)
            case['ops'] = ops
            for i in range(r.randint(0, 5)):
                op = c09.gen_op(r, pool, True, 100 + i)
                op.pop('mutate', None)
                op.pop('pre', None)
                q = next((o for o in ops if o['cls'] == op['cls'] and o['m'] not in [m for m, _ in c09.FMEMO + c09.CMEMO]), None)
                op['q'] = q or dict(op)
                case['ships'].append(op)
        case['peers'] = sorted(r.sample(peers.SEEDS, r.choice([1, 2, 2, 3])))
        return case

    def run(self, case, ctx):
        req = dict(kind=case['kind'], files=case['files'], steps=case['steps'], ops=case['ops'], noise=case['noise'])
        req['ships'] = [{k: v for k, v in op.items() if k != 'q'} for op in case['ships']]
        req['blobs'] = []
        if case['ships']:
            res = core.fork_call(lambda: [make_blob(o, o['q']) for o in case['ships']], cpu=core.CPU_LIMIT)
            if res[0] != 'ok':
                raise Violation('a spec cannot be sent to another process', dict(ships=req['ships'], error=str(res[1])[-400:]))
            req['blobs'] = res[1]
        waits = [(k, peers.ask(k, dict(req))) for k in case['peers']]
        want = outcomes(req)
        for o in want.values():
            ctx.sig.append(C.dumps(o)[:200])
        ctx.ops += len(case['steps']) + len(case['ops']) + len(case['ships'])
        ctx.events = ctx.ops
        bad = None
        for k, wait in waits:
            res = wait()
            if res[0] == 'sig':
                raise Violation('crash in another process', dict(hashseed=k, signal=res[1]))
            if res[0] != 'ok':
                raise core.Harness('peer: %r' % (res,))
            ctx.count('other process (hash seed %d)' % k)
            ctx.nontrivial = ctx.nontrivial or len(want) > 1
            got = res[1]
            for i in want:
                if bad is None and not core.same(got.get(i), want[i]):
                    what = next((s for s in case['steps'] + req['ops'] + req['ships'] if s['id'] == i.split('/')[0]), i)
                    bad = dict(step=what, at=i, hashseed=k, here=want[i], there=got.get(i))
        if case['noise']:
            ctx.count('garbage collections and allocation noise')
        for _ in case['ships']:
            ctx.count('pickled to another process')
        if bad:
            raise Violation('differs between processes', bad)


PROP = P()
