"""C07: a result depends only on the part of the files it shows."""
import math

from .common import *  # noqa

MARGIN = 3.0


class Chain:
    """One leaf with a chain of operations, and what of the leaf it shows."""

    def __init__(self, g, key, ops, target=None, known=True, last_crop=True):
        r = g.rng
        self.r, self.g = r, g
        f = dict(name='%sf%d' % (g.fprefix, len(g.files)), key=key, var=r.randrange(2))
        g.files.append(f)
        s = g.load(f, nd=r.choice([None, None, 'float']), known=known, prep=True)
        self.f = f
        self.key = key
        self.s = s
        self.nov = len(fixtures.SPEC[key][6].get('ov', []))
        self.W, self.H = s.w, s.h
        self.sx = self.sy = 1.0
        self.tx = self.ty = 0.0
        self.box = [0.0, 0.0, float(s.w), float(s.h)]     # needed, leaf coords
        self.pix = 1.0        # largest pixel of any intermediate view, leaf units
        self.nsp = 0
        self.bands = list(range(1, len(s.ch) + 1))
        self.has_deq = False
        self.has_ov = False
        self.warped = False
        self.up = False
        for k in ops:
            self.apply(k)

    def clip(self, x0, y0, x1, y1):
        """Only this box of the current view is shown."""
        b = self.box
        b[0] = max(b[0], (x0 - self.tx) / self.sx)
        b[1] = max(b[1], (y0 - self.ty) / self.sy)
        b[2] = min(b[2], (x1 - self.tx) / self.sx)
        b[3] = min(b[3], (y1 - self.ty) / self.sy)

    def apply(self, k):
        r, g, s = self.r, self.g, self.s
        if k == 'crop':
            if s.w < 9 or s.h < 9:
                return
            w = r.randint(4, max(5, s.w // 2))
            h = r.randint(4, max(5, s.h // 2))
            x0, y0 = r.randint(0, s.w - w), r.randint(0, s.h - h)
            ci = None
            ch = s.ch
            if r.random() < 0.2:
                ci = sorted(r.sample(range(len(s.ch)), r.randint(1, len(s.ch))))
                ch = [s.ch[i] for i in ci]
                self.bands = [self.bands[i] for i in ci]
            sid = g.add('crop', a=s.id, sl=[y0, y0 + h, x0, x0 + w], ci=ci)
            self.clip(x0, y0, x0 + w, y0 + h)
            self.tx -= x0
            self.ty -= y0
            self.s = Shadow(sid, w, h, ch, s.ov, 'crop', True, s.depth + 1)
            self.nsp += 1
        elif k == 'take':
            if len(s.ch) < 2:
                return
            idx = r.sample(range(len(s.ch)), r.randint(1, len(s.ch) - 1))
            self.bands = [self.bands[i] for i in idx]
            ch = [s.ch[i] for i in idx]
            sid = g.add('take', a=s.id, ch='|'.join(ch))
            self.s = Shadow(sid, s.w, s.h, ch, s.ov, 'take', True, s.depth + 1)
        elif k == 'deq':
            if self.has_deq:
                return
            self.has_deq = True
            sid = g.add('deq', a=s.id, q={'orig_dtype': 'float32', 'orig_min': 0, 'orig_max': 1, 'quant_min': 0,
                                          'quant_max': r.choice([255, 1000]), 'nodata': None})
            self.s = Shadow(sid, s.w, s.h, s.ch, s.ov, 'deq', True, s.depth + 1)
        elif k == 'ov':
            n = r.randint(1, max(1, self.nov))
            if n > self.nov or min(s.w, s.h) < 2 ** (n + 3) or self.has_ov or self.warped:
                return
            self.has_ov = True
            sid = g.add('ov', a=s.id, n=n)
            w, h = -(-s.w // 2 ** n), -(-s.h // 2 ** n)
            self.scale(0.5 ** n, 0.5 ** n, 0, 0)
            self.s = Shadow(sid, w, h, s.ch, max(0, s.ov - n), 'ov', True, s.depth + 1)
        elif k in ('down', 'warp', 'to'):
            if k == 'down':
                sf = r.choice([0.5, 0.25, 0.3, 0.4, 0.125])
            else:
                sf = r.choice([0.7, 1.0, 1.3, 2.0, 0.9])
            while min(s.w, s.h) * sf < 8:
                sf *= 2
            if max(s.w, s.h) * sf > 500:
                sf = 1.0
            off = r.choice([None, None, [r.randint(-6, 6), r.randint(-6, 6)], [round(r.uniform(-5, 5), 2), round(r.uniform(-5, 5), 2)]])
            kw = {'interpolation': r.choice(['linear', 'cubic', 'linear', 'area' if sf < 1 else 'linear'])}
            if r.random() < 0.4:
                kw['antialias'] = r.random() < 0.5
            if len(s.ch) > 4 and kw['interpolation'] == 'cubic':
                kw['interpolation'] = 'linear'
            w, h = max(4, int(round(s.w * sf))), max(4, int(round(s.h * sf)))
            tf = {'scale': sf}
            if off:
                tf['offset'] = off
            sid = g.add('warp', a=s.id, tf=tf, wh=[w, h], kw=kw)
            self.scale(sf, sf, *(off or (0, 0)))
            self.clip(0, 0, w, h)
            self.warped = True
            self.s = Shadow(sid, w, h, s.ch, s.ov, 'warp', True, s.depth + 1)
        g.nodes.append(self.s)

    def scale(self, sx, sy, ox, oy):
        self.up = self.up or sx > 1 or sy > 1
        self.sx *= sx
        self.sy *= sy
        self.tx = self.tx * sx + ox
        self.ty = self.ty * sy + oy
        self.pix = max(self.pix, 1 / self.sx, 1 / self.sy)
        self.nsp += 1

    def resize(self, w, h):
        s = self.s
        sid = self.g.add('warp', a=s.id, tf={'scale': [w / s.w, h / s.h]}, wh=[w, h], kw={'interpolation': 'linear'})
        self.scale(w / s.w, h / s.h, 0, 0)
        self.warped = True
        self.s = Shadow(sid, w, h, s.ch, s.ov, 'warp', True, s.depth + 1)
        self.g.nodes.append(self.s)

    def allowed(self):
        if not self.warped and not self.has_ov:
            m = 0.0
        else:
            m = MARGIN * self.pix * (1 + self.nsp) + 2
        b = self.box
        if b[2] <= b[0] or b[3] <= b[1]:
            return None
        return dict(box=[b[0] - m, b[1] - m, b[2] + m, b[3] + m], exact=m == 0, bands=sorted(set(self.bands)),
                    level=self.level())

    def level(self):
        """The least overview level that has to be used."""
        s = max(self.sx, self.sy)
        if not self.warped or self.up:
            # enlarging after shrinking may legitimately go back to full resolution
            return 0
        k = int(math.floor(math.log2(1 / s) + 1e-9)) if s <= 0.5 else 0
        return max(0, min(self.nov, k))


class P(Prop):
    ID = 'C07'
    CONF = ('fast', 'exc')
    RULE = ('crop / channel selection / dequantize / overview / scale-and-translate pipelines over one or several files; every '
            'storage access outside the files, bands, levels and windows (plus margin) that an independent geometric model '
            'says contribute fails, other files are missing, foreign tiles are overwritten; non-trivial: the needed '
            'region is a proper part of the files (distinct by storage log)')
    SHRINK = ['steps', 'allow', 'files', 'spoil']
    MULTI = 0.4

    def gen(self, r, seed):
        g = trees.Gen(r, known=1.0)
        multi = r.random() < self.MULTI
        keys = ['big', 'big', 'big', 'bigp', 'tile']
        spaces = ['crop', 'take', 'deq', 'ov', 'down', 'down', 'warp', 'crop']
        known = r.random() < 0.6
        missing = []
        if not multi:
            ops = [r.choice(spaces) for _ in range(r.randint(0, 4))]
            x = r.random()
            ops += ['crop'] if x < 0.6 else (['take'] if x < 0.75 else ['down'])
            if r.random() < 0.2:
                ops.append('deq')
            c = Chain(g, r.choice(keys), ops, known=known)
            chains = [c]
            top = c.s
            used = [c]
        else:
            chains = []
            W, H = r.randint(30, 120), r.randint(30, 120)
            for _ in range(r.randint(2, 3)):
                c = Chain(g, r.choice(keys), [r.choice(spaces) for _ in range(r.randint(0, 2))], known=True)
                c.resize(W, H)
                chains.append(c)
            sid = g.add('cat', ps=[c.s.id for c in chains])
            allch = [ch for c in chains for ch in c.s.ch]
            cur = Shadow(sid, W, H, allch, 0, 'cat', True)
            used = chains
            sel = None
            for k in [r.choice(['take', 'crop', 'deq', 'warp']) for _ in range(r.randint(1, 4))] + ['crop']:
                if k == 'take' and sel is None:
                    n = r.randint(1, max(1, len(chains) - 1))
                    pick = r.sample(chains, n)
                    sel = []
                    for c in chains:
                        c.sel = []
                    for c in pick:
                        idx = r.sample(range(len(c.s.ch)), r.randint(1, len(c.s.ch)))
                        c.sel = idx
                        sel += [c.s.ch[i] for i in idx]
                    sid = g.add('take', a=cur.id, ch='|'.join(sel))
                    cur = Shadow(sid, cur.w, cur.h, sel, 0, 'take', True)
                    used = pick
                elif k == 'crop':
                    if cur.w < 12 or cur.h < 12:
                        continue
                    w, h = r.randint(5, cur.w // 2), r.randint(5, cur.h // 2)
                    x0, y0 = r.randint(0, cur.w - w), r.randint(0, cur.h - h)
                    sid = g.add('crop', a=cur.id, sl=[y0, y0 + h, x0, x0 + w], ci=None)
                    for c in chains:
                        c.clip(x0, y0, x0 + w, y0 + h)
                        c.tx -= x0
                        c.ty -= y0
                        c.nsp += 1
                    cur = Shadow(sid, w, h, cur.ch, 0, 'crop', True)
                elif k == 'deq':
                    if any(c.has_deq for c in chains):
                        continue
                    for c in chains:
                        c.has_deq = True
                    sid = g.add('deq', a=cur.id, q={'orig_dtype': 'float32', 'orig_min': 0, 'orig_max': 1, 'quant_min': 0,
                                                    'quant_max': 255, 'nodata': None})
                    cur = Shadow(sid, cur.w, cur.h, cur.ch, 0, 'deq', True)
                elif k == 'warp':
                    if min(cur.w, cur.h) < 16:
                        continue
                    sf = r.choice([0.5, 0.7, 1.5])
                    w, h = int(round(cur.w * sf)), int(round(cur.h * sf))
                    sid = g.add('warp', a=cur.id, tf={'scale': sf}, wh=[w, h], kw={'interpolation': 'linear'})
                    for c in chains:
                        c.scale(sf, sf, 0, 0)
                        c.clip(0, 0, w, h)
                    cur = Shadow(sid, w, h, cur.ch, 0, 'warp', True)
            top = cur
            for c in chains:
                if hasattr(c, 'sel'):
                    c.bands = [c.bands[i] for i in c.sel]
            missing = [c.f['name'] for c in chains if c not in used]
        allow = {}
        for c in used:
            a = c.allowed()
            if a is None:
                allow = None
                break
            a['key'], a['W'], a['H'] = c.key, c.W, c.H
            allow[c.f['name']] = a
        g.add('fin', a=top.id)
        g.add('fin', a=top.id)
        if r.random() < 0.3:
            g.add('eval', a=top.id)
        if r.random() < 0.3:
            g.add('opt', a=top.id)
            g.add('fin', a=g.steps[-1]['id'])
        return dict(files=g.files, steps=g.steps, allow=allow, missing=missing, spoil=r.random() < 0.5)

    def run(self, case, ctx):
        allow = case['allow']
        if allow is None:
            return
        ref = core.run_reference(case['steps'], case['files'])
        want = ref['out']
        trees.place_files(case['files'])
        for f in case['files']:
            if f['name'] in case['missing']:
                trees.fs_action(dict(op='rm', name=f['name'], key=f['key']))
                ctx.count('real:missing file')
            elif case['spoil'] and f['name'] in allow:
                ctx.count('real:overwritten blocks', self.spoil(f, allow[f['name']]))
        sm = seam_mod.Seam()
        sm.rule = lambda ev: self.rule(ev, allow)
        proper = [any(a['exact'] or (a['box'][2] - a['box'][0]) * (a['box'][3] - a['box'][1]) < 0.6 * a['W'] * a['H']
                      for a in allow.values())]
        first = {}

        def hook(mach, st):
            n0 = len(sm.log)
            got = mach.do(st)
            evs = sm.log[n0:]
            bad = [e for e in evs if e.get('fault')]
            if not core.same(got, want[st['id']]):
                raise Violation('depends on more than it shows',
                                dict(step=st, want=want[st['id']][:1], got=got, accesses=[self.desc(e) for e in bad[:4]],
                                     allow=allow, info=mach.info.get(st['id'])))
            if bad:
                raise Violation('accesses more than it shows', dict(step=st, accesses=[self.desc(e) for e in bad[:4]],
                                                                    allow=allow))
            if st['k'] in ('fin', 'eval'):
                seen = {}
                for e in evs:
                    if e['call'] == 'read':
                        for b in e['bands'] or [0]:
                            k = (e['path'], e['level'], tuple(e['win']), b)
                            seen[k] = seen.get(k, 0) + 1
                if any(v > 1 for v in seen.values()):
                    raise Violation('reads a window twice', dict(step=st, reads=[[list(k), v] for k, v in seen.items() if v > 1][:4]))
                opens = [e['path'] for e in evs if e['call'] == 'open']
                if len(set(opens)) != len(opens):
                    raise Violation('opens a file twice', dict(step=st, opens=opens))
        execute(case, ctx, sm, hook=hook)
        ctx.use(sm)
        ctx.nontrivial = proper[0]
        ctx.probe('reads', sum(e['call'] == 'read' for e in sm.log))
        ctx.probe('overview_reads', sum(e['call'] == 'read' and e['level'] > 0 for e in sm.log))

    def desc(self, e):
        return {k: e[k] for k in ('call', 'path', 'win', 'bands', 'level', 'fault') if k in e}

    def rule(self, ev, allow):
        """Fail every access to what does not contribute."""
        path = ev.get('path') or '?'
        name = path.split('.')[0]
        if name not in allow:
            return 'raise'
        if ev['call'] in ('imread', 'imshape'):
            return 'raise'
        if ev['call'] != 'read':
            return None
        a = allow[name]
        sc = 2 ** ev['level']
        x, y, w, h = ev['win']
        slack = 0 if a['exact'] and sc == 1 else sc
        b = a['box']
        if x * sc < math.floor(b[0]) - slack or y * sc < math.floor(b[1]) - slack:
            return 'raise'
        if (x + w) * sc > math.ceil(b[2]) + slack or (y + h) * sc > math.ceil(b[3]) + slack:
            return 'raise'
        if ev['level'] < a['level']:
            return 'raise'
        for bd in ev['bands']:
            if bd is not None and bd not in a['bands']:
                return 'raise'
        return None

    def spoil(self, f, a):
        """Overwrite stored blocks that cannot contribute."""
        fx = fixtures.FIX[(f['key'], f['var'])]
        path = fixtures.data_name(f['name'], f['key'])
        pixel = 'INTERLEAVE=PIXEL' in fixtures.SPEC[f['key']][6].get('opts', [])
        n = 0
        with open(path, 'r+b') as h:
            for (lv, band, bx, by), (off, size, bw, bh) in fx.blocks.items():
                sc = 2 ** lv
                x0, y0, x1, y1 = bx * bw * sc, by * bh * sc, (bx + 1) * bw * sc, (by + 1) * bh * sc
                b = a['box']
                outside = x1 <= b[0] - sc or y1 <= b[1] - sc or x0 >= b[2] + sc or y0 >= b[3] + sc
                foreign = not pixel and band not in a['bands']
                if outside or foreign or lv < a['level']:
                    h.seek(off)
                    h.write(b'\xff' * size)
                    n += 1
        return n


PROP = P()
