"""
Deterministic scheduling of real threads, and delivery of asynchronous
exceptions, at Python line or bytecode granularity inside the code under test.

Exactly one simulated thread runs at any time; every other one is parked on its
own lock.  Control changes hands only inside :meth:`Sched.point`, which is
called for every executed line (or bytecode) of the library (PEP 669
monitoring events), around every storage access and when a lock would block.
Who runs next is decided by an explicit list of decisions (replay) or by a
seeded PRNG that records its decisions as such a list.
"""
import _thread
import os
import signal
import sys
import threading
import zlib

from . import locks

M = sys.monitoring
TOOL = 4


class Deadlock(Exception):
    pass


class StepCap(BaseException):
    pass


class SimInterrupt(KeyboardInterrupt):
    """The injected Ctrl-C."""


EXC = {'KeyboardInterrupt': SimInterrupt, 'MemoryError': MemoryError,
       'SystemExit': SystemExit, 'TimeoutError': TimeoutError, 'OSError': OSError}


def throw(name):
    """Deliver an asynchronous event to the running code."""
    if name == 'CRASH':
        # the process is gone: nothing that it buffered reaches the disk
        os.kill(os.getpid(), signal.SIGTERM)
        while True:
            signal.pause()
    if name == 'OSError':
        raise OSError(28, 'injected: No space left on device')
    raise EXC[name]('injected asynchronous exception')


_WRITES = {'STORE_GLOBAL', 'STORE_ATTR', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR'}
_MUTATORS = {'pop', 'popitem', 'update', 'setdefault', 'append', 'extend', 'clear', 'move_to_end', '__setitem__', '__delitem__',
             'insert', 'remove', 'add', 'discard', '__setattr__'}
_writes = {}
_globals = {}                     # the same, where the target looks process wide
_tests = {}                       # tests of shared state: an instant between check and act


def load_writes(lib_dir):
    """
    Where the library writes to something that others may see:
    function name -> (lines, sorted bytecode offsets).  Only guides the search
    (an instant right after such a write is tried more often).
    """
    import dis
    import glob
    import types
    todo = []
    for fn in sorted(glob.glob(os.path.join(lib_dir, '**', '*.py'), recursive=True)):
        try:
            with open(fn) as f:
                todo.append(compile(f.read(), fn, 'exec', dont_inherit=True))
        except (OSError, SyntaxError):
            continue
    while todo:
        c = todo.pop()
        line = None
        glob_lines = set()
        writes = []
        tests = []
        attrs = set()
        for ins in dis.get_instructions(c):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            if ins.opname in _WRITES or (ins.opname in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_SUPER_ATTR') and ins.argval in _MUTATORS):
                ls, offs = _writes.setdefault(c.co_name, (set(), []))
                ls.add(line)
                offs.append(ins.offset)
                writes.append((line, ins.offset, ins.opname))
            if ins.opname == 'CONTAINS_OP':
                tests.append((line, ins.offset, True))
            elif ins.opname == 'IS_OP' or ins.opname.endswith(('_IF_NONE', '_IF_NOT_NONE')):
                tests.append((line, ins.offset, False))
            elif ins.opname == 'LOAD_ATTR' and not ins.argval.isupper():
                attrs.add(line)
            if ins.opname == 'LOAD_GLOBAL' and not ins.arg & 1 or ins.opname == 'LOAD_DEREF' or ins.argval == 'cls':
                glob_lines.add(line)
        for line, off, op in writes:
            if line in glob_lines or op.endswith('_GLOBAL'):
                ls, offs = _globals.setdefault(c.co_name, (set(), []))
                ls.add(line)
                offs.append(off)
        for line, off, sure in tests:
            if sure or line in attrs:
                ls, offs = _tests.setdefault(c.co_name, (set(), []))
                ls.add(line)
                offs.append(off)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def hot(seq, gran, table=_writes):
    """Positions in a sequence of sites that directly follow a write."""
    out = []
    for i in range(1, len(seq)):
        (f0, w0), (f1, w1) = seq[i - 1], seq[i]
        w = table.get(f0)
        if not w or f0 == 'io':
            continue
        if gran == 'line':
            if w0 in w[0]:
                out.append(i)
        elif f0 == f1 and w0 <= w1:
            if any(w0 <= o < w1 for o in w[1]):
                out.append(i)
    return out


def place(seq, f1, f2, how, gran):
    """An event number of the sequence: uniform, per distinct site, or after a write."""
    if how == 'uniform':
        return int(f1 * len(seq))
    cand = range(len(seq))
    if how == 'glob':
        cand = hot(seq, gran, _globals)
        if not cand:
            how, cand = 'hot', range(len(seq))
    if how == 'test':
        cand = hot(seq, gran, _tests) or cand
    if how == 'hot':
        cand = hot(seq, gran) or cand
    idx = {}
    for i in cand:
        idx.setdefault(tuple(seq[i]), []).append(i)
    keys = list(idx)
    pos = idx[keys[int(f1 * len(keys))]]
    return pos[int(f2 * len(pos))]


def gen_how(r):
    return r.choice(['uniform', 'site', 'site', 'site', 'hot', 'hot', 'hot', 'glob', 'glob', 'test', 'test'])


class Sched:
    def __init__(self, lib_dir, gran='line', rng=None, decisions=None, mode=None,
                 ints=(), max_events=400000, extra_files=()):
        self.lib_dir = lib_dir
        self.extra = tuple(extra_files)
        self.gran = gran
        self.rng = rng
        self.replay = decisions is not None
        self.todo = list(decisions or [])
        self.todo_i = 0
        self.decisions = []
        self.mode = mode or {}
        self.max_events = max_events
        self.n = 0                    # global event number (logical clock)
        self.thr = {}                 # ident -> SimThread
        self.order = []
        self.cur = None
        self.armed = False
        self.ints = {}
        for it in ints:
            self.ints.setdefault(it['step'], []).append(dict(it))
        self.step_events = {}         # step -> events seen in it
        self.cur_step = {}            # ident -> step
        self.fired_ints = []
        self.trace_hash = 0
        self.switch_sites = []
        self.deadlock = False
        self.capped = False
        self.n_switch = 0
        self._main = _thread.get_ident()
        self.record_sites = False
        self.sites = None
        self.step_sites = None        # step -> list of site per event (probe runs)
        self.park = None
        self.chase = None

    # ----------------------------------------------------------- tool
    def __enter__(self):
        locks.SCHED = self
        E = M.events
        if M.get_tool(TOOL) is None:
            M.use_tool_id(TOOL, 'sim')
        lib, extra = self.lib_dir, self.extra
        DIS = M.DISABLE

        def mine(code):
            fn = code.co_filename
            return fn.startswith(lib) or fn in extra

        def cb(code, where):
            if not mine(code):
                return DIS
            if self.armed:
                self.point(code, where)

        def cb_start(code, where):
            if not mine(code):
                return DIS
            if self.armed:
                self.point(code, where)

        def cb_call(code, where, fn, arg0):
            if not mine(code):
                return DIS

        def cb_ret(code, where, fn, arg0):
            if self.armed and mine(code):
                self.point(code, where)

        def cb_jump(code, where, dest):
            if not mine(code):
                return DIS
            if dest > where:
                return DIS
            if self.armed:
                self.point(code, where)

        if self.gran == 'line':
            self._regs = {E.LINE: cb}
        elif self.gran == 'async':
            # The places at which CPython runs signal handlers and switches
            # threads: function entry, backward jumps, after native calls.
            self._regs = {E.PY_START: cb_start, E.PY_RESUME: cb_start, E.JUMP: cb_jump,
                          E.CALL: cb_call, E.C_RETURN: cb_ret}
        else:
            raise ValueError(self.gran)
        mask = 0
        for ev, f in self._regs.items():
            M.register_callback(TOOL, ev, f)
            if ev != E.C_RETURN:
                mask |= ev
        M.set_events(TOOL, mask)
        self.armed = True
        return self

    def __exit__(self, *a):
        self.armed = False
        M.set_events(TOOL, 0)
        for ev in self._regs:
            M.register_callback(TOOL, ev, None)
        locks.SCHED = None

    def is_sim_thread(self):
        return _thread.get_ident() in self.thr

    def set_step(self, sid):
        self.cur_step[_thread.get_ident()] = sid

    # ---------------------------------------------------------- points
    def point(self, code, where):
        me = _thread.get_ident()
        sid = self.cur_step.get(me)
        if sid is None:
            return
        self.n += 1
        if self.n > self.max_events:
            self.capped = True
            self.armed = False
            raise StepCap('event cap')
        k = self.step_events.get(sid, 0)
        self.step_events[sid] = k + 1
        site = (code.co_name, where)
        if self.step_sites is not None:
            self.step_sites.setdefault(sid, []).append(site)
        its = self.ints.get(sid)
        if its:
            for it in its:
                if it['at'] == k and not it.get('done'):
                    it['done'] = True
                    self.fired_ints.append([sid, k, it['exc'], code.co_name])
                    throw(it['exc'])
        if self.thr and me in self.thr:
            self._maybe_switch(me, code, where)

    def io_point(self, call):
        me = _thread.get_ident()
        sid = self.cur_step.get(me)
        if sid is None or not self.armed:
            return
        self.n += 1
        k = self.step_events.get(sid, 0)
        self.step_events[sid] = k + 1
        if self.step_sites is not None:
            self.step_sites.setdefault(sid, []).append(('io', call))
        its = self.ints.get(sid)
        if its:
            for it in its:
                if it['at'] == k and not it.get('done'):
                    it['done'] = True
                    self.fired_ints.append([sid, k, it['exc'], 'io:' + call])
                    throw(it['exc'])
        if self.thr and me in self.thr:
            self._maybe_switch(me, None, call)

    # --------------------------------------------------------- threads
    def _runnable(self):
        return [t for t in self.order if not t.done]

    def _maybe_switch(self, me, code, where):
        t = self.thr[me]
        t.n += 1
        tgt = None
        if self.replay:
            if self.todo_i < len(self.todo) and self.todo[self.todo_i][0] <= self.n:
                want = self.todo[self.todo_i][1]
                self.todo_i += 1
                if want < len(self.order) and not self.order[want].done and self.order[want] is not t:
                    tgt = self.order[want]
        else:
            tgt = self._decide(t, code, where)
            if tgt is not None:
                self.decisions.append([self.n, tgt.idx])
        if tgt is not None:
            self.n_switch += 1
            name = code.co_name if code is not None else 'io'
            self.trace_hash = zlib.crc32(('%d %d %s %s' % (t.idx, tgt.idx, name, where)).encode(), self.trace_hash)
            if len(self.switch_sites) < 60:
                self.switch_sites.append([self.n, t.idx, tgt.idx, name, where])
            self._handover(t, tgt)

    def _others(self, t):
        return [o for o in self.order if o is not t and not o.done]

    def _decide(self, t, code, where):
        rng, mode = self.rng, self.mode
        kind = mode.get('kind', 'uniform')
        if kind == 'park':
            # suspend one thread at one instant until the others are done
            for p in mode['parks']:
                if p['t'] == t.idx and p['n'] == t.n:
                    o = self._others(t)
                    if o:
                        t.parked = True
                        return o[rng.randrange(len(o))]
            return None
        if kind == 'overtake':
            # a thread that has just written something is overtaken there
            site = (code.co_name if code is not None else 'io', where)
            prev, t.site = t.site, site
            ch = self.chase
            if ch is not None and (ch[1].done or ch[0].done):
                ch = self.chase = None
            if ch is not None:
                if t is not ch[1]:
                    return None
                if ch[3] is None:
                    ch[4] -= 1
                    if site == ch[2] or ch[4] <= 0:
                        ch[3] = mode['m']
                else:
                    ch[3] -= 1
                    if ch[3] <= 0:
                        self.chase = None
                        return ch[0]
                return None
            if mode.get('any'):
                sure = rng.random() < mode['p']
            else:
                sure = prev is not None and self._wrote([prev, site], mode)
            if sure:
                o = self._others(t)
                if o:
                    o = o[rng.randrange(len(o))]
                    self.chase = [t, o, site, None, mode['reach']]
                    return o
            return None
        if rng.random() < mode.get('p', 0.05):
            o = self._others(t)
            if o:
                return o[rng.randrange(len(o))]
        return None

    def _wrote(self, sites, mode):
        return hot(sites, self.gran) and (
            self.rng.random() < mode['p'] or hot(sites, self.gran, _globals) and self.rng.random() < 0.7)

    def _handover(self, t, tgt):
        self.cur = tgt
        tgt.lock.release()
        t.lock.acquire()

    def blocked(self, timed=False):
        """The running simulated thread waits for a lock."""
        me = _thread.get_ident()
        t = self.thr[me]
        self.n += 1
        t.waiting += 1
        others = self._others(t)
        if not others or (all(o.waiting for o in others) and t.waiting > 3 * len(self.order)):
            if timed:
                return False
            self.deadlock = True
            raise Deadlock('all threads are waiting')
        others.sort(key=lambda o: (o.waiting, o.idx))
        self._handover(t, others[0])
        return True

    def unblocked(self):
        self.thr[_thread.get_ident()].waiting = 0

    def run_threads(self, bodies):
        """Run callables as simulated threads until all are done."""
        done = _thread.allocate_lock()
        done.acquire()
        ready = []

        def runner(t):
            me = _thread.get_ident()
            self.thr[me] = t
            t.ident = me
            t.ready.release()
            t.lock.acquire()
            try:
                t.body()
            except BaseException as ex:  # noqa
                t.error = ex
            finally:
                self.cur_step.pop(me, None)
                t.done = True
                rest = [o for o in self.order if not o.done]
                if rest:
                    nxt = None
                    for o in rest:
                        o.waiting = 0
                    if nxt is None:
                        un = [o for o in rest if not o.parked] or rest
                        nxt = un[0]
                    self.cur = nxt
                    nxt.lock.release()
                else:
                    done.release()

        for i, b in enumerate(bodies):
            t = SimThread(i, b)
            self.order.append(t)
        for t in self.order:
            _thread.start_new_thread(runner, (t,))
            t.ready.acquire()
        self.cur = self.order[0]
        self.order[0].lock.release()
        done.acquire()
        errs = [t.error for t in self.order]
        self.thr = {}
        return errs


class SimThread:
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ready = _thread.allocate_lock()
        self.ready.acquire()
        self.done = False
        self.parked = False
        self.waiting = 0
        self.n = 0
        self.error = None
        self.site = None
        self.ident = None
