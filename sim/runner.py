"""
Seeded search: many runs over several worker processes, confirmation,
minimisation and replay of a failure, evidence.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import core, env, knobs, seam as seam_mod

WALL_LIMIT = 150          # seconds for one run (normally 0.05)
CPU_RUN = 60


class Ctx:
    """What one run reports besides its verdict."""

    def __init__(self, case):
        self.case = case            # becomes the resolved case
        self.fired = {}             # fault kind -> count
        self.events = 0             # logical time: scheduler events + I/O events
        self.sig = []               # parts of the state / interleaving signature
        self.nontrivial = False
        self.ops = 0
        self.note = {}

    def merge_fired(self, d):
        for k, v in d.items():
            self.fired[k] = self.fired.get(k, 0) + v

    def count(self, k, n=1):
        if n:
            self.fired[k] = self.fired.get(k, 0) + n

    def probe(self, k, n=1):
        if n:
            self.note[k] = self.note.get(k, 0) + n

    def use(self, sm=None, sc=None):
        """Account for a finished seam / schedule."""
        if sm is not None:
            self.merge_fired(sm.fired)
            self.events += len(sm.log)
            self.probe('io_events', len(sm.log))
            if sm.fired:
                self.nontrivial = True
            self.sig.append(hashlib.sha1(repr([(e['call'], e.get('path'), e.get('level'), e.get('win'), e.get('fault')) for e in sm.log]).encode()).hexdigest()[:12])
        if sc is not None:
            self.events += sc.n
            self.probe('switches', sc.n_switch)
            for f in sc.fired_ints:
                self.count('interrupt:' + f[2])
                self.nontrivial = True
                self.sig.append('%s@%s' % (f[1], f[3]))
            if sc.n_switch:
                self.nontrivial = True
                self.sig.append(sc.trace_hash)
                self.count('preemption', sc.n_switch)


def _child_run(prop, seed, case):
    """Runs inside the forked child; returns the report."""
    if case is None:
        case = prop.gen(random.Random('%s/%s' % (prop.ID, seed)), seed)
        if prop.CONF and 'conf' not in case:
            case['conf'] = knobs.gen_conf(random.Random('conf/%s/%s' % (prop.ID, seed)), prop.CONF)
    case = json.loads(json.dumps(case))
    ctx = Ctx(case)
    viol = None
    core._oracle_n[0] = 0
    try:
        if case.get('conf'):
            knobs.apply_knobs(dict(case['conf']))
            for n, _ in case['conf']:
                ctx.count('conf:' + n)
        prop.run(case, ctx)
    except core.Violation as ex:
        text = json.dumps([ex.kind, ex.detail], default=str)
        # nothing that differs from one execution to the next one
        text = text.replace(os.environ['SIM_RUN'], '<run>').replace(os.environ['SIM_SCRATCH'], '<scratch>')
        viol = json.loads(text)
    return dict(viol=viol, case=ctx.case, fired=ctx.fired, events=ctx.events,
                sig=hashlib.sha1(repr(ctx.sig).encode()).hexdigest()[:16],
                nontrivial=ctx.nontrivial, ops=ctx.ops, note=ctx.note)


def run_one(prop, seed=None, case=None, base=None):
    """
    One run in a process of its own.  Returns ('ok', report) /
    ('crash', signal) / ('hang', ) / ('exc', text).
    """
    base = base or os.environ['SIM_SCRATCH']
    rundir = os.path.join(base, 'run')
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            die_with_parent()
            os.close(r)
            if not os.environ.get('SIM_VERBOSE'):
                nul = os.open(os.devnull, os.O_WRONLY)
                os.dup2(nul, 1)
                os.dup2(nul, 2)
                os.close(nul)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_RUN, CPU_RUN + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.environ['SIM_RUN'] = rundir
            os.chdir(rundir)
            try:
                res = ('ok', _child_run(prop, seed, case))
            except BaseException:  # noqa
                res = ('exc', traceback.format_exc()[-3500:])
            data = pickle.dumps(res, protocol=4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(rundir, ignore_errors=True)
    if hang:
        return ('hang',)
    data = b''.join(chunks)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return ('hang',)
        return ('crash', sig)
    if not data:
        return ('exc', 'run ended with status %r and no result' % status)
    return pickle.loads(data)


def verdict(res):
    """(kind, detail) of a violation, or None."""
    if res[0] == 'ok':
        return res[1]['viol']
    if res[0] == 'crash':
        # 9 is what the sandbox sends when memory runs low: not the code's doing
        if res[1] == signal.SIGKILL:
            return None
        return ['crash', 'the process was ended by signal %d' % res[1]]
    if res[0] == 'hang':
        return ['hang', 'the run did not finish']
    return None


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def _worker(prop, wid, nw, seeds, out_fd, base, stop_at):
    die_with_parent()
    out = os.fdopen(out_fd, 'wb')
    os.makedirs(base, exist_ok=True)
    for j, seed in enumerate(seeds):
        if j % nw != wid:
            continue
        if time.monotonic() > stop_at:
            break
        res = run_one(prop, seed=seed, base=base)
        data = pickle.dumps((seed, res), protocol=4)
        out.write(struct.pack('<I', len(data)) + data)
        out.flush()
    out.close()
    shutil.rmtree(base, ignore_errors=True)
    os._exit(0)


def search(prop, seeds, wall, nw=8, on_result=None):
    """Runs the seeds; stops at the first violation."""
    scratch = os.environ['SIM_SCRATCH']
    stop_at = time.monotonic() + wall
    pids, fds, bufs = [], {}, {}
    sys.stdout.flush()
    for wid in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in list(fds):
                    os.close(fd)
                _worker(prop, wid, nw, seeds, w, os.path.join(scratch, 'w%d' % wid), stop_at)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(w)
        pids.append(pid)
        fds[r] = wid
        bufs[r] = b''
    found = None
    while fds and found is None:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = bufs[r] + b
            while len(buf) >= 4:
                n = struct.unpack('<I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                seed, res = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                if on_result(seed, res):
                    found = found or (seed, res)
            bufs[r] = buf
    for pid in pids:
        if found is not None:
            _killtree(pid)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    for r in list(fds):
        os.close(r)
    for wid in range(nw):
        shutil.rmtree(os.path.join(scratch, 'w%d' % wid), ignore_errors=True)
    return found


def _children(pid):
    out = []
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
            out = [int(x) for x in f.read().split()]
    except OSError:
        pass
    return out


def _killtree(pid):
    kids = _children(pid)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    for k in kids:
        try:
            os.killpg(k, signal.SIGKILL)
        except OSError:
            pass
        _killtree(k)


# ------------------------------------------------------------------ shrink

def files_ok(case, cand):
    """A file that the script still uses must not be dropped."""
    gone = {f.get('name') for f in case['files']} - {f.get('name') for f in cand['files']}

    def used(x):
        if isinstance(x, dict):
            return x.get('f') in gone or any(used(v) for v in x.values())
        if isinstance(x, list):
            return any(used(v) for v in x)
        return False
    return not used({k: v for k, v in cand.items() if k != 'files'})


def shrink(prop, case, kind, seconds=60, log=None):
    """Greedy delta debugging of the lists of a case."""
    end = time.monotonic() + seconds
    tried = [0]

    def fails(c):
        if time.monotonic() > end:
            return None
        tried[0] += 1
        v = verdict(run_one(prop, case=c))
        return v is not None and v[0] == kind

    keys = list(getattr(prop, 'SHRINK', ['decisions', 'ints', 'faults', 'steps', 'files'])) + ['conf']
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for key in keys:
            if not isinstance(case.get(key), list) or not case[key]:
                continue
            items = case[key]
            n = max(1, len(items) // 2)
            while n >= 1 and time.monotonic() < end:
                i = 0
                while i < len(items):
                    cand = items[:i] + items[i + n:]
                    c = dict(case)
                    c[key] = cand
                    if (key != 'files' or files_ok(case, c)) and fails(c):
                        items = cand
                        case = c
                        changed = True
                    else:
                        i += n
                    if time.monotonic() > end:
                        break
                n //= 2
        # nested lists of lists (threads)
        for key in getattr(prop, 'SHRINK_NESTED', []):
            for t in range(len(case.get(key) or [])):
                items = case[key][t]
                i = 0
                while i < len(items) and time.monotonic() < end:
                    cand = items[:i] + items[i + 1:]
                    c = dict(case)
                    c[key] = [cand if u == t else x for u, x in enumerate(case[key])]
                    if fails(c):
                        items = cand
                        case = c
                        changed = True
                    else:
                        i += 1
    return case, tried[0]


# -------------------------------------------------------------------- check

def known_findings(pid):
    path = os.path.join(env.VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                sig, _, text = rest.partition(' :: ')
                out.append((sig.strip(), text.strip()))
    return out


def check(prop, tier, seed, replay_dir):
    """Returns the exit code."""
    t0 = time.monotonic()
    runs, wall = prop.BUDGET[tier]
    if os.environ.get('SIM_RUNS'):
        runs = int(os.environ['SIM_RUNS'])
    nw = int(os.environ.get('SIM_WORKERS') or min(8, os.cpu_count() or 8))
    known = known_findings(prop.ID)
    st = dict(runs=0, nontrivial=set(), distinct=set(), events=0, ops=0, fired={}, note={}, errors=[], samples=[])
    hit_known = {}

    def on_result(sd, res):
        st['runs'] += 1
        if res[0] == 'ok':
            r = res[1]
            st['events'] += r['events']
            st['ops'] += r['ops']
            for k, v in r['fired'].items():
                st['fired'][k] = st['fired'].get(k, 0) + v
            for k, v in r['note'].items():
                st['note'][k] = st['note'].get(k, 0) + v
            st['distinct'].add(r['sig'])
            if r['nontrivial']:
                st['nontrivial'].add(r['sig'])
                if len(st['samples']) < 3 and not r['viol']:
                    st['samples'].append(dict(seed=sd, case=r['case']))
        elif res[0] == 'exc' or (res[0] == 'crash' and res[1] == signal.SIGKILL):
            st['errors'].append((sd, str(res[1])))
        v = verdict(res)
        if v is None:
            return False
        for sig, text in known:
            if sig and sig in ('%s %s' % (v[0], json.dumps(v[1], default=str))):
                hit_known[sig] = text
                return False
        if res[0] == 'ok':
            case = json.loads(json.dumps(res[1]['case']))
            again = [verdict(run_one(prop, case=case)) for _ in range(2)]
        else:
            again = [verdict(run_one(prop, seed=sd)) for _ in range(2)]
        # never report what does not replay exactly
        if any(a is None for a in again) or again[0] != again[1] or (res[0] != 'ok' and again[0][0] != v[0]):
            st['errors'].append((sd, 'violation did not replay: %s / %s' % (v, again)))
            return False
        return True

    # the recorded defects are executed as recorded
    extra = None
    for c in getattr(prop, 'FINDINGS', ()):
        res = run_one(prop, case=c)
        v = verdict(res)
        if v is None:
            if res[0] != 'ok':
                st['errors'].append(('finding', str(res)))
            continue
        if on_result('finding', res):
            extra = ('finding-' + c['finding'].replace(' ', '_'), res)
    seeds = ['%d-%d' % (seed, i) for i in range(runs)]
    print('check %s tier=%s seed=%d runs<=%d wall<=%ds workers=%d' % (prop.ID, tier, seed, runs, wall, nw))
    sys.stdout.flush()
    found = extra or search(prop, seeds, wall, nw, on_result)
    code = 0
    viol = 0
    while found is not None:
        sd, res = found
        v = verdict(res)
        case = res[1]['case'] if res[0] == 'ok' else prop.gen(random.Random('%s/%s' % (prop.ID, sd)), sd)
        case = json.loads(json.dumps(case))
        a = verdict(run_one(prop, case=case))
        if a is None:
            st['errors'].append((sd, 'violation did not replay: %s' % (v,)))
            break
        v = a
        print('seed %s fails: %s %s' % (sd, v[0], core.clip(v[1], 1500)))
        sys.stdout.flush()
        small, tried = shrink(prop, case, v[0], seconds=getattr(prop, 'SHRINK_S', 60))
        final = verdict(run_one(prop, case=small))
        if final is None or final[0] != v[0]:
            small, final = case, a
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s-%s.json' % (prop.ID, sd))
        with open(path, 'w') as f:
            json.dump(dict(property=prop.ID, seed=sd, kind=final[0], detail=final[1], case=small,
                           shrink_runs=tried), f, indent=1, default=str)
        print('minimised with %d runs: %s' % (tried, core.clip(final[1], 2500)))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        viol = 1
        code = 1
        break
    wall_s = time.monotonic() - t0
    for sig, text in known:
        if sig in hit_known or not sig:
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, text))
    if code == 0 and st['errors']:
        code = 2
    for sd, e in st['errors'][:5]:
        print('HARNESS-ERROR seed=%s %s' % (sd, e))
    rate = st['runs'] / max(wall_s, 1e-6) * 3600
    ev = dict(property=prop.ID, tier=tier, seed=seed, level='exploration', wall_s=round(wall_s, 2),
              violations=viol,
              coverage=dict(
                  evaluations=st['runs'], distinct_nontrivial=len(st['nontrivial']),
                  rule=prop.RULE, samples=st['samples'],
                  runs_per_hour=int(rate), seeds=st['runs'], seed_base=seed,
                  distinct_histories=len(st['distinct']),
                  distinct_measure='distinct hashes of the storage event log, fired faults / interrupt sites and sequence of thread switches of a run',
                  simulated_time='%d logical events (the code has no timers; the clock is the event counter)' % st['events'],
                  operations=st['ops'], faults_fired=dict(sorted(st['fired'].items())),
                  probes=dict(sorted(st['note'].items())), workers=nw,
                  harness_errors=len(st['errors']),
                  real=prop.REAL, stub=prop.STUB),
              assumptions=prop.ASSUME)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d runs, %d distinct non-trivial, %d events, %.1f s, %d runs/h, errors=%d -> exit %d' % (
        prop.ID, st['runs'], len(st['nontrivial']), st['events'], wall_s, rate, len(st['errors']), code))
    return code


def replay(prop, path):
    data = json.load(open(path))
    res = run_one(prop, case=data['case'])
    v = verdict(res)
    if v is None:
        if res[0] == 'exc':
            print(res[1])
            return 2
        print('replay: the property holds')
        return 0
    print('replay: %s %s' % (v[0], core.clip(v[1], 3000)))
    same = v[0] == data['kind'] and json.dumps(v[1], sort_keys=True, default=str) == json.dumps(data['detail'], sort_keys=True, default=str)
    print('identical to the recorded violation: %s' % same)
    print('VIOLATION property=%s replay=%s' % (prop.ID, path))
    return 1
