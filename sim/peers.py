"""
Other processes of the same program.

A peer is a template process like the one the runs are forked from, but with
another hash seed, with address space randomisation, another locale and time
zone, and started on its own.  It executes requests in forked children, so a
request finds it as it was started.  Runs talk to peers over sockets in the
scratch directory.
"""
import gc
import os
import pickle
import shutil
import signal
import socket
import subprocess
import sys
import time
import traceback

from . import core, env

SEEDS = (1, 2, 3)


def _detach(scratch):
    import ctypes
    libc = ctypes.CDLL(None, use_errno=True)
    libc.prctl(1, 9)
    libc.personality(0)


def start(pid_arg):
    """Start the peers and wait until they answer."""
    base = os.environ['SIM_SCRATCH']
    procs = []
    for k in SEEDS:
        d = os.path.join(base, 'peer%d' % k)
        os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
        e = dict(os.environ, PYTHONHASHSEED=str(k), SIM_SCRATCH=d, TMPDIR=os.path.join(d, 'tmp'),
                 TZ=('UTC', 'Asia/Tokyo', 'America/New_York')[k % 3], LC_ALL=('C.UTF-8', 'C', 'POSIX')[k % 3],
                 COLUMNS=str(40 + 60 * k))
        procs.append(subprocess.Popen([env.PYTHON, os.path.join(env.VERIF, 'check.py'), pid_arg, '--serve', address(k)],
                                      env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      preexec_fn=lambda: _detach(d)))
    end = time.monotonic() + 120
    for k, p in zip(SEEDS, procs):
        while not os.path.exists(address(k)):
            if p.poll() is not None or time.monotonic() > end:
                raise core.Harness('a peer process did not start')
            time.sleep(0.05)


def address(k):
    return os.path.join(os.environ['SIM_SCRATCH'], 'peer%d.sock' % k)


def serve(addr, handler):
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(addr + '.new')
    srv.listen(64)
    os.rename(addr + '.new', addr)
    base = os.environ['SIM_SCRATCH']
    n = 0
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = srv.accept()
        n += 1
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                c.settimeout(60)
                d = os.path.join(base, 'r%d' % n)
                os.makedirs(d)
                os.environ['SIM_RUN'] = d
                os.chdir(d)
                try:
                    req = pickle.loads(_recv(c))
                    noise = req.pop('noise', 0)
                    if noise:
                        gc.enable()
                        gc.set_threshold(50 + noise)
                    keep = [bytearray(64 + i % 512) for i in range(noise)]
                    keep += [object() for i in range(noise * 3)]
                    res = core.fork_call(lambda: handler(req), cpu=core.CPU_LIMIT)
                    del keep
                except BaseException:  # noqa
                    res = ('exc', traceback.format_exc()[-3000:])
                c.sendall(pickle.dumps(res, protocol=4))
                os.chdir(base)
                shutil.rmtree(d, ignore_errors=True)
            finally:
                os._exit(0)
        c.close()


def _recv(c):
    out = []
    while True:
        b = c.recv(1 << 16)
        if not b:
            return b''.join(out)
        out.append(b)


def ask(k, req):
    """Send a request; returns a function that waits for the result."""
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(60)
    c.connect(address(k))
    c.sendall(pickle.dumps(req, protocol=4))
    c.shutdown(socket.SHUT_WR)

    def wait():
        res = pickle.loads(_recv(c))
        c.close()
        return res
    return wait
