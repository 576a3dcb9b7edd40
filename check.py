#!/opt/venv/bin/python
"""
check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import argparse
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--one', help='run one seed and print its report')
    ap.add_argument('--log', help='print a digest per seed for SEEDS runs', type=int)
    ap.add_argument('--serve', help=argparse.SUPPRESS)
    a = ap.parse_args()
    from sim import env
    if 'SIM_CHILD' not in os.environ:
        scratch = tempfile.mkdtemp(prefix='simdi-')
        # A supervisor that only waits and cleans up
        pid = os.fork()
        if pid == 0:
            env.reexec([os.path.join(HERE, 'check.py')] + sys.argv[1:], scratch)
        import signal
        got = []

        def fwd(sig, frame):
            got.append(sig)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        signal.signal(signal.SIGTERM, fwd)
        signal.signal(signal.SIGINT, fwd)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
        if os.WIFEXITED(status):
            sys.exit(os.WEXITSTATUS(status))
        sys.exit(3)
    scratch = os.environ['SIM_SCRATCH']
    from sim import core, runner
    core.boot(scratch)
    import importlib
    prop = importlib.import_module('sim.props.' + a.id.lower()).PROP
    if a.serve:
        from sim import peers
        peers.serve(a.serve, prop.handle)
    prop.warm()
    if a.replay:
        code = runner.replay(prop, a.replay)
    elif a.one:
        import json
        res = runner.run_one(prop, seed=a.one)
        if res[0] == 'ok':
            print(json.dumps(res[1], indent=1, default=str))
        else:
            print(*res)
        code = 0
    elif a.log:
        for i in range(a.log):
            res = runner.run_one(prop, seed='%d-%d' % (a.seed, i))
            if res[0] == 'ok':
                r = res[1]
                import json
                import zlib
                print(i, r['sig'], r['events'], r['ops'], zlib.crc32(json.dumps(r['case'], sort_keys=True).encode()),
                      sorted(r['fired'].items()), sorted(r['note'].items()), r['viol'])
            else:
                print(i, res)
        code = 0
    else:
        code = runner.check(prop, a.tier, a.seed, os.path.join(HERE, 'out'))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
