"""catch.py [NAME..] [--check=C01]: run the property's check against the planted bugs, in scratch copies"""
import json, os, re, shutil, subprocess, sys, tempfile, time
names = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir('/verif/seeded'))
chk = [a.split('=')[1] for a in sys.argv[1:] if a.startswith('--check=')]
seed = ([a.split('=')[1] for a in sys.argv[1:] if a.startswith('--seed=')] or ['1'])[0]
for n in names:
    s = '/verif/seeded/' + n
    d = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/r'])
        subprocess.check_call(['git', 'apply', s + '/patch.diff'], cwd=d + '/r')
        for c in chk or [json.load(open(s + '/meta.json'))['property']]:
            t = time.time()
            o = subprocess.run(['/opt/venv/bin/python', 'check.py', c], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, SIM_REPO=d + '/r', VERIF_SEED=seed, VERIF_TIER='quick'))
            hit = o.returncode == 1 and any(l.startswith('VIOLATION property=' + c) for l in o.stdout.splitlines())
            L = [l[:260] for l in o.stdout.splitlines() if l.startswith(('VIOL', 'minim', 'HARN', c + ':'))]
            print(n, c, 'CAUGHT' if hit else 'MISSED rc=%d' % o.returncode, '%.0fs' % (time.time() - t), *L[-3:], sep='\n   ' if not hit else ' | ', flush=True)
            if o.returncode not in (0, 1):
                print(o.stdout[-1500:], o.stderr[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
