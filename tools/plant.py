"""plant.py SPEC.. : validate planted bugs in scratch copies and store them in /verif/seeded

SPEC is a directory with `mut` (blocks `@@ file` / old / `===>` / new), `demo.py`, `meta.json`.
Prints for each: diff ok, demo on the unchanged / changed tree, stable tests, and the checks.
"""
import json, os, re, shutil, subprocess, sys, tempfile
CHECK = '--nocheck' not in sys.argv
EXTRA = [a[2:].split('=')[1] for a in sys.argv[1:] if a.startswith('--also=')]
SPECS = [a for a in sys.argv[1:] if not a.startswith('--')]
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 XDG_CACHE_HOME="$T/cache" TMPDIR="$T" MPLBACKEND=Agg
mkdir -p "$T/cache"
timeout 200 /opt/venv/bin/python "$here/demo.py" "$T"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(spec):
    name = os.path.basename(spec.rstrip('/'))
    meta = json.load(open(spec + '/meta.json'))
    d = tempfile.mkdtemp(prefix='plant-')
    c = d + '/repo'
    try:
        sh(f'cp -a /repo {c}')
        txt = open(spec + '/mut').read()
        for fn, body in re.findall(r'^@@ (\S+)\n(.*?)(?=^@@ |\Z)', txt, re.S | re.M):
            old, new = body.split('\n===>\n')
            new = new.rstrip('\n')
            p = f'{c}/delayed_image/{fn}'
            s = open(p).read()
            if s.count(old) != 1:
                return name, f'MUT: {s.count(old)} matches in {fn}: {old[:80]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=c).stdout
        out = [name, meta['property']]
        dst = f'/verif/seeded/{name}'
        demo = d + '/demo'
        os.makedirs(demo)
        for f in os.listdir(spec):
            if f not in ('mut', 'meta.json'):
                shutil.copy(f'{spec}/{f}', demo)
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        r0 = sh(f'bash {demo}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {demo}/demo.sh', cwd=c)
        out.append(f'demo clean={r0.returncode} bug={r1.returncode}')
        if r0.returncode != 0 or r1.returncode == 0:
            return out, 'DEMO', (r0.stdout + r0.stderr)[-1500:], (r1.stdout + r1.stderr)[-1500:]
        out.append((r1.stdout + r1.stderr).strip()[-150:])
        for w in ('build', 'test'):
            s = open(f'/opt/vp/{w}.sh').read().replace('cd /repo', f'cd {c}').replace("'/repo/delayed_image/__init__.py'", f"'{c}/delayed_image/__init__.py'").replace("cd / && \"$PY\" - <<'PYEOF'\nimport importlib", f"cd {c} && \"$PY\" - <<'PYEOF'\nimport importlib")
            open(f'{d}/{w}.sh', 'w').write(s)
        b = sh(f'bash {d}/build.sh')
        if b.returncode:
            return out, 'BUILD', b.stdout + b.stderr
        t = sh(f'bash {d}/test.sh {d}/o.json')
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = sorted(set(st) - set(json.load(open(d + '/o.json'))['passed']))
        out.append(f'stable missing={miss[:5]}')
        if miss:
            return out, 'TESTS'
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(demo):
            shutil.copy(f'{demo}/{f}', dst)
        open(dst + '/patch.diff', 'w').write(diff)
        json.dump(meta, open(dst + '/meta.json', 'w'), indent=1)
        if CHECK:
            for chk in [meta['property'], *EXTRA]:
                o = sh(f'/opt/venv/bin/python check.py {chk}', cwd='/verif', env=dict(os.environ, SIM_REPO=c, VERIF_SEED='1'))
                L = [l[:300] for l in o.stdout.splitlines() if l.startswith(('VIOL', 'minim', 'HARN', chk + ':'))]
                out += [f'{chk} rc={o.returncode}', *L]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


for s in SPECS:
    print(*one(s), sep='\n   ', flush=True)
