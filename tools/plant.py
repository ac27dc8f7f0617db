"""plant.py [ids]: writes /verif/seeded/<id>/ from tools/bugs.py, and validates each in a scratch copy:
tests pass with the patch, demo exits 0 without and non-zero with it. Never run by a check."""
import importlib.util, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('bugs', V + '/tools/bugs.py')
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\nos.environ.setdefault('JAX_PLATFORMS', 'cpu')\nimport jax, jax.numpy as jnp, numpy as np\n"


def one(b):
    d = f'/tmp/seed/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        out = V + '/seeded/' + b['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(PRE + b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec env JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        clean = subprocess.run([out + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        for f, old, new in b['edits']:
            p = d + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], f'BAD edit: {s.count(old)} matches in {f}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        # changed lines must be original ones
        base = subprocess.run(['git', 'log', '--reverse', '--format=%H'], cwd=d, capture_output=True, text=True).stdout.split()[0]
        own = []
        for f, old, new in b['edits']:
            bl = subprocess.run(['git', 'blame', '-s', '-l', 'HEAD', '--', f], cwd=d, capture_output=True, text=True).stdout.splitlines()
            hunks = [l for l in subprocess.run(['git', 'diff', '-U0', '--', f], cwd=d, capture_output=True, text=True).stdout.splitlines() if l.startswith('@@')]
            for h in hunks:
                a = h.split()[1][1:].split(',')
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    if not bl[i - 1].lstrip('^').startswith(base[:39]):
                        own.append((f, i))
        bug = subprocess.run([out + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-n', '3', '--randomly-seed=0',
                            '--randomly-dont-reorganize', '-x'], cwd=d, env=ENV, capture_output=True, text=True) if '--notest' not in sys.argv else None
        tl = t.stdout.strip().splitlines()[-1] if t else ''
        ok = clean.returncode == 0 and bug.returncode != 0 and (t is None or t.returncode == 0) and not own
        fl = [l for l in (t.stdout if t else '').splitlines() if l.startswith('FAILED')]
        return b['id'], ('OK' if ok else 'BAD') + f' clean={clean.returncode} bug={bug.returncode} own={own} tests={tl} {fl[:1]}' + ('' if clean.returncode == 0 else clean.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = [a for a in sys.argv[1:] if not a.startswith('-')]
todo = [b for b in m.BUGS if not ids or b['id'] in ids]
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, todo):
        print(*r, flush=True)
