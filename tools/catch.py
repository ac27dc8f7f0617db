"""catch.py [-jN] [ids]: applies each seeded patch to a scratch copy of /repo, runs the check of its property on the copy, and prints the verdict"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = [int(a[2:]) for a in sys.argv[1:] if a.startswith('-j')]
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))


def one(i):
    d, c = f'{V}/seeded/{i}', f'/tmp/catch/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs('/tmp/catch', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    try:
        t = time.time()
        subprocess.run(['git', '-C', c, 'apply', d + '/patch.diff'], check=True)
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', HV_REPO=c, PYTHONPATH=c)
        r = subprocess.run([V + '/check.py', p], capture_output=True, text=True, env=env, cwd=V)
        names = []
        for l in r.stdout.splitlines():
            if l.startswith('VIOLATION'):
                f = l.split('replay=')[1].split()[0]
                try:
                    x = json.load(open(f))
                    names.append(str(x.get('obligation') or x.get('name') or x.get('key'))[:90])
                except Exception as e:
                    names.append(f)
        return f'{i} | {p} | rc {r.returncode} | {time.time() - t:.0f}s | {len(names)} | ' + ' ; '.join(names[:3])
    finally:
        shutil.rmtree(c, ignore_errors=True)


with cf.ThreadPoolExecutor(J[0] if J else 1) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
