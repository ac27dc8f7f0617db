"""Parallel driver: parent `python -m hv.run PID`, workers pull scenario indices from a shared counter."""
from __future__ import annotations
import fcntl, importlib, json, os, pickle, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def take(path, k):
    with open(path, 'r+') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        i = int(f.read() or 0)
        f.seek(0)
        f.write(str(i + k))
        f.truncate()
    return i


def worker(pid, tmp, wid, deadline):
    from . import core
    from .wide import every
    mod = importlib.import_module('hv.props.' + pid.lower())
    ck = core.Check(pid, 'proof', [], [])
    ctr = os.path.join(tmp, 'ctr')
    nxt = take(ctr, 1)
    stop = False
    total = 0
    for i, s in enumerate(every(mod, pid)):
        total = i + 1
        if i < nxt or stop:
            continue
        if time.time() > deadline:
            stop = True
            continue
        try:
            ck.scenario(s)
        except core.Timeout:
            ck.record(s.key, 'undecided', '-', s.bound, 'time limit', s.fn)
        nxt = take(ctr, 1)
    import hv.jxi as jxi
    with open(os.path.join(tmp, f'w{wid}.pkl.tmp'), 'wb') as f:
        pickle.dump(dict(obl=ck.obl, viol=ck.viol, known=ck.known_hit, samples=ck.samples, numeric=ck.numeric, stat=jxi.STAT, total=total), f)
    os.rename(os.path.join(tmp, f'w{wid}.pkl.tmp'), os.path.join(tmp, f'w{wid}.pkl'))


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    budget = 300 if tier == 'quick' else 740
    nw = int(os.environ.get('HV_WORKERS', '8'))
    tmp = tempfile.mkdtemp(prefix='hv_')
    env = dict(os.environ, JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
               PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', TF_CPP_MIN_LOG_LEVEL='3')
    try:
        open(os.path.join(tmp, 'ctr'), 'w').write('0')
        ps = []
        for w in range(nw):
            lg = open(os.path.join(tmp, f'w{w}.log'), 'w')
            ps.append(subprocess.Popen([sys.executable, '-m', 'hv.run', '--worker', pid, tmp, str(w), str(t0 + budget)],
                                       cwd=HERE, env=env, stdout=lg, stderr=lg))
        for p in ps:
            try:
                p.wait(timeout=max(1, t0 + budget + 60 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        os.environ.update({k: env[k] for k in ('JAX_PLATFORMS', 'XLA_FLAGS')})
        sys.path.insert(0, HERE)
        from . import core
        import hv.jxi as jxi
        mod = importlib.import_module('hv.props.' + pid.lower())
        from .levels import LEVEL
        ck = core.Check(pid, LEVEL[pid][0], mod.CONTRACTS, mod.ASSUMPTIONS)
        ck.t0 = t0
        total, lost = 0, []
        for w in range(nw):
            fn = os.path.join(tmp, f'w{w}.pkl')
            if not os.path.exists(fn):
                tail = open(os.path.join(tmp, f'w{w}.log')).read()[-1500:]
                lost.append(tail)
                print(f'worker {w} gave no result (exit {ps[w].returncode}): {tail}', file=sys.stderr)
                continue
            d = pickle.load(open(fn, 'rb'))
            ck.obl += d['obl']
            ck.viol += d['viol']
            ck.known_hit += [tuple(x) for x in d['known']]
            ck.samples += d['samples']
            ck.numeric += d['numeric']
            for k, v in d['stat'].items():
                jxi.STAT[k] = jxi.STAT.get(k, 0) + v
            total = max(total, d['total'])
        ck.samples = ck.samples[:6]
        ck.obl.sort(key=lambda o: o['name'])
        extra = dict(scenarios_generated=total, scenarios_run=len(ck.obl), workers_lost=len(lost))
        return ck.finish(extra)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        sys.path.insert(0, HERE)
        worker(sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]))
    else:
        sys.exit(main(sys.argv[1]))
