#!/opt/venv/bin/python
"""replay.py <replay file>: run the failed obligation of a replay file again on the current tree of /repo.
exit 1 if it fails again, 0 if it holds now, 2 if the obligation is no longer generated."""
import importlib, json, os, sys
path = os.path.abspath(sys.argv[1])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
d = json.load(open(path))
os.environ['VERIF_SEED'], os.environ['VERIF_TIER'] = str(d['seed']), d['tier']
from hv import core
mod = importlib.import_module('hv.props.' + d['property'].lower())
from hv.wide import every
for s in every(mod, d['property']):
    if s.key != d['obligation']:
        continue
    print('obligation:', s.key)
    print('functions :', ', '.join(s.fn), '| bound:', s.bound)
    if hasattr(s, 'setup_una'):
        o = s.setup_una()
        print('inputs    :', d.get('env'))
        for k in range(2):
            try:
                r = o.replay(d['env'], core.seeded(s.key, k))
            except Exception as e:
                r = f'raised {type(e).__name__}: {e}'
            if r is not None:
                break
    elif isinstance(s, core.Custom):
        for k in range(s.runs):
            try:
                r = s.run(core.seeded(s.key, k))
            except Exception as e:
                r = f'raised {type(e).__name__}: {e}'
            if r is not None:
                break
    else:
        vals = {k: core.unjson(v) for k, v in d.get('inputs', {}).items()}
        print('inputs    :', vals)
        r = core.run_num(s, vals)
    print('result    :', 'holds' if r is None else 'FAILS: ' + str(r))
    sys.exit(0 if r is None else 1)
print('the obligation is not generated from the current tree')
sys.exit(2)
