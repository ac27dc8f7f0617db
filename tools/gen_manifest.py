import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from hv.levels import LEVEL, TECH, BASE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i}', thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python check.py {i}',
                      evidence_file=f'evidence/{i}.json', technique=TECH, level=LEVEL[i][0], level_note=BASE + LEVEL[i][1]) for i in ids],
         not_applicable=[])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
