"""writes known_findings.json (hand-maintained list; never run by a check)"""
import json, subprocess, os
known = [
 dict(property='C10', id='K1', status='known', key=['gpsr controlled rotation *'],
      what='GPSR gradient of a controlled RX, RY or RZ: the two-term shift rule with one spectral gap is applied although the controlled rotation has two positive gaps'),
 dict(property='C12', id='K2', status='known', key=['finite-shot controlled rotation *'],
      what='finite-shot gradient of a controlled RX, RY or RZ: biased, the two-term shift rule is applied to a gate with two spectral gaps'),
 dict(property='C12', id='K3', status='known', key=['finite-shot observable parameter *', 'finite-shot observable parameter'],
      what='finite-shot gradient with respect to a parameter of an observable is zero: the shift rule only visits circuit gates'),
 dict(property='C12', id='K4', status='known', key=['finite-shot separate values *', 'finite-shot separate values'],
      what='finite-shot gradient with separate circuit and observable values fails: the tangent rule looks up names in the flat dictionary'),
]
fixed = {  # subject prefix -> property
 'register the matrices': 'C02', 'derivative of a rotation': 'C19', 'qubit support of a sequence': 'C06', 'tensor of a sequence': 'C06',
 'Scale keeps a wrapped': 'C07', 'sparse and dense conversions of Scale': 'C16', 'sparse and dense conversions of a circuit': 'C16',
 'grouping by qubit': 'C08', 'apply_gates accepts empty': 'C07', 'flattening a circuit': 'C16', 'overlap is': 'C14',
 'shifted and renamed phase': 'C10', 'GPSR detects repeated': 'C10', 'numeric angles are not': 'C18', 'separate circuit and observable': 'C09',
 'sampling does not reshape': 'C17', 'the array of a density': 'C16', 'tensor of a gate with unsorted': 'C06', 'shot estimates of observables': 'C12',
 'numpy integer and array': 'C01', 'matrices of controlled gates': 'C16', 'sparse phase gates and': 'C16', 'phase gates are pytree': 'C16',
 'GPSR gradients include': 'C10', 'hardware-efficient ansatz': 'C18', 'density matrices reject': 'C20',
}
out = list(known)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in fixed.items() if s.startswith(k)]
    assert len(p) == 1, l
    out.append(dict(property=p[0], id='F-' + h, status='fixed', key=[], what=f'fixed: property={p[0]} {h} {s}'))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump(out, open(p, 'w'), indent=1)
print(len(out))
