"""Source of /verif/MANIFEST.json.  Run:  python3 tools/manifest_src.py  (from /verif)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'runtime monitor: online oracle against an independent reference computation on generated workloads'
TECH = {
    'C02': 'runtime monitor: invariant oracle over copies, replicas and exports under changed configuration',
    'C06': 'runtime monitor: online reference oracle plus metamorphic oracle (order, arrangement, other points)',
    'C23': 'runtime monitor: structural invariant oracle on refined triangulations at every step',
    'C24': 'runtime monitor: structural invariant oracle on generated discretisations',
    'C25': 'runtime monitor: online oracle against planted relabelings and modifications',
    'C27': 'runtime monitor: online oracle against a scalar reference comparison',
    'C28': 'runtime monitor: online oracle against a recursive reference comparison and planted differences',
    'C29': 'runtime monitor: online oracle evaluating formulas before and after substitution',
    'C30': 'runtime monitor: reference-model checker over random histories of settings',
    'C31': 'runtime monitor: online oracle over generated call chains',
    'C32': 'runtime monitor: log-event recorder with exactly-once oracle and result comparison',
    'C33': 'runtime monitor: before/after observation of arguments and environment of every public call',
    'C36': 'runtime monitor: online oracle on exported dictionaries, tables and printed text',
    'C37': 'runtime monitor: metamorphic oracle (containers, positions, repetition) against single-object calls',
    'C39': 'runtime monitor: metamorphic oracle (two coordinate systems, chains of operations)',
    'C34': 'runtime monitor: offline checker over recorded call histories (replay, overwriting, fresh process)',
}
NOTE = ('Holds on every execution observed (counts of oracle evaluations, distinct inputs and API events in the evidence); '
        'no claim beyond the generated inputs. Trusts numpy/scipy/PyPy and the independent reference in the monitor.')

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')):
        missing.append(dict(property=pid, reason='no check built yet'))
        continue
    checks.append(dict(property=pid, quick_cmd='./check.sh ' + pid, thorough_cmd='./check.sh %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=TECH.get(pid, REF), level='exploration', level_note=NOTE))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=missing,
           notes='No hooks in /repo: the public API is wrapped at run time by mon/hooks.py. Checks run the code of /repo/products '
                 'under its own interpreter (PyPy) and build nothing.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [m['property'] for m in missing], 'missing')
