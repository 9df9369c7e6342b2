"""Writes MANIFEST.json from harness/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import plan

NOTE = ('Recorded executions of the real code (public API only) are checked event by event against the TLA+ machine in '
        'spec/Pilo.tla with TLC; programs come from seeded random families%s. Trusts the specification, TLC, and the '
        'recorder in harness/runner.py; nothing outside the explored programs is decided.')


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if not plan.claims(i):
            na.append({'property': i, 'reason': plan.WHY_NOT.get(i, 'no check yet')})
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': plan.technique(i),
            'level': 'model_checking',
            'level_note': NOTE % plan.note(i),
        })
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ with TLC. No hooks in /repo: everything is observed through the public API. '
                  'The harness runs pilo from /repo under /opt/venv/bin/python; nothing is built.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fo:
        json.dump(m, fo, indent=1)
        fo.write('\n')


main()
