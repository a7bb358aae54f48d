#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json
def models(c):
    ms = []
    for x in c.get('models', []):
        n = '%s (%s)' % (x['cfg'], x['module'])
        if n not in ms: ms.append(n)
    if not ms: return ''
    return (' Models explored exhaustively by TLC, their invariants checked and their behaviours replayed in the real code '
            '(as many as the tier has time for): %s.' % ', '.join(ms))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = json.load(open('checks.json'))
m = {
    'version': 1,
    'setup_cmd': 'cd harness && cargo build --release --offline',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 run.py %s quick' % i,
        'thorough_cmd': 'python3 run.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': checks[i].get('technique', 'explicit TLA+ specification: TLC explores its models and their behaviours are replayed in the real code; TLC decides whether recorded executions of the real code are behaviours of the specification'),
        'level': 'model_checking',
        'level_note': checks[i]['covers'] + models(checks[i]) + ' Beyond the bounds of the models executions are generated, not enumerated. Trusted: TLC, the harness\' recording of results, the specification (reviewed against GIF89a and the crate\'s documentation).',
    } for i in ids if i in checks],
    'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in checks],
    'notes': 'No hooks in /repo are needed: the public API is observed. Known findings (all repaired): KNOWN_FINDINGS.md.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
