#!/usr/bin/env python3
"""Write MANIFEST.json: the properties listed in CLAIMED have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    'C01': ('generated valid images (structured generator), reference block model as oracle',
            'exploration', 'Every byte of every generated file compared with an independent model of the on-disk mapping.'),
    'C02': ('stateful model-based testing of read/seek histories against a byte-stream model',
            'exploration', 'Random histories on generated files; own and std interfaces.'),
}
exec(open(os.path.join(V, 'tools', 'claimed.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claimed.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': './check build',
    'checks': [],
    'not_applicable': [],
    'notes': 'All checks drive the library through its public interface from a harness crate in /verif/harness; no hooks in /repo are needed. See DESIGN.md.',
}
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i}',
                            'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
                            'evidence_file': f'evidence/{i}.json',
                            'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'The check is not finished yet.'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
