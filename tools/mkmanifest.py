#!/usr/bin/env python3
# Writes MANIFEST.json for the properties the harness implements (fixcheck list).
import json, subprocess, os
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
have = subprocess.run(['harness/target/debug/fixcheck', 'list'], capture_output=True, text=True).stdout.split()
notes = json.load(open('tools/levels.json')) if os.path.exists('tools/levels.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': n.get('technique', 'property-based testing: seeded generation, explicit oracle, shrinking'),
            'level': 'exploration',
            'level_note': n.get('note', 'Generated-input search: no violation among the cases generated; not a proof.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'hooks': {
        'guard': '--cfg fixrs_verif',
        'enable': 'rustflags in /verif/harness/.cargo/config.toml',
        'source_commits': ['ba9daba'],
    },
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
