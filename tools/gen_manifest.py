#!/usr/bin/env python3
"""Writes MANIFEST.json. Which properties are claimed: those listed in CLAIMED."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
exec(open(root + '/tools/claims.py').read())
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        continue
    tech, note = CLAIMED[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': tech,
        'level': 'model_checking',
        'level_note': note,
    })
na = [{'property': p['id'], 'reason': NOT_CLAIMED.get(p['id'], 'explorer not built yet')} for p in props if p['id'] not in CLAIMED]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(' ', 1)[1].startswith('hooks:')]
m = {
    'version': 1,
    'setup_cmd': './check.sh build-only',
    'hooks': {
        'guard': '--cfg momentous_verif (RUSTFLAGS)',
        'enable': 'check.sh builds the explorers of C23..C25 with RUSTFLAGS="--cfg momentous_verif"; the others use the public API of an unhooked build',
        'source_commits': hooks,
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks are explicit-state explorations of the compiled library against a small reference model; see DESIGN.md.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
