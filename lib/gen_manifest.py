#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties  # noqa: E402
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in properties.PROPERTIES.values():
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'python3 lib/setup.py',
    'checks': [
        {
            'property': id,
            'quick_cmd': f'python3 lib/check.py {id}',
            'thorough_cmd': f'python3 lib/check.py {id} --thorough',
            'evidence_file': f'evidence/{id}.json',
            **m,
        } for id, m in properties.MANIFEST.items()],
    'not_applicable': [{'property': id, 'reason': r}
                       for id, r in properties.NOT_APPLICABLE.items()],
    'notes': 'No hooks: the harnesses only use the public interfaces, compiled '
             'from the working tree of /repo.  See DESIGN.md.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
