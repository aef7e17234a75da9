#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and vlib/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.meta import META, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in META:
        m = META[i]
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s' % i,
                           thorough_cmd='/opt/venv/bin/python run.py %s thorough' % i,
                           technique=m['technique'], level=m.get('level', 'exploration'), level_note=m['level_note']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'the check for this property is not built yet')) for i in ids if i not in META]
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
               hooks=dict(guard='none', enable='no change to /repo is guarded: the checks drive the public interface of the unmodified tree and observe it at the calls', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='run.py --replay FILE runs a reported case again. known_findings.txt lists recorded and repaired defects.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
