"""Print the table of budgets of DESIGN.md."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness import env  # noqa: E402
env.setup()

print('| | property | quick | thorough | s |')
print('|---|---|---|---|---|')
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(line)
    m = importlib.import_module('harness.props.' + d['id'].lower())
    path = os.path.join(ROOT, 'evidence', d['id'] + '.json')
    s = '?'
    if os.path.exists(path):
        e = json.load(open(path))
        if not e.get('violations'):
            s = '%d' % round(e['wall_s'])
    print('| %s | %s | %d | %d | %s |' % (d['id'], d['title'], m.QUICK,
                                         m.THOROUGH, s))
