"""Regenerates MANIFEST.json from the rule modules that are listed as claimed.  usage: gen_manifest.py"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
    'C37': 'Equality of two learning histories is a numerical property of the algorithm on runtime frequencies.',
    'C38': 'Equality of runtime counts; the structural parts (every file once, counts added) are claimed under C06 and C20.',
    'C40': "Whether an mtime changes is a matter of the file system clock (one second resolution) and entry limit, not of the code's shape; "
           'what the stamp covers is claimed as C32.',
}
with open(os.path.join(HERE, 'tools', 'claimed.txt')) as f:
    claimed = f.read().split()
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in claimed:
        m = importlib.import_module('sa.rules.' + i.lower()).META
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough', technique=m['technique'],
                           level='other', level_note=m['level_note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'The check for this property is not built yet.')))
out = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
