#!/usr/bin/env python3
"""write properties.jsonl, MANIFEST.json and DESIGN.md (from DESIGN.head.md + the property table + DESIGN.tail.md)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_data import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
claimed = [p for p in PROPS if not p['na']]
m = dict(version=1, setup_cmd='sh tools/setup.sh',
    checks=[dict(property=p['id'], quick_cmd='python3 sa/run.py %s --tier quick' % p['id'],
                 thorough_cmd='python3 sa/run.py %s --tier thorough' % p['id'],
                 technique=p['technique'], level='other', level_note=p['note']) for p in claimed],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']],
    notes='No hooks: the checks compile /repo\'s sources to LLVM IR and analyse that; nothing of /repo is run.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
out = [open(HERE + '/DESIGN.head.md').read().rstrip(), '', '## The properties', '']
for p in PROPS:
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('')
    out.append(p['statement'])
    out.append('')
    if p['na']:
        out.append('**Not applicable.** ' + p['na'])
    else:
        out.append('*Decided by:* %s. %s' % (p['technique'], p['design'].replace('\n', ' ')))
        out.append('')
        out.append('*Assurance:* ' + p['note'])
    out.append('')
out.append(open(HERE + '/DESIGN.tail.md').read().rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(claimed), 'claimed,', len(PROPS) - len(claimed), 'not applicable')
