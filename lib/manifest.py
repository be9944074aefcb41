"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
from notes import NOTES, NA
V = os.path.dirname(HERE)
checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in NOTES:
        checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i,
                           thorough_cmd='bin/check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='TLA+ specification checked with TLC; ' + NOTES[i][0], level='model_checking', level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks observe the public interface only. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not claimed')
