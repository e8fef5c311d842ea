"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    p = props.PROPS[i]
    proved = p['level'] == 'proof'
    c = dict(property=i, quick_cmd='bash run.sh ' + i, thorough_cmd='VERIF_TIER=thorough bash run.sh ' + i,
             technique='contract-based deductive verification (pyvc on the real source, z3)' + (
                 '; bounded concrete stand-in for the parts named in level_note' if p['bounded'] else '') if p['modules'] else
             'concrete bounded oracle only (no contract discharged yet)',
             level=p['level'], level_note=p.get('note') or (
                 ('All obligations of the contracted functions are discharged for all inputs. ' if p['modules'] else '') +
                 ('Bounded, not proved: ' + '; '.join(p['bounded']) + '. ' if p['bounded'] else '') +
                 'Assumes: ' + '; '.join(p['assumptions'])))
    checks.append(c)
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
         notes='Concrete oracles supply failing inputs for failed obligations. No hooks in /repo.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
