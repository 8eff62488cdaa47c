"""writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = json.load(open(os.path.join(HERE, 'tools', 'technique.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append({'property': i, 'quick_cmd': 'python3-vt -m tsv.check %s' % i, 'thorough_cmd': 'python3-vt -m tsv.check %s --tier thorough' % i,
                       'level': 'proof', 'technique': TECH[i][0], 'level_note': TECH[i][1], 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': 'check not finished yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
