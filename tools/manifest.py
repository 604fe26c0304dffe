"""writes MANIFEST.json from properties.jsonl and the property modules that exist"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
notes = json.load(open(os.path.join(R, 'tools', 'level_notes.json')))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(R, 'pbt', 'props', i.lower() + '.py')):
        n = notes[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'technique': n[0], 'level': 'exploration', 'level_note': n[1]})
    else: na.append({'property': i, 'reason': 'the check for this property is still being built'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are compiled into /repo: the checks drive its public functions and its server binary, built with AddressSanitizer from the current tree.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
