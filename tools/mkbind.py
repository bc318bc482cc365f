"""records which member each attribute of the engine classes denotes (reviewed against the documentation)"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.lab import Lab
lab = Lab(os.environ.get('PYSCAL_REPO', '/repo'))
t = {}
for m, bs in lab.prog.bindings.items():
    for b in bs:
        if b['kind'] in ('def_readwrite', 'def_readonly'):
            t.setdefault(m, {})[b['name']] = [b['kind'], b['targets'][0]['name'], {}]
        elif b['kind'] == 'def':
            t.setdefault(m, {})[b['name'] or '__init__'] = ['def', None, b['defaults']]
json.dump(t, open(os.path.join(H, 'rules', 'bindings.json'), 'w'), indent=0, sort_keys=True)
