"""records the digests of the C++ functions for which the rules were decided"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.lab import Lab
lab = Lab(os.environ.get('PYSCAL_REPO', '/repo'))
h = {k: lab.cxxhash(k) for k in sorted(lab.prog.funcs)}
json.dump({k: v for k, v in h.items() if v}, open(os.path.join(H, 'rules', 'cxxhash.json'), 'w'), indent=0)
print(len(h))
