"""regenerates MANIFEST.json from the rule modules present"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {
 'P25': 'rotation invariance is an identity over all rotations of sums of spherical harmonics; no dataflow or type argument reaches it, and a numeric experiment would be a test. The defining formula itself is decided under P06.',
 'P26': 'the volumes are produced by the external voro++ library; that they tile the box is a theorem about its geometry code, outside this source tree.',
 'P27': 'a statistical limit over random configurations; no sound static argument bounds it.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(H, 'rules', p.lower() + '.py')):
        m = importlib.import_module('rules.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                           technique=getattr(m, 'TECHNIQUE', 'gated value-flow summaries (global value numbering) of the C++ AST and Python AST compared with reference definitions, plus dataflow rules'),
                           level='other', level_note=getattr(m, 'NOTE', 'Static analysis. Identical normal forms establish the rule for all inputs up to real arithmetic; a pair of summaries that is only not distinguished by random interpretation is quiet evidence, not proof; every report is a construct whose summary provably differs from the reference under a given interpretation, or that breaks a dataflow rule. Trusts clang\'s AST, the front ends in sa/, and the reference definitions in specs/.')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no sound static check built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
