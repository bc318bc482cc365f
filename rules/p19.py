from rules.common import *

M = 'pyscal.crystal_structures:make_crystal'
REPS = choice(None, [1.0, 1.0, 1.0], [2.0, 1.0, 1.0], [1.0, 2.0, 1.0], [1.0, 1.0, 2.0], [2.0, 1.0, 3.0], [1.0, 3.0, 2.0])
DOM = {('param', 'p1'): val(1.0, 2.0, 3.5), ('param', 'p2'): REPS, ('param', 'p3'): val(1.633, 1.5, 2.0), ('param', 'p4'): val(0.0, 0.0, 0.01, 0.5)}
RULES = [PyCompare(M, args={0: string(s)}, name='make_crystal[%s]' % s, timeout=200, dom=DOM, trials=30) for s in ('sc', 'bcc', 'fcc', 'hcp', 'diamond', 'a15', 'l12', 'b2', 'fccc')]
