from rules.common import *
from rules.py import pick

Q = {'System::QLM': 'pure', 'System::YLM': 'pure', 'System::PLM': 'pure', 'System::dfactorial': 'pure'}


def within(m):
    # an order between -l and l
    l = m.rng('l').choice([2, 3, 4, 5, 6, 8, 10, 12, 12])
    k = m.rng('m').choice([l, l - 1, l - 2, 0, 1, m.rng('k').randrange(0, l + 1)])
    m.vals[(('sym', 'p0'),)] = float(l)
    m.vals[(('sym', 'p1'),)] = float(k * m.rng('s').choice([1, -1]))


def posm(m):
    within(m)
    m.vals[(('sym', 'p1'),)] = abs(m.vals[(('sym', 'p1'),)])


QS = {('elem', 'p0'): val(2, 3, 2, 3, 6, 12)}
RULES = [
    Compare('System::dfactorial', 'fact_ratio', prep=posm, trials=120, relative=True),
    Compare('System::PLM', 'legendre', dom={('param', 'p2'): val(-1, -0.5, 0, 0.25, 0.75, 1)}, prep=posm, trials=240),
    Compare('System::convert_to_spherical_coordinates', 'spherical'),
    Compare('System::YLM', 'harmonic', abstr=Q, prep=posm),
    Compare('System::QLM', 'harmonic_any', abstr=Q, prep=within),
    Compare('csystem.ccalculate_q', 'bond_order', abstr=Q, dom=QS),
    Compare('csystem.cget_qvals', 'all_q', dom={('param', 'p0'): val(2, 3, 6, 12)}),
    Compare('csystem.cget_aqvals', 'all_aq', dom={('param', 'p0'): val(2, 3, 6, 12)}),
] + pick('calculate_q', 'get_qvals')
