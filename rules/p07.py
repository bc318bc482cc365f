from rules.common import *
from rules.py import pick

RULES = [
    Compare('csystem.ccalculate_aq', 'averaged_bond_order', dom={('elem', 'p0'): val(2, 3, 2, 3, 6, 12)}),
    Compare('csystem.ccalculate_disorder', 'disorder', dom={'solidq': val(2, 3, 6, 12)}),
    Compare('csystem.ccalculate_avg_disorder', 'average_disorder'),
    Compare('csystem.find_average_volume', 'average_volume'),
    Compare('csystem.average_entropy', 'mean_entropy'),
    Compare('csystem.average_entropy_switch', 'mean_entropy_switch'),
    Compare('System::switching_fn', 'switching'),
] + pick('calculate_q', 'get_qvals', 'calculate_disorder', 'calculate_entropy', 'calculate_energy')
