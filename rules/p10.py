from rules.common import *
from rules.py import pick

S = {'structure': val(0, 0, 1, 2, 4, 5, 8, 6, 9), 'cna': val(4, 2, 1, 5, 0)}
HELP = {k: 'proc' for k in ('System::reset_main_neighbors', 'System::process_neighbor', 'System::reset_all_neighbors', 'System::get_all_neighbors_bynumber', 'System::get_cna_neighbors',
                            'System::get_acna_neighbors', 'System::identify_cn12', 'System::identify_cn14', 'System::identify_cndia', 'System::get_diamond_neighbors', 'System::get_common_neighbors', 'System::get_common_bonds')}
H = dict(G, **HELP)
ALSO = {'cna', 'common', 'bonds'}
STY = {**S, ('param', 'p0'): val(1, 2)}
RULES = [
    Compare('System::get_diamond_neighbors', 'diamond_neighbors', abstr=H),
    Compare('System::get_cna_neighbors', 'cna_neighbors', abstr=H, dom=STY, lens={'temp_neighbors': vlen(12, 14, 15, 3, 14, 16)}, also={'lattice_constant'}),
    Compare('System::get_acna_neighbors', 'acna_neighbors', abstr=H, dom=STY, lens={'temp_neighbors': vlen(12, 14, 15, 11, 14, 16, 13)}),
    Compare('System::get_common_neighbors', 'common_neighbors', abstr=H, ignore={'bonds'}),
    Compare('System::get_common_bonds', 'common_bonds', abstr=H, ignore={'bonds'}),
    Compare('System::identify_cn12', 'cn12', abstr=H, dom=S),
    Compare('System::identify_cn14', 'cn14', abstr=H, dom=S),
    Compare('System::identify_cndia', 'diamond', abstr=H, dom=S),
    Compare('csystem.ccalculate_cna', 'cna', abstr=H, dom=STY),
    Compare('csystem.cidentify_diamond_structure', 'diamond_counts', abstr=H, dom=S),
] + pick('calculate_cna', 'identify_diamond', 'find_diamond_neighbors')
