from rules.common import *
from rules.py import pick
from rules.p03 import HELP
from rules.p10 import H as CNA, STY, S
from rules.p11 import H as CEN
from rules.p24 import V as VOR

# what a search reports, and which searches are refused
only = dict(obs=set(), calls=False)
RULES = pick('find_neighbors', 'find_diamond_neighbors', 'reset_neighbors', 'calculate_cna', 'calculate_centrosymmetry', 'identify_diamond') + [
    Compare('System::get_all_neighbors_bynumber', 'neigh_bynumber', abstr=HELP, **only),
    Compare('System::get_all_neighbors_sann', 'neigh_sann', abstr=HELP, trials=400, timeout=160, **only),
    Compare('System::get_all_neighbors_adaptive', 'neigh_adaptive', abstr=HELP, **only),
    Compare('System::get_neighbors_from_temp', 'neigh_from_candidates', abstr=HELP, **only),
    Compare('System::get_diamond_neighbors', 'diamond_neighbors', abstr=CNA, **only),
    Compare('csystem.ccalculate_cna', 'cna', abstr=CNA, dom=STY, **dict(only, ret=False)),
    Compare('csystem.ccalculate_centrosymmetry', 'centro', abstr=CEN, **only),
    Compare('System::process_neighbor', 'neigh_process', abstr=G, **only),
    Compare('System::get_all_neighbors_normal', 'neigh_normal', abstr=G, **only),
]
