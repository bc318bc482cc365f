from rules.common import *
from rules.py import pick

H = {k: 'proc' for k in ('System::reset_all_neighbors', 'System::get_all_neighbors_bynumber', 'System::calculate_centrosymmetry_atom', 'Atom::trapezoid_integration')}
GRID = {'rstart': val(0.5, 1), 'rstop': val(2, 3, 2.6), 'h': val(0.25, 0.5, 0.3), 'sigma': val(0.5, 1, 2), 'rho': val(0.5, 1, 2)}
RULES = [
    Compare('Atom::gmr', 'pair_rdf'),
    Compare('Atom::entropy_integrand', 'pair_integrand'),
    Compare('Atom::trapezoid_integration', 'pair_entropy', known='pair_entropy_used', dom=GRID, also={'entropy'}),
    Compare('System::switching_fn', 'switching'),
    Compare('csystem.average_entropy', 'mean_entropy'),
    Compare('csystem.average_entropy_switch', 'mean_entropy_switch'),
    Compare('csystem.entropy', 'local_entropy', abstr=H, also={'sigma', 'rho', 'rstart', 'rstop', 'h', 'kb'}),
    Compare('System::calculate_centrosymmetry_atom', 'centro_atom', dom={'n_neighbors': val(2, 3, 4), ('param', 'p1'): val(1, 2)}),
    Compare('csystem.ccalculate_centrosymmetry', 'centro', abstr=H),
    Compare('csystem.get_centrosymmetry', 'all_centro'),
    Compare('csystem.ccalculate_disorder', 'disorder'),
] + pick('calculate_centrosymmetry', 'calculate_disorder', 'calculate_sro', 'calculate_pmsro', 'calculate_entropy', 'calculate_chiparams', 'calculate_angularcriteria', 'calculate_vorovector', 'misc:compare_atomic_env')
