"""Shared pieces of the rule tables."""
from sa.runner import Compare, PyCompare, Lint, Bounds, Defined
from sa.terms import mk

G = {'System::get_abs_distance/5': 'dist', 'System::get_abs_distance/2:Atom': 'dist'}


def vlen(*choices):
    return lambda m, loc, r: r.choice(choices)


def val(*choices):
    return lambda m, loc, r: float(r.choice(choices))


def choice(*choices):
    return lambda m, loc, r: r.choice(choices)


def string(s):
    return mk('str', s)


def vtype(t):
    return t


PROCSPEC = {
    'System::calculate_centrosymmetry_atom': 'centro_atom', 'System::filter_temp_neighbors': 'cand_filter', 'System::get_acna_neighbors': 'acna_neighbors',
    'System::get_all_neighbors_bynumber': 'neigh_bynumber', 'System::get_all_neighbors_normal': 'neigh_normal', 'System::get_cna_neighbors': 'cna_neighbors',
    'System::get_common_bonds': 'common_bonds', 'System::get_common_neighbors': 'common_neighbors', 'System::get_diamond_neighbors': 'diamond_neighbors',
    'System::get_largest_cluster_atoms': 'cluster_atoms', 'System::get_temp_neighbors_brute': 'cand_brute', 'System::get_temp_neighbors_cells': 'cand_cells',
    'System::identify_cn12': 'cn12', 'System::identify_cn14': 'cn14', 'System::identify_cndia': 'diamond', 'System::process_neighbor': 'neigh_process',
    'System::reset_all_neighbors': 'sys_reset_neighbors', 'System::reset_main_neighbors': 'sys_reset_main',
}
