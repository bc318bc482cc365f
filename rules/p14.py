from rules.common import *
from rules.py import pick
from rules import p02, p03, p06, p07, p08, p09, p10, p11, p12, p24
from sa.runner import Stale


def stale():
    """every engine function some rule compares, judged only on what it takes from earlier calculations"""
    seen = {}
    for m in (p06, p02, p03, p24, p10, p11, p08, p09, p07, p12):
        for r in m.RULES:
            if isinstance(r, Compare) and r.target not in seen:
                q = Stale(r.target, r.spec)
                q.__dict__.update(r.__dict__)
                q.__class__ = Stale
                seen[r.target] = q
    return list(seen.values())


RULES = pick('find_neighbors', 'reset_neighbors', 'calculate_q', 'find_solids', 'cluster_atoms', 'calculate_cna', 'identify_diamond', 'find_diamond_neighbors', 'calculate_vorovector', 'calculate_angularcriteria', 'calculate_chiparams',
             'calculate_sro', 'calculate_pmsro', 'calculate_entropy', 'calculate_energy', 'calculate_disorder', 'calculate_centrosymmetry', 'atoms.setter', 'box.setter', '_assign_box', '_store_atoms', '__init__', 'set_atom_cutoff') + [
    Compare('csystem.reset_allneighbors', 'sys_reset_neighbors'),
    Compare('System::reset_main_neighbors', 'sys_reset_main'),
    Compare('System::System/0', 'c++', obs={'nop', 'real_nop', 'ghost_nop', 'triclinic', 'usecells', 'filter', 'maxclusterid', 'alpha', 'voronoiused', 'solidq', 'criteria', 'comparecriteria', 'boxx', 'boxy', 'boxz'}),
] + stale()
