from rules.common import *
from rules.py import pick

RULES = pick('find_neighbors', 'find_solids', 'calculate_q', 'get_qvals', 'cluster_atoms', 'calculate_rdf', 'get_distance', 'calculate_vorovector', 'set_atom_cutoff', 'calculate_chiparams', 'calculate_cna',
             'identify_diamond', 'calculate_centrosymmetry', 'calculate_disorder', 'calculate_sro', 'calculate_pmsro', 'calculate_entropy', 'calculate_energy', 'repeat', 'remap_atoms', '_find_remapped_atoms',
             'box.setter', '_assign_box', 'to_file', 'read_inputfile', 'traj_process:*', 'trajectory:Trajectory.iter', 'misc:*', 'routines:*', 'get_custom')
