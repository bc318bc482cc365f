from rules.common import *
from rules.py import pick

RULES = pick('get_distance', 'get_qvals', 'calculate_rdf', 'get_concentration', 'get_custom', 'to_file', 'to_ase', 'atoms', 'box', 'iter_atoms', 'get_atom', 'formats.lammps:write_snap', 'formats.vasp:write_snap',
             'formats.ase:convert_snap', 'formats.vasp:write_poscar', 'traj_process:write_file', 'trajectory:Timeslice.__add__', 'trajectory:Timeslice.__radd__', 'trajectory:Timeslice.to_dict')
