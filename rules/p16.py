from rules.common import *
from rules.py import pick

RULES = pick('formats.lammps:read_snap', 'formats.*', 'traj_process:*', 'read_inputfile', 'to_file', 'to_ase', 'get_custom')
RULES = list(dict.fromkeys(RULES))
