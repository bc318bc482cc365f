from rules.common import *
from rules.py import pick

RULES = pick('trajectory:*') + pick('traj_process:split_trajectory', 'formats.lammps:split_snaps')
