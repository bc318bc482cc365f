from rules.common import *
from rules.py import pick

RULES = pick('repeat', 'embed_in_cubic_box', 'extract_cubic_box', '_find_cubic_box', 'remap_atoms', '_find_remapped_atoms', 'atoms.setter', '_store_atoms', 'misc:find_tetrahedral_voids') + [
    Compare('csystem.remap_atom', 'sys_remap_atom', dom={('elem', 'p0'): val(-1.5, -0.5, 0, 0.25, 0.75, 2, 3.5, 4, 5)}),
]
