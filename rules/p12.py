from rules.common import *
from rules.py import pick

GH = {('p0', 'ghost'): None}

def newghost(m, loc, r):
    return float(r.choice([0, 0, 1]))

RULES = [
    Compare('csystem.set_atoms', 'sys_set_atoms', lens={'p0': vlen(0, 1, 2, 3, 4)}),
    Compare('csystem.cadd_atoms', 'sys_add_atoms', lens={'p0': vlen(0, 1, 2, 3, 4)}),
    Compare('csystem.get_atoms', 'sys_get_atoms'),
    Compare('csystem.get_all_atoms', 'sys_get_all_atoms'),
    Compare('csystem.cget_atom', 'sys_gatom', dom={('param', 'p0'): val(-1, 0, 1, 2, 3, 4, 5)}),
    Compare('csystem.cset_atom', 'sys_satom'),
    Compare('csystem._box.set', 'sys_sbox'),
    Compare('csystem._box.get', 'sys_gbox'),
    Compare('csystem.assign_triclinic_params', 'sys_striclinic'),
    Compare('csystem.get_triclinic_params', 'sys_gtriclinic'),
    Compare('csystem.get_pairdistances', 'sys_pairdistances', abstr=G),
    Compare('csystem.reset_allneighbors', 'sys_reset_neighbors'),
    Compare('System::reset_main_neighbors', 'sys_reset_main'),
    Compare('csystem.remap_atom', 'sys_remap_atom', dom={('elem', 'p0'): val(-1.5, -0.5, 0, 0.25, 0.75, 2, 3.5, 4, 5)}),
] + pick('atoms', 'atoms.setter', '_store_atoms', 'add_atoms', 'get_atom', 'set_atom', 'iter_atoms', 'get_concentration', '__init__')
