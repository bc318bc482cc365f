from rules.common import *
from rules.py import pick

GN = {'System::get_number_from_bond/2:int': 'pure'}
RULES = [
    Compare('csystem.get_number_from_bond', 'bond_number', dom={'solidq': val(2, 3, 6, 12)}),
    Compare('System::get_number_from_bond/2:int', 'bond_number_ij', dom={'solidq': val(2, 3, 6, 12)}),
    Compare('csystem.calculate_frenkelnumbers', 'solid_bonds', abstr=GN),
    Compare('csystem.find_solid_atoms', 'solids', dom={'criteria': val(0, 1), 'frenkelnumber': val(0, 1, 2, 3), 'minfrenkel': val(0, 0.5, 1, 2), 'comparecriteria': val(0, 1)}),
    Compare('csystem.set_nucsize_parameters', 'solid_limits', also={'minfrenkel', 'threshold', 'avgthreshold'}),
] + pick('find_solids', 'calculate_solidneighbors')
