from rules.common import *
from rules.py import pick

V = {'System::get_abs_distance/5': 'dist', 'System::find_average_volume': 'proc', 'System::remap_atom': 'pure', 'System::convert_to_spherical_coordinates': 'pure'}
RULES = [
    Compare('System::get_all_neighbors_voronoi', 'c++', abstr=V, timeout=200),
] + pick('find_neighbors', 'calculate_vorovector')
