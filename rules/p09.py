from rules.common import *
from rules.py import pick

H = {'System::harvest_cluster': 'proc'}
B = {'belongsto': val(-1, 1, 2, 3)}
RULES = [
    Compare('System::harvest_cluster', 'harvest', abstr=H, dom=B, events=lambda k: True),
    Compare('csystem.cfind_clusters', 'clusters', abstr=H, dom={**B, ('param', 'p0'): val(0, 1.5)}, events=lambda k: True),
    Compare('csystem.cfind_clusters_recursive', 'clusters', abstr=H, dom={**B, ('param', 'p0'): val(0, 1.5)}, events=lambda k: True),
    Compare('csystem.get_largest_cluster_atoms', 'cluster_atoms', dom=dict(B, maxclusterid=val(-1, 1, 2, 3), issolid=val(0, 1))),
    Compare('csystem.find_largest_cluster', 'biggest', abstr={'System::get_largest_cluster_atoms': 'proc'}, dom=B, events=lambda k: True),
] + pick('cluster_atoms', 'find_largestcluster', 'find_solids')
