import json
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=['src/pyscal/'+f for f in files],mechanism=[dict(name=n,where='src/pyscal/'+w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where='src/pyscal/'+w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    out.append(d)
out=[]
p('P01','Every separation is the minimum-image separation, by every route',
  'For any two atoms of a system, the distance and the separation vector are those of the nearest periodic image along each cell vector, in an orthogonal as well as in a triclinic cell, and every route (distance of two atoms, separation vector, and the distances and vectors stored with each neighbor) yields the same value, symmetric in the two atoms. The box lengths and the cell transformation used for that are those of the periodic cell: the box the user assigned or, for a small system that is held as a repetition with ghost images, the repeated cell.',
  ['inputs','configurations'],'all pairs of atoms, all orthogonal and triclinic boxes',
  'Tests compare a handful of distances in one cubic and one triclinic cell; three separately written copies of the formula have to agree for all boxes and positions.',
  ['system.cpp','core.py'],[('get_abs_distance (two overloads), get_distance_vector','system.cpp'),('sbox, assign_triclinic_params','system.cpp'),('System.box setter, get_distance','core.py')],
  observe=['System.get_distance','Atom.neighbor_distance','Atom.neighbor_vector'])
p('P02','Cutoff neighbor search finds exactly the pairs within the cutoff',
  'With method "cutoff", two distinct atoms are neighbors of each other if and only if their separation is below the cutoff and the chosen species filter admits the pair, each pair exactly once on either side, no matter whether the cell-list or the direct search is used and how many atoms, ghosts or species there are.',
  ['inputs','configurations'],'all configurations, cutoffs, filters; both search routes',
  'Tests check coordination numbers of perfect lattices; the cell-list route is only reached for large systems and no test compares it pairwise with the direct one.',
  ['system.cpp','core.py'],[('get_all_neighbors_normal, process_neighbor','system.cpp'),('set_up_cells, cell_index, cell_periodic, get_all_neighbors_cells','system.cpp'),('find_neighbors','core.py')],
  observe=['Atom.neighbors','Atom.coordination'])
p('P03','Adaptive neighbor methods select by their published criterion',
  'Method "number" gives each atom its requested number of nearest atoms; "cutoff" with cutoff "sann" applies the solid-angle criterion and cutoff "adaptive" or 0 a per-atom cutoff that is padding-scaled from the mean distance of its nearest atoms; candidates are considered in order of distance, and the per-atom cutoff that results is the one stored. If the candidate list is too short for some atom the search reports failure instead of giving a truncated answer.',
  ['inputs','configurations'],'all configurations, thresholds, nlimit, padding and nmax values',
  'Tests sample one or two lattices for each method with default parameters.',
  ['system.cpp','core.py'],[('get_all_neighbors_bynumber, get_all_neighbors_sann, get_all_neighbors_adaptive','system.cpp'),('get_temp_neighbors_brute, get_temp_neighbors_cells, get_neighbors_from_temp','system.cpp'),('find_neighbors','core.py')])
p('P04','All per-neighbor records of an atom describe the same neighbors',
  'After any neighbor search every per-neighbor list of an atom (neighbor indices, distances, weights, separation vectors, angles, face areas and vertices) has one entry per counted neighbor, entry k of each list describing the same neighbor k, and a repeated search leaves nothing of an earlier one behind.',
  ['inputs','histories','configurations'],'all neighbor methods and sequences of searches',
  'Tests inspect one list at a time after one search.',
  ['system.cpp','atom.cpp','core.py'],[('process_neighbor, get_all_neighbors_*','system.cpp'),('reset_all_neighbors, reset_main_neighbors','system.cpp'),('gneighbors, gneighborweights, gneighdist, gdistvecs, glocalangles','atom.cpp')])
p('P05','Fixed-size storage in an atom is never indexed past its end',
  'No configuration, cutoff, request or assigned list makes the engine read or write beyond the fixed number of neighbor, bond-order or harmonic slots an atom provides: a request or list that does not fit is rejected or truncated, never stored past the end.',
  ['inputs','configurations'],'all neighbor counts, list lengths, orders q and atom indices',
  'Tests stay far below the capacity; overflow corrupts memory silently.',
  ['system.cpp','atom.cpp','atom.h'],[('MAXNUMBEROFNEIGHBORS arrays and their append sites','atom.h'),('process_neighbor, get_neighbors_from_temp, get_all_neighbors_voronoi','system.cpp'),('list setters and get_q/set_q/get_qlm','atom.cpp')])
p('P06','Bond-order parameters follow their definition for every order',
  'For every order q from 2 to 12, q of an atom is the rotationally invariant norm of the neighbor-weighted average of the spherical harmonics of order q over its neighbors; components, values and getters for order q always refer to that same q, values requested together equal values requested one at a time, and an order outside 2 to 12 is refused.',
  ['inputs','configurations'],'all orders, weights and neighbor geometries',
  'Tests compare q-values of perfect lattices to two digits for one order at a time.',
  ['system.cpp','atom.cpp','core.py'],[('QLM, YLM, PLM, dfactorial, convert_to_spherical_coordinates, calculate_q','system.cpp'),('gq_big, sq_big, get_qcomps','atom.cpp'),('calculate_q, get_qvals','core.py')])
p('P07','Averaged quantities average over the atom and all its neighbors',
  'Every neighbor-averaged quantity (averaged bond-order parameters and their components, averaged disorder, volume, entropy, energy and angular parameter) is the mean, or for the switching variant the weighted mean, over the atom itself and each of its neighbors, computed from the un-averaged values of all of them and never from values already averaged in the same pass.',
  ['inputs'],'all neighbor graphs and per-atom values',
  'On perfect lattices all neighbors are equivalent, so an average over the wrong set gives the same number.',
  ['system.cpp','core.py'],[('calculate_aq, find_average_disorder, find_average_volume, average_entropy, average_entropy_switch','system.cpp'),('calculate_energy','core.py')])
p('P08','Solid-like classification applies the requested bond criterion',
  'A bond counts as solid when the normalised bond correlation of its two atoms exceeds the threshold; an atom is classified from its number (or, if requested, fraction) of solid bonds compared in the requested direction and from the mean correlation, for exactly the thresholds, order and comparison that were passed.',
  ['inputs','configurations'],'all thresholds, both criteria, both comparison directions, all neighbor graphs',
  'Tests use default thresholds on one crystal where every reasonable rule gives the same answer.',
  ['system.cpp','core.py'],[('get_number_from_bond, calculate_frenkel_numbers, find_solid_atoms','system.cpp'),('find_solids','core.py')])
p('P09','Clusters are the connected components of atoms meeting the condition',
  'After clustering, two atoms carry the same cluster label if and only if both meet the condition and are linked by a path of neighboring real atoms that all meet it (neighbors within the given cutoff or, without one, within the cutoff stored for the atom); all others carry the label -1, exactly the members of a largest cluster are flagged as such, its size is returned, and none is flagged when no atom meets the condition.',
  ['inputs','histories'],'all neighbor graphs and conditions; repeated clustering',
  'Tests cluster one or two small systems once.',
  ['system.cpp','core.py'],[('find_clusters, find_clusters_recursive, harvest_cluster','system.cpp'),('largest_cluster, get_largest_cluster_atoms','system.cpp'),('cluster_atoms, find_solids','core.py')])
p('P10','Structure identification applies the fixed signature table and counts every atom',
  'Common-neighbor analysis assigns fcc, hcp, bcc and icosahedral labels from the published bond signatures and their required multiplicities, with neighbor shells chosen by the conventional or adaptive cutoff, and the diamond variants likewise; any other environment is unclassified, and the returned tally counts every real atom exactly once under the label it carries.',
  ['inputs','histories'],'all local environments; repeated identification',
  'Tests cover perfect fcc, hcp, bcc and diamond, a handful of the signatures that can occur.',
  ['system.cpp','core.py'],[('get_common_neighbors, get_common_bonds, identify_cn12, identify_cn14, identify_cndia, calculate_cna, identify_diamond_structure','system.cpp'),('calculate_cna, identify_diamond','core.py')])
p('P11','Local descriptors equal their definitions at every atom',
  'Disorder, pair entropy, centrosymmetry, angular criterion, chi parameters, Voronoi-type statistics and short-range order of an atom equal their published definition evaluated on that atom and its own neighbors, with the parameters that were passed, at every atom alike and independently of which atoms were processed before it.',
  ['inputs','configurations'],'all neighbor configurations and parameter values',
  'Tests compare one averaged value on a perfect lattice, where all atoms are equivalent.',
  ['system.cpp','atom.cpp','core.py'],[('calculate_disorder, entropy, calculate_centrosymmetry','system.cpp'),('gmr, entropy_integrand, trapezoid_integration','atom.cpp'),('calculate_angularcriteria, calculate_chiparams, calculate_vorovector, calculate_sro, calculate_pmsro','core.py')])
p('P12','Atoms are stored, counted and returned faithfully, real atoms before ghosts',
  'The atoms a system returns are the ones that were assigned, added or set, each under its own index with every field unchanged; real atoms precede ghost atoms, the counts of real and of all atoms always agree with the stored atoms, and results reported per atom contain the real atoms only.',
  ['inputs','histories'],'all sequences of assigning, adding, setting and reading atoms, with and without ghosts',
  'Tests perform single assignments without ghosts.',
  ['system.cpp','core.py','atom_binding.cpp'],[('set_atoms, add_atoms, get_atoms, get_all_atoms, gatom, satom','system.cpp'),('System.atoms, add_atoms, get_atom, set_atom, iter_atoms','core.py')])
p('P13','Every attribute and method name is bound to the quantity it documents',
  'Reading a documented attribute of an atom or system returns the quantity last computed or assigned for that very attribute, writing it stores exactly the given value and changes no other attribute, and lists read back equal the lists written; attributes that only the engine fills (neighbor distances and vectors, local angles, bond correlations) ignore assignments.',
  ['inputs'],'all attributes and values',
  'Tests read a few attributes after one computation.',
  ['atom_binding.cpp','system_binding.cpp','atom.cpp'],[('pybind11 tables','atom_binding.cpp'),('pybind11 tables','system_binding.cpp'),('getters and setters','atom.cpp')])
p('P14','Results depend on the current input only, not on earlier calculations',
  'Calling any calculation on a system gives the same result whether or not the same or other calculations, with other parameters, ran before: each calculation starts from reset accumulators and settings, a newly assigned box or set of atoms replaces all data derived from the former one, and a calculation never fails or changes because it is repeated.',
  ['histories'],'all sequences of calls on one system',
  'Tests build a fresh system for each check.',
  ['system.cpp','core.py'],[('reset_all_neighbors, reset_main_neighbors','system.cpp'),('set_reqd_qs, calculate_*, find_*','system.cpp'),('System.box, System.atoms, read_inputfile','core.py')])
p('P15','No result is computed from storage that was never initialised',
  'Every attribute of a new atom or system has a defined value, and no calculation reads a variable or slot that some path leaves unassigned.',
  ['inputs','histories'],'all constructors, paths and call sequences',
  'Uninitialised memory often happens to be zero under test.',
  ['atom.cpp','system.cpp'],[('Atom::Atom','atom.cpp'),('System::System','system.cpp')])
p('P16','Written snapshots read back as the same configuration',
  'A snapshot written by the package and read again has the same atoms in the same order with the same ids, species, positions and requested extra columns, and the same box, plain or compressed; a reader accepts columns in any order, honours scaled coordinates, tilt factors and the origin of the box, and ignores columns it was not asked for.',
  ['inputs','configurations'],'all atom sets, boxes, column orders, compression and formats',
  'Tests round-trip one file.',
  ['formats/lammps.py','formats/vasp.py','formats/ase.py','formats/mdtraj.py','traj_process.py'],[('read_snap, write_snap, split_snaps','formats/lammps.py'),('read_snap, write_snap','formats/vasp.py'),('read_snap, convert_snap','formats/ase.py'),('read_file, write_file','traj_process.py')])
p('P17','A trajectory slice yields exactly the requested time steps, unchanged',
  'Indexing, slicing, iterating, adding and converting a trajectory refers to the time steps of the file in the order requested, each complete and unmodified; operations on one slice never change another slice or the trajectory, and changes made through it appear in what is written.',
  ['inputs','histories'],'all slices, sums and conversions of trajectories of any length',
  'Tests use one short trajectory and forward slices.',
  ['trajectory.py'],[('Trajectory, Timeslice','trajectory.py')])
p('P18','Files and temporary data are released on every exit',
  'Whatever a reader, writer, splitter or external calculation does, including when it raises, every file it opened is closed, every temporary file it created is removed or returned to the caller, and memory obtained by the engine is released.',
  ['inputs','fault_sequences'],'all exits, normal and exceptional',
  'Tests never look at open handles or leaks and rarely provoke errors.',
  ['formats/lammps.py','formats/vasp.py','trajectory.py','traj_process.py','routines.py','system.cpp'],[('open/close pairs','formats/lammps.py'),('write_and_read_temp','routines.py'),('new/delete pairs','system.cpp')])
p('P19','Generated crystals have the documented lattice',
  'For every supported structure, lattice constant, repetition, species and noise setting, the created atoms are the documented basis repeated along the documented cell vectors, with consecutive unique ids, the documented species on each basis site, and a box that is the repeated cell.',
  ['inputs'],'all structures, lattice constants, repetitions and element mappings',
  'Tests check the count of atoms for a few structures.',
  ['crystal_structures.py'],[('make_crystal','crystal_structures.py')])
p('P20','Every documented option has its documented effect, unknown values are refused',
  'Each documented argument of the public methods influences the result as documented, defaults are the documented ones, and a value outside the documented choices (neighbor method, filter, file format, condition, missing neighbors, wrong box) is refused with an error instead of being ignored.',
  ['inputs','configurations'],'all arguments of all public methods',
  'Tests exercise defaults and few alternatives.',
  ['core.py','traj_process.py','misc.py','crystal_structures.py'],[('public methods of System','core.py'),('read_file, write_file','traj_process.py')])
p('P21','Images, repetitions and cell changes preserve the periodic structure',
  'Repeating a system, extracting or embedding in a cubic box and remapping atoms yield exactly the atoms of the same infinite crystal: each image displaced by an integer combination of the cell vectors, with the species (type) of its source, no image missing or duplicated, the new box the matching multiple of the old, and ghosts marked as such.',
  ['inputs','configurations'],'all boxes, repetition counts and positions',
  'Tests check counts on one small cell.',
  ['core.py','system.cpp'],[('repeat, embed_in_cubic_box, extract_cubic_box, remap_atoms','core.py'),('remap_atom','system.cpp')])
p('P22','A failed neighbor search is never taken for a successful one',
  'Whenever the engine reports that it could not find enough neighbors, the public call raises an error, and no later calculation treats the incomplete neighbor lists as valid.',
  ['inputs','histories'],'all searches and callers',
  'Tests contain one or two failing searches.',
  ['core.py','system.cpp'],[('find_neighbors, calculate_centrosymmetry, calculate_cna, identify_diamond','core.py')])
p('P23','Reading out, converting or saving a system leaves it unchanged',
  'Getting values, computing distances, radial distribution and concentrations, converting to another representation and writing to file do not modify the atoms, the box, the neighbor data or the arguments passed in, and per-atom extra data never leaks from one atom or call to another.',
  ['inputs','histories'],'all systems and read-only operations',
  'Tests do not compare the system before and after.',
  ['core.py','formats/ase.py','formats/lammps.py','formats/vasp.py','system.cpp'],[('to_file, to_ase, get_custom, get_qvals, calculate_rdf, get_concentration','core.py'),('convert_snap','formats/ase.py')])
p('P24','Voronoi cells give one weighted face per retained neighbor',
  'Method "voronoi" makes exactly the atoms sharing a face admitted by the species filter neighbors, weights each by its face area raised to the requested exponent relative to the total, and stores volume, face vertices and perimeters in the order of those neighbors; the Voronoi index counts faces by their number of edges longer than the requested fraction.',
  ['inputs','configurations'],'all configurations, exponents and filters',
  'Tests check one perfect lattice.',
  ['system.cpp','core.py'],[('get_all_neighbors_voronoi','system.cpp'),('calculate_vorovector','core.py')])
p('P25','Bond-order parameters are invariant under rotation of the configuration',
  'Rotating all atom positions and the box by any proper rotation leaves every q-value unchanged up to rounding.',
  ['inputs'],'all rotations and configurations','Tests never rotate a configuration.',
  ['system.cpp'],[('calculate_q','system.cpp')])
p('P26','Voronoi volumes of all atoms add up to the volume of the box',
  'The sum of the Voronoi volumes of the real atoms equals the volume of the periodic box up to rounding.',
  ['inputs'],'all configurations','Tests check the average volume of one lattice.',
  ['system.cpp'],[('get_all_neighbors_voronoi','system.cpp')])
p('P27','The radial distribution function tends to one for an ideal gas',
  'For uncorrelated positions the radial distribution function converges to one at all distances below half of the box.',
  ['inputs'],'all random configurations','Tests compare the position of the first peak of one lattice.',
  ['core.py'],[('calculate_rdf','core.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in out: f.write(json.dumps(d)+'\n')
for d in out:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
