"""What each check examined, for the evidence files."""
HOW = (' Rule applied: the value-flow summary of each listed function (every store, result, refusal and call with the condition under which it happens, loops summarised symbolically) '
       'is extracted from the current source and compared with the reference definition of that function; equal normal forms decide the rule for all inputs (up to real arithmetic), '
       'otherwise the two terms are told apart, or not, by pseudo-random interpretations of their symbols.')
PY = ' Library and engine calls are uninterpreted symbols apart from a small set of list, string and arithmetic operations.'
EXPL = {
 'P01': 'Separation of two atoms, separation vectors, fractional transformation, box lengths and the box setter in src/pyscal/system.cpp and core.py.' + HOW,
 'P02': 'Direct and cell-list pair search, the cell grid (indices, wrap-around, assignment of atoms, the list of neighboring cells), candidate lists, the species filter and the public call.' + HOW,
 'P03': 'Selection by number, by solid angle and by adaptive cutoff from candidate lists, the stored per-atom cutoff, and the public call.' + HOW,
 'P04': 'Every function that writes, clears or returns a per-neighbor list of an atom, restricted to those lists.' + HOW,
 'P05': 'Every store into a fixed-size member of an atom (300 neighbor slots, 11 orders, 11 x 25 components). Rule applied: the stores of each function are summarised with the capacity replaced by 2, and the index of every store executed under interpretations with more neighbors than that is compared with the capacity; guards that refuse or truncate make the store unreachable. The guarded functions are also compared with reference definitions that contain the guard.',
 'P06': 'Order selection, spherical harmonics, components, averages of components and q values, their getters and setters, and the public calls.' + HOW,
 'P07': 'Every function that averages a per-atom quantity over an atom and its neighbors.' + HOW,
 'P08': 'Bond correlation, solid bond counting, the classification and the public call.' + HOW,
 'P09': 'Cluster growth, labels, the largest cluster and the public calls.' + HOW,
 'P10': 'Shell selection, common neighbors, bond signatures, structure labels, diamond identification and the tallies.' + HOW,
 'P11': 'Disorder, entropy, centrosymmetry, angular criterion, chi parameters and short-range order, in the engine and in core.py.' + HOW,
 'P12': 'Storing, appending, setting and returning atoms in the engine and in core.py, counts of real and all atoms, per-atom results.' + HOW,
 'P13': 'Each accessor bound to an attribute of the engine classes, and the table that binds names to members and accessors.' + HOW,
 'P14': 'Every public calculation and every reset: what is read before it is written and what is left behind.' + HOW,
 'P15': 'Constructors against the scalar members the engine reads, locals read before assignment on some path, and the cell grid.' + HOW,
 'P16': 'Readers, writers and converters of all file formats.' + HOW + PY,
 'P17': 'Indexing, slicing, iteration, addition and conversion of trajectories.' + HOW + PY,
 'P18': 'Every open file, temporary file and engine allocation: each must be released on every path, including exceptional ones (dataflow over the syntax tree).',
 'P19': 'make_crystal and the structure tables (constants are read from the source and compared with the documented lattices).' + HOW + PY,
 'P20': 'Every public function with options: defaults, effect of each value, refusal of unknown values.' + HOW + PY,
 'P21': 'Repeating, embedding, extracting, remapping.' + HOW + PY,
 'P22': 'What the engine reports from the adaptive searches and what the public calls do with it.' + HOW + PY,
 'P23': 'All operations documented as reading, and what they write.' + HOW + PY,
 'P24': 'Voronoi search, weights, faces, volumes and the Voronoi index.' + HOW,
}
