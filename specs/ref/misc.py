import pyscal.core as pc
import numpy as np
import warnings

def compare_atomic_env(infile, atomtype=2, precision=2, format='poscar', print_results=True, return_system=False):
    sys = pc.System()
    sys.read_inputfile(infile, format=format)
    sys.find_neighbors(method='voronoi')
    sys.calculate_vorovector()
    atoms = sys.atoms
    vols = []
    vors = []
    for atom in atoms:
        if atom.type == atomtype:
            vols.append(atom.volume)
            vors.append(' '.join(np.array(atom.vorovector).astype(str)))
    vols = np.array(vols)
    vols = np.round(vols, decimals=precision)
    vvx, vvc = np.unique(vols, return_counts=True)
    vrx, vrc = np.unique(vors, return_counts=True)
    length_mismatch = False
    if len(vvx) != len(vrx):
        warnings.warn('Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?')
        length_mismatch = True
    if precision > 3:
        warnings.warn('More than 3 digits of precision selected!')
    if print_results:
        print('%d clusters found' % len(vvx))
        if not length_mismatch:
            for i in range(len(vvx)):
                print('voro fingerprint = <%s>, vol = %.3f, counts = %d' % (vrx[i], vvx[i], vvc[i]))
        else:
            for i in range(len(vvx)):
                print('voro fingerprint = <x x x x>, vol = %.3f, counts = %d' % (vvx[i], vvc[i]))
        if return_system:
            return sys
    elif return_system:
        return (np.array([vvx, vrx, vvc]), sys)
    else:
        return np.array([vvx, vrx, vvc])

def find_tetrahedral_voids(infile, format='poscar', print_results=True, return_system=False, direct_coordinates=True, precision=0.1):
    sys = pc.System()
    sys.read_inputfile(infile, format=format)
    sys.find_neighbors(method='voronoi')
    sys.calculate_vorovector()
    atoms = sys.atoms
    volumes = []
    pos = []
    types = []
    allatoms = sys.get_all_atoms()
    rotinv = np.linalg.inv(np.array(sys.box, dtype=float))
    if len(atoms) < 21:
        warnings.warn('Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ')
    for atom in atoms:
        if atom.vorovector[1] == 4:
            neighs = np.unique(atom.neighbors)
            dists = np.array([sys.get_distance(atom, allatoms[x]) for x in neighs])
            mindist = dists[np.argsort(dists)][0]
            mindistcount = 0
            for i in range(len(dists)):
                if mindist * (1.0 - precision) <= dists[i] <= mindist * (1.0 + precision):
                    mindistcount += 1
            if mindistcount == 4:
                volumes.append(atom.volume)
                if direct_coordinates:
                    p = atom.pos
                    pos.append(list(np.dot(p, rotinv)))
                else:
                    pos.append(atom.pos)
                types.append(atom.type)
    if print_results:
        if len(volumes) > 0:
            print('%d atoms found in tetrahedral position' % len(volumes))
            for i in range(len(volumes)):
                print('%d  volume %f type %d at %f, %f, %f' % (i + 1, volumes[i], types[i], pos[i][0], pos[i][1], pos[i][2]))
        else:
            print('no atoms found in tetrahedral position')
    if return_system:
        return (types, volumes, pos, sys)
    else:
        return (types, volumes, pos)
