import numpy as np
import gzip
import pyscal.catom as pca
from ase.io import read
from ase import Atom, Atoms
import gzip
import io
import os

def read_snap(filename, check_triclinic=False):
    if isinstance(filename, Atoms):
        aseobject = filename
    else:
        aseobject = read(filename)
    a = np.array(aseobject.cell[0])
    b = np.array(aseobject.cell[1])
    c = np.array(aseobject.cell[2])
    box = np.array([a, b, c])
    chems = np.array(aseobject.get_chemical_symbols())
    atomsymbols = np.unique(aseobject.get_chemical_symbols())
    atomtypes = np.array(range(1, len(atomsymbols) + 1))
    typedict = dict(zip(atomsymbols, atomtypes))
    atoms = []
    positions = aseobject.positions
    for count, position in enumerate(positions):
        atom = pca.Atom()
        atom.pos = list(position)
        atom.id = count + 1
        atom.type = typedict[chems[count]]
        atom.loc = count
        customdict = {'species': chems[count]}
        atom.custom = customdict
        atoms.append(atom)
    return (atoms, box)

def write_snap(**kwargs):
    raise NotImplementedError('write method for mdtraj is not implemented')

def split_snaps(**kwargs):
    raise NotImplementedError('split method for mdtraj is not implemented')

def convert_snap(sys, species=None):
    atoms = sys.atoms
    if 'species' not in atoms[0].custom.keys():
        if species is None:
            raise ValueError('Species was not known! To convert to ase, species need to be provided using the species keyword')
        types = [atom.type for atom in atoms]
        unique_types = np.unique(types)
        if not len(unique_types) == len(species):
            raise ValueError('Length of species and number of types found in system are different. Maybe you specified "Au" instead of ["Au"]')
        symbols = [species[int(atom.type - 1)] for atom in atoms]
        specieskey = ''.join(species)
    else:
        types = [atom.type for atom in atoms]
        unique_types = np.unique(types)
        species = []
        for ut in unique_types:
            for atom in atoms:
                if ut == atom.type:
                    species.append(atom.custom['species'])
                    break
        specieskey = ''.join(species)
        symbols = [atom.custom['species'] for atom in atoms]
    cell = sys.box
    pbc = [1, 1, 1]
    aseobject = Atoms()
    aseobject.cell = cell
    aseobject.pbc = pbc
    for symbol, atom in zip(symbols, atoms):
        aseatom = Atom(symbol, atom.pos)
        aseobject.append(aseatom)
    return aseobject
