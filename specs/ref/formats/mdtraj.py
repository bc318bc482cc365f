import numpy as np
import gzip
import pyscal.catom as pca
from ase import Atom, Atoms
import gzip
import io
import os

def read_snap(mdobject, check_triclinic=False):
    a = np.array(mdobject.unitcell_vectors[0][0])
    b = np.array(mdobject.unitcell_vectors[0][1])
    c = np.array(mdobject.unitcell_vectors[0][2])
    box = np.array([a, b, c])
    chems = np.array([atom.name for atom in mdobject.topology.atoms])
    atomsymbols = np.unique(chems)
    atomtypes = np.array(range(1, len(atomsymbols) + 1))
    typedict = dict(zip(atomsymbols, atomtypes))
    atoms = []
    positions = mdobject.xyz[0]
    for count, position in enumerate(positions):
        atom = pca.Atom()
        atom.pos = list(position)
        atom.id = count + 1
        atom.type = typedict[chems[count]]
        atom.loc = count
        customdict = {'species': chems[count]}
        atom.custom = customdict
        atoms.append(atom)
    return (atoms, box)

def write_snap(**kwargs):
    raise NotImplementedError('write method for mdtraj is not implemented')

def split_snaps(**kwargs):
    raise NotImplementedError('split method for mdtraj is not implemented')

def convert_snap(**kwargs):
    raise NotImplementedError('convert method for mdtraj is not implemented')
