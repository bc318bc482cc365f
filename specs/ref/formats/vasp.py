import numpy as np
import gzip
import pyscal.catom as pca
from ase import Atom, Atoms
import gzip
import io
import os
from ase.io import write, read
import pyscal.formats.ase as ptase
import warnings

def read_snap(infile, compressed=False):
    if compressed or str(infile).split('.')[-1] == 'gz':
        with gzip.open(infile, 'rt') as fin:
            aseobj = read(fin, format='vasp')
    else:
        aseobj = read(infile, format='vasp')
    atoms, box = ptase.read_snap(aseobj)
    return (atoms, box)

def write_snap(sys, outfile, comments='pyscal', species=None, compressed=False):
    if species is None:
        warnings.warn('Using legacy poscar writer, to use ASE backend specify species')
        write_poscar(sys, outfile, comments=comments, compressed=compressed)
    else:
        aseobj = ptase.convert_snap(sys, species=species)
        if compressed:
            with gzip.open(outfile, 'wt') as fout:
                write(fout, aseobj, format='vasp')
        else:
            write(outfile, aseobj, format='vasp')

def split_snaps(**kwargs):
    raise NotImplementedError('split method for mdtraj is not implemented')

def convert_snap(**kwargs):
    raise NotImplementedError('convert method for mdtraj is not implemented')

def write_poscar(sys, outfile, comments='pyscal', compressed=False):
    if compressed:
        fout = gzip.open(outfile, 'wt')
    else:
        fout = open(outfile, 'w')
    with fout:
        fout.write(comments + '\n')
        fout.write('   1.00000000000000\n')
        vecs = sys.box
        fout.write('      %1.14f %1.14f %1.14f\n' % (vecs[0][0], vecs[0][1], vecs[0][2]))
        fout.write('      %1.14f %1.14f %1.14f\n' % (vecs[1][0], vecs[1][1], vecs[1][2]))
        fout.write('      %1.14f %1.14f %1.14f\n' % (vecs[2][0], vecs[2][1], vecs[2][2]))
        atoms = sys.atoms
        atypes = [atom.type for atom in atoms]
        tt, cc = np.unique(atypes, return_counts=True)
        atomgroups = [[] for x in range(len(tt))]
        for count, t in enumerate(tt):
            for atom in atoms:
                if int(atom.type) == t:
                    atomgroups[count].append(atom)
        fout.write('  ')
        for c in cc:
            fout.write('%d   ' % int(c))
        fout.write('\n')
        fout.write('Cartesian\n')
        for i in range(len(atomgroups)):
            for atom in atomgroups[i]:
                pos = atom.pos
                fout.write(' %1.14f %1.14f %1.14f\n' % (pos[0], pos[1], pos[2]))
