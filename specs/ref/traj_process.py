import numpy as np
import gzip
import pyscal.catom as pca
from ase import Atom, Atoms
import gzip
import io
import os
import warnings
from ase.io import write, read
import pyscal.formats.ase as ptase
import pyscal.formats.lammps as ptlammps
import pyscal.formats.mdtraj as ptmdtraj
import pyscal.formats.vasp as ptvasp

def read_file(filename, format='lammps-dump', compressed=False, customkeys=None):
    if customkeys == None:
        customkeys = []
    customread = len(customkeys) > 0
    if format == 'lammps-dump':
        atoms, box, is_triclinic = ptlammps.read_snap(filename, compressed=compressed, check_triclinic=True, customkeys=customkeys)
    elif format == 'ase':
        atoms, box = ptase.read_snap(filename)
    elif format == 'mdtraj':
        atoms, box = ptmdtraj.read_snap(filename)
    elif format == 'poscar':
        atoms, box = ptvasp.read_snap(filename, compressed=compressed)
    else:
        try:
            aseobject = read(filename, format=format)
            atoms, box = ptase.read_snap(aseobject)
            warnings.warn('Using ase backend to read file')
        except:
            raise TypeError('format recieved an unknown option %s' % format)
    return (atoms, box)

def write_file(sys, outfile, format='lammps-dump', compressed=False, customkeys=None, customvals=None, timestep=0, species=None):
    if format == 'lammps-dump':
        ptlammps.write_snap(sys, outfile, compressed=compressed, customkeys=customkeys, customvals=customvals, timestep=timestep)
    elif format == 'lammps-data':
        aseobject = ptase.convert_snap(sys, species=species)
        write(outfile, aseobject, format='lammps-data')
    elif format == 'poscar':
        ptvasp.write_snap(sys, outfile, species=species, compressed=compressed)
    else:
        try:
            aseobject = ptase.convert_snap(sys, species=species)
            write(outfile, aseobject, format=format)
            warnings.warn('Using ase backend to write file')
        except:
            raise TypeError('format recieved an unknown option %s' % format)

def split_trajectory(infile, format='lammps-dump', compressed=False):
    if not os.path.exists(infile):
        raise FileNotFoundError('Filename %s not found' % infile)
    snaps = []
    if format == 'lammps-dump':
        snaps = ptlammps.split_snaps(infile, compressed=compressed)
    elif format == 'ase':
        snaps = ptase.split_snaps()
    elif format == 'mdtraj':
        snaps = ptmdtraj.split_snaps()
    elif format == 'poscar':
        snaps = ptvasp.split_snaps()
    else:
        raise TypeError('format recieved an unknown option %s' % format)
    return snaps
