import numpy as np
import gzip
import contextlib
import pyscal.catom as pca
from ase import Atom, Atoms
import gzip
import io
import os

def read_snap(infile, compressed=False, check_triclinic=False, customkeys=None):
    if isinstance(infile, list):
        islist = True
        f = infile
    else:
        islist = False
    if customkeys == None:
        customkeys = []
    paramsread = False
    atoms = []
    triclinic = False
    volume_fraction = 1.0
    customread = False
    customlength = len(customkeys)
    if customlength > 0:
        customread = True
    if not islist:
        if not os.path.exists(infile):
            raise FileNotFoundError('Filename %s not found' % infile)
        raw = infile.split('.')
        if raw[-1] == 'gz' or compressed:
            f = gzip.open(infile, 'rt')
        else:
            f = open(infile, 'r')
    nblock = 0
    with contextlib.nullcontext() if islist else f:
        for count, line in enumerate(f):
            if not paramsread:
                if count == 3:
                    natoms = int(line.strip())
                    nblock = natoms + 9
                elif count == 5:
                    raw = line.strip().split()
                    boxx = [float(raw[0]), float(raw[1])]
                    if len(raw) == 3:
                        xy = float(raw[2])
                elif count == 6:
                    raw = line.strip().split()
                    boxy = [float(raw[0]), float(raw[1])]
                    if len(raw) == 3:
                        xz = float(raw[2])
                elif count == 7:
                    raw = line.strip().split()
                    boxz = [float(raw[0]), float(raw[1])]
                    if len(raw) == 3:
                        yz = float(raw[2])
                        triclinic = True
                        tilts = [xy, xz, yz]
                elif count == 8:
                    raw = line.strip().split()
                    headerdict = {raw[x]: x - 2 for x in range(0, len(raw))}
                    paramsread = True
                    if customread:
                        if not np.prod([x in headerdict for x in customkeys]):
                            raise KeyError('some values in custokeys was not found in the file')
                    if 'x' in headerdict.keys():
                        scaled = False
                    elif 'xs' in headerdict.keys():
                        scaled = True
                        headerdict['x'] = headerdict.pop('xs')
                        headerdict['y'] = headerdict.pop('ys')
                        headerdict['z'] = headerdict.pop('zs')
                    else:
                        raise ValueError('only x/xs, y/ys andz/zs keys are allowed for traj file')
            else:
                if count == nblock:
                    break
                raw = line.strip().split()
                idd = int(raw[headerdict['id']])
                typ = int(raw[headerdict['type']])
                x = float(raw[headerdict['x']])
                y = float(raw[headerdict['y']])
                z = float(raw[headerdict['z']])
                atom = pca.Atom()
                atom.pos = [x, y, z]
                atom.id = idd
                atom.type = typ
                atom.loc = count - 9
                customdict = {}
                if customread:
                    for cc, kk in enumerate(customkeys):
                        customdict[kk] = raw[headerdict[kk]]
                atom.custom = customdict
                atoms.append(atom)
    if triclinic:
        amin = min([0.0, tilts[0], tilts[1], tilts[0] + tilts[1]])
        amax = max([0.0, tilts[0], tilts[1], tilts[0] + tilts[1]])
        bmin = min([0.0, tilts[2]])
        bmax = max([0.0, tilts[2]])
        xlo = boxx[0] - amin
        xhi = boxx[1] - amax
        ylo = boxy[0] - bmin
        yhi = boxy[1] - bmax
        zlo = boxz[0]
        zhi = boxz[1]
        a = np.array([xhi - xlo, 0, 0])
        b = np.array([tilts[0], yhi - ylo, 0])
        c = np.array([tilts[1], tilts[2], zhi - zlo])
        rot = np.array([a, b, c]).T
        rotinv = np.linalg.inv(rot)
        origin = np.array([xlo, ylo, zlo])
        if not scaled:
            for atom in atoms:
                dist = np.array(atom.pos) - origin
                atom.pos = dist
        box = np.array([a, b, c])
    else:
        box = np.array([[boxx[1] - boxx[0], 0, 0], [0, boxy[1] - boxy[0], 0], [0, 0, boxz[1] - boxz[0]]])
    if scaled:
        for atom in atoms:
            dist = atom.pos
            ndist = dist[0] * box[0] + dist[1] * box[1] + dist[2] * box[2]
            atom.pos = ndist
    if check_triclinic:
        return (atoms, box, triclinic)
    else:
        return (atoms, box)

def write_snap(sys, outfile, compressed=False, customkeys=None, customvals=None, timestep=0):
    if customkeys == None:
        customkeys = []
    elif isinstance(customkeys, str):
        customkeys = [customkeys]
        if customvals is not None and np.ndim(customvals) == 1:
            customvals = [[val] for val in customvals]
    box = sys.box
    boxx = np.sqrt(np.sum(np.array(box[0]) ** 2))
    boxy = np.sqrt(np.sum(np.array(box[1]) ** 2))
    boxz = np.sqrt(np.sum(np.array(box[2]) ** 2))
    atoms = sys.atoms
    cell = np.array(box, dtype=float)
    triclinic = np.abs(cell - np.diag(np.diag(cell))).sum() > 1e-06
    if triclinic:
        xy = np.dot(cell[1], cell[0]) / boxx
        xz = np.dot(cell[2], cell[0]) / boxx
        boxy = np.sqrt(boxy ** 2 - xy ** 2)
        yz = (np.dot(cell[1], cell[2]) - xy * xz) / boxy
        boxz = np.sqrt(boxz ** 2 - xz ** 2 - yz ** 2)
        lammps_cell = np.array([[boxx, 0, 0], [xy, boxy, 0], [xz, yz, boxz]])
        rotation = np.dot(np.linalg.inv(cell), lammps_cell)
    if len(customkeys) > 0:
        if customvals is None:
            cvals = [sys.get_custom(atom, customkeys) for atom in atoms]
        else:
            shape = np.array(customvals).shape
            rqdshape = (len(atoms), len(customkeys))
            if shape != rqdshape:
                raise ValueError('Customvals should be of shape natoms x ncustomkeys. Found %d-%d, should be %d-%d' % (shape[0], shape[1], rqdshape[0], rqdshape[1]))
            cvals = customvals
    if isinstance(outfile, io.IOBase):
        dump = outfile
    elif compressed:
        gz = gzip.open(outfile, 'wt')
        dump = gz
    else:
        gz = open(outfile, 'w')
        dump = gz
    with contextlib.nullcontext() if isinstance(outfile, io.IOBase) else dump:
        dump.write('ITEM: TIMESTEP\n')
        dump.write('%d\n' % timestep)
        dump.write('ITEM: NUMBER OF ATOMS\n')
        dump.write('%d\n' % len(atoms))
        if triclinic:
            dump.write('ITEM: BOX BOUNDS xy xz yz\n')
            dump.write('%f %f %f\n' % (min(0, xy, xz, xy + xz), boxx + max(0, xy, xz, xy + xz), xy))
            dump.write('%f %f %f\n' % (min(0, yz), boxy + max(0, yz), xz))
            dump.write('%f %f %f\n' % (0, boxz, yz))
        else:
            dump.write('ITEM: BOX BOUNDS\n')
            dump.write('%f %f\n' % (0, boxx))
            dump.write('%f %f\n' % (0, boxy))
            dump.write('%f %f\n' % (0, boxz))
        if len(customkeys) > 0:
            ckey = ' '.join(customkeys)
            title_str = 'ITEM: ATOMS id type x y z %s\n' % ckey
        else:
            title_str = 'ITEM: ATOMS id type x y z\n'
        dump.write(title_str)
        for cc, atom in enumerate(atoms):
            pos = atom.pos
            if triclinic:
                pos = np.dot(pos, rotation)
            if len(customkeys) > 0:
                cval_atom = ' '.join(np.array(list(cvals[cc])).astype(str))
                atomline = '%d %d %f %f %f %s\n' % (atom.id, atom.type, pos[0], pos[1], pos[2], cval_atom)
            else:
                atomline = '%d %d %f %f %f\n' % (atom.id, atom.type, pos[0], pos[1], pos[2])
            dump.write(atomline)

def split_snaps(infile, compressed=False):
    raw = infile.split('.')
    if raw[-1] == 'gz' or compressed:
        f = gzip.open(infile, 'rt')
    else:
        f = open(infile, 'r')
    with f:
        for count, line in enumerate(f):
            if count == 3:
                natoms = int(line.strip())
                break
    nblock = natoms + 9
    startblock = 0
    count = 1
    snaps = []
    if raw[-1] == 'gz' or compressed:
        f = gzip.open(infile, 'rt')
    else:
        f = open(infile, 'r')
    with f:
        for line in f:
            if count == 1:
                ff = '.'.join([infile, 'snap', str(startblock), 'dat'])
                lines = []
                lines.append(line)
            elif count < nblock:
                lines.append(line)
            else:
                lines.append(line)
                snaps.append(ff)
                with open(ff, 'w') as fout:
                    for wline in lines:
                        fout.write(wline)
                count = 0
                startblock += 1
            count += 1
    return snaps

def convert_snap(**kwargs):
    raise NotImplementedError('convert method for mdtraj is not implemented')
