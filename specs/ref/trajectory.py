import os
import numpy as np
from pyscal.formats.ase import convert_snap
import pyscal.core as pc
import warnings
import random

class Timeslice:

    def __init__(self, trajectory, blocklist):
        self.trajectory = trajectory
        self.blocklist = blocklist
        self.trajectories = [trajectory]
        self.blocklists = [blocklist]

    def __repr__(self):
        blockstring = ['%d-%d' % (x[0], x[-1]) for x in self.blocklists]
        blockstring = '/'.join(blockstring)
        data = 'Trajectory slice\n %s\n natoms=%d\n' % (blockstring, self.trajectory.natoms)
        return data

    def __add__(self, ntraj):
        total = Timeslice(self.trajectory, self.blocklist)
        total.trajectories = self.trajectories + ntraj.trajectories
        total.blocklists = self.blocklists + ntraj.blocklists
        return total

    def __radd__(self, ntraj):
        if ntraj == 0:
            return self
        else:
            return self.__add__(ntraj)

    def to_system(self, customkeys=None):
        sys = []
        for count, traj in enumerate(self.trajectories):
            for x in self.blocklists[count]:
                s = self.trajectories[count]._get_block_as_system(x, customkeys=customkeys)
                sys.append(s)
        return sys

    def to_ase(self, species=None):
        sys = []
        for count, traj in enumerate(self.trajectories):
            for x in self.blocklists[count]:
                s = self.trajectories[count]._get_block_as_ase(x, species=species)
                sys.append(s)
        return sys

    def to_dict(self):
        data = []
        for count, traj in enumerate(self.trajectories):
            for x in self.blocklists[count]:
                loaded = self.trajectories[count].loadlist[x]
                if not loaded:
                    self.trajectories[count].load(x)
                data.append(self.trajectories[count].data[x])
                if not loaded:
                    self.trajectories[count].unload(x)
        return data

    def to_file(self, outfile, mode='w'):
        with open(outfile, mode) as fout:
            for count, traj in enumerate(self.trajectories):
                self.trajectories[count]._get_blocks_to_file(fout, self.blocklists[count])

class Trajectory:

    def __init__(self, filename):
        if os.path.exists(filename):
            self.filename = filename
        else:
            raise FileNotFoundError('%s file not found' % filename)
        self.natoms = 0
        self.blocksize = 0
        self.nblocks = 0
        self.loadlist = None
        self.data = None
        self._get_natoms()
        self._get_nblocks()

    def __repr__(self):
        return 'Trajectory of %d slices with %d atoms' % (self.nblocks, self.natoms)

    def __getitem__(self, blockno):
        if isinstance(blockno, slice):
            blocklist = range(*blockno.indices(self.nblocks))
            timeslice = Timeslice(self, blocklist)
            return timeslice
        else:
            blocklist = [range(self.nblocks)[blockno]]
            timeslice = Timeslice(self, blocklist)
            return timeslice

    def _get_natoms(self):
        with open(self.filename, 'rb') as fout:
            data = [next(fout) for x in range(0, 4)]
        self.natoms = int(data[-1])

    def _get_nlines(self):
        line_offset = []
        offset = 0
        nlines = 0
        with open(self.filename, 'rb') as fin:
            for line in fin:
                line_offset.append(offset)
                offset += len(line)
                nlines += 1
        self.nlines = nlines
        self.line_offset = line_offset
        return nlines

    def _get_nblocks(self):
        self._get_natoms()
        nlines = self._get_nlines()
        self.blocksize = self.natoms + 9
        self.nblocks = nlines // self.blocksize
        self.straylines = nlines - self.nblocks * self.blocksize
        self.loadlist = [False for x in range(self.nblocks)]
        self.data = [None for x in range(self.nblocks)]

    def _yield(self, index, output):
        if output == 'index':
            return index
        elif output == 'system':
            return Timeslice(self, [index]).to_system()[0]

    def iter(self, method='ascending', n_slices=None, output='index'):
        if n_slices is None:
            n_slices = self.nblocks
        if method == 'ascending':
            for i in range(n_slices):
                yield self._yield(i, output)
        elif method == 'descending':
            for i in range(n_slices):
                yield self._yield(self.nblocks - 1 - i, output)
        elif method == 'random':
            slice_list = np.arange(0, self.nblocks, 1).astype(int)
            random.shuffle(slice_list)
            for i in slice_list[:n_slices]:
                yield self._yield(i, output)
        else:
            raise ValueError('Unknown method')

    def get_block(self, blockno):
        start = blockno * self.blocksize
        stop = (blockno + 1) * self.blocksize
        data = []
        with open(self.filename, 'rb') as fin:
            fin.seek(self.line_offset[start])
            for i in range(self.blocksize):
                line = fin.readline().decode('utf-8')
                data.append(line)
        return data

    def load(self, blockno):
        data = self.get_block(blockno)
        box = np.loadtxt(data[5:8])
        columns = np.loadtxt(data[9:], ndmin=2)
        header = np.loadtxt(data[8:9], dtype=str)[2:]
        outdict = {}
        outdict['box'] = box
        outdict['atoms'] = {}
        for count, h in enumerate(header):
            outdict['atoms'][h] = columns[:, count]
        self.data[blockno] = outdict
        self.loadlist[blockno] = True

    def unload(self, blockno):
        self.data[blockno] = None
        self.loadlist[blockno] = False

    def _convert_data_to_lines(self, blockno):
        dd = self.data[blockno]
        data = self.get_block(blockno)[:5]
        for b in dd['box']:
            dstr = ' '.join(b.astype(str))
            data.append(''.join([dstr, os.linesep]))
        xf = []
        xd = []
        xfkeys = []
        xdkeys = []
        for key, val in dd['atoms'].items():
            if key in ['id', 'type']:
                val.astype(int)
                xd.append(val)
                xdkeys.append(key)
            else:
                xf.append(val)
                xfkeys.append(key)
        xdstrs = []
        if len(xd) > 0:
            for i in range(len(xd[0])):
                substr = []
                for j in range(len(xdkeys)):
                    substr.append('%d' % xd[j][i])
                xdstrs.append(' '.join(substr))
        xdheader = ' '.join(xdkeys)
        xdheader = ' '.join(['ITEM: ATOMS', xdheader])
        xfstrs = []
        xf = np.array(xf)
        if len(xf) > 0:
            for i in range(len(xf[0])):
                dstr = ' '.join(xf[:, i].astype(str))
                xfstrs.append(''.join([dstr, os.linesep]))
        xfheader = ' '.join(xfkeys)
        mainheader = ' '.join([xdheader, xfheader])
        mainheader = ''.join([mainheader, os.linesep])
        data.append(mainheader)
        for i in range(len(xfstrs)):
            valstr = ' '.join([xdstrs[i], xfstrs[i]])
            data.append(valstr)
        return data

    def _get_block_as_system(self, blockno, customkeys=None):
        data = self.get_block(blockno)
        sys = pc.System()
        sys.read_inputfile(data, customkeys=customkeys)
        return sys

    def _get_block_as_ase(self, blockno, species=None):
        data = self.get_block(blockno)
        sys = pc.System()
        sys.read_inputfile(data, customkeys=None)
        asesys = convert_snap(sys, species=species)
        return asesys

    def _get_blocks_to_file(self, fout, blocklist):
        xl = [x for x in blocklist]
        xl = np.array(xl)
        for x in xl:
            if self.loadlist[x]:
                data = self._convert_data_to_lines(x)
            else:
                data = self.get_block(x)
            for line in data:
                fout.write(line)
