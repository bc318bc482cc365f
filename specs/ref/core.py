import pyscal.traj_process as ptp
from pyscal.formats.ase import convert_snap
import pyscal.routines as routines
import os
import numpy as np
import warnings
import pyscal.csystem as pc
from pyscal.catom import Atom
import itertools
from ase.io import write
import uuid
import gzip
import io

def test():
    try:
        s = System()
        a = Atom()
        return True
    except:
        return False

class System(pc.System):

    def __init__(self):
        self.initialized = True
        self.neighbors_found = False
        self.neighbor_method = None
        self.ghosts_created = False
        self.actual_box = None
        pc.System.__init__(self)

    def iter_atoms(self):
        for i in range(self.natoms):
            yield self.cget_atom(i)

    @property
    def box(self):
        if self.actual_box is not None:
            return self.actual_box
        else:
            return self._box

    @box.setter
    def box(self, userbox):
        self.actual_box = None
        self._assign_box(userbox)

    def _assign_box(self, userbox):
        summ = 0
        for i in range(3):
            box1 = np.array(userbox[i - 1])
            box2 = np.array(userbox[i])
            summ += np.abs(np.dot(box1, box2) / (np.linalg.norm(box1) * np.linalg.norm(box2)))
        if summ > 1e-06:
            rot = np.array(userbox).T
            rotinv = np.linalg.inv(rot)
            self.assign_triclinic_params(rot, rotinv)
        else:
            self.triclinic = 0
        self._box = userbox

    @property
    def atoms(self):
        return self.get_atoms()

    @atoms.setter
    def atoms(self, atoms):
        if len(atoms) < 200:
            needed_atoms = 200 - len(atoms)
            needed_cells = np.ceil(needed_atoms / len(atoms))
            nx = int(needed_cells ** (1 / 3))
            nx = int(np.ceil(nx / 2))
            if np.sum(self.box) == 0:
                raise ValueError('Simulation box should be initialized before atoms')
            atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
        elif not any((atom.ghost for atom in atoms)):
            self.ghosts_created = False
            if self.actual_box is not None:
                self._assign_box(self.actual_box)
                self.actual_box = None
        self.set_atoms(atoms)

    def _store_atoms(self, atoms):
        natoms = len(atoms)
        if natoms < self.ntotal:
            ghosts = self.get_all_atoms()[natoms:]
            if len(ghosts) % natoms == 0:
                for count, ghost in enumerate(ghosts):
                    ghost.condition = atoms[count % natoms].condition
                    ghost.energy = atoms[count % natoms].energy
            atoms = atoms + ghosts
        self.set_atoms(atoms)

    def add_atoms(self, atoms):
        self.cadd_atoms(atoms)

    def read_inputfile(self, filename, format='lammps-dump', compressed=False, customkeys=None):
        atoms, box = ptp.read_file(filename, format=format, compressed=compressed, customkeys=customkeys)
        self.box = box
        self.atoms = atoms

    def get_atom(self, index):
        atom = self.cget_atom(index)
        return atom

    def set_atom(self, atom):
        self.cset_atom(atom)

    def calculate_rdf(self, histobins=100, histomin=0.0, histomax=None):
        distances = self.get_pairdistances()
        if histomax == None:
            histomax = max(distances)
        hist, bin_edges = np.histogram(distances, bins=histobins, range=(histomin, histomax))
        edgewidth = np.abs(bin_edges[1] - bin_edges[0])
        hist = hist.astype(float)
        r = bin_edges[:-1]
        boxvecs = self._box
        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
        natoms = self.ntotal
        rho = int(natoms * (natoms - 1) * 0.5) / vol
        shell_vols = 4.0 / 3.0 * np.pi * ((r + edgewidth) ** 3 - r ** 3)
        shell_rho = hist / shell_vols
        rdf = shell_rho / rho
        return (rdf, r)

    def get_qvals(self, q, averaged=False):
        if isinstance(q, int):
            if q in range(2, 13):
                if averaged:
                    rq = self.cget_aqvals(q)
                else:
                    rq = self.cget_qvals(q)
                return rq
            else:
                raise ValueError('the value of q should be between 2 and 12')
        else:
            for qq in q:
                if not qq in range(2, 13):
                    raise ValueError('the value of q should be between 2 and 12')
            if averaged:
                rq = [self.cget_aqvals(qq) for qq in q]
            else:
                rq = [self.cget_qvals(qq) for qq in q]
            return rq

    def get_distance(self, atom1, atom2, vector=False):
        if vector:
            displacement_vector = self.get_absdistance_vector(atom1, atom2)
            return (self.get_absdistance(atom1, atom2), displacement_vector)
        else:
            return self.get_absdistance(atom1, atom2)

    def find_neighbors(self, method='cutoff', cutoff=None, threshold=2, filter=None, voroexp=1, padding=1.2, nlimit=6, cells=False, nmax=12, assign_neighbor=True):
        if method not in ['cutoff', 'number', 'voronoi']:
            raise ValueError('method should be cutoff, number or voronoi')
        if filter not in [None, 'type', 'type_r']:
            raise ValueError('filter should be None, type or type_r')
        self.reset_neighbors()
        self.filter = 0
        if filter == 'type':
            self.filter = 1
        if filter == 'type_r':
            self.filter = 2
        if method == 'cutoff':
            if cutoff == 'sann':
                if threshold < 1:
                    raise ValueError('value of threshold should be at least 1.00')
                self.usecells = len(self.atoms) > 4000
                finished = self.get_all_neighbors_sann(threshold)
                if not finished:
                    finallydone = False
                    for i in range(1, 10):
                        warnings.warn('Could not find sann cutoff. trying with a higher threshold', RuntimeWarning)
                        self.reset_allneighbors()
                        newfinished = self.get_all_neighbors_sann(threshold * i)
                        if newfinished:
                            finallydone = True
                            warnings.warn('found neighbors with higher threshold than default/user input')
                            break
                    if not finallydone:
                        raise RuntimeError('sann cutoff could not be converged. This is most likely,                         due to a low threshold value. Try increasing it.')
            elif cutoff == 'adaptive' or cutoff == 0:
                if threshold < 1:
                    raise ValueError('value of threshold should be at least 1.00')
                self.usecells = self.ntotal > 4000
                finished = self.get_all_neighbors_adaptive(threshold, nlimit, padding)
                if not finished:
                    raise RuntimeError('Could not find adaptive cutoff')
            else:
                self.set_neighbordistance(cutoff)
                if len(self.atoms) > 2300:
                    self.get_all_neighbors_cells()
                else:
                    self.get_all_neighbors_normal()
        elif method == 'number':
            if threshold < 1:
                raise ValueError('value of threshold should be at least 1.00')
            self.usecells = len(self.atoms) > 4000
            finished = self.get_all_neighbors_bynumber(threshold, nmax, assign_neighbor)
            if not finished:
                raise RuntimeError('Could not find enough neighbors - try increasing threshold')
        elif method == 'voronoi':
            self.voroexp = int(voroexp)
            if self.triclinic and (not self.ghosts_created):
                atoms = self.get_atoms()
                atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                self.set_atoms(atoms)
            backupbox = self._box.copy()
            if self.triclinic:
                self.embed_in_cubic_box()
                self.triclinic = 1
            self.get_all_neighbors_voronoi()
            self._assign_box(backupbox)
        self.neighbors_found = True

    def find_diamond_neighbors(self):
        self.reset_neighbors()
        self.find_neighbors(method='number', nmax=4, assign_neighbor=False)
        self.get_diamond_neighbors()

    def reset_neighbors(self):
        self.reset_allneighbors()
        self.neighbors_found = False

    def calculate_vorovector(self, edge_cutoff=0.05, area_cutoff=0.01, edge_length=False):
        atoms = self.atoms
        for atom in atoms:
            st = 1
            refined_edges = []
            edge_lengths = []
            for vno in atom.face_vertices:
                vphase = atom.vertex_numbers[st:st + vno]
                edgecount = 0
                dummy_edge_lengths = []
                for i in range(-1, len(vphase) - 1):
                    ipos = atom.vertex_vectors[vphase[i] * 3:vphase[i] * 3 + 3]
                    jpos = atom.vertex_vectors[vphase[i + 1] * 3:vphase[i + 1] * 3 + 3]
                    edgeln = np.sqrt((ipos[0] - jpos[0]) ** 2 + (ipos[1] - jpos[1]) ** 2 + (ipos[2] - jpos[2]) ** 2)
                    dummy_edge_lengths.append(edgeln)
                edge_lengths.append(dummy_edge_lengths)
                st += vno + 1
            for c, ed in enumerate(edge_lengths):
                norm = ed / np.sum(ed)
                if atom.neighbor_weights[c] > area_cutoff:
                    edgecount = len([cc for cc, x in enumerate(norm) if x > edge_cutoff])
                    refined_edges.append(edgecount)
            vorovector = [0, 0, 0, 0]
            for ed in refined_edges:
                if ed == 3:
                    vorovector[0] += 1
                elif ed == 4:
                    vorovector[1] += 1
                elif ed == 5:
                    vorovector[2] += 1
                elif ed == 6:
                    vorovector[3] += 1
            atom.edge_lengths = edge_lengths
            atom.vorovector = vorovector
        self._store_atoms(atoms)

    def calculate_q(self, q, averaged=False, only_averaged=False, condition=None, clear_condition=False):
        if isinstance(q, int):
            qq = [q]
        else:
            qq = q
        for ql in qq:
            if not ql in range(2, 13):
                raise ValueError('value of q should be between 2 and 13')
        if condition is not None:
            testatom = self.atoms[0]
            isatomattr = False
            try:
                out = condition(testatom)
                if out not in [True, False, 0, 1]:
                    raise RuntimeError('The output of condition should be either True or False. Received %s' % str(out))
            except:
                try:
                    out = self.get_custom(testatom, [condition])[0]
                    if out not in [True, False, 0, 1]:
                        raise RuntimeError('The output of condition should be either True or False. Received %s' % str(out))
                    isatomattr = True
                except:
                    raise RuntimeError('condition did not work')
            atoms = self.atoms
            if isatomattr:
                for atom in atoms:
                    atom.condition = self.get_custom(atom, [condition])[0]
            else:
                for atom in atoms:
                    cval = condition(atom)
                    atom.condition = cval
            self._store_atoms(atoms)
        if clear_condition:
            atoms = self.atoms
            for atom in atoms:
                atom.condition = 0
            self._store_atoms(atoms)
        if not only_averaged:
            self.ccalculate_q(qq)
        if averaged or only_averaged:
            self.ccalculate_aq(qq)

    def find_solids(self, bonds=0.5, threshold=0.5, avgthreshold=0.6, cluster=True, q=6, cutoff=0, right=True):
        if not self.neighbors_found:
            raise RuntimeError('neighbors should be calculated before finding solid atoms. Run System.find_neighbors.')
        if not isinstance(q, int):
            raise TypeError('q should be interger value')
        elif not (q >= 2 and q <= 12):
            raise ValueError('Value of q should be between 2 and 12')
        if not isinstance(threshold, (int, float)):
            raise TypeError('threshold should be a float value')
        elif not (threshold >= 0 and threshold <= 1):
            raise ValueError('Value of threshold should be between 0 and 1')
        if not isinstance(avgthreshold, (int, float)):
            raise TypeError('avgthreshold should be a float value')
        elif not (avgthreshold >= 0 and avgthreshold <= 1):
            raise ValueError('Value of avgthreshold should be between 0 and 1')
        if isinstance(bonds, int):
            self.criteria = 0
        elif isinstance(bonds, float):
            if bonds >= 0 and bonds <= 1.0:
                self.criteria = 1
            else:
                raise TypeError('bonds if float should have value between 0-1')
        else:
            raise TypeError('bonds should be interger/float value')
        self.comparecriteria = 0 if right else 1
        self.solidq = q
        self.ccalculate_q([q])
        self.set_nucsize_parameters(bonds, threshold, avgthreshold)
        self.calculate_frenkelnumbers()
        self.find_solid_atoms()
        if cluster:
            lc = self.cluster_atoms('solid', largest=True, cutoff=cutoff)
            return lc

    def set_atom_cutoff(self, factor=1.0):
        self.cset_atom_cutoff(factor)

    def cluster_atoms(self, condition, largest=True, cutoff=0):
        testatom = self.get_atom(0)
        isatomattr = False
        try:
            out = condition(testatom)
            if out not in [True, False, 0, 1]:
                raise RuntimeError('The output of condition should be either True or False. Received %s' % str(out))
        except:
            try:
                out = self.get_custom(testatom, [condition])[0]
                if out not in [True, False, 0, 1]:
                    raise RuntimeError('The output of condition should be either True or False. Received %s' % str(out))
                isatomattr = True
            except:
                raise RuntimeError('condition did not work')
        atoms = self.atoms
        if isatomattr:
            for atom in atoms:
                atom.condition = self.get_custom(atom, [condition])[0]
        else:
            for atom in atoms:
                cval = condition(atom)
                atom.condition = cval
        self._store_atoms(atoms)
        self.cfind_clusters_recursive(cutoff)
        lc = self.find_largest_cluster()
        if largest:
            return lc

    def calculate_solidneighbors(self):
        self.calculate_frenkelnumbers()

    def find_largestcluster(self):
        return self.find_largest_cluster()

    def calculate_angularcriteria(self):
        atoms = self.get_all_atoms()
        for atom in atoms:
            dists = []
            distneighs = []
            distvectors = []
            neighs = atom.neighbors
            for neigh in neighs:
                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
                dists.append(dist)
                distneighs.append(neigh)
                distvectors.append(vectors)
            args = np.argsort(dists)
            topfourargs = np.array(args)[:4]
            combos = list(itertools.combinations(topfourargs, 2))
            costhetasum = 0
            for combo in combos:
                vec1 = distvectors[combo[0]]
                vec2 = distvectors[combo[1]]
                modvec1 = np.sqrt(np.sum([x ** 2 for x in vec1]))
                modvec2 = np.sqrt(np.sum([x ** 2 for x in vec2]))
                costheta = np.dot(vec1, vec2) / (modvec1 * modvec2)
                costhetasum += (costheta + 1.0 / 3.0) ** 2
            atom.angular = costhetasum
        self._store_atoms(atoms)

    def calculate_chiparams(self, angles=False):
        bins = [-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0]
        atoms = self.atoms
        allcosthetas = []
        for atom in atoms:
            dists = []
            distneighs = []
            distvectors = []
            dists = atom.neighbor_distance
            distneighs = atom.neighbors
            distvectors = atom.neighbor_vector
            args = range(len(dists))
            combos = list(itertools.combinations(args, 2))
            costhetas = []
            for combo in combos:
                vec1 = distvectors[combo[0]]
                vec2 = distvectors[combo[1]]
                modvec1 = np.sqrt(np.sum([x ** 2 for x in vec1]))
                modvec2 = np.sqrt(np.sum([x ** 2 for x in vec2]))
                costheta = np.dot(vec1, vec2) / (modvec1 * modvec2)
                costhetas.append(costheta)
            chivector = np.histogram(costhetas, bins=bins)
            atom.chiparams = chivector[0]
            if angles:
                atom.custom['cosines'] = costhetas
                allcosthetas.extend(costhetas)
        self._store_atoms(atoms)
        if angles:
            return np.array(allcosthetas)

    def calculate_cna(self, lattice_constant=None):
        if lattice_constant is None:
            res = self.ccalculate_cna(2)
        else:
            self.lattice_constant = lattice_constant
            res = self.ccalculate_cna(1)
        st = {}
        st['others'] = res[0]
        st['fcc'] = res[1]
        st['hcp'] = res[2]
        st['bcc'] = res[3]
        st['ico'] = res[4]
        return st

    def identify_diamond(self, find_neighbors=True):
        if find_neighbors:
            self.reset_neighbors()
            self.find_neighbors(method='number', nmax=4, assign_neighbor=False, threshold=3)
        res = self.cidentify_diamond_structure()
        st = {}
        st['others'] = res[0]
        st['fcc'] = res[1]
        st['hcp'] = res[2]
        st['bcc'] = res[3]
        st['ico'] = res[4]
        st['cubic diamond'] = res[5]
        st['cubic diamond 1NN'] = res[6]
        st['cubic diamond 2NN'] = res[7]
        st['hex diamond'] = res[8]
        st['hex diamond 1NN'] = res[9]
        st['hex diamond 2NN'] = res[10]
        return st

    def calculate_centrosymmetry(self, nmax=12, get_vals=True):
        if not nmax > 0:
            raise ValueError('nmax cannot be negative')
        if not nmax % 2 == 0:
            raise ValueError('nmax has to even integer')
        self.ccalculate_centrosymmetry(nmax)
        if get_vals:
            vals = self.get_centrosymmetry()
            return vals

    def calculate_disorder(self, averaged=False, q=6):
        if q in range(2, 13):
            self.solidq = q
        else:
            raise ValueError('q values should be between 2-12')
        self.ccalculate_disorder()
        if averaged:
            self.ccalculate_avg_disorder()

    def calculate_sro(self, reference_type=1, average=True, shells=2):
        if not self.neighbors_found:
            raise RuntimeError('Neighbors not found, please find neighbors using the cutoff method')
        if not reference_type in [1, 2]:
            raise ValueError('reference atom type should be either 1 or 2')
        if not shells in [1, 2]:
            raise ValueError('shells should be either 1 or 2')
        atoms = self.get_all_atoms()
        try:
            type1 = len([1 for atom in atoms if atom.type == 1])
            type2 = len([1 for atom in atoms if atom.type == 2])
            concv = [type1, type2]
        except:
            raise RuntimeError('There should be two atom types')
        if not (type1 > 0 and type2 > 0):
            raise RuntimeError('There should be two atom types')
        mref = concv[reference_type - 1] / float(np.sum(concv))
        motr = 1 - mref
        for atom in atoms:
            if atom.type == reference_type:
                neighs = atom.neighbors
                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
                avgdistance = np.mean(distances)
                distsplit = avgdistance / 2.0
                if shells == 2:
                    set1 = [neighs[n] for n, dist in enumerate(distances) if dist <= avgdistance]
                    set2 = [neighs[n] for n, dist in enumerate(distances) if dist > avgdistance]
                    set1ref = np.sum([1 for n in set1 if atoms[n].type == reference_type])
                    set1otr = len(set1) - set1ref
                    set2ref = np.sum([1 for n in set2 if atoms[n].type == reference_type])
                    set2otr = len(set2) - set2ref
                    shell1 = 1 - set1otr / (len(set1) * motr)
                    shell2 = 1 - set2otr / (len(set2) * motr)
                    atom.sro = [shell1, shell2]
                elif shells == 1:
                    set1ref = np.sum([1 for n in neighs if atoms[n].type == reference_type])
                    set1otr = len(neighs) - set1ref
                    shell1 = 1 - set1otr / (len(neighs) * motr)
                    atom.sro = [shell1]
        self._store_atoms(atoms)
        if average:
            vec = np.zeros(shells)
            count = 0
            for atom in atoms:
                if atom.type == reference_type:
                    vec += np.array(atom.sro)
                    count += 1
            return vec / float(count)

    def calculate_pmsro(self, reference_type=1, compare_type=2, average=True, shells=2, delta=True):
        if not self.neighbors_found:
            raise RuntimeError('Neighbors not found, please find neighbors using the cutoff method')
        atoms = self.get_all_atoms()
        typelist = [atom.type for atom in self.iter_atoms()]
        types = np.unique(typelist, return_counts=True)
        if not reference_type in types[0]:
            raise ValueError('reference atom type is invalid')
        if not compare_type in types[0]:
            raise ValueError('Compare atom type is invalid')
        if not shells in [1, 2]:
            raise ValueError('shells should be either 1 or 2')
        counts = dict(zip(types[0], types[1]))
        mref = counts[reference_type] / float(np.sum(types[1]))
        mcomp = counts[compare_type] / float(np.sum(types[1]))
        for atom in atoms:
            if atom.type == reference_type:
                neighs = atom.neighbors
                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
                avgdistance = np.mean(distances)
                distsplit = avgdistance / 2.0
                if shells == 2:
                    set1 = [neighs[n] for n, dist in enumerate(distances) if dist <= avgdistance]
                    set2 = [neighs[n] for n, dist in enumerate(distances) if dist > avgdistance]
                    set1ref = np.sum([1 for n in set1 if atoms[n].type == reference_type])
                    set1comp = np.sum([1 for n in set1 if atoms[n].type == compare_type])
                    set2ref = np.sum([1 for n in set2 if atoms[n].type == reference_type])
                    set2comp = np.sum([1 for n in set2 if atoms[n].type == compare_type])
                    if reference_type == compare_type and delta:
                        shell1 = (set1comp / len(set1) - mcomp) / (1.0 - mcomp)
                        shell2 = (set2comp / len(set2) - mcomp) / (1.0 - mcomp)
                        atom.sro = [shell1, shell2]
                    else:
                        shell1 = 1 - set1comp / (len(set1) * mcomp)
                        shell2 = 1 - set2comp / (len(set2) * mcomp)
                        atom.sro = [shell1, shell2]
                elif shells == 1:
                    set1ref = np.sum([1 for n in neighs if atoms[n].type == reference_type])
                    set1comp = np.sum([1 for n in neighs if atoms[n].type == compare_type])
                    if reference_type == compare_type and delta:
                        shell1 = (set1comp / len(neighs) - mcomp) / (1.0 - mcomp)
                        atom.sro = [shell1]
                    else:
                        shell1 = 1 - set1comp / (len(neighs) * mcomp)
                        atom.sro = [shell1]
        self._store_atoms(atoms)
        if average:
            vec = np.zeros(shells)
            count = 0
            for atom in atoms:
                if atom.type == reference_type:
                    vec += np.array(atom.sro)
                    count += 1
            return vec / float(count)

    def get_custom(self, atom, customkeys):
        vals = []
        for ckey in customkeys:
            if not ckey in atom.custom.keys():
                try:
                    val = getattr(atom, ckey)
                    vals.append(val)
                except AttributeError:
                    if ckey[0] == 'q':
                        qkey = ckey[1:]
                        val = atom.get_q(int(qkey))
                        vals.append(val)
                    elif ckey[:2] == 'aq':
                        qkey = ckey[2:]
                        val = atom.get_q(int(qkey), averaged=True)
                        vals.append(val)
                    else:
                        raise AttributeError('custom key was not found')
            else:
                val = atom.custom[ckey]
                vals.append(val)
        return vals

    def calculate_entropy(self, rm, sigma=0.2, rstart=0.001, h=0.001, local=False, M=12, N=6, ra=None, averaged=False, switching_function=False):
        kb = 1.0
        box = self.box
        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
        if local:
            rho = 0
        else:
            rho = len(self.atoms) / vol
        self.entropy(sigma, rho, rstart, rm, h, kb)
        if averaged:
            if switching_function:
                self.average_entropy_switch(ra, M, N)
            else:
                self.average_entropy()

    def to_file(self, outfile, format='lammps-dump', customkeys=None, customvals=None, compressed=False, timestep=0, species=None):
        ptp.write_file(self, outfile, format=format, compressed=compressed, customkeys=customkeys, customvals=customvals, timestep=timestep, species=species)

    def to_ase(self, species):
        return convert_snap(self, species=species)

    def calculate_energy(self, species='Au', pair_style=None, pair_coeff=None, mass=1.0, averaged=False):
        outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
        try:
            aseobject = self.to_file(outfile, format='lammps-data', species=species)
            indict = routines.get_energy_atom(outfile, species=species, pair_style=pair_style, pair_coeff=pair_coeff, mass=mass)
        finally:
            if os.path.exists(outfile):
                os.remove(outfile)
        if averaged:
            if not self.neighbors_found:
                self.find_neighbors(method='cutoff', cutoff=0)
        atoms = self.get_all_atoms()
        natoms = self.natoms
        for count, atom in enumerate(atoms):
            atom.energy = indict[str(atoms[count % natoms].id)]
        for atom in atoms:
            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
            atom.avg_energy = (neteng + atom.energy) / (len(atom.neighbors) + 1.0)
        self._store_atoms(atoms)

    def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
        actual_box = self.box
        box = actual_box.copy()
        if atoms is None:
            atoms = self.atoms
        newatoms = []
        idstart = len(atoms) + 1
        x1 = -reps[0]
        x2 = reps[0] + 1
        y1 = -reps[1]
        y2 = reps[1] + 1
        z1 = -reps[2]
        z2 = reps[2] + 1
        xs = 2 * reps[0] + 1
        ys = 2 * reps[1] + 1
        zs = 2 * reps[2] + 1
        for i in range(x1, x2):
            for j in range(y1, y2):
                for k in range(z1, z2):
                    if i == j == k == 0:
                        continue
                    for atom in atoms:
                        pos = np.array(atom.pos)
                        pos = pos + i * np.array(box[0]) + j * np.array(box[1]) + k * np.array(box[2])
                        a = Atom()
                        a.pos = pos
                        a.id = idstart
                        idstart += 1
                        a.type = atom.type
                        if ghost:
                            a.ghost = 1
                        newatoms.append(a)
        if scale_box:
            box[0] = xs * np.array(box[0])
            box[1] = ys * np.array(box[1])
            box[2] = zs * np.array(box[2])
            self._assign_box(box)
            self.actual_box = actual_box if ghost else None
        if ghost:
            self.ghosts_created = True
        completeatoms = atoms + newatoms
        return completeatoms

    def embed_in_cubic_box(self):
        box = self._box
        backupbox = box.copy()
        a = np.array(box[0])
        b = np.array(box[1])
        c = np.array(box[2])
        cosa = np.dot(b, c) / (np.linalg.norm(b) * np.linalg.norm(c))
        cosb = np.dot(c, a) / (np.linalg.norm(c) * np.linalg.norm(a))
        cosc = np.dot(a, b) / (np.linalg.norm(a) * np.linalg.norm(b))
        lx = np.linalg.norm(a)
        xy = np.linalg.norm(b) * cosc
        xz = np.linalg.norm(c) * cosb
        ly = np.sqrt(np.linalg.norm(b) * np.linalg.norm(b) - xy * xy)
        yz = (np.linalg.norm(b) * np.linalg.norm(c) * cosa - xy * xz) / ly
        lz = np.sqrt(np.linalg.norm(c) * np.linalg.norm(c) - xz * xz - yz * yz)
        xlo = ylo = zlo = 0
        xhi = lx
        yhi = ly
        zhi = lz
        xlo_bound = xlo + min(0.0, xy, xz, xy + xz)
        xhi_bound = xhi + max(0.0, xy, xz, xy + xz)
        ylo_bound = ylo + min(0.0, yz)
        yhi_bound = yhi + max(0.0, yz)
        zlo_bound = zlo
        zhi_bound = zhi
        newbox = np.array([[xhi_bound - xlo_bound, 0, 0], [0, yhi_bound - ylo_bound, 0], [0, 0, zhi_bound - zlo_bound]])
        self.newbox = newbox
        self._assign_box(newbox)

    def extract_cubic_box(self, repeat=(3, 3, 3)):
        engine_box, actual_box = (self._box, self.actual_box)
        ratoms = self.repeat(repeat)
        try:
            return self._find_cubic_box(ratoms)
        finally:
            self._assign_box(engine_box)
            self.actual_box = actual_box

    def _find_cubic_box(self, ratoms):
        anchor = ratoms[0]
        nb = []
        for count, ind in enumerate([[1, 2], [0, 2], [0, 1]]):
            mindist = 10000
            minatom = None
            for atom in ratoms[1:]:
                if np.abs(atom.pos[ind[0]] - anchor.pos[ind[0]]) < 1e-05:
                    if np.abs(atom.pos[ind[1]] - anchor.pos[ind[1]]) < 1e-05:
                        if atom.type == anchor.type:
                            dist = self.get_distance(anchor, atom)
                            if dist < mindist:
                                mindist = dist
                                minatom = atom
            if minatom is None:
                raise ValueError('Cubic box cound not be found, try increasing repeat')
            lo = min(anchor.pos[count], minatom.pos[count])
            hi = max(anchor.pos[count], minatom.pos[count])
            nb.append([lo, hi])
        collectedatoms = []
        for atom in ratoms:
            pos = atom.pos
            if nb[0][0] <= pos[0] < nb[0][1]:
                if nb[1][0] <= pos[1] < nb[1][1]:
                    if nb[2][0] <= pos[2] < nb[2][1]:
                        collectedatoms.append(atom)
        for atom in collectedatoms:
            pos = atom.pos
            pos[0] = pos[0] - nb[0][0]
            pos[1] = pos[1] - nb[1][0]
            pos[2] = pos[2] - nb[2][0]
            atom.pos = pos
        cubebox = [[nb[0][1] - nb[0][0], 0, 0], [0, nb[1][1] - nb[1][0], 0], [0, 0, nb[2][1] - nb[2][0]]]
        return (cubebox, collectedatoms)

    def get_concentration(self):
        typelist = [atom.type for atom in self.iter_atoms()]
        types, typecounts = np.unique(typelist, return_counts=True)
        concdict = {}
        for c, t in enumerate(types):
            concdict[str(t)] = typecounts[c]
        return concdict

    def remap_atoms(self, remove_images=True, assign=True, remove_atoms=False, dtol=0.1):
        box = self.box
        atoms = self.atoms
        engine_box, actual_box = (self._box, self.actual_box)
        self.box = box
        try:
            newatoms = self._find_remapped_atoms(box, atoms, remove_images, remove_atoms, dtol)
        finally:
            if not assign:
                self._assign_box(engine_box)
                self.actual_box = actual_box
        if assign:
            self.atoms = newatoms
            return None
        else:
            return newatoms

    def _find_remapped_atoms(self, box, atoms, remove_images, remove_atoms, dtol):
        if self.triclinic:
            cell = np.array(box)
            for atom in atoms:
                atom.pos = np.dot(atom.pos, np.linalg.inv(cell))
            box = np.identity(3)
        for atom in atoms:
            pos = atom.pos
            pos = [x - box[i][i] * np.trunc(x / box[i][i]) for i, x in enumerate(pos)]
            if pos[0] < 0:
                pos[0] = pos[0] + box[0][0]
            elif pos[0] >= box[0][0]:
                pos[0] = pos[0] - box[0][0]
            if pos[1] < 0:
                pos[1] = pos[1] + box[1][1]
            elif pos[1] >= box[1][1]:
                pos[1] = pos[1] - box[1][1]
            if pos[2] < 0:
                pos[2] = pos[2] + box[2][2]
            elif pos[2] >= box[2][2]:
                pos[2] = pos[2] - box[2][2]
            atom.pos = pos
        if remove_atoms:
            temp = []
            for atom in atoms:
                pos = atom.pos
                if 0 <= pos[0] < box[0][0]:
                    if 0 <= pos[1] < box[1][1]:
                        if 0 <= pos[2] < box[2][2]:
                            temp.append(atom)
            atoms = temp
        if self.triclinic:
            for atom in atoms:
                atom.pos = np.dot(atom.pos, cell)
        if remove_images:
            newatoms = []
            pairs = []
            for i in range(len(atoms)):
                for j in range(i + 1, len(atoms)):
                    dist = self.get_distance(atoms[i], atoms[j])
                    if dist <= dtol:
                        pairs.append(i)
            for count, atom in enumerate(atoms):
                if count not in pairs:
                    newatoms.append(atom)
            return newatoms
        return atoms

    def show(self, colorby=None, filterby=None):
        import pyscal.visualization as pv
        pv.plot_system(self, colorby=colorby, filterby=filterby)
