# Common neighbor analysis, diamond structure, centrosymmetry, entropy averaging.
from math import sqrt


def diamond_neighbors(self):
    PROC('System::reset_main_neighbors')
    for i in range(self.nop):
        if len(self.atoms[i].temp_neighbors) < 4:
            raise RuntimeError()
    for i in range(self.nop):
        for a in range(4):
            j = self.atoms[i].temp_neighbors[a].index
            self.atoms[i].nn1[a] = j
            for b in range(4):
                k = self.atoms[j].temp_neighbors[b].index
                if i != k:
                    PROC('System::process_neighbor', i, k)


def cna_neighbors(self, style):
    PROC('System::reset_main_neighbors')
    if style == 1:
        f = 0.854
        n = 12
    elif style == 2:
        f = 1.207
        n = 14
    for i in range(self.nop):
        self.atoms[i].cutoff = f * self.lattice_constant
        for k in range(n):
            PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)


def acna_neighbors(self, style):
    PROC('System::reset_main_neighbors')
    if style == 1:
        for i in range(self.nop):
            if len(self.atoms[i].temp_neighbors) >= 12:
                s = 0
                for k in range(12):
                    s = s + self.atoms[i].temp_neighbors[k].dist
                self.atoms[i].cutoff = 1.207 * s / 12
                for k in range(12):
                    PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
    elif style == 2:
        for i in range(self.nop):
            if len(self.atoms[i].temp_neighbors) >= 14:
                s = 0
                for k in range(8):
                    s = s + 1.1547 * self.atoms[i].temp_neighbors[k].dist
                for k in range(8, 14):
                    s = s + self.atoms[i].temp_neighbors[k].dist
                self.atoms[i].cutoff = 1.207 * s / 14
                for k in range(14):
                    PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)


def shared(self, i, k):
    nb = self.atoms[i].neighbors
    c = 0
    for l in range(self.atoms[i].n_neighbors):
        if l != k and dist(nb[k], nb[l]) <= self.atoms[i].cutoff:
            c = c + 1
    return c


def common_neighbors(self, i):
    """neighbors shared by the atom and each of its neighbors"""
    n = self.atoms[i].n_neighbors
    nb = self.atoms[i].neighbors
    cut = self.atoms[i].cutoff
    self.atoms[i].common = [[nb[l] for l in range(n) if l != k and dist(nb[k], nb[l]) <= cut] for k in range(n)]
    self.atoms[i].cna = [[shared(self, i, k), 0, 0, 0] for k in range(n)]


def common_bonds(self, i):
    cut = self.atoms[i].cutoff
    for k in range(self.atoms[i].n_neighbors):
        n = self.atoms[i].cna[k][0]
        cm = self.atoms[i].common[k]
        b = 0
        for l in range(n):
            for m in range(l + 1, n):
                if dist(cm[l], cm[m]) <= cut:
                    b = b + 1
        most = 0
        least = 8
        for l in range(n):
            c = 0
            for m in range(n):
                if m != l and dist(cm[l], cm[m]) <= cut:
                    c = c + 1
            most = max(c, most)
            least = min(c, least)
        self.atoms[i].cna[k][1] = self.atoms[i].cna[k][1] + b
        self.atoms[i].cna[k][2] = most
        self.atoms[i].cna[k][3] = least


def is_sig(a, k, c1, c2, c3, c4):
    return a.cna[k][0] == c1 and a.cna[k][1] == c2 and a.cna[k][2] == c3 and a.cna[k][3] == c4


def count_sig(a, c1, c2, c3, c4):
    n = 0
    for k in range(a.n_neighbors):
        if a.cna[k][0] == c1 and a.cna[k][1] == c2 and a.cna[k][2] == c3 and a.cna[k][3] == c4:
            n = n + 1
    return n


def cn12(self):
    for i in range(self.nop):
        if self.atoms[i].structure == 0:
            PROC('System::get_common_neighbors', i)
            PROC('System::get_common_bonds', i)
            fcc = count_sig(self.atoms[i], 4, 2, 1, 1)
            hcp = count_sig(self.atoms[i], 4, 2, 2, 0)
            ico = count_sig(self.atoms[i], 5, 5, 2, 2)
            if fcc == 12:
                self.atoms[i].structure = 1
            elif fcc == 6 and hcp == 6:
                self.atoms[i].structure = 2
            elif ico == 12:
                self.atoms[i].structure = 4


def cn14(self):
    for i in range(self.nop):
        if self.atoms[i].structure == 0:
            PROC('System::get_common_neighbors', i)
            PROC('System::get_common_bonds', i)
            if count_sig(self.atoms[i], 4, 4, 2, 2) == 6 and count_sig(self.atoms[i], 6, 6, 2, 2) == 8:
                self.atoms[i].structure = 3


def diamond(self):
    PROC('System::get_diamond_neighbors')
    for i in range(self.nop):
        if self.atoms[i].n_neighbors >= 12:
            d = 0
            for q in range(12):
                d = d + self.atoms[i].neighbordist[q]
            self.atoms[i].cutoff = 1.207 * d / 12
    PROC('System::identify_cn12')
    for i in range(self.nop):
        if self.atoms[i].structure == 1:
            self.atoms[i].structure = 5
        elif self.atoms[i].structure == 2:
            self.atoms[i].structure = 8
    for i in range(self.nop):
        s = self.atoms[i].structure
        if s != 5 and s != 8:
            for k in range(4):
                j = self.atoms[i].nn1[k]
                if self.atoms[j].structure == 5:
                    self.atoms[i].structure = 6
                    break
                elif self.atoms[j].structure == 8:
                    self.atoms[i].structure = 9
                    break
    for i in range(self.nop):
        w = self.atoms[i].structure
        if w != 5 and w != 8 and w != 6 and w != 9:
            for l in range(self.atoms[i].n_neighbors):
                n = self.atoms[i].neighbors[l]
                if self.atoms[n].structure == 5:
                    self.atoms[i].structure = 7
                    break
                elif self.atoms[n].structure == 8:
                    self.atoms[i].structure = 10
                    break


def tally(self, n):
    """number of real atoms per structure"""
    out = []
    for s in range(n):
        c = 0
        for i in range(self.real_nop):
            if self.atoms[i].structure == s:
                c = c + 1
        out.append(c)
    return out


def cna(self, method):
    for i in range(self.nop):
        self.atoms[i].structure = 0
    self.filter = 0
    PROC('System::reset_all_neighbors')
    if not PROC('System::get_all_neighbors_bynumber', 3, 14, 0):
        raise RuntimeError()
    if method == 1:
        PROC('System::get_cna_neighbors', 1)
    elif method == 2:
        PROC('System::get_acna_neighbors', 1)
    PROC('System::identify_cn12')
    if method == 1:
        PROC('System::get_cna_neighbors', 2)
    elif method == 2:
        PROC('System::get_acna_neighbors', 2)
    PROC('System::identify_cn14')
    return tally(self, 5)


def diamond_counts(self):
    for i in range(self.nop):
        self.atoms[i].structure = 0
    PROC('System::identify_cndia')
    return tally(self, 11)


def switching(self, r, ra, m, n):
    return (1 - pow(r / ra, n)) / (1 - pow(r / ra, m))


def mean_entropy(self):
    for i in range(self.nop):
        s = self.atoms[i].entropy
        for k in range(self.atoms[i].n_neighbors):
            s = s + self.atoms[self.atoms[i].neighbors[k]].entropy
        self.atoms[i].avg_entropy = s / (self.atoms[i].n_neighbors + 1)


def mean_entropy_switch(self, ra, m, n):
    for i in range(self.nop):
        s = self.atoms[i].entropy
        w = 1
        for k in range(self.atoms[i].n_neighbors):
            f = (1 - pow(self.atoms[i].neighbordist[k] / ra, n)) / (1 - pow(self.atoms[i].neighbordist[k] / ra, m))
            s = s + self.atoms[self.atoms[i].neighbors[k]].entropy * f
            w = w + f
        self.atoms[i].avg_entropy = s / w


def local_entropy(self, sigma, rho, rstart, rstop, h, kb):
    for i in range(self.nop):
        self.atoms[i].sigma = sigma
        if rho == 0:
            self.atoms[i].rho = self.atoms[i].n_neighbors / (4.1887902047863905 * pow(self.atoms[i].cutoff, 3))
        else:
            self.atoms[i].rho = rho
        self.atoms[i].rstart = rstart
        self.atoms[i].rstop = rstop
        self.atoms[i].h = h
        self.atoms[i].kb = kb
        PROC('Atom::trapezoid_integration')


def centro_atom(self, i, n):
    """the n/2 smallest |r_a + r_b| over pairs of neighbors"""
    t = []
    for a in range(self.atoms[i].n_neighbors):
        for b in range(a + 1, self.atoms[i].n_neighbors):
            x = self.atoms[i].n_diffx[a] + self.atoms[i].n_diffx[b]
            y = self.atoms[i].n_diffy[a] + self.atoms[i].n_diffy[b]
            z = self.atoms[i].n_diffz[a] + self.atoms[i].n_diffz[b]
            t.append(sqrt(x * x + y * y + z * z))
    t = sorted(t)
    s = 0
    for k in range(n // 2):
        s = s + t[k] * t[k]
    self.atoms[i].centrosymmetry = s


def centro(self, n):
    self.filter = 0
    PROC('System::reset_all_neighbors')
    if not PROC('System::get_all_neighbors_bynumber', 3, n, 1):
        raise RuntimeError()
    for i in range(self.nop):
        PROC('System::calculate_centrosymmetry_atom', i, n)


def all_centro(self):
    out = []
    for i in range(self.real_nop):
        out.append(self.atoms[i].centrosymmetry)
    return out
