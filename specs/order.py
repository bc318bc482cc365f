# Bond-order parameters, disorder, solids, clusters.
from math import sqrt, acos, atan2, cos, sin, fabs, pow

PI = 3.141592653589793


def fact_ratio(self, l, m):
    """(l-m)!/(l+m)!"""
    f = 1
    for i in range(2 * m):
        f = f * (l + m - i)
    return 1 / f


def legendre(self, l, m, x):
    """associated Legendre function with the Condon-Shortley phase, by the stable recurrence in l"""
    s = sqrt((1 - x) * (1 + x))
    a = 1
    for i in range(m):
        a = -a * (2 * i + 1) * s
    if l == m:
        return a
    b = x * (2 * m + 1) * a
    if l == m + 1:
        return b
    c = 0
    for n in range(m + 2, l + 1):
        c = (x * (2 * n - 1) * b - (n + m - 1) * a) / (n - m)
        a = b
        b = c
    return c


def spherical(self, x, y, z):
    r = sqrt(x * x + y * y + z * z)
    OUT(0, r)
    OUT(1, atan2(y, x))
    OUT(2, acos(z / r))


def harmonic(self, l, m, theta, phi):
    """spherical harmonic for m >= 0"""
    k = sqrt((2 * l + 1) / (4 * PI) * PURE('dfactorial', l, m)) * PURE('PLM', l, m, cos(theta))
    OUT(0, k * cos(m * phi))
    OUT(1, k * sin(m * phi))


def harmonic_any(self, l, m, theta, phi):
    """negative m is the complex conjugate times (-1)^m"""
    if m < 0:
        OUT(0, pow(-1, m) * PURE('YLM#0', l, fabs(m), theta, phi))
        OUT(1, -pow(-1, m) * PURE('YLM#1', l, fabs(m), theta, phi))
    else:
        OUT(0, PURE('YLM#0', l, m, theta, phi))
        OUT(1, PURE('YLM#1', l, m, theta, phi))


def component(self, i, q, m, part):
    s = 0
    w = 0
    a = self.atoms[i]
    for c in range(a.n_neighbors):
        if a.condition == self.atoms[a.neighbors[c]].condition:
            if part == 0:
                s = s + a.neighborweight[c] * PURE('QLM#0', q, m, a.n_theta[c], a.n_phi[c])
            else:
                s = s + a.neighborweight[c] * PURE('QLM#1', q, m, a.n_theta[c], a.n_phi[c])
            w = w + a.neighborweight[c]
    if self.voronoiused:
        return s
    return s / w


def bond_order(self, qs):
    for i in range(self.nop):
        for t in range(len(qs)):
            q = qs[t]
            s = 0
            for m in range(-q, q + 1):
                re = component(self, i, q, m, 0)
                im = component(self, i, q, m, 1)
                self.atoms[i].realq[q - 2][m + q] = re
                self.atoms[i].imgq[q - 2][m + q] = im
                s = s + re * re + im * im
            self.atoms[i].q[q - 2] = sqrt(4 * PI / (2 * q + 1) * s)


def avg_component(self, i, q, k):
    a = self.atoms[i]
    re = a.realq[q - 2][k]
    im = a.imgq[q - 2][k]
    n = 1
    for c in range(a.n_neighbors):
        j = a.neighbors[c]
        if a.condition == self.atoms[j].condition:
            re = re + self.atoms[j].realq[q - 2][k]
            im = im + self.atoms[j].imgq[q - 2][k]
            n = n + 1
    return [re / n, im / n]


def averaged_bond_order(self, qs):
    for i in range(self.nop):
        for t in range(len(qs)):
            q = qs[t]
            s = 0
            for k in range(2 * q + 1):
                v = avg_component(self, i, q, k)
                self.atoms[i].arealq[q - 2][k] = v[0]
                self.atoms[i].aimgq[q - 2][k] = v[1]
                s = s + v[0] * v[0] + v[1] * v[1]
            self.atoms[i].aq[q - 2] = sqrt(4 * PI / (2 * q + 1) * s)


def all_q(self, q):
    return [self.atoms[i].q[q - 2] for i in range(self.real_nop)]


def all_aq(self, q):
    return [self.atoms[i].aq[q - 2] for i in range(self.real_nop)]


def alignment(q, a, b):
    """normalised scalar product of two order-q vectors"""
    n = 2 * q + 1
    d = 0
    x = 0
    y = 0
    for m in range(n):
        d = d + a.realq[q - 2][m] * b.realq[q - 2][m] + a.imgq[q - 2][m] * b.imgq[q - 2][m]
        x = x + a.realq[q - 2][m] * a.realq[q - 2][m] + a.imgq[q - 2][m] * a.imgq[q - 2][m]
        y = y + b.realq[q - 2][m] * b.realq[q - 2][m] + b.imgq[q - 2][m] * b.imgq[q - 2][m]
    return d / (sqrt(x) * sqrt(y))


def bond_number_ij(self, i, j):
    return alignment(self.solidq, self.atoms[i], self.atoms[j])


def bond_number(self, a, b):
    return alignment(self.solidq, a, b)


def disorder(self):
    for i in range(self.nop):
        self.atoms[i].sii = alignment(self.solidq, self.atoms[i], self.atoms[i])
    for i in range(self.nop):
        s = 0
        for c in range(self.atoms[i].n_neighbors):
            j = self.atoms[i].neighbors[c]
            s = s + alignment(self.solidq, self.atoms[i], self.atoms[i]) + alignment(self.solidq, self.atoms[j], self.atoms[j]) - 2 * alignment(self.solidq, self.atoms[i], self.atoms[j])
        self.atoms[i].disorder = s / self.atoms[i].n_neighbors


def average_disorder(self):
    for i in range(self.nop):
        s = self.atoms[i].disorder
        for c in range(self.atoms[i].n_neighbors):
            s = s + self.atoms[self.atoms[i].neighbors[c]].disorder
        self.atoms[i].avgdisorder = s / (self.atoms[i].n_neighbors + 1)


def average_volume(self):
    for i in range(self.nop):
        s = self.atoms[i].volume
        for c in range(self.atoms[i].n_neighbors):
            s = s + self.atoms[self.atoms[i].neighbors[c]].volume
        self.atoms[i].avgvolume = s / (self.atoms[i].n_neighbors + 1)


def meets(self, v, limit):
    if self.comparecriteria == 0:
        return v > limit
    return v < limit


def solid_bonds(self):
    for i in range(self.nop):
        n = 0
        s = 0
        for c in range(self.atoms[i].n_neighbors):
            v = PURE('get_number_from_bond', i, self.atoms[i].neighbors[c])
            self.atoms[i].sij[c] = v
            if meets(self, v, self.threshold):
                n = n + 1
            s = s + v
        self.atoms[i].frenkelnumber = n
        self.atoms[i].avq6q6 = s / self.atoms[i].n_neighbors


def solids(self):
    for i in range(self.nop):
        if self.criteria == 0:
            self.atoms[i].issolid = self.atoms[i].frenkelnumber > self.minfrenkel and meets(self, self.atoms[i].avq6q6, self.avgthreshold)
        elif self.criteria == 1:
            self.atoms[i].issolid = self.atoms[i].frenkelnumber / self.atoms[i].n_neighbors > self.minfrenkel and meets(self, self.atoms[i].avq6q6, self.avgthreshold)


def solid_limits(self, n, t, a):
    self.minfrenkel = n
    self.threshold = t
    self.avgthreshold = a


def harvest(self, i, number):
    for k in range(self.atoms[i].n_neighbors):
        j = self.atoms[i].neighbors[k]
        if self.atoms[j].ghost == 0 and self.atoms[j].condition and self.atoms[i].neighbordist[k] <= self.atoms[i].cutoff:
            if self.atoms[j].belongsto == -1:
                self.atoms[j].belongsto = number
                PROC('System::harvest_cluster', j, number)


def clusters(self, cutoff):
    if cutoff != 0:
        for i in range(self.nop):
            self.atoms[i].cutoff = cutoff
    number = 0
    for i in range(self.real_nop):
        self.atoms[i].belongsto = -1
    for i in range(self.real_nop):
        if self.atoms[i].condition and not self.atoms[i].ghost:
            if self.atoms[i].belongsto == -1:
                number = number + 1
                self.atoms[i].belongsto = number
                PROC('System::harvest_cluster', i, number)


def cluster_atoms(self):
    for i in range(self.real_nop):
        self.atoms[i].lcluster = self.maxclusterid != -1 and self.atoms[i].belongsto == self.maxclusterid
        if self.atoms[i].issolid == 1:
            s = 0
            for k in range(self.atoms[i].n_neighbors):
                j = self.atoms[i].neighbors[k]
                if self.atoms[j].ghost == 0 and self.atoms[j].issolid == 0:
                    s = 1
            self.atoms[i].issurface = s
        else:
            self.atoms[i].issurface = 1


def biggest(self):
    """size of the most populated cluster; its number is remembered"""
    best = 0
    self.maxclusterid = -1
    for c in range(self.real_nop):
        n = 0
        for i in range(self.real_nop):
            if self.atoms[i].belongsto == c + 1:
                n = n + 1
        if n > best:
            best = n
            self.maxclusterid = c + 1
    PROC('System::get_largest_cluster_atoms')
    return best
