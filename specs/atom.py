# What the accessors of an atom return and store.
from math import sqrt, exp, log


def atom_new(self, pos, idd, typ):
    if len(pos) < 3:
        raise ValueError()
    self.posx = pos[0]
    self.posy = pos[1]
    self.posz = pos[2]
    self.id = idd
    self.type = typ
    self.ghost = 0
    self.loc = 0
    self.n_neighbors = 0
    self.belongsto = -1
    self.issolid = 0
    self.issurface = 0
    self.lcluster = 0
    self.entropy = 0
    self.avg_entropy = 0
    self.energy = 0
    self.avg_energy = 0
    self.condition = 0
    self.mask = 0
    self.cutoff = 0
    self.disorder = 0
    self.avgdisorder = 0
    self.frenkelnumber = 0
    self.avq6q6 = 0
    self.structure = 0
    self.volume = 0
    self.avgvolume = 0
    self.angular = 0
    self.avg_angular = 0
    self.centrosymmetry = 0


def atom_gx(self):
    return [self.posx, self.posy, self.posz]


def atom_sx(self, r):
    if len(r) < 3:
        raise ValueError()
    self.posx = r[0]
    self.posy = r[1]
    self.posz = r[2]


def atom_gneighbors(self):
    return [self.neighbors[i] for i in range(self.n_neighbors)]


def atom_gneighdist(self):
    return [self.neighbordist[i] for i in range(self.n_neighbors)]


def atom_sneighbors(self, nns):
    if len(nns) > 300:
        raise ValueError()
    for i in range(300):
        self.neighbors[i] = 333333
        self.neighbordist[i] = -1
    for i in range(len(nns)):
        self.neighbors[i] = nns[i]
        self.neighborweight[i] = 1
    self.n_neighbors = len(nns)


def atom_sweights(self, w):
    if len(w) > 300:
        raise ValueError()
    for i in range(len(w)):
        self.neighborweight[i] = w[i]


def atom_gweights(self):
    return [self.neighborweight[i] for i in range(self.n_neighbors)]


def atom_gdistvecs(self):
    return [[self.n_diffx[i], self.n_diffy[i], self.n_diffz[i]] for i in range(self.n_neighbors)]


def atom_glocalangles(self):
    return [[self.n_phi[i], self.n_theta[i]] for i in range(self.n_neighbors)]


def atom_gsij(self):
    return [self.sij[i] for i in range(self.n_neighbors)]


def atom_noop(self, x):
    pass


def atom_gallq(self):
    return [self.q[i] for i in range(11)]


def atom_gallaq(self):
    return [self.aq[i] for i in range(11)]


def atom_sallq(self, v):
    if len(v) != 11:
        raise ValueError()
    for i in range(11):
        self.q[i] = v[i]


def atom_sallaq(self, v):
    if len(v) != 11:
        raise ValueError()
    for i in range(11):
        self.aq[i] = v[i]


def atom_gq(self, l, averaged):
    if l < 2 or l > 12:
        raise ValueError()
    if averaged:
        return self.aq[l - 2]
    return self.q[l - 2]


def atom_sq(self, l, val, averaged):
    if l < 2 or l > 12:
        raise ValueError()
    if averaged:
        self.aq[l - 2] = val
    else:
        self.q[l - 2] = val


def atom_gqs(self, ls, averaged):
    for i in range(len(ls)):
        if ls[i] < 2 or ls[i] > 12:
            raise ValueError()
    if averaged:
        return [self.aq[ls[i] - 2] for i in range(len(ls))]
    return [self.q[ls[i] - 2] for i in range(len(ls))]


def atom_sqs(self, ls, vals, averaged):
    if len(ls) != len(vals):
        raise ValueError()
    for i in range(len(ls)):
        if ls[i] < 2 or ls[i] > 12:
            raise ValueError()
        if averaged:
            self.aq[ls[i] - 2] = vals[i]
        else:
            self.q[ls[i] - 2] = vals[i]


def atom_qcomps(self, l, averaged):
    if l < 2 or l > 12:
        raise ValueError()
    if averaged:
        return [COMPLEX(self.arealq[l - 2][i], self.aimgq[l - 2][i]) for i in range(2 * l + 1)]
    return [COMPLEX(self.realq[l - 2][i], self.imgq[l - 2][i]) for i in range(2 * l + 1)]


def atom_sfacevertices(self, v):
    if len(v) > 300:
        raise ValueError()
    for i in range(len(v)):
        self.facevertices[i] = v[i]


def atom_gfacevertices(self):
    return [self.facevertices[i] for i in range(self.n_neighbors)]


def atom_sfaceperimeters(self, v):
    if len(v) > 300:
        raise ValueError()
    for i in range(len(v)):
        self.faceperimeters[i] = v[i]


def atom_gfaceperimeters(self):
    return [self.faceperimeters[i] for i in range(self.n_neighbors)]


def atom_sedgelengths(self, v):
    self.edgelengths = v


def atom_gedgelengths(self):
    return self.edgelengths


def atom_svertexpositions(self, v):
    self.vertex_positions = v


def atom_gvertexpositions(self):
    return self.vertex_positions


def atom_gvorovector(self):
    return [self.n3, self.n4, self.n5, self.n6]


def atom_svorovector(self, v):
    if len(v) < 4:
        raise ValueError()
    self.n3 = v[0]
    self.n4 = v[1]
    self.n5 = v[2]
    self.n6 = v[3]


def pair_rdf(self, r):
    """Gaussian-broadened radial distribution of one atom (Piaggi and Parrinello)."""
    pi = 3.141592653589793
    g = 0
    for i in range(self.n_neighbors):
        d = r - self.neighbordist[i]
        g = g + exp(-d * d / (2 * self.sigma * self.sigma))
    return g / (4 * pi * self.rho * r * r) / sqrt(2 * pi * self.sigma * self.sigma)


def pair_integrand(self, r):
    g = pair_rdf(self, r)
    return (g * log(g) - g + 1) * r * r


def pair_entropy_used(self):
    """trapezoid rule without the last interior grid point"""
    n = trunc((self.rstop - self.rstart) / self.h)
    s = 0
    for j in range(1, n - 1):
        s = s + pair_integrand(self, self.rstart + j * self.h)
    t = self.h / 2 * (pair_integrand(self, self.rstart) + 2 * s + pair_integrand(self, self.rstart + n * self.h))
    self.entropy = -self.rho * self.kb * t


def pair_entropy(self):
    """trapezoid rule; all interior points of the grid count"""
    n = trunc((self.rstop - self.rstart) / self.h)
    s = 0
    for j in range(1, n):
        s = s + pair_integrand(self, self.rstart + j * self.h)
    t = self.h / 2 * (pair_integrand(self, self.rstart) + 2 * s + pair_integrand(self, self.rstart + n * self.h))
    self.entropy = -self.rho * self.kb * t
