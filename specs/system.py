# Atoms, box and cell matrix held by a system.
from math import sqrt


def sys_sbox(self, b):
    for i in range(3):
        s = 0
        for j in range(3):
            self.box[i][j] = b[i][j]
            s = s + b[i][j] * b[i][j]
        self.boxdims[i][0] = 0
        self.boxdims[i][1] = sqrt(s)
    self.boxx = sqrt(b[0][0] * b[0][0] + b[0][1] * b[0][1] + b[0][2] * b[0][2])
    self.boxy = sqrt(b[1][0] * b[1][0] + b[1][1] * b[1][1] + b[1][2] * b[1][2])
    self.boxz = sqrt(b[2][0] * b[2][0] + b[2][1] * b[2][1] + b[2][2] * b[2][2])


def sys_gbox(self):
    return [[self.box[i][j] for j in range(3)] for i in range(3)]


def sys_striclinic(self, m, minv):
    for i in range(3):
        for j in range(3):
            self.rot[i][j] = m[i][j]
            self.rotinv[i][j] = minv[i][j]
    self.triclinic = 1


def sys_gtriclinic(self):
    return [[self.rot[i][j] for j in range(3)] for i in range(3)]


def sys_set_atoms(self, new):
    real = [new[i] for i in range(len(new)) if new[i].ghost == 0]
    ghosts = [new[i] for i in range(len(new)) if new[i].ghost != 0]
    self.atoms = real + ghosts
    self.nop = len(new)
    self.real_nop = len(real)
    self.ghost_nop = len(ghosts)
    for i in range(len(new)):
        self.atoms[i].loc = i


def sys_add_atoms(self, new):
    old = self.atoms
    real = [old[i] for i in range(self.nop) if old[i].ghost == 0]
    ghosts = [old[i] for i in range(self.nop) if old[i].ghost != 0]
    for i in range(len(new)):
        if new[i].ghost == 0:
            real.append(new[i])
        else:
            ghosts.append(new[i])
    self.atoms = real + ghosts
    self.nop = len(real) + len(ghosts)
    self.real_nop = len(real)
    self.ghost_nop = len(ghosts)
    for i in range(len(real) + len(ghosts)):
        self.atoms[i].loc = i


def sys_get_atoms(self):
    return [self.atoms[i] for i in range(self.real_nop)]


def sys_get_all_atoms(self):
    return [self.atoms[i] for i in range(self.nop)]


def sys_gatom(self, i):
    if i < 0 or i >= self.nop:
        raise IndexError()
    return self.atoms[i]


def sys_satom(self, a):
    if a.loc < 0 or a.loc >= self.nop:
        raise IndexError()
    self.atoms[a.loc] = a


def sys_pairdistances(self):
    d = []
    for i in range(self.nop):
        for j in range(i + 1, self.nop):
            d.append(dist(i, j))
    return d


def sys_reset_neighbors(self):
    for i in range(self.nop):
        self.atoms[i].n_neighbors = 0
        self.atoms[i].temp_neighbors = []
        self.atoms[i].condition = 0
        for k in range(300):
            self.atoms[i].neighbors[k] = 333333
            self.atoms[i].neighbordist[k] = -1


def sys_reset_main(self):
    for i in range(self.nop):
        self.atoms[i].n_neighbors = 0
        self.atoms[i].condition = 0
        for k in range(300):
            self.atoms[i].neighbors[k] = 333333
            self.atoms[i].neighbordist[k] = -1


def wrap01(x, L):
    if L > 0:
        x = x - L * trunc(x / L)
    if x < 0:
        return x + L
    if x >= L:
        return x - L
    return x


def sys_remap_atom(self, p):
    """the image of a position inside the cell"""
    if self.triclinic == 1:
        L = [self.boxx, self.boxy, self.boxz]
        f = [wrapface(self.rotinv[i][0] * p[0] + self.rotinv[i][1] * p[1] + self.rotinv[i][2] * p[2], L[i]) for i in range(3)]
        return [self.rot[i][0] * f[0] + self.rot[i][1] * f[1] + self.rot[i][2] * f[2] for i in range(3)]
    return [wrap01(p[0], self.boxx), wrap01(p[1], self.boxy), wrap01(p[2], self.boxz)]


def wrapface(a, L):
    return wrap01(a * L, L) / L
