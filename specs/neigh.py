# Neighbor searches.
from math import sqrt, acos, atan2, fabs


def put_neighbor(self, i, j, d, x, y, z):
    """entry n of every per-neighbor list describes the same neighbor"""
    n = self.atoms[i].n_neighbors
    r = sqrt(x * x + y * y + z * z)
    self.atoms[i].neighbors[n] = j
    self.atoms[i].neighbordist[n] = d
    self.atoms[i].neighborweight[n] = 1
    self.atoms[i].n_diffx[n] = x
    self.atoms[i].n_diffy[n] = y
    self.atoms[i].n_diffz[n] = z
    self.atoms[i].n_r[n] = r
    self.atoms[i].n_phi[n] = atan2(y, x)
    self.atoms[i].n_theta[n] = acos(z / r)
    self.atoms[i].n_neighbors = n + 1


def admitted(self, i, j):
    if self.filter == 1:
        return self.atoms[i].type == self.atoms[j].type
    if self.filter == 2:
        return self.atoms[i].type != self.atoms[j].type
    return True


def add_pair(self, i, j):
    if self.atoms[i].n_neighbors >= 300 or self.atoms[j].n_neighbors >= 300:
        raise IndexError()
    put_neighbor(self, i, j, dist(i, j), dispx(i, j), dispy(i, j), dispz(i, j))
    put_neighbor(self, j, i, dist(i, j), -dispx(i, j), -dispy(i, j), -dispz(i, j))


def neigh_normal(self):
    self.voronoiused = 0
    for i in range(self.nop):
        self.atoms[i].cutoff = self.neighbordistance
    for i in range(self.nop):
        for j in range(i + 1, self.nop):
            if dist(i, j) < self.neighbordistance and admitted(self, i, j):
                add_pair(self, i, j)


def neigh_process(self, i, j):
    if self.atoms[i].n_neighbors >= 300:
        raise IndexError()
    put_neighbor(self, i, j, dist(i, j), dispx(i, j), dispy(i, j), dispz(i, j))


def neigh_cells(self):
    self.voronoiused = 0
    if not cells_ok(self):
        PROC('System::get_all_neighbors_normal')
    else:
        for i in range(self.nop):
            self.atoms[i].cutoff = self.neighbordistance
        PROC('System::set_up_cells')
        for c in range(self.total_cells):
            for mi in range(len(self.cells[c].members)):
                i = self.cells[c].members[mi]
                for k in range(len(self.cells[c].neighbor_cells)):
                    o = self.cells[c].neighbor_cells[k]
                    for mj in range(len(self.cells[o].members)):
                        j = self.cells[o].members[mj]
                        if i < j:
                            if dist(i, j) < self.neighbordistance and admitted(self, i, j):
                                add_pair(self, i, j)


def cand_brute(self):
    for i in range(self.nop):
        for j in range(i + 1, self.nop):
            if dist(i, j) < self.neighbordistance:
                self.atoms[i].temp_neighbors.append(REC('datom', dist=dist(i, j), index=j))
                self.atoms[j].temp_neighbors.append(REC('datom', dist=dist(i, j), index=i))


def cells_ok(self):
    """neighbor cells of a cell are distinct and cover the cutoff"""
    if self.triclinic == 1:
        return False
    return self.boxx >= 3 * self.neighbordistance and self.boxy >= 3 * self.neighbordistance and self.boxz >= 3 * self.neighbordistance


def cell_number(self, i, j, k):
    return i * self.ny * self.nz + j * self.nz + k


def wrapcell(i, n):
    if i < 0:
        return i + n
    if i > n - 1:
        return i - n
    return i


def cell_wrapped(self, i, j, k):
    return [wrapcell(i, self.nx), wrapcell(j, self.ny), wrapcell(k, self.nz)]


def into(x, L):
    if fabs(x) < 1e-6:
        return 0
    if x < 0:
        return x + L
    if x >= L:
        return x - L
    return x


def clampcell(c, n):
    if c < 0:
        c = 0
    if c > n - 1:
        c = n - 1
    return c


def set_up_cells(self):
    self.nx = trunc(self.boxx / self.neighbordistance)
    self.ny = trunc(self.boxy / self.neighbordistance)
    self.nz = trunc(self.boxz / self.neighbordistance)
    lx = self.boxx / self.nx
    ly = self.boxy / self.ny
    lz = self.boxz / self.nz
    self.total_cells = self.nx * self.ny * self.nz


def cand_cells(self):
    if not cells_ok(self):
        PROC('System::get_temp_neighbors_brute')
    else:
        PROC('System::set_up_cells')
        for c in range(self.total_cells):
            for mi in range(len(self.cells[c].members)):
                i = self.cells[c].members[mi]
                for k in range(len(self.cells[c].neighbor_cells)):
                    o = self.cells[c].neighbor_cells[k]
                    for mj in range(len(self.cells[o].members)):
                        j = self.cells[o].members[mj]
                        if i < j:
                            if dist(i, j) < self.neighbordistance:
                                self.atoms[i].temp_neighbors.append(REC('datom', dist=dist(i, j), index=j))
                                self.atoms[j].temp_neighbors.append(REC('datom', dist=dist(i, j), index=i))


def cand_filter(self):
    if self.filter != 0:
        for i in range(self.nop):
            old = self.atoms[i].temp_neighbors
            self.atoms[i].temp_neighbors = [old[k] for k in range(len(old)) if admitted(self, i, old[k].index)]


def cellvolume(self):
    if self.triclinic == 1:
        r = self.rot
        return fabs(r[0][0] * (r[1][1] * r[2][2] - r[1][2] * r[2][1]) - r[0][1] * (r[1][0] * r[2][2] - r[1][2] * r[2][0]) + r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0]))
    return self.boxx * self.boxy * self.boxz


def neigh_bynumber(self, prefactor, n, assign):
    self.voronoiused = 0
    self.neighbordistance = prefactor * CBRT(cellvolume(self) / self.nop)
    if self.usecells:
        PROC('System::get_temp_neighbors_cells')
    else:
        PROC('System::get_temp_neighbors_brute')
    PROC('System::filter_temp_neighbors')
    for i in range(self.nop):
        if len(self.atoms[i].temp_neighbors) < n:
            return 0
        SORT(self.atoms[i].temp_neighbors, 'dist')
        if assign == 1:
            for k in range(n):
                PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
                self.atoms[i].cutoff = self.atoms[i].temp_neighbors[k].dist
    return 1


def neigh_sann(self, prefactor):
    self.voronoiused = 0
    self.neighbordistance = prefactor * CBRT(cellvolume(self) / self.nop)
    if self.usecells:
        PROC('System::get_temp_neighbors_cells')
    else:
        PROC('System::get_temp_neighbors_brute')
    PROC('System::filter_temp_neighbors')
    for i in range(self.nop):
        n = len(self.atoms[i].temp_neighbors)
        if n < 3:
            return 0
        SORT(self.atoms[i].temp_neighbors, 'dist')
        s = 0
        for k in range(3):
            s = s + self.atoms[i].temp_neighbors[k].dist
            PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
        m = 3
        cut = s
        while m < n and cut >= self.atoms[i].temp_neighbors[m].dist:
            m = m + 1
            if m == n:
                break
            PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[m].index)
            s = s + self.atoms[i].temp_neighbors[m].dist
            cut = s / (m - 2)
        self.atoms[i].cutoff = cut
        if m == n:
            return 0
    return 1


def neigh_sann_published(self, prefactor):
    self.voronoiused = 0
    self.neighbordistance = prefactor * CBRT(cellvolume(self) / self.nop)
    if self.usecells:
        PROC('System::get_temp_neighbors_cells')
    else:
        PROC('System::get_temp_neighbors_brute')
    PROC('System::filter_temp_neighbors')
    for i in range(self.nop):
        n = len(self.atoms[i].temp_neighbors)
        if n < 3:
            return 0
        SORT(self.atoms[i].temp_neighbors, 'dist')
        s = 0
        for k in range(3):
            s = s + self.atoms[i].temp_neighbors[k].dist
            PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
        m = 3
        cut = s
        while m < n and cut >= self.atoms[i].temp_neighbors[m].dist:
            PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[m].index)
            s = s + self.atoms[i].temp_neighbors[m].dist
            m = m + 1
            cut = s / (m - 2)
        self.atoms[i].cutoff = cut
        if m == n:
            return 0
    return 1


def neigh_adaptive(self, prefactor, nlimit, padding):
    self.voronoiused = 0
    self.neighbordistance = prefactor * CBRT(cellvolume(self) / self.nop)
    if self.usecells:
        PROC('System::get_temp_neighbors_cells')
    else:
        PROC('System::get_temp_neighbors_brute')
    for i in range(self.nop):
        n = len(self.atoms[i].temp_neighbors)
        if n < nlimit:
            return 0
        SORT(self.atoms[i].temp_neighbors, 'dist')
        s = 0
        for k in range(nlimit):
            s = s + self.atoms[i].temp_neighbors[k].dist
        cut = padding * s / nlimit
        self.atoms[i].cutoff = cut
        for k in range(n):
            j = self.atoms[i].temp_neighbors[k].index
            if self.atoms[i].temp_neighbors[k].dist < cut and admitted(self, i, j):
                if self.atoms[i].n_neighbors >= 300:
                    raise IndexError()
                put_neighbor(self, i, j, dist(i, j), dispx(i, j), dispy(i, j), dispz(i, j))
    return 1


def neigh_set_cutoff(self, factor):
    for i in range(self.nop):
        s = 0
        for k in range(self.atoms[i].n_neighbors):
            s = s + self.atoms[i].neighbordist[k]
        self.atoms[i].cutoff = factor * s / self.atoms[i].n_neighbors


def neigh_next(self):
    for i in range(self.nop):
        a = self.atoms[i]
        n = a.n_neighbors
        self.atoms[i].next_neighbors = [[self.atoms[a.neighbors[k]].neighbors[l] for l in range(self.atoms[a.neighbors[k]].n_neighbors)] for k in range(n)]
        self.atoms[i].next_neighbor_distances = [[self.atoms[a.neighbors[k]].neighbordist[l] for l in range(self.atoms[a.neighbors[k]].n_neighbors)] for k in range(n)]


def neigh_from_candidates(self, style):
    """conventional shell cutoffs of 12- and 14-coordinated structures"""
    PROC('System::reset_main_neighbors')
    if style == 12:
        for i in range(self.nop):
            if len(self.atoms[i].temp_neighbors) < 12:
                return 0
            s = 0
            for k in range(12):
                s = s + self.atoms[i].temp_neighbors[k].dist
            self.atoms[i].lcutsmall = 1.2071 * s / 12
            for k in range(len(self.atoms[i].temp_neighbors)):
                if self.atoms[i].temp_neighbors[k].dist <= 1.2071 * s / 12:
                    PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
    elif style == 14:
        for i in range(self.nop):
            if len(self.atoms[i].temp_neighbors) < 14:
                return 0
            s = 0
            for k in range(8):
                s = s + 1.1547 * self.atoms[i].temp_neighbors[k].dist
            for k in range(8, 14):
                s = s + self.atoms[i].temp_neighbors[k].dist
            self.atoms[i].lcutlarge = 1.2071 * s / 14
            for k in range(len(self.atoms[i].temp_neighbors)):
                if self.atoms[i].temp_neighbors[k].dist <= 1.2071 * s / 14:
                    PROC('System::process_neighbor', i, self.atoms[i].temp_neighbors[k].index)
    return 1


def neigh_setdist(self, d):
    self.neighbordistance = d
