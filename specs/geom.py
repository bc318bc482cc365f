# Minimum-image geometry.
from math import sqrt


def whole(d, L):
    """the part of d left after whole lengths are removed"""
    if L > 0:
        return d - L * trunc(d / L)
    return d


def fold(d, L):
    d = whole(d, L)
    if d > L / 2.0:
        return d - L
    if d < -L / 2.0:
        return d + L
    return d


def fold_cart(self, d):
    """Nearest image of a cartesian separation: fold each lattice coordinate."""
    if self.triclinic == 1:
        f = [0, 0, 0]
        L = [self.boxx, self.boxy, self.boxz]
        s = [fold((self.rotinv[i][0] * d[0] + self.rotinv[i][1] * d[1] + self.rotinv[i][2] * d[2]) * L[i], L[i]) / L[i] for i in range(3)]
        return [self.rot[i][0] * s[0] + self.rot[i][1] * s[1] + self.rot[i][2] * s[2] for i in range(3)]
    return [fold(d[0], self.boxx), fold(d[1], self.boxy), fold(d[2], self.boxz)]


def norm(v):
    return sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def distance_indices(self, ti, tj):
    a = self.atoms[ti]
    b = self.atoms[tj]
    v = fold_cart(self, [b.posx - a.posx, b.posy - a.posy, b.posz - a.posz])
    OUT(0, v[0])
    OUT(1, v[1])
    OUT(2, v[2])
    return norm(v)


def distance_atoms(self, a, b):
    return norm(fold_cart(self, [a.posx - b.posx, a.posy - b.posy, a.posz - b.posz]))


def distance_vector(self, a, b):
    return fold_cart(self, [a.posx - b.posx, a.posy - b.posy, a.posz - b.posz])
