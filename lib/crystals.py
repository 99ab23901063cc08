"""Random crystals with integer metric and rational positions."""
import numpy as np

from lib import boot  # noqa: F401
from lib import lattices as lat
from phonopy.structure.atoms import PhonopyAtoms

KNOWN = {
    # metric of the cell vectors, denominator, atoms (species, integer position)
    "sc": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2, [(0, (0, 0, 0))]),
    "cscl": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2, [(0, (0, 0, 0)), (1, (1, 1, 1))]),
    "dia": ([[2, 1, 1], [1, 2, 1], [1, 1, 2]], 8, [(0, (1, 1, 1)), (0, (7, 7, 7))]),
    "zb": ([[2, 1, 1], [1, 2, 1], [1, 1, 2]], 4, [(0, (0, 0, 0)), (1, (1, 1, 1))]),
    "rs": ([[2, 1, 1], [1, 2, 1], [1, 1, 2]], 2, [(0, (0, 0, 0)), (1, (1, 1, 1))]),
    "hcp": ([[2, -1, 0], [-1, 2, 0], [0, 0, 5]], 12, [(0, (4, 8, 3)), (0, (8, 4, 9))]),
    "wz": ([[2, -1, 0], [-1, 2, 0], [0, 0, 5]], 24,
           [(0, (8, 16, 0)), (0, (16, 8, 12)), (1, (8, 16, 9)), (1, (16, 8, 21))]),
    "polar": ([[2, 0, 0], [0, 2, 0], [0, 0, 3]], 24, [(0, (0, 0, 0)), (1, (12, 12, 11))]),
    "p1": ([[5, 1, -1], [1, 6, 2], [-1, 2, 7]], 20, [(0, (0, 0, 0)), (1, (7, 11, 9))]),
    "graphite": ([[2, -1, 0], [-1, 2, 0], [0, 0, 6]], 12,
                 [(0, (0, 0, 3)), (0, (0, 0, 9)), (0, (4, 8, 3)), (0, (8, 4, 9))]),
    "rutile": ([[4, 0, 0], [0, 4, 0], [0, 0, 2]], 10,
               [(0, (0, 0, 0)), (0, (5, 5, 5)), (1, (3, 3, 0)), (1, (7, 7, 0)), (1, (2, 8, 5)), (1, (8, 2, 5))]),
}


class Crystal:
    """unit: metric G (dot products of cell vectors), denominator, atoms."""

    def __init__(self, name, G, den, atoms, scale=3.0):
        self.name = name
        self.G = np.array(G)
        self.den = den
        self.species = [a[0] for a in atoms]
        self.pos = np.array([a[1] for a in atoms])
        k = round(abs(np.linalg.det(self.G)) ** (1 / 6), 6)
        self.scale = scale / k * len(atoms) ** (1 / 3)  # Angstrom per metric unit
        # rows are cell vectors
        self.lattice = np.linalg.cholesky(self.G.astype(float)) * self.scale

    def cell(self, symbols=("Na", "Cl", "Ti")):
        return PhonopyAtoms(cell=self.lattice, symbols=[symbols[s] for s in self.species],
                            scaled_positions=self.pos / self.den)


def random_crystal(rng, maxat=4):
    """Positions closed under a random symmorphic group of a random lattice."""
    while True:
        name = list(lat.METRICS)[int(rng.integers(0, len(lat.METRICS)))]
        G = np.array(lat.METRICS[name])
        grp = lat.subgroup(G, rng, int(rng.choice([-1, 0, 1, 1, 2])))
        den = int(rng.choice([2, 4, 6, 10, 12]))
        atoms = []
        for s in range(int(rng.integers(1, 3))):
            p = rng.integers(0, den, size=3)
            if s == 0 and rng.integers(0, 2):
                p = np.zeros(3, dtype=int)
            orb = {tuple(int(x) for x in (np.array(w) @ p) % den) for w in grp}
            atoms += [(s, o) for o in sorted(orb)]
        if len(atoms) > maxat or len({a[1] for a in atoms}) != len(atoms):
            continue
        # no overlapping atoms
        n = len(atoms)
        box = np.array(np.meshgrid(*[range(-2, 3)] * 3)).reshape(3, -1).T
        dmin = 1e9
        for i in range(n):
            for j in range(i, n):
                d = (np.array(atoms[j][1]) - atoms[i][1]) + den * box
                q = np.einsum("ni,ij,nj->n", d, G, d) / den**2
                q = q[q > 1e-9]
                dmin = min(dmin, q.min())
        if dmin < 0.12 * abs(np.linalg.det(G)) ** (1 / 3):
            continue
        return Crystal(f"{name}/|G|={len(grp)}/den={den}/{atoms}", G, den, atoms)


def known_crystal(name):
    G, den, atoms = KNOWN[name]
    return Crystal(name, G, den, atoms)


def random_supercell(rng, crystal, maxn):
    while True:
        if rng.integers(0, 4) == 0:
            S = rng.integers(-1, 3, size=(3, 3))
        else:
            S = np.diag(rng.integers(1, 4, size=3))
        d = int(round(np.linalg.det(S)))
        if 1 <= d and d * len(crystal.pos) <= maxn:
            return S


def super_integers(crystal, S, supercell):
    """Exact supercell: metric, denominator and integer positions of atoms.

    Positions of `supercell` (given by the code) are snapped to the exact
    lattice; atoms of the exact supercell must be matched one to one.
    """
    S = np.array(S)
    det = int(round(np.linalg.det(S)))
    # cell vectors of the supercell: rows S^T . lattice -> metric S^T G S
    Gs = S.T @ crystal.G @ S
    den = crystal.den * det
    pos = np.rint(supercell.scaled_positions * den).astype(int)
    err = np.abs(supercell.scaled_positions * den - pos).max()
    assert err < 1e-4, err
    return Gs, den, pos % den
