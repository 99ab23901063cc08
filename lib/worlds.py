"""Random exact worlds: crystal, supercell, pair-potential force constants."""
import ctypes

import numpy as np

from lib import boot  # noqa: F401
from lib import crystals as cr
from lib import toys
from phono3py import Phono3py

CONV = {
    # conventional cells with their primitive matrix
    "fcc4": ([[2, 0, 0], [0, 2, 0], [0, 0, 2]], 2, [(0, p) for p in ((0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0))], "F"),
    "bcc2": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2, [(0, (0, 0, 0)), (0, (1, 1, 1))], "I"),
}
NAMES = {"sc": 3, "cscl": 2, "zb": 2, "rs": 2, "hcp": 2, "polar": 2, "p1": 2, "fcc4": 1, "bcc2": 2, "dia": 2}


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(int(n))
    except OSError:
        pass


def shells(cell, rmax):
    lat, pos = cell.cell, cell.scaled_positions
    k = np.array(np.meshgrid(*[range(-2, 3)] * 3)).reshape(3, -1).T
    d = []
    for i in range(len(pos)):
        for j in range(len(pos)):
            r = np.linalg.norm((pos[j] - pos[i] + k) @ lat, axis=1)
            d += list(r[(r > 1e-3) & (r < rmax)])
    return np.unique(np.round(d, 4))


class World:
    """A Phono3py factory with exact geometry."""

    def __init__(self, rng, name=None, maxn=36, kw=None, cut=None):
        self.kw = dict(kw or {})
        while True:
            pick = name or str(rng.choice(list(NAMES) + ["random"]))
            pm = None
            if pick == "random":
                self.crystal = cr.random_crystal(rng, 3)
                S = cr.random_supercell(rng, self.crystal, min(maxn, 24))
            elif pick in CONV:
                g, den, atoms, pm = CONV[pick]
                self.crystal = cr.Crystal(pick, g, den, atoms)
                S = np.diag([NAMES[pick]] * 3)
            else:
                self.crystal = cr.known_crystal(pick)
                S = np.diag([NAMES[pick]] * 3)
                if rng.integers(0, 3) == 0:
                    S = cr.random_supercell(rng, self.crystal, maxn)
            if abs(round(np.linalg.det(S))) * len(self.crystal.pos) > maxn:
                if name:
                    maxn += 8
                continue
            break
        self.name, self.S, self.pm = pick, np.array(S), pm
        self.cell = self.crystal.cell()
        try:
            ph = self.make(None)
        except Exception:
            raise
        self.supercell = ph.supercell
        self.primitive = ph.primitive
        sh = shells(self.supercell, 6.5)
        # between the second and the fourth shell of distances
        k = int(rng.integers(1, 4)) if cut is None else cut
        if len(sh) > k + 1:
            self.cut = (sh[k] + sh[k + 1]) / 2
        else:
            self.cut = sh[-1] + 0.1
        if self.cut - sh[sh < self.cut].max() < 2e-3:
            self.cut = sh[-1] + 0.1
        self.fc2, self.fc3 = toys.pair_fcs(self.supercell, self.cut)
        self.fc3 += toys.embed_fc3(self.supercell, self.cut)
        self.desc = f"{self.crystal.name} S={self.S.tolist()} cut={self.cut:.3f}"

    def make(self, mesh, compact=False, nac=False, fcs=None, **kw):
        k = dict(self.kw)
        k.update(kw)
        ph = Phono3py(self.cell, self.S, primitive_matrix=self.pm, log_level=0, **k)
        if mesh is None:
            return ph
        fc2, fc3 = fcs if fcs is not None else (self.fc2, self.fc3)
        p2s = ph.primitive.p2s_map
        ph.fc2 = np.array(fc2[p2s] if compact else fc2, dtype="double", order="C")
        ph.fc3 = np.array(fc3[p2s] if compact else fc3, dtype="double", order="C")
        if nac:
            n = len(ph.primitive)
            born = np.array([np.eye(3) * (1.0 if i % 2 == 0 else -1.0) for i in range(n)])
            born -= born.mean(axis=0)
            ph.nac_params = {"born": born, "dielectric": np.eye(3) * 2.5, "factor": 14.4}
        ph.mesh_numbers = mesh
        return ph

    def geometry(self):
        """Integers of the spec: metric, positions, maps, basis change."""
        G, den, pos = cr.super_integers(self.crystal, self.S, self.supercell)
        Mp = self.supercell.cell @ np.linalg.inv(self.primitive.cell)
        M = np.rint(Mp).astype(int)
        assert abs(M - Mp).max() < 1e-6
        return {"G": np.array(G).tolist(), "den": int(den), "pos": pos.tolist(), "Mp": M.tolist(),
                "p2s": [int(x) for x in self.primitive.p2s_map], "s2p": [int(x) for x in self.primitive.s2p_map]}


def big(x, n):
    """Decimal string of round(x * 10**n)."""
    from decimal import Decimal

    return str(int(Decimal(float(x)).scaleb(n).to_integral_value()))


def bigs(a, n):
    a = np.asarray(a)
    if a.ndim == 0:
        return big(a, n)
    if a.ndim == 1:
        return [big(x, n) for x in a]
    return [bigs(x, n) for x in a]


def fixed(a, n=12):
    """Like bigs for numbers below 1e6 in size: via int64, faster."""
    a = np.asarray(a, dtype=float)
    if a.size and np.abs(a).max() * 10.0**n > 9e17:
        return bigs(a, n)
    return _s(np.rint(a * 10.0**n).astype("int64").tolist())


def _s(x):
    return [_s(y) for y in x] if isinstance(x, list) else str(x)


def random_mesh(rng, crystal, maxpts=64):
    """Mesh numbers allowed for the crystal's symmetry (equal where needed)."""
    while True:
        if rng.integers(0, 2):
            m = [int(rng.integers(2, 5))] * 3
        else:
            m = [int(x) for x in rng.integers(1, 5, size=3)]
        if np.prod(m) <= maxpts:
            return m
