"""Small crystals with exact pair-potential force constants (fast to run)."""
import itertools

import numpy as np

from lib import boot  # noqa: F401
from phono3py import Phono3py
from phonopy.structure.atoms import PhonopyAtoms

CELLS = {
    # name: (lattice, symbols, positions, supercell matrix, cutoff, primitive matrix)
    "sc": (np.eye(3) * 3.0, ["Ar"], [[0, 0, 0]], np.diag([3, 3, 3]), 4.5, None),
    "fcc": (np.eye(3) * 4.2, ["Ne"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]], np.diag([2, 2, 2]), 3.2,
            [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    "cscl": (np.eye(3) * 3.2, ["K", "Cl"], [[0, 0, 0], [.5, .5, .5]], np.diag([2, 2, 2]), 3.0, None),
    "zb": (np.eye(3) * 5.0, ["Ga"] * 4 + ["As"] * 4,
           [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0],
            [.25, .25, .25], [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]],
           np.diag([1, 1, 1]), 3.0, [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    "hcp": (np.array([[3., 0, 0], [-1.5, 1.5 * np.sqrt(3), 0], [0, 0, 4.7]]), ["Mg", "Mg"],
            [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], np.diag([3, 3, 2]), 3.2, None),
    "tet": (np.diag([3.0, 3.0, 3.7]), ["Ti", "O"], [[0, 0, 0], [.5, .5, .47]], np.diag([2, 2, 2]), 3.1, None),
    "tri": (np.array([[3.1, 0, 0], [0.4, 3.3, 0], [0.3, -0.5, 3.6]]), ["Na", "F"], [[0, 0, 0], [.45, .52, .49]],
            np.diag([2, 2, 2]), 3.3, None),
}


def pair_fcs(cell, cutoff, seed=0, strength=5.0, anharm=-12.0, transverse=0.15):
    """Exact fc2 and fc3 of a pair potential phi(|r|) truncated at cutoff."""
    n = len(cell)
    lat = cell.cell
    pos = cell.scaled_positions
    fc2 = np.zeros((n, n, 3, 3))
    fc3 = np.zeros((n, n, n, 3, 3, 3))
    imgs = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    nums = np.array(cell.numbers)
    for i in range(n):
        for j in range(n):
            d = (pos[j] - pos[i] + imgs) @ lat
            r = np.linalg.norm(d, axis=1)
            for v, ri in zip(d, r):
                if ri < 1e-5 or ri > cutoff:
                    continue
                e = v / ri
                s = 1.0 + 0.1 * ((nums[i] + nums[j]) % 5)
                d2 = strength * s * np.exp(-(ri - 2.5))
                d1 = transverse * d2 * ri
                d3 = anharm * s * np.exp(-1.2 * (ri - 2.5))
                ee = np.outer(e, e)
                k = d2 * ee + (d1 / ri) * (np.eye(3) - ee)  # d2 phi / dr dr
                fc2[i, j] -= k
                fc2[i, i] += k
                # third derivative of phi with respect to v
                eee = np.einsum("a,b,c->abc", e, e, e)
                de = np.einsum("ab,c->abc", np.eye(3) - ee, e)
                sym = de + de.transpose(0, 2, 1) + de.transpose(2, 1, 0)
                t = d3 * eee + (d2 / ri - d1 / ri**2) * sym
                # energy phi(v + u_j - u_i), counted once per ordered pair / 2
                for a, b, c in itertools.product((0, 1), repeat=3):
                    sg = (-1) ** ((a == 0) + (b == 0) + (c == 0))
                    idx = [(i, j)[x] for x in (a, b, c)]
                    fc3[idx[0], idx[1], idx[2]] += 0.5 * sg * t
    return fc2, fc3


def embed_fc3(cell, cutoff, c=-5.0):
    """Exact fc3 of sum_i c/2 (rho_i - rho_i^0)^2, rho_i = sum_j exp(2.5 - r_ij):
    couples three different atoms."""
    n = len(cell)
    lat, pos, nums = cell.cell, cell.scaled_positions, np.array(cell.numbers)
    imgs = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    fc3 = np.zeros((n, 3, n, 3, n, 3))
    for i in range(n):
        g = np.zeros((n, 3))
        H = np.zeros((n, 3, n, 3))
        for j in range(n):
            d = (pos[j] - pos[i] + imgs) @ lat
            r = np.linalg.norm(d, axis=1)
            for v, ri in zip(d, r):
                if ri < 1e-5 or ri > cutoff:
                    continue
                e = v / ri
                f = np.exp(2.5 - ri) * (1 + 0.1 * (nums[j] % 3))
                h = f * np.outer(e, e) - f / ri * (np.eye(3) - np.outer(e, e))
                g[j] -= f * e
                g[i] += f * e
                H[j, :, j] += h
                H[i, :, i] += h
                H[i, :, j] -= h
                H[j, :, i] -= h
        x = np.einsum("iajb,kc->iajbkc", H, g)
        fc3 += c * (x + x.transpose(0, 1, 4, 5, 2, 3) + x.transpose(4, 5, 2, 3, 0, 1))
    return np.array(fc3.transpose(0, 2, 4, 1, 3, 5), order="C")


def make(name, mesh=None, compact=False, seed=0, nac=False, **kw):
    lat, sym, pos, smat, cut, pmat = CELLS[name]
    cell = PhonopyAtoms(cell=lat, symbols=sym, scaled_positions=pos)
    ph3 = Phono3py(cell, smat, primitive_matrix=pmat, log_level=0, **kw)
    fc2, fc3 = pair_fcs(ph3.supercell, cut, seed)
    if compact:
        p2s = ph3.primitive.p2s_map
        fc2, fc3 = fc2[p2s], fc3[p2s]
    ph3.fc2 = np.array(fc2, dtype="double", order="C")
    ph3.fc3 = np.array(fc3, dtype="double", order="C")
    if nac:
        n = len(ph3.primitive)
        born = np.array([np.eye(3) * (1.0 if k % 2 == 0 else -1.0) for k in range(n)])
        ph3.nac_params = {"born": born, "dielectric": np.eye(3) * 2.5, "factor": 14.4}
    if mesh is not None:
        ph3.mesh_numbers = mesh
    return ph3
