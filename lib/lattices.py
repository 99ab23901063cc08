"""Integer reciprocal metrics, their point groups, and random subgroups."""
import itertools
from types import SimpleNamespace

import numpy as np

# metric tensors of the reciprocal basis (small integers)
METRICS = {
    "cubic": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "fcc": [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]],
    "bcc": [[2, 1, 1], [1, 2, 1], [1, 1, 2]],
    "bcc2": [[2, -1, 0], [-1, 2, -1], [0, -1, 2]],
    "tetragonal": [[1, 0, 0], [0, 1, 0], [0, 0, 2]],
    "tetra_I": [[3, 1, -1], [1, 3, -1], [-1, -1, 2]],
    "hex": [[2, 1, 0], [1, 2, 0], [0, 0, 3]],
    "hex2": [[2, -1, 0], [-1, 2, 0], [0, 0, 1]],
    "rhomb": [[3, 1, 1], [1, 3, 1], [1, 1, 3]],
    "rhomb2": [[4, -1, -1], [-1, 4, -1], [-1, -1, 4]],
    "ortho": [[2, 0, 0], [0, 3, 0], [0, 0, 5]],
    "ortho_C": [[3, 1, 0], [1, 3, 0], [0, 0, 2]],
    "mono": [[3, 0, 1], [0, 2, 0], [1, 0, 4]],
    "tricl": [[3, 1, 1], [1, 4, 1], [1, 1, 5]],
    "tricl2": [[5, 2, -1], [2, 6, 2], [-1, 2, 7]],
    "skew": [[2, 3, 0], [3, 6, 0], [0, 0, 2]],
    "fcc_skew": [[3, 2, -1], [2, 4, -2], [-1, -2, 3]],
}
_ENT = None


def _candidates():
    global _ENT
    if _ENT is None:
        r = range(-3, 4)
        vs = np.array(list(itertools.product(r, r, r)), dtype=int)
        _ENT = vs
    return _ENT


def holohedry(M):
    """All integer R with R^T M R = M (columns are images of the basis)."""
    M = np.array(M)
    vs = _candidates()
    q = np.einsum("ni,ij,nj->n", vs, M, vs)
    cols = [vs[q == M[i, i]] for i in range(3)]
    out = []
    for a in cols[0]:
        for b in cols[1]:
            if a @ M @ b != M[0, 1]:
                continue
            for c in cols[2]:
                if a @ M @ c != M[0, 2] or b @ M @ c != M[1, 2]:
                    continue
                out.append(np.array([a, b, c]).T)
    return out


def generate(gens):
    G = {tuple(np.eye(3, dtype=int).ravel())}
    gens = [np.array(g) for g in gens]
    new = list(G)
    while new:
        nxt = []
        for t in new:
            m = np.array(t).reshape(3, 3)
            for g in gens:
                k = tuple((g @ m).ravel())
                if k not in G:
                    G.add(k)
                    nxt.append(k)
        new = nxt
    return [np.array(t).reshape(3, 3) for t in sorted(G, reverse=True)]


def subgroup(M, rng, ngen):
    """Reciprocal point group generated by ngen random elements (0: identity)."""
    H = holohedry(M)
    if ngen < 0:
        return H
    return generate([H[k] for k in rng.choice(len(H), size=ngen)] if ngen else [])


def rec_columns(M):
    """Column vectors with metric M."""
    return np.linalg.cholesky(np.array(M, dtype=float)).T


def direct_rotations(rec_group):
    """Direct-space rotations whose transposed inverses are rec_group."""
    out = []
    for r in rec_group:
        w = np.rint(np.linalg.inv(r)).astype(int).T
        out.append(w)
    # identity first, as spglib gives it
    out.sort(key=lambda w: (not (w == np.eye(3)).all(), tuple(-w.ravel())))
    return out


def dataset(rots, lattice, tmat=None):
    return SimpleNamespace(
        rotations=np.array(rots, dtype="intc", order="C"),
        transformation_matrix=np.eye(3) if tmat is None else tmat,
        std_lattice=lattice, std_types=np.array([1], dtype="intc"), number=1,
    )
