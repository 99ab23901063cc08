import numpy as np

from lib import lattices as lat
from lib.gridcase import L, make, record

BOX = {"skew": 4, "fcc_skew": 3, "tricl2": 3}


def params(rng, maxpts, shifts=True):
    """Endless stream of (name, metric, mesh, group, tr, dense, shift, description)."""
    names = list(lat.METRICS)
    k = int(rng.integers(0, len(names)))
    while True:
        name = names[k % len(names)]
        k += 1
        M = np.array(lat.METRICS[name])
        tr = bool(rng.integers(0, 4) > 0)
        grp = lat.subgroup(M, rng, int(rng.choice([-1, -1, 0, 1, 1, 2])))
        dense = bool(rng.integers(0, 3) > 0)
        shift = None
        if rng.integers(0, 3) == 0:  # grid matrix
            while True:
                A = rng.integers(-3, 5, size=(3, 3))
                if rng.integers(0, 2):  # a symmetric-friendly family a*I + b*J
                    a, b = rng.integers(1, 4), rng.integers(-1, 3)
                    A = a * np.eye(3, dtype=int) + b * (np.ones((3, 3), dtype=int) - np.eye(3, dtype=int))
                d = round(np.linalg.det(A))
                if rng.integers(0, 8) == 0:  # diagonal with signs
                    A = np.diag(rng.integers(1, 5, size=3) * rng.choice([[1, 1, 1], [-1, 1, -1], [1, -1, -1]]))
                    d = round(np.linalg.det(A))
                if 2 <= d <= maxpts:
                    break
            mesh = A
        else:
            while True:
                mesh = rng.integers(1, 7, size=3)
                if rng.integers(0, 2):
                    mesh = np.array([mesh[0], mesh[0], mesh[rng.choice([0, 2])]])
                if np.prod(mesh) <= maxpts:
                    break
            if shifts and rng.integers(0, 4) == 0:
                shift = [int(x) for x in rng.integers(0, 2, size=3)]
        desc = f"{name} |G|={len(grp)} mesh={np.array(mesh).tolist()} tr={tr} dense={dense} shift={shift}"
        yield name, M, mesh, grp, tr, dense, shift, desc


def cases(c, n, maxpts=90):
    rng = np.random.default_rng(c.seed)
    out = []
    refused = 0
    for name, M, mesh, grp, tr, dense, shift, desc in params(rng, maxpts):
        if len(out) >= n:
            break
        A = mesh if mesh.ndim == 2 else np.diag(mesh)
        try:
            bz, rots = make(M, mesh, grp, tr=tr, shift=shift, dense=dense, force_SNF=bool(rng.integers(0, 2)), hand=int(rng.choice([1, -1])))
        except RuntimeError as e:
            if "Grid symmetry is broken. " in str(e) or "generalized" in str(e):
                refused += 1
                if refused <= n // 2:
                    rots = lat.direct_rotations(grp)
                    rec = [np.rint(np.linalg.inv(r)).astype(int).T for r in rots]
                    out.append({"kind": "refused", "desc": "refused " + desc, "key": desc, "A": L(A), "rec_ops": L(rec)})
            elif "broken by grid shift" in str(e):
                continue
            else:
                raise
            continue
        out.append(record(M, bz, rots, tr, dense, rng, desc, box=BOX.get(name, 2)))
    return out


def lengths(c, n):
    """Grids chosen by a length, which follow the conventional cell."""
    from lib.gridcase import length_case

    rng = np.random.default_rng(c.seed + 77)
    names = list(lat.METRICS)
    out = []
    for k in range(n):
        name = names[k % len(names)]
        out.append(length_case(
            name, np.array(lat.METRICS[name]), int(rng.integers(3, 60)), bool(rng.integers(0, 3) == 0), bool(rng.integers(0, 2)),
            str(rng.choice(["reciprocal", "reciprocal", "reciprocal", "direct"])), bool(rng.integers(0, 4) > 0), rng))
    return out
