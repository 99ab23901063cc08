"""Record BZGrid objects as cases for spec/Grid.tla."""
import numpy as np

from lib import boot  # noqa: F401
from lib import lattices as lat
from phono3py.phonon.grid import (
    BZGrid, _get_grid_address, get_grid_point_from_address, get_grid_point_from_address_py,
    get_grid_points_by_rotations, get_ir_grid_points,
)


def L(a):
    return np.asarray(a).astype(int).tolist()


def make(M, mesh, rec_group, tr=True, shift=None, dense=True, force_SNF=False, hand=1):
    cols = np.diag([hand, 1, 1]) @ lat.rec_columns(M)  # hand=-1: left-handed basis
    lattice = np.linalg.inv(cols)  # row vectors
    rots = lat.direct_rotations(rec_group)
    return BZGrid(
        mesh, lattice=lattice, symmetry_dataset=lat.dataset(rots, lattice),
        is_shift=shift, is_time_reversal=tr, store_dense_gp_map=dense, force_SNF=force_SNF,
    ), rots


def record(M, bz, rots, tr, dense, rng, desc, A=None, box=2, nrot=6):
    N = int(np.prod(bz.D_diag))
    D = bz.D_diag
    PS = np.array(bz.PS)
    gps = sorted({int(x) for x in rng.choice(len(bz.addresses), size=min(nrot, len(bz.addresses)), replace=False)} | {0, len(bz.addresses) - 1})
    lk = rng.integers(-7, 8, size=(8, 3))
    shifted = [L(a + D * rng.integers(-2, 3, size=3)) for a in _get_grid_address(D)]
    irp, irw, irm = get_ir_grid_points(bz)
    return {
        "kind": "grid", "desc": desc, "key": desc, "M": L(M), "D": L(D), "Q": L(bz.Q), "P": L(bz.P),
        "PS": L(PS), "dense": bool(dense), "tr": bool(tr), "box": box,
        "has_A": bz.grid_matrix is not None, "A": L(bz.grid_matrix if bz.grid_matrix is not None else np.eye(3)),
        "addresses": L(bz.addresses), "bzg2grg": L(bz.bzg2grg), "grg2bzg": L(bz.grg2bzg),
        "gamma": int(bz.gp_Gamma), "gp_map": L(bz.gp_map),
        "gr_addresses": L(_get_grid_address(D)),
        "idx_of_shifted": [int(get_grid_point_from_address(a, D)) for a in shifted],
        "idx_py": L(get_grid_point_from_address_py(np.array(shifted), D)),
        "lookup_in": L(lk), "lookup_out": L(bz.get_indices_from_addresses(lk)),
        "dir_rots": L(rots), "rec_ops": L(bz.reciprocal_operations), "rotations": L(bz.rotations),
        "rot_gps": gps,
        "rot_out": [L(get_grid_points_by_rotations(gp, bz)) for gp in gps],
        "rot_surf": [L(get_grid_points_by_rotations(gp, bz, with_surface=True)) for gp in gps],
        "ir_map": L(irm), "ir_points": L(irp), "ir_weights": L(irw),
    }


# centred conventional cells: rows in the primitive direct basis
def length_case(name, M, length10, shift_atoms, force_SNF, coordinates, symmetry, rng):
    """Grid matrix chosen from a length (in tenths) on a cell with the metric M."""
    import spglib

    cols = lat.rec_columns(M)
    lattice = np.linalg.inv(cols)
    pos = [[0, 0, 0]] + ([list(rng.random(3).round(2) * 0.7 + 0.1)] if shift_atoms else [])
    ds = spglib.get_symmetry_dataset((lattice, pos, list(range(1, len(pos) + 1))), symprec=1e-5)
    kw = dict(symmetry_dataset=ds) if symmetry else dict(transformation_matrix=ds.transformation_matrix)
    desc = f"length {name} {length10}/10 atoms={len(pos)} {coordinates} sym={symmetry} snf={force_SNF}"
    try:
        bz = BZGrid(length10 / 10, lattice=lattice, use_grg=True, force_SNF=force_SNF, SNF_coordinates=coordinates, **kw)
    except RuntimeError as e:
        return {"kind": "length", "desc": desc, "key": desc, "refused": str(e)}
    D = bz.D_diag
    A = bz.grid_matrix if bz.grid_matrix is not None else np.diag(D)
    return {
        "kind": "length", "desc": desc, "key": desc, "refused": "", "M": L(M), "D": L(D), "P": L(bz.P), "Q": L(bz.Q), "A": L(A),
        "len10": int(length10), "cent": int(np.rint(np.linalg.det(np.linalg.inv(ds.transformation_matrix)))),
        "coord": coordinates, "nmax": int(abs(A).max()),
        "rots": L(ds.rotations) if symmetry else [L(np.eye(3))],
    }
