"""C09: integration weights."""
import numpy as np

from checks import gridgen
from lib import lattices as lat
from lib import toys
from lib.gridcase import L, make
from lib.par import pmap
from lib.worlds import big

U = 8  # values are multiples of 1/8
DIG = 30


def values(rng, D, nb, lo=0):
    """Band values on the grid, in units of 1/U; the style decides how often
    corners coincide and how often a sampling point meets a corner."""
    N = int(np.prod(D))
    style = int(rng.integers(0, 4))
    if style == 0:
        v = rng.integers(lo, 60, size=(N, nb))
    elif style == 1:  # few distinct values
        v = rng.integers(lo // 8, 5, size=(N, nb)) * 8
    elif style == 2:  # flat in places
        v = np.where(rng.random((N, nb)) < 0.5, 16, rng.integers(lo, 40, size=(N, nb)))
    else:  # smooth
        a = np.indices(D[::-1]).reshape(3, -1)[::-1].T
        ph = np.cos(2 * np.pi * a / np.array(D)).sum(axis=1)
        v = np.rint(20 + 6 * ph[:, None] * rng.integers(1, 3, size=nb) + rng.integers(0, 8, size=nb)).astype(int)
    return np.sort(v, axis=1)


def samples(rng, around, k, strict=False):
    """Sampling points in 1/U: mostly between corners, some on them."""
    xs = set()
    around = np.asarray(around).ravel()
    while len(xs) < k:
        m = int(rng.integers(0, 5))
        if m == 0:
            xs.add(int(rng.choice(around)))
        elif m == 1:
            xs.add(int(rng.integers(around.min() - 3, around.max() + 4)))
        else:
            xs.add(int(rng.choice(around) + rng.integers(-6, 7)))
    return sorted(xs)


def one(a):
    seed, i, thorough = a
    from phono3py.other.tetrahedron_method import (
        get_integration_weights, get_tetrahedra_relative_grid_address, get_unique_grid_points,
    )
    from phono3py.phonon3.interaction import Interaction
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    rng = np.random.default_rng([seed, 900, i])
    out = []
    for _, M, mesh, grp, tr, dense, _, desc in gridgen.params(rng, 60, shifts=False):
        try:
            bz, rots = make(M, mesh, grp, tr=tr, dense=dense, force_SNF=bool(rng.integers(0, 2)))
        except RuntimeError:
            continue
        break
    D = [int(x) for x in bz.D_diag]
    N = int(np.prod(D))
    table = get_tetrahedra_relative_grid_address(bz.microzone_lattice)
    base = {"D": D, "Q": L(bz.Q), "P": L(bz.P), "M": L(M), "addresses": L(bz.addresses),
            "bzg2grg": L(bz.bzg2grg), "table": L(table)}
    # tables of arbitrary lattices
    while True:
        R = rng.integers(-6, 7, size=(3, 3))
        if abs(np.linalg.det(R)) > 0.5:
            break
    out.append({"kind": "table", "M": L(R.T @ R), "key": "table", "desc": f"table {R.tolist()}",
                "table": L(get_tetrahedra_relative_grid_address(np.array(R, dtype=float)))})
    pool = np.arange(N) if not dense else np.arange(len(bz.addresses))
    # weights at grid points
    for rep in range(2):
        nb = int(rng.integers(1, 4))
        v = values(rng, D, nb, lo=-20)
        fn = str(rng.choice(["I", "J"], p=[0.7, 0.3]))
        gps = rng.choice(pool, size=min(len(pool), 4), replace=False)
        # values are given per BZ grid point, or per some list of points and a map to it
        given = np.array(v[bz.bzg2grg], dtype=float) / U
        kw = {"bzgp2irgp_map": None}
        m = int(rng.integers(0, 3))
        if m == 1:
            order = rng.permutation(N)
            inv = np.argsort(order)
            given = np.array(v[order], dtype=float) / U
            kw["bzgp2irgp_map"] = np.array(inv[bz.bzg2grg], dtype="int64")
        asked = None if m == 2 else (list(map(int, gps)) if rng.integers(0, 2) else np.array(gps, dtype="int64"))
        xs = samples(rng, v, 6)
        w = get_integration_weights(np.array(xs) / U, given, bz, grid_points=asked, function=fn, **kw)
        at = list(bz.grg2bzg) if asked is None else list(gps)
        probes = [{"gp": int(at[k]), "b": int(b) + 1, "x": int(xs[x]), "got": big(w[k, x, b], DIG)}
                  for k in range(len(at)) for x in range(len(xs)) for b in range(nb)]
        keep = rng.permutation(len(probes))[: 40 if thorough else 20]
        out.append({**base, "kind": "iw", "fn": fn, "values": L(v), "probes": [probes[k] for k in keep],
                    "key": "a sampling point at a corner", "desc": f"weights {fn} {desc} bands={nb} map={m}"})
        if fn == "J":
            w = get_integration_weights(np.array([v.min() - 1, v.max() + 1]) / U, np.array(v[bz.bzg2grg], dtype=float) / U, bz, function=fn)
            out.append({"kind": "total", "N": N, "key": "total", "desc": f"total {desc}",
                        "sums": [{"got": big(w[:, s, b].sum(), DIG), "above": bool(s)} for s in (0, 1) for b in range(nb)]})
    gps = rng.choice(pool, size=min(len(pool), int(rng.integers(1, 4))), replace=False)
    out.append({**base, "kind": "unique", "gps": L(gps), "unique": L(get_unique_grid_points([int(x) for x in gps], bz)),
                "key": "unique", "desc": f"points needed {desc}"})
    # triplets
    ph = toys.make("sc" if i % 3 else "cscl", [2, 2, 2], compact=False, nac=False)
    it = Interaction(ph.primitive, bz, ph.primitive_symmetry, fc3=ph.fc3, is_mesh_symmetry=bool(rng.integers(0, 2)))
    it.init_dynamical_matrix(ph.fc2, ph.supercell, ph.primitive)
    nb = len(ph.primitive) * 3
    v = values(rng, D, nb, lo=-12 if rng.integers(0, 2) else 0)
    f = np.array(v[bz.bzg2grg], dtype="double", order="C") / U
    e = np.zeros((len(f), nb, nb), dtype="complex128")
    gp = int(rng.choice(pool))
    it.set_grid_point(gp)
    it.set_phonon_data(f, e, bz.addresses)
    trip = it.get_triplets_at_q()[0]
    for rep in range(3):
        col = bool(rng.integers(0, 2))
        lang = "C" if rng.integers(0, 4) else "Python"
        sig = int(rng.integers(2, 20)) if rep == 2 else None
        cut = int(rng.choice([0, 1, 2, 3])) if sig and lang == "C" else 0
        if lang == "Python" and v.min() < 0 and sig is None:
            lang = "C"
        xs = samples(rng, np.maximum(v, 0), 5)
        if cut:  # not exactly at the cutoff
            xs = [x for x in xs]
        g, z = get_triplets_integration_weights(
            it, np.array(xs, dtype="double") / U, None if sig is None else sig / U,
            sigma_cutoff=(cut + 0.03 / max(sig, 1)) if cut else None, is_collision_matrix=col, lang=lang)
        probes = []
        for _ in range(60 if thorough else 30):
            t, x, b1, b2 = (int(rng.integers(0, k)) for k in (len(trip), len(xs), nb, nb))
            probes.append({"t": L(trip[t]), "b1": b1 + 1, "b2": b2 + 1, "x": xs[x],
                           "got": [big(y, DIG) for y in g[:, t, x, b1, b2]],
                           "zero": -1 if z is None or (sig and not cut) else int(z[t, x, b1, b2])})
        if rep < 2:
            out.append({**base, "kind": "trip", "values": L(v), "probes": probes, "key": "a sampling point at a corner",
                        "desc": f"triplets {desc} gp={gp} {lang} col={col}"})
        else:
            # the cutoff is cut * sigma and a bit, so integers compare strictly
            out.append({**base, "kind": "smear", "values": L(v), "probes": probes, "key": "smear", "sig": sig,
                        "cut": cut * sig, "desc": f"smearing {desc} gp={gp} {lang} col={col} sigma={sig} cut={cut}"})
    return out


def run(c):
    out = []
    for cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(120 if c.thorough else 32)]):
        out += cs
    c.cases("Weights", ["TableInv", "IwInv", "IwCorner", "TripInv", "TripCorner", "ZeroInv", "SmearInv", "UniqueInv", "TotalInv"], out)
    kinds = {}
    for x in out:
        kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.note(kinds=kinds, probes=sum(len(x.get("probes", [])) for x in out))
