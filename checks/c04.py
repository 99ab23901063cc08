"""C04: displacement datasets."""
import numpy as np

from lib import boot  # noqa: F401
from lib import crystals as cr
from lib import lattices as lat
from phono3py import Phono3py

S12 = 10 ** 12


def hol(G):
    G = np.array(G)
    Gi = np.linalg.inv(G)
    r = int(np.floor(np.sqrt(np.outer(np.diag(G), np.diag(Gi)).max()) + 1e-9))
    rng = range(-r, r + 1)
    vs = np.array([(a, b, c) for a in rng for b in rng for c in rng])
    q = np.einsum("ni,ij,nj->n", vs, G, vs)
    cols = [vs[q == G[i, i]] for i in range(3)]
    out = []
    for a in cols[0]:
        for b in cols[1][cols[1] @ G @ a == G[0, 1]]:
            for c in cols[2][(cols[2] @ G @ a == G[0, 2]) & (cols[2] @ G @ b == G[1, 2])]:
                out.append(np.array([a, b, c]).T.tolist())
    return out


def big(v, s=S12):
    return [str(int(round(float(x) * s))) for x in v]


def frac(disp, cell):
    return np.array(disp) @ np.linalg.inv(cell.cell)


def moved(scells, ref, inv=None):
    out = []
    for s in scells:
        if s is None:
            out.append({"present": False, "moved": []})
            continue
        d = s.scaled_positions - ref.scaled_positions
        d -= np.rint(d)
        idx = np.where(np.abs(d).max(axis=1) > 1e-7)[0]
        ok = (len(s) == len(ref) and (s.numbers == ref.numbers).all() and np.allclose(s.cell, ref.cell)
              and np.allclose(s.masses, ref.masses))
        if not ok:
            out.append({"present": True, "moved": [{"num": 0, "disp": ["1", "1", "1"]}]})
            continue
        out.append({"present": True, "moved": [{"num": int(i), "disp": big(d[i])} for i in idx]})
    return out


def dataset_case(kind, crystal, S, scell, ds, scells, opts, desc):
    G, den, pos = cr.super_integers(crystal, S, scell)
    sp = [int(x) for x in scell.numbers]
    Gi = np.linalg.inv(G)
    first = []
    for d1 in ds["first_atoms"]:
        e = {"num": int(d1["number"]), "dir": [int(x) for x in d1.get("direction", _dir(d1, scell))],
             "id": int(d1.get("id", 0)),
             "disp": big(frac(d1["displacement"], scell)), "second": []}
        for d2 in d1.get("second_atoms", []):
            e["second"].append({
                "num": int(d2["number"]), "dir": [int(x) for x in d2["direction"]], "id": int(d2["id"]),
                "disp": big(frac(d2["displacement"], scell)), "included": bool(d2.get("included", True)),
                "pd2": str(int(round((d2["pair_distance"] / crystal.scale * den) ** 2 * 1e6))),
            })
        first.append(e)
    dmax2 = np.abs(G).sum() / 4.0
    box = int(np.ceil(np.sqrt(dmax2 * np.diag(Gi).max()))) + 1
    return {
        "kind": kind, "desc": desc, "key": desc, "G": G.tolist(), "den": int(den), "pos": pos.tolist(), "sp": sp,
        "hol": hol(G), "first": first, "pm": opts["pm"], "diag": opts["diag"], "axis1": opts.get("axis1", True),
        "cut": opts.get("cut", -1), "natom": int(ds["natom"]), "box": min(box, 4),
        "dist2": str(int(round((opts["dist"] / crystal.scale) ** 2 * S12 ** 2))),
        "cells": moved(scells, scell), "dup": [[int(i), int(j)] for i, j in ds.get("duplicates", [])],
    }


def _dir(d1, scell):
    f = frac(d1["displacement"], scell)
    return np.rint(f / np.abs(f).max())


def gen(c, n, maxat):
    rng = np.random.default_rng(c.seed + 400)
    names = list(cr.KNOWN)
    out = []
    for it in range(n):
        if it < len(names) or rng.integers(0, 3) == 0:
            crystal = cr.known_crystal(names[it % len(names)] if it < len(names) else names[int(rng.integers(0, len(names)))])
        else:
            crystal = cr.random_crystal(rng)
        S = cr.random_supercell(rng, crystal, maxat)
        P = cr.random_supercell(rng, crystal, maxat) if rng.integers(0, 3) == 0 else None
        pm = ["auto", "true", "false"][int(rng.integers(0, 3))]
        diag = bool(rng.integers(0, 2))
        dist = float(rng.choice([0.01, 0.03, 0.05]))
        desc = f"{crystal.name} S={S.tolist()} P={None if P is None else P.tolist()} pm={pm} diag={diag} d={dist}"
        ph3 = Phono3py(crystal.cell(), S, phonon_supercell_matrix=P, primitive_matrix=np.eye(3), log_level=0)
        sc = ph3.supercell
        G, den, pos = cr.super_integers(crystal, S, sc)
        cut, cutd = -1, None
        if rng.integers(0, 2):
            # between two squared distances of the exact crystal
            cut = int(rng.integers(1, max(2, int(np.trace(G) * den * den / 3))))
            cutd = float(np.sqrt(cut + 0.5) / den * crystal.scale)
        pmv = {"auto": "auto", "true": True, "false": False}[pm]
        if rng.integers(0, 3) == 0:  # an earlier generation must leave nothing behind
            ph3.generate_displacements(distance=0.02, is_plusminus=not pmv, is_diagonal=not diag)
            ph3.supercells_with_displacements
            if P is not None:
                ph3.phonon_supercells_with_displacements
        kw = {} if cutd is None else {"cutoff_pair_distance": cutd}
        ph3.generate_displacements(distance=dist, is_plusminus=pmv, is_diagonal=diag, **kw)
        o = {"pm": pm, "diag": diag, "cut": cut, "dist": dist}
        out.append(dataset_case("fc3", crystal, S, sc, ph3.dataset, ph3.supercells_with_displacements, o, f"fc3 {desc} cut={cut}"))
        if P is not None:
            diag2 = bool(rng.integers(0, 2))
            ph3.generate_fc2_displacements(distance=2 * dist, is_plusminus=pmv, is_diagonal=diag2)
            o = {"pm": pm, "diag": diag2, "dist": 2 * dist, "axis1": not diag2}
            out.append(dataset_case("fc2", crystal, P, ph3.phonon_supercell, ph3.phonon_dataset,
                                    ph3.phonon_supercells_with_displacements, o, "fc2 " + desc))
            # generation for fc3 keeps the fc2 dataset that is there
            before = ph3.phonon_dataset
            ph3.generate_displacements(distance=dist)
            if ph3.phonon_dataset is not before:
                c.fail("fc2 dataset replaced", "generate_displacements replaced an existing fc2 dataset", desc)
    return out


def randoms(c, n):
    rng = np.random.default_rng(c.seed + 401)
    out = []
    for it in range(n):
        crystal = cr.random_crystal(rng, 2)
        S = cr.random_supercell(rng, crystal, 6)
        fc2 = bool(rng.integers(0, 2))
        P = cr.random_supercell(rng, crystal, 8) if fc2 else None
        ph3 = Phono3py(crystal.cell(), S, phonon_supercell_matrix=P, primitive_matrix=np.eye(3), log_level=0)
        pm = [True, False, "auto"][int(rng.integers(0, 3))]
        k = int(rng.integers(1, 5))
        seed = int(rng.choice([-1, 0, 7, 4000000000]))
        dist = float(rng.choice([0.03, 0.1]))
        mx = float(rng.choice([0, 0.3])) or None
        fn = ph3.generate_fc2_displacements if fc2 else ph3.generate_displacements
        kw = dict(distance=dist, is_plusminus=pm, number_of_snapshots=k, max_distance=mx)

        def go(sd):
            fn(random_seed=None if sd < 0 else sd, **kw)
            return ph3.phonon_dataset if fc2 else ph3.dataset

        other = go(seed + 1 if seed >= 0 else -1)["displacements"].copy()
        again = go(seed)["displacements"].copy()
        if fc2:
            ph3.phonon_supercells_with_displacements
        else:
            ph3.supercells_with_displacements
        ds = go(seed)
        sc = ph3.phonon_supercell if fc2 else ph3.supercell
        cells = ph3.phonon_supercells_with_displacements if fc2 else ph3.supercells_with_displacements
        dd = []
        for x in cells:
            d = x.scaled_positions - sc.scaled_positions
            d -= np.rint(d)
            dd.append([big(v) for v in d @ sc.cell])

        def B(a):
            return [[big(v) for v in s] for s in a]

        out.append({
            "kind": "random", "key": f"random {it}", "desc": f"random fc2={fc2} n={k} pm={pm} seed={seed} max={mx}",
            "n": k, "pm": "true" if pm is True else "false", "seed": seed if seed < 2 ** 31 else 1,
            "stored_seed": (int(ds.get("random_seed", -1)) if seed < 2 ** 31 else int(ds.get("random_seed") == seed)),
            "natom": len(sc), "disps": B(ds["displacements"]), "again": B(again), "other": B(other),
            "cells": dd, "varied": mx is not None, "dist2": str(int(round(dist ** 2 * S12 ** 2))),
            "max2": str(int(round((mx or 0) ** 2 * S12 ** 2))),
        })
    return out


def autos(c, n):
    """The automatic number of fc2 snapshots is that of the phonon supercell."""
    rng = np.random.default_rng(c.seed + 402)
    out = []
    for it in range(n):
        crystal = cr.known_crystal(["p1", "polar", "cscl", "zb"][it % 4])
        S, P = cr.random_supercell(rng, crystal, 4), cr.random_supercell(rng, crystal, 16)
        ph3 = Phono3py(crystal.cell(), S, phonon_supercell_matrix=P, primitive_matrix=np.eye(3), log_level=0)
        ph3.generate_fc2_displacements(number_of_snapshots="auto")
        ref = Phono3py(crystal.cell(), P, phonon_supercell_matrix=P, primitive_matrix=np.eye(3), log_level=0)
        ref.generate_fc2_displacements(number_of_snapshots="auto")
        a, b = ph3.phonon_dataset["displacements"].shape, ref.phonon_dataset["displacements"].shape
        out.append({"kind": "auto", "key": f"auto {it}", "desc": f"auto fc2 snapshots {crystal.name} S={S.tolist()} P={P.tolist()}",
                    "shape": list(a), "expected": list(b)})
    return out


def run(c):
    t = c.thorough
    cs = gen(c, 400 if t else 60, 16 if t else 10) + randoms(c, 60 if t else 20) + autos(c, 12 if t else 4)
    invs = ["FirstInv", "PlusMinusInv", "SecondInv", "IdInv", "CutInv", "LengthInv", "CellInv", "DupPairs", "DupZeroElse", "RandomInv", "AutoInv"]
    c.cases("Displace", invs, cs)
    c.cases("Displace", ["DupZero"], cs[:60], key=lambda x: "mirrored pair of one atom")
    c.note(pairs=sum(len(f["second"]) for x in cs if x["kind"] == "fc3" for f in x["first"]))
