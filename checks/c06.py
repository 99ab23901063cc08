"""C06: force constants from exact cubic force fields and their symmetrization."""
import os
import shutil
import tempfile

import numpy as np

from lib import boot  # noqa: F401
from lib import crystals as cr
from checks.c04 import hol
from phono3py import Phono3py
from phono3py import file_IO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 1000


def operations(G, den, pos, numbers):
    """All space-group operations of the exact supercell: (perm, W)."""
    n = len(pos)
    loc = {(int(numbers[i]), *(int(v) for v in pos[i] % den)): i for i in range(n)}
    out = []
    for W in hol(G):
        W = np.array(W)
        wp = pos @ W.T
        for b in range(n):
            im = (wp - wp[0] + pos[b]) % den
            p = [loc.get((int(numbers[i]), *(int(v) for v in im[i])), -1) for i in range(n)]
            if -1 not in p:
                out.append((np.array(p), W))
    return out


def field(rng, ops, n, three=True):
    """Integer group-invariant force constants with permutations and sum rule."""
    F2 = np.zeros((n, n, 3, 3), dtype=int)
    F3 = np.zeros((n, n, n, 3, 3, 3), dtype=int)
    for _ in range(3 if n > 1 else 0):
        p, q = rng.choice(n, size=2, replace=False)
        K = rng.integers(-3, 4, size=(3, 3))
        K = K + K.T
        for a, sa in ((p, -1), (q, 1)):
            for b, sb in ((p, -1), (q, 1)):
                F2[a, b] += sa * sb * K
    for _ in range(4 if three and n > 1 else 0):
        prs = [rng.choice(n, size=2, replace=False) for _ in range(3)]
        if rng.integers(0, 2):
            prs = [prs[0]] * 3
        if rng.integers(0, 3) == 0:
            prs[1] = prs[0]
        M = rng.integers(-2, 3, size=(3, 3, 3))
        T = np.zeros_like(F3)
        for a, sa in zip(prs[0], (-1, 1)):
            for b, sb in zip(prs[1], (-1, 1)):
                for d, sd in zip(prs[2], (-1, 1)):
                    T[a, b, d] += sa * sb * sd * M
        for pm in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)):
            F3 += T.transpose(*pm, *(3 + x for x in pm))
    S2, S3 = np.zeros_like(F2), np.zeros_like(F3)
    for p, W in ops:
        S2 += np.einsum("ijab,ax,by->ijxy", F2[np.ix_(p, p)], W, W, optimize=True)
        if three:
            S3 += np.einsum("ijkabc,ax,by,cz->ijkxyz", F3[np.ix_(p, p, p)], W, W, W, optimize=True)
    for S in (S2, S3):
        g = np.gcd.reduce(np.abs(S).ravel())
        if g > 1:
            S //= g
        while np.abs(S).max() > 20000:
            return None
    return S2, S3


class Model:
    def __init__(self, cell, F2, F3):
        self.A = cell.cell
        self.Ai = np.linalg.inv(self.A)
        self.F2, self.F3 = F2, F3

    def forces(self, disps):
        x = disps @ self.Ai
        f = -np.einsum("ijab,jb->ia", self.F2, x)
        if self.F3 is not None:
            idx = np.where(np.abs(x).max(axis=1) > 0)[0]
            f -= 0.5 * np.einsum("ijkabc,jb,kc->ia", self.F3[:, idx][:, :, idx], x[idx], x[idx], optimize=True)
        return f @ self.Ai.T

    def frac(self, fc):
        A = self.A
        if fc.ndim == 4:
            return np.einsum("ijab,xa,yb->ijxy", fc, A, A, optimize=True)
        return np.einsum("ijkabc,xa,yb,zc->ijkxyz", fc, A, A, A, optimize=True)

    def cart(self, F):
        B = self.Ai
        if F.ndim == 4:
            return np.ascontiguousarray(np.einsum("ijab,xa,yb->ijxy", F, B, B, optimize=True))
        return np.ascontiguousarray(np.einsum("ijkabc,xa,yb,zc->ijkxyz", F, B, B, B, optimize=True))


def ints(T):
    """Tensor as nested lists of rounded integers, components flattened."""
    if T is None:
        return []
    T = np.array(T, dtype=float)
    if not np.isfinite(T).all() or np.abs(T).max() > 2e9:
        T = np.where(np.isfinite(T), np.clip(T, -2e9, 2e9), 2e9)
    d = 2 if T.ndim == 4 else 3
    return np.rint(T).astype(int).reshape(*T.shape[:d], -1).tolist()


def dist2(G, den, pos):
    n = len(pos)
    r = 3
    box = np.array(np.meshgrid(*[range(-r, r + 1)] * 3)).reshape(3, -1).T * den
    D = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            d = pos[j] - pos[i] + box
            D[i, j] = np.einsum("ni,ij,nj->n", d, G, d).min()
    return D


def fill(ph3, model, phonon=False, included_only=True, noise=None):
    ds = ph3.phonon_dataset if phonon else ph3.dataset
    n = len(ph3.phonon_supercell if phonon else ph3.supercell)
    if "displacements" in ds:
        fs = np.array([model.forces(u) for u in ds["displacements"]])
    else:
        fs = []
        for d1 in ds["first_atoms"]:
            u = np.zeros((n, 3))
            u[d1["number"]] += d1["displacement"]
            fs.append(model.forces(u))
        for d1 in ds["first_atoms"]:
            for d2 in d1.get("second_atoms", []):
                u = np.zeros((n, 3))
                u[d1["number"]] += d1["displacement"]
                u[d2["number"]] += d2["displacement"]
                fs.append(model.forces(u) if d2.get("included", True) or not included_only else np.full((n, 3), 7.0))
        fs = np.array(fs)
    if noise is not None:
        fs = fs + noise.uniform(-1e-3, 1e-3, fs.shape)
    if phonon:
        ph3.phonon_forces = fs
    else:
        ph3.forces = fs


def world(rng, maxat, it, three=True):
    """A random supercell with a force field on it."""
    names = ["sc", "cscl", "rs", "dia", "hcp", "polar", "p1", "zb", "wz", "graphite"]
    while True:
        crystal = cr.known_crystal(names[it % len(names)]) if it < len(names) or rng.integers(0, 3) == 0 else cr.random_crystal(rng)
        it += 1
        S = cr.random_supercell(rng, crystal, maxat)
        if len(crystal.pos) * round(np.linalg.det(S)) < 2:
            continue
        ph3 = Phono3py(crystal.cell(), S, primitive_matrix=np.eye(3), log_level=0)
        G, den, pos = cr.super_integers(crystal, S, ph3.supercell)
        ops = operations(G, den, pos, ph3.supercell.numbers)
        ff = field(rng, ops, len(pos), three)
        if ff is None or not np.abs(ff[0]).max() or (three and not np.abs(ff[1]).max()):
            continue
        return crystal, S, ph3, (G, den, pos), ops, ff


def translations(ph3):
    """For every supercell atom the lattice translation to its primitive atom."""
    sc = ph3.supercell
    n = len(sc)
    x = sc.scaled_positions
    out = []
    for i in range(n):
        t = ph3.primitive.s2p_map[i]
        y = x - x[i] + x[t]
        d = y[:, None] - x[None]
        d -= np.rint(d)
        p = np.argmin(np.abs(d).sum(axis=2), axis=1)
        assert np.abs(d[np.arange(n), p]).max() < 1e-5
        out.append([int(v) for v in p])
    return out


def recover(c, n, maxat):
    rng = np.random.default_rng(c.seed + 600)
    out = []
    for it in range(n):
        crystal, S, ph3, (G, den, pos), ops, (F2, F3) = world(rng, maxat, it)
        m = Model(ph3.supercell, F2, F3)
        D = dist2(G, den, pos)
        na = len(pos)
        compact = bool(it % 2)
        sym = bool(rng.integers(0, 2))
        pm = ["auto", True][int(rng.integers(0, 2))]
        diag = bool(rng.integers(0, 2))
        shells = np.unique(D)
        cut, kw = -1, {}
        if rng.integers(0, 3) == 0 and len(shells) > 2:
            cut = int(shells[int(rng.integers(1, len(shells) - 1))])
            kw = {"cutoff_pair_distance": float(np.sqrt(cut + 0.5) / den * crystal.scale)}
        typ = "symfc" if it % 5 == 4 else "traditional"
        if typ == "symfc" and na > 8:
            typ = "traditional"
        opt = {}
        dist = float(rng.choice([0.01, 0.03]))
        if typ == "symfc":
            cut, kw = -1, {}
            # (datasets of pairs are not exact here: known finding of C05)
            ph3.generate_displacements(distance=dist, number_of_snapshots=3 * na + 6, random_seed=int(rng.integers(1, 1000)))
            opt = {"fc_calculator": "symfc"}
        else:
            ph3.generate_displacements(distance=dist, is_plusminus=pm, is_diagonal=diag, **kw)
            if rng.integers(0, 2):
                opt = {"fc_calculator": "traditional"}
        fill(ph3, m, included_only=True)
        if rng.integers(0, 2):
            ph3.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact, **opt)
            lay2 = compact
            how = "fc3"
        else:
            lay2 = bool(rng.integers(0, 2))
            ph3.produce_fc2(symmetrize_fc2=sym, is_compact_fc=lay2, **opt)
            ph3.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact, **opt)
            how = "fc2 fc3"
        # symmetrizing a cut-off tensor is not an identity
        if sym and cut >= 0:
            ph3.produce_fc3(symmetrize_fc3r=False, is_compact_fc=compact, **opt)
        tol = 2 if typ == "traditional" else 2 + int(np.abs(F3).max() * U * 1e-7) + 20
        desc = f"{typ} {crystal.name} S={np.array(S).tolist()} compact={compact}/{lay2} sym={sym} pm={pm} diag={diag} cut={cut} {how}"
        out.append({"kind": "field", "key": f"field {it}", "desc": desc, "n": na, "f2": ints(F2), "f3": ints(F3),
                    "has2": how == "fc3" or typ == "traditional", "got2": ints(m.frac(ph3.fc2) * U), "got3": ints(m.frac(ph3.fc3) * U),
                    "layout": "compact" if compact else "full", "layout2": "compact" if lay2 else "full",
                    "p2s": [int(v) for v in ph3.primitive.p2s_map], "cut": cut, "d2": D.tolist(), "tol": tol})
    return out


def recover2(c, n, maxat):
    """fc2 of the phonon supercell, while fc3 of the other leaves it alone."""
    rng = np.random.default_rng(c.seed + 601)
    out = []
    for it in range(n):
        crystal, P, phP, (G, den, pos), ops, (F2, _) = world(rng, maxat, it, three=False)
        while True:
            S = cr.random_supercell(rng, crystal, 4)
            if abs(np.linalg.det(S)) * len(crystal.pos) > 1:
                break
            S = np.diag([2, 1, 1])
            break
        ph3 = Phono3py(crystal.cell(), S, phonon_supercell_matrix=P, primitive_matrix=np.eye(3), log_level=0)
        m = Model(ph3.phonon_supercell, F2, None)
        compact, sym = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        pm, diag = ["auto", True, False][int(rng.integers(0, 3))], bool(rng.integers(0, 2))
        ph3.generate_displacements(distance=0.03)
        ph3.generate_fc2_displacements(distance=0.01, is_plusminus=pm, is_diagonal=diag)
        fill(ph3, m, phonon=True)
        g = np.random.default_rng(1)
        nf = len(ph3.supercells_with_displacements)
        ph3.forces = g.uniform(-1, 1, (nf, len(ph3.supercell), 3))
        first = bool(rng.integers(0, 2))
        if first:
            ph3.produce_fc3()
        ph3.produce_fc2(symmetrize_fc2=sym, is_compact_fc=compact)
        if not first:
            ph3.produce_fc3()
        out.append({"kind": "field", "key": f"fc2 {it}", "desc": f"fc2 {crystal.name} P={np.array(P).tolist()} compact={compact} sym={sym} pm={pm} first={first}",
                    "n": len(pos), "f2": ints(F2), "f3": [], "has2": True, "got2": ints(m.frac(ph3.fc2) * U), "got3": [],
                    "layout": "full", "layout2": "compact" if compact else "full", "p2s": [int(v) for v in ph3.phonon_primitive.p2s_map],
                    "cut": -1, "d2": [], "tol": 2})
    return out


def through_cli(ph3, fc3, fc2, d, sym3, sym2):
    """fc3 and fc2 the command gets from fc3.hdf5 and fc2.hdf5."""
    from phono3py.cui.create_force_constants import create_phono3py_force_constants
    from phono3py.cui.settings import Phono3pySettings

    s = Phono3pySettings()
    s.set_read_fc3(True)
    s.set_read_fc2(True)
    s.set_is_symmetrize_fc3_r(sym3)
    s.set_is_symmetrize_fc2(sym2)
    here = os.getcwd()
    os.chdir(d)
    try:
        file_IO.write_fc3_to_hdf5(fc3, filename="fc3.hdf5", p2s_map=ph3.primitive.p2s_map)
        file_IO.write_fc2_to_hdf5(fc2, filename="fc2.hdf5", p2s_map=ph3.primitive.p2s_map)
        create_phono3py_force_constants(ph3, s, log_level=0)
    finally:
        os.chdir(here)
    return ph3.fc3, ph3.fc2


def operations_cases(c, n, maxat):
    rng = np.random.default_rng(c.seed + 602)
    out = []
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, "work"))
    for it in range(n):
        crystal = cr.known_crystal(["sc", "cscl", "rs", "polar", "p1", "hcp"][it % 6]) if it < 6 else cr.random_crystal(rng)
        while True:
            S = cr.random_supercell(rng, crystal, maxat)
            if 2 <= abs(round(np.linalg.det(S))) * len(crystal.pos) <= maxat:
                break
        ph3 = Phono3py(crystal.cell(), S, primitive_matrix=np.eye(3), log_level=0)
        G, den, pos = cr.super_integers(crystal, S, ph3.supercell)
        na = len(pos)
        D = dist2(G, den, pos)
        compact = it % 2 == 1 or it % 3 == 0
        p2s = [int(v) for v in ph3.primitive.p2s_map]
        rows = len(p2s) if compact else na
        X = rng.integers(-4, 5, size=(rows, na, na, 3, 3, 3)) * 6 * na**3
        Y = rng.integers(-9, 10, size=(rows, na, 3, 3)) * 2 * na**2
        tr = translations(ph3)
        shells = np.unique(D)
        cut = int(shells[int(rng.integers(0, len(shells)))])
        cutd = float(np.sqrt(cut + 0.5) / den * crystal.scale)
        base = {"n": na, "p2s": p2s, "layout": "full" if rows == na else "compact", "tr": tr, "d2": D.tolist(), "cut": cut}
        for how in (["perm"], ["trans"], ["trans", "perm"], ["perm", "zero"], ["zero"], "cli"):
            ph3 = Phono3py(crystal.cell(), S, primitive_matrix=np.eye(3), log_level=0)
            ph3.fc3 = np.array(X, dtype="double", order="C")
            ph3.fc2 = np.array(Y, dtype="double", order="C")
            if how == "cli":
                ops = ["trans", "perm"]
                f3, f2 = through_cli(ph3, ph3.fc3, ph3.fc2, tmp, True, False)
                ops2 = []
            else:
                ops, ops2 = how, [o for o in how if o != "zero"]
                for o in how:
                    if o == "perm":
                        ph3.set_permutation_symmetry()
                    elif o == "trans":
                        ph3.set_translational_invariance()
                    else:
                        ph3.cutoff_fc3_by_zero(cutd)
                f3, f2 = ph3.fc3, ph3.fc2
            k = f"{it} {how}"
            desc = f"{how} {crystal.name} S={np.array(S).tolist()} {base['layout']} cut={cut}"
            out.append({**base, "kind": "op", "key": "op " + k, "desc": desc, "inp": ints(X), "ops": ops, "got": ints(f3)})
            out.append({**base, "kind": "op2", "key": "op2 " + k, "desc": "fc2 " + desc, "inp": ints(Y), "ops": ops2, "got": ints(f2)})
    shutil.rmtree(tmp)
    # which elements a cutoff distance leaves, in larger supercells
    for it in range(n):
        crystal = cr.random_crystal(rng) if it % 2 else cr.known_crystal(["sc", "cscl", "rs", "hcp", "p1"][it % 5])
        S = cr.random_supercell(rng, crystal, 14)
        ph3 = Phono3py(crystal.cell(), S, primitive_matrix=np.eye(3), log_level=0)
        G, den, pos = cr.super_integers(crystal, S, ph3.supercell)
        na = len(pos)
        D = dist2(G, den, pos)
        p2s = [int(v) for v in ph3.primitive.p2s_map]
        compact = bool(rng.integers(0, 2))
        rows = len(p2s) if compact else na
        X = rng.integers(1, 10, size=(rows, na, na, 3, 3, 3)).astype(float)
        shells = np.unique(D)
        for cut in rng.choice(shells, size=min(len(shells), 4), replace=False):
            ph3.fc3 = np.array(X, dtype="double", order="C")
            ph3.cutoff_fc3_by_zero(float(np.sqrt(int(cut) + 0.5) / den * crystal.scale))
            f = np.array(ph3.fc3).reshape(rows, na, na, 27)
            x = X.reshape(f.shape)
            left = np.where((f == x).all(axis=-1), 1, np.where((f == 0).all(axis=-1), 0, 2))
            out.append({"kind": "cut", "n": na, "p2s": p2s, "layout": "full" if rows == na else "compact", "d2": D.tolist(),
                        "cut": int(cut), "left": left.tolist(), "key": f"cut {it}",
                        "desc": f"cutoff {crystal.name} S={np.array(S).tolist()} cut={cut}"})
    return out


def order_two(ops):
    """Is a lattice translation of the supercell its own inverse?"""
    idx = np.arange(len(ops[0][0]))
    return any((W == np.eye(3)).all() and (p[p] == idx).all() and (p != idx).any() for p, W in ops)


def noisy(c, n, maxat):
    rng = np.random.default_rng(c.seed + 603)
    out = []
    for it in range(n):
        crystal, S, ph3, (G, den, pos), ops, (F2, F3) = world(rng, maxat, it)
        m = Model(ph3.supercell, F2, F3)
        D = dist2(G, den, pos)
        shells = np.unique(D)
        kw = {}
        if it % 2 and len(shells) > 2:
            cut = int(shells[int(rng.integers(1, len(shells) - 1))])
            kw = {"cutoff_pair_distance": float(np.sqrt(cut + 0.5) / den * crystal.scale)}
        ph3.generate_displacements(distance=0.03, **kw)
        fill(ph3, m, noise=np.random.default_rng(it))
        sym = bool(rng.integers(0, 3))
        res = []
        for compact in (False, True):
            ph3.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact)
            res.append(m.frac(ph3.fc3))
        before = ph3.fc3.copy()
        s = U * min(1.0, 1e5 / np.abs(res[0]).max())
        out.append({"kind": "noisy", "key": f"noisy {it}", "desc": f"noisy {crystal.name} S={np.array(S).tolist()} sym={sym} {kw}",
                    "n": len(pos), "p2s": [int(v) for v in ph3.primitive.p2s_map], "full": ints(res[0] * s), "compact": ints(res[1] * s),
                    "sym": sym, "two": order_two(ops), "changed": bool((before != ph3.fc3).any())})
    return out


def run(c):
    t = c.thorough
    cs = recover(c, 60 if t else 16, 12 if t else 8)
    cs += recover2(c, 40 if t else 8, 12 if t else 8)
    cs += operations_cases(c, 24 if t else 7, 6 if t else 4)
    cs += noisy(c, 16 if t else 5, 8 if t else 6)
    c.cases("ForceConst", ["FieldInv", "Recover2", "Recover3", "OpInv", "CutInv", "Op2Inv", "NoisyInv"], cs)
    c.cases("ForceConst", ["OpExact"], [x for x in cs if x["kind"] == "op"],
            key=lambda x: "translation of order two in compact fc3")
    c.note(elements=sum(len(x.get("f3", [])) ** 3 * 27 for x in cs))
    c.assumptions.append("forces are those of a harmonic plus cubic force field, exact in double precision")
