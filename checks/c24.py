"""C24: thermal displacement correlations and fits of force constants to snapshots."""
import numpy as np

from lib.par import pmap
from lib.worlds import World, big, bigs, fixed

NAMES = ["cscl", "p1", "random", "zb", "polar", "hcp", "random", "fcc4", "p1", "bcc2"]


def one(a):
    seed, iw, thorough = a
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
    from phonopy.units import VaspToTHz
    from phono3py.sscha.sscha import (DispCorrMatrix, DispCorrMatrixMesh, SecondOrderFC, SupercellPhonon, ThirdOrderFC,
                                      get_sscha_matrices)

    rng = np.random.default_rng([seed, 2400, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=8)
    for _ in range(30):
        if len(w.supercell) <= 8:
            break
        w = World(rng, "random", maxn=8)
    ph = w.make([1, 1, 1])
    if rng.integers(0, 2):
        # other masses, in step in supercell and primitive cell
        ph.masses = [float(x) for x in rng.uniform(1, 200, size=len(ph.primitive))]
    sc, pc = ph.supercell, ph.primitive
    N, d = len(sc), 3 * len(sc)
    f2 = np.array(w.fc2, dtype="double", order="C")
    soft = rng.integers(0, 3) == 0 and N > 1
    if soft:  # some imaginary modes
        x = rng.normal(size=(N, 3))
        x -= x.mean(axis=0)
        x /= np.linalg.norm(x)
        perms = pc.atomic_permutations
        # with the periodicity of the primitive cell
        for t in perms:
            f2 = f2 - 8 * abs(w.fc2).max() / len(perms) * np.einsum("ia,jb->ijab", x[t], x[t])
        f2 = np.array(f2, dtype="double", order="C")
    flatfc = f2.transpose(0, 2, 1, 3).reshape(d, d)
    ism = 1 / np.repeat(np.sqrt(sc.masses), 3)
    lam, v = np.linalg.eigh(ism * (ism * flatfc).T)
    if (abs(lam) < 1e-6).sum() != 3:
        return None, []  # amplitudes of nearly free modes are rounding noise
    base = {"lam": [big(x, 24) for x in lam], "v": fixed(v), "ism": fixed(ism), "sm": fixed(1 / ism), "fc": fixed(flatfc)}
    desc = f"{w.desc} masses={np.round(sc.masses[:3], 2).tolist()} soft={soft}"
    out = [{"kind": "base", "b": 0, "key": "base", "desc": desc}]
    freqs = np.sqrt(np.abs(lam)) * np.sign(lam) * VaspToTHz
    cuts = [None, 1e-3]
    gaps = [(x + y) / 2 for x, y in zip(freqs[:-1], freqs[1:]) if y - x > 0.2 and x > 0.1]
    if gaps:
        cuts.append(float(rng.choice(gaps)))
    Ts = [0.0, float(rng.choice([0.25, 1.0, 2.0, 5.0])), float(rng.choice([20.0, 100.0, 300.0])), float(rng.choice([1000.0, 3000.0]))]
    for T in rng.permutation(Ts)[: 4 if thorough else 3]:
        cut = cuts[int(rng.integers(0, len(cuts)))]
        eff = 1e-5 if cut is None else cut
        if any(abs(f - eff) < 1e-4 for f in freqs if abs(f) > 1e-4):
            continue
        if (freqs > eff).sum() == 0:
            continue
        how = int(rng.integers(0, 3))
        if how == 2:
            dm = get_dynamical_matrix(f2, sc, pc)
            uu = DispCorrMatrixMesh(pc, sc, cutoff_frequency=eff)
            fs, es = [], []
            for q in uu.commensurate_points:
                dm.run(q)
                val, vec = np.linalg.eigh(dm.dynamical_matrix)
                fs.append(np.sqrt(np.abs(val)) * np.sign(val) * VaspToTHz)
                es.append(vec)
            uu.run(np.array(fs), np.array(es), float(T))
            if abs(np.sort(np.ravel(fs)) - freqs)[abs(freqs) > 1e-2].max() > 1e-6:
                continue  # force constants without the periodicity of the primitive cell
            pref = ""
        else:
            if how == 0:
                uu = get_sscha_matrices(sc, f2, cutoff_frequency=cut)
            else:
                uu = DispCorrMatrix(SupercellPhonon(sc, f2, VaspToTHz), cutoff_frequency=cut)
                if rng.integers(0, 2):
                    uu.run(777.0)  # a second temperature starts afresh
            uu.run(float(T))
            pref = big(uu.prefactor, 30)
        out.append({"kind": "corr", "b": 0, "T": int(round(T * 1000)), "cut": big(eff, 12), "psi": fixed(uu.psi_matrix),
                    "ups": fixed(uu.upsilon_matrix), "pref": pref, "key": ["matrices", "matrices", "mesh"][how],
                    "desc": f"T={T} cutoff={cut} how={how} {desc}"})
    # numpy's error state is left as it was
    err = np.geterr()
    if err.get("over") == "raise":
        raise AssertionError("numpy error state changed by the calculation")
    sp = SupercellPhonon(sc, f2)
    if d <= 24:
        ns = int(rng.integers(d + 4, 2 * d + 10))
        u = rng.normal(size=(ns, N, 3)) * 0.5
        exact = bool(rng.integers(0, 2))
        f = -np.einsum("nia,ijab->njb", u, f2)
        if not exact:
            f += rng.normal(size=f.shape)
        so = SecondOrderFC(u, f, sp)
        so.run()
        fl = so.fc2.transpose(0, 2, 1, 3).reshape(d, d)
        uf, ff = u.reshape(ns, d), f.reshape(ns, d)
        # the snapshots as the specification sees them
        out.append({"kind": "second", "u": fixed(uf), "f": fixed(ff), "fc": fixed(fl), "exact": fixed(flatfc) if exact else [],
                    "key": "second", "desc": f"{ns} snapshots {desc}"})
        u = rng.normal(size=(ns, N, 3)) * 0.3
        f = -np.einsum("nia,ijab->njb", u, f2) + rng.normal(size=u.shape) * 0.3 + 0.1
        to = ThirdOrderFC(u, f, sp)
        to.run()
        fl = to.fc3.transpose(0, 3, 1, 4, 2, 5).reshape(d, d, d)
        pick = []
        for _ in range(6):
            i, j, k = (int(x) for x in rng.integers(0, d, size=3))
            pick.append({"i": i + 1, "j": j + 1, "k": k + 1, "fc": fixed(fl[:, :, k])})
        out.append({"kind": "third", "b": 0, "u": fixed(u.reshape(ns, d)), "f": fixed(f.reshape(ns, d)), "pick": pick,
                    "key": "third", "desc": f"{ns} snapshots {desc}"})
    return base, out


def run(c):
    from phonopy.units import AMU, EV, Angstrom, Hbar, Kb, THz, THzToEv, VaspToTHz

    bases, out = [], []
    for b, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(160 if c.thorough else 80)]):
        if b is None:
            continue
        bases.append(b)
        for x in cs:
            if "b" in x:
                x["b"] = len(bases)
        out += cs
    glob = {"bases": bases, "vf": big(VaspToTHz, 12), "kelvin": big(THzToEv / Kb, 12),
            "fac": big(Hbar * EV / (2 * np.pi * THz) / AMU / Angstrom**2, 12), "twopi": big(2 * np.pi, 12)}
    c.cases("Sscha", ["BaseInv", "PsiInv", "UpsilonInv", "InverseInv", "PrefactorInv", "SecondInv", "ExactInv", "ThirdInv"],
            out, glob=glob)
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += ["natural constants are those of the phonopy package"]
