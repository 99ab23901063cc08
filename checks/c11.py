"""C11: thermal conductivity in the relaxation time approximation."""
import numpy as np

from checks.c07 import degenerate
from checks.c10 import UNIT, base, got
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

CONV = (1e12 * 1e-10) ** 2 / 1e-30 * 1.60217733e-19 / 1e12 / (2 * np.pi)
NAMES = ["sc", "cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "random", "rs"]


def run(c):
    bases, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(48 if c.thorough else 24)]):
        for x in cs:
            if "b" in x:
                x["b"] += len(bases)
        bases += bs
        out += cs
    data = {"bases": bases, "unit": big(UNIT, 15), "unitden": str(10**50), "conv": big(CONV, 12)}
    c.cases("Kappa", ["IseInv", "KappaInv", "WeightInv", "TensorInv", "CloseInv", "AveInv"], out, glob=data)
    kinds = {}
    for x in out:
        k = x["kind"] + (" " + x["route"] if "route" in x else "")
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += [
        "frequencies and group velocities at a grid point are those phonopy computes (frequencies: C08)",
        "isotope rates are those of the code (C16)",
    ]


class Geo:
    def __init__(self, w, ph):
        self.A = w.primitive.cell.T
        self.inv = np.linalg.inv(self.A)
        self.ops = np.array(ph.primitive_symmetry.pointgroup_operations, dtype=int)

    def symmetric_mesh(self, bz):
        """Does the grid keep the point group?"""
        M = bz.grid_matrix if bz.grid_matrix is not None else np.diag(bz.D_diag)
        for r in self.ops:
            # a grid vector goes to a grid vector
            x = np.array(M) @ r.T @ np.linalg.inv(M) if bz.grid_matrix is not None else np.linalg.inv(M).T @ r @ np.array(M).T
            y = np.array(M) @ r.T @ np.linalg.inv(M)
            z = np.array(M) @ np.linalg.inv(r) @ np.linalg.inv(M)
            if abs(y - np.rint(y)).max() > 1e-6 and abs(z - np.rint(z)).max() > 1e-6:
                return False
        return True


def snapshot(tc, geo, ph, cut, star, length, full, sym, sigmas, iso):
    """A finished calculation as a case."""
    bz = ph.grid
    qd = int(np.prod(bz.D_diag))
    gps = [int(x) for x in tc.grid_points]
    q = np.rint(np.array(bz.addresses)[gps] @ bz.QDinv.T * qd).astype(int)
    assert abs(q / qd - np.array(tc.qpoints)).max() < 1e-6
    f = np.array(tc.frequencies)
    v = np.array(tc.group_velocities)
    w = [int(x) for x in tc.grid_weights]
    n = f.shape[1]
    x = {"kind": "kappa", "key": "kappa", "ops": geo.ops.tolist(), "star": bool(star), "tr": True, "qd": qd, "N": qd,
         "gs": [{"q": q[i].tolist(), "f": bigs(f[i], 12), "v": bigs(v[i], 12), "w": w[i]} for i in range(len(gps))],
         "lat": bigs(geo.A, 12), "inv": bigs(geo.inv, 12), "cut": big(cut, 12), "length": big(length or 0, 12),
         "T": bigs(np.array(tc.temperatures), 12), "isotope": iso is not None, "iso": bigs(iso, 60) if iso is not None else [],
         "gamma": bigs(np.array(tc.gamma), 60), "vol": big(ph.primitive.volume, 12), "full": bool(full), "sym": bool(sym),
         "vv": bigs(np.array(tc.gv_by_gv), 24), "cv": bigs(np.array(tc.mode_heat_capacities), 60),
         "mode": bigs(np.array(tc.mode_kappa), 12), "kappa": bigs(np.array(tc.kappa), 12) if full else [],
         "ignored": np.array(tc.number_of_ignored_phonon_modes).astype(int).tolist()}
    assert np.array(tc.gamma).shape[-1] == n
    return x


def close(a, b, n, rel, abs_, key, desc):
    return {"kind": "close", "a": bigs(np.ravel(a), n), "z": bigs(np.ravel(b), n), "rel": rel, "abs": big(abs_, n), "key": key,
            "route": key, "desc": desc}


def good(f):
    d = np.diff(f, axis=1)
    return not ((d > 1e-6) & (d < 1e-3)).any()


def share(x, f):
    x = np.array(x)
    for i in range(len(f)):
        d = np.array(degenerate(f[i], 1e-4))
        for k in set(d.tolist()):
            x[..., i, d == k] = x[..., i, d == k].mean(axis=-1, keepdims=True)
    return x


def one(a):
    seed, iw, thorough = a
    rng = np.random.default_rng([seed, 1100, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 2
    nac = bool(rng.integers(0, 4) == 0)
    nbt = 3 * len(w.primitive)
    mk = {"use_grg": grg, "is_mesh_symmetry": bool(rng.integers(0, 5))}
    maxn = 48 if nbt <= 6 else 12
    for _ in range(80):
        mesh = float(rng.uniform(6, 16)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []
    geo = Geo(w, ph)
    ph.init_phph_interaction()
    it = ph.phph_interaction
    it.run_phonon_solver()
    fall = it.get_phonons()[0]
    fm = fall.max()
    desc0 = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac} {mk}"
    sym = geo.symmetric_mesh(ph.grid)
    # cutoff frequency: usual, or in the middle of the spectrum
    cut = 0.02
    if rng.integers(0, 3) == 0:
        u = np.unique(np.round(fall, 4))
        gaps = [(u[i] + u[i + 1]) / 2 for i in range(len(u) - 1) if u[i + 1] - u[i] > 0.02 and 0.02 < u[i] < fm / 2]
        if gaps:
            cut = float(rng.choice(gaps))
    temps = [0.0, round(float(rng.uniform(3, 50)), 2), round(float(rng.uniform(100, 1500)), 2)]
    sg = round(float(rng.uniform(0.06, 0.15) * fm), 3)
    bases, out = [], []

    def make(**kw):
        k = dict(mk)
        k["cutoff_frequency"] = cut
        pp = {x: kw.pop(x) for x in ("constant_averaged_interaction", "openmp_per_triplets") if x in kw}
        k.update({x: kw.pop(x) for x in ("is_mesh_symmetry",) if x in kw})
        p = w.make(mesh, nac=nac, compact=bool(rng.integers(0, 2)), **k)
        p.sigmas = kw.pop("sigmas", [None])
        sc = kw.pop("sigma_cutoff", None)
        if sc is not None:
            p.sigma_cutoff = sc
        p.init_phph_interaction(**pp)
        p.run_thermal_conductivity(temperatures=kw.pop("temperatures", temps), **kw)
        return p, p.thermal_conductivity

    mv = rng.uniform(0, 3e-3, size=nbt // 3)
    gamma_by = {}
    for rep in range(4 if thorough else 3):
        star = bool(rng.integers(0, 3))
        if nbt > 9 and not star:
            star = True
        sigmas = [[None, sg], [sg, None], [None], [sg]][int(rng.integers(0, 4))]
        sc = float(rng.uniform(2.5, 4)) if rng.integers(0, 3) == 0 else None
        length = float(rng.uniform(0.01, 50)) if rng.integers(0, 2) else None
        isot = rep == 0 or bool(rng.integers(0, 2))
        nu = bool(rng.integers(0, 2))
        fullpp = bool(rng.integers(0, 2))
        tt = [temps[int(x)] for x in rng.permutation(3)]
        kw = {"is_kappa_star": star, "boundary_mfp": length, "is_N_U": nu, "is_full_pp": fullpp}
        if isot:
            kw["mass_variances"] = mv
            kw["is_isotope"] = bool(rng.integers(0, 2))
        extra = {}
        if rng.integers(0, 2):
            extra["openmp_per_triplets"] = bool(rng.integers(0, 2))
        p, tc = make(sigmas=sigmas, sigma_cutoff=sc, temperatures=tt, **kw, **extra)
        iso = np.array(tc.gamma_isotope) if isot else None
        desc = f"{desc0} cut={cut:.4f} {kw} sigmas={sigmas} sc={sc} T={tt} {extra}"
        x = snapshot(tc, geo, p, cut, star, length, True, sym, sigmas, iso)
        out.append({**x, "route": f"star={star}", "desc": desc})
        if star:
            out.append({"kind": "tensor", "key": "tensor", "ops": geo.ops.tolist(), "inv": bigs(geo.inv, 12), "desc": desc,
                        "tensors": bigs(np.array(tc.kappa).reshape(-1, 6), 12)})
        # the rates against the triplet sum
        gps = [int(y) for y in tc.grid_points]
        for ig in [int(y) for y in rng.permutation(len(gps))[:3]]:
            gp = gps[ig]
            i2 = p.phph_interaction
            i2.set_grid_point(gp)
            f = np.array(i2.get_phonons()[0])
            trip = i2.get_triplets_at_q()[0]
            if len(trip) > (20 if nbt <= 6 else 8) or not good(f[[gp]]):
                continue
            b = base(p, i2, gp, [(s, sc if s else None) for s in sigmas], [])
            if b is None:
                continue
            b["cut"] = big(cut, 12)
            bases.append(b)
            ib = len(bases) - 1
            if fullpp:
                out.append({"kind": "ave", "key": "ave", "b": ib + 1, "got": bigs(np.array(tc.averaged_pp_interaction)[ig], 40), "desc": desc})
            for si in range(len(sigmas)):
                for ti, T in enumerate(tt):
                    hd = {"kind": "ise", "b": ib + 1, "s": si + 1, "T": big(T, 12), "cls": 0, "bands": list(range(1, nbt + 1)), "pts": [0],
                          "desc": f"{desc} gp={gp} at sigma={sigmas[si]} T={T}"}
                    out.append({**hd, "which": "all", "route": f"rta full={fullpp} nu={nu}", "key": "rate", "got": got(np.array(tc.gamma)[si, ti, ig])})
                    if nu:
                        N, U = tc.get_gamma_N_U()
                        out.append({**hd, "which": "N", "route": "rta N", "key": "rate N", "got": got(np.array(N)[si, ti, ig])})
                        out.append({**hd, "which": "U", "route": "rta U", "key": "rate U", "got": got(np.array(U)[si, ti, ig])})
            break
        # chosen grid points only
        pick = sorted(int(y) for y in rng.choice(len(gps), size=min(2, len(gps)), replace=False))
        _, t2 = make(sigmas=sigmas, sigma_cutoff=sc, temperatures=tt, grid_points=[gps[y] for y in pick], **kw, **extra)
        out.append(close(np.array(t2.gamma), np.array(tc.gamma)[:, :, pick], 40, 10**8, 1e-20, "chosen points", desc))
        out.append(close(np.array(t2.gv_by_gv), np.array(tc.gv_by_gv)[pick], 24, 10**8, 1e-9, "chosen points velocities", desc))
        if star:
            out.append(close(np.array(t2.grid_weights), np.array(tc.grid_weights)[pick], 6, 10**8, 0, "chosen points weights", desc))
        if isot:
            out.append(close(np.array(t2.gamma_isotope), np.array(tc.gamma_isotope)[:, pick], 40, 10**8, 1e-20, "chosen points isotope", desc))
        # one smearing at a time
        for si in range(len(sigmas)) if len(sigmas) > 1 else []:
            _, t3 = make(sigmas=[sigmas[si]], sigma_cutoff=sc, temperatures=tt, grid_points=[gps[pick[0]]], **kw, **extra)
            out.append(close(np.array(t3.gamma)[0, :, 0], np.array(tc.gamma)[si, :, pick[0]], 40, 10**8, 1e-20, "single sigma", f"{desc} {si}"))
            if isot:
                out.append(close(np.array(t3.gamma_isotope)[0, 0], np.array(tc.gamma_isotope)[si, pick[0]], 40, 10**8, 1e-20,
                                 "single sigma isotope", f"{desc} {si}"))
    # one answer with and without symmetry (smearing, symmetric grids)
    from checks.c07 import symmetric as keeps

    class CS:
        pass

    cs = CS()
    cs.w = w
    if sym and keeps(cs) and mk["is_mesh_symmetry"] and good(fall) and nbt <= 6:
        kw = {"sigmas": [sg], "boundary_mfp": 2.0, "mass_variances": [mv[0] * (1 + x % 7) for x in w.primitive.numbers]}
        p1, t1 = make(**kw)
        p2, t2 = make(is_kappa_star=False, **kw)
        p3, t3 = make(is_mesh_symmetry=False, is_kappa_star=bool(rng.integers(0, 2)), **kw)
        # rates at equivalent points
        from phono3py.phonon.grid import get_ir_grid_points

        im = get_ir_grid_points(p1.grid)[2]
        g1 = {int(im[p1.grid.bzg2grg[g]]): i for i, g in enumerate(t1.grid_points)}
        for key, p, t in (("star", p2, t2), ("mesh symmetry", p3, t3)):
            ix = [g1[int(im[p.grid.bzg2grg[g]])] for g in t.grid_points]
            for nm, x, y in (("gamma", t1.gamma, t.gamma), ("iso", t1.gamma_isotope, t.gamma_isotope)):
                x, y = np.array(x)[..., ix, :], np.array(y)
                if nm == "iso":  # degenerate bands share
                    x, y = share(x, fall[t.grid_points]), share(y, fall[t.grid_points])
                out.append(close(y, x, 30, 10**6, 1e-12, f"{nm}: {key} or not", f"{desc0} cut={cut} {kw}"))
            # group velocities of degenerate bands are a matter of convention
            if not (np.diff(fall[t.grid_points], axis=1)[fall[t.grid_points][:, 1:] > cut] < 1e-3).any():
                out.append(close(np.array(t.kappa), np.array(t1.kappa), 12, 10**5, 1e-9, f"kappa: {key} or not", f"{desc0} cut={cut} {kw}"))
    # a constant strength
    const = float(rng.uniform(1e-11, 1e-9))
    p, tc = make(constant_averaged_interaction=const, sigmas=[sg], is_N_U=bool(rng.integers(0, 2)))
    gps = [int(y) for y in tc.grid_points]
    for ig in [int(y) for y in rng.permutation(len(gps))[:3]]:
        p.phph_interaction.set_grid_point(gps[ig])
        if len(p.phph_interaction.get_triplets_at_q()[0]) > (20 if nbt <= 6 else 8):
            continue
        b = base(p, p.phph_interaction, gps[ig], [(sg, None)], [])
        if b is None:
            continue
        b["cut"] = big(cut, 12)
        N = int(np.prod(p.grid.D_diag))
        b["v"] = [[big(const / N, 40)] * len(x) for x in b["v"]]
        bases.append(b)
        for ti, T in enumerate(temps):
            out.append({"kind": "ise", "b": len(bases), "s": 1, "T": big(T, 12), "cls": 0, "bands": list(range(1, nbt + 1)), "pts": [0],
                        "which": "all", "route": "constant strength", "key": "constant", "got": got(np.array(tc.gamma)[0, ti, ig]),
                        "desc": f"{desc0} const={const} gp={gps[ig]} T={T}"})
        out.append({"kind": "ave", "key": "const ave", "b": len(bases), "got": bigs(np.array(tc.averaged_pp_interaction)[ig], 40),
                    "desc": f"{desc0} const={const} gp={gps[ig]}"})
        break
    return bases, out
