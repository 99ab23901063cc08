"""C22: conductivity with coherences, Wigner and Green-Kubo."""
import os
import tempfile
from types import SimpleNamespace

import h5py
import numpy as np

from checks.c07 import degenerate
from checks.c07 import symmetric as keeps
from checks.c11 import CONV, Geo, close, good
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

NAMES = ["cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "sc", "random", "rs"]
H = 2e-5


def run(c):
    out = []
    for cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(48 if c.thorough else 24)]):
        out += cs
    from phonopy.units import VaspToTHz

    data = {"conv": big(CONV, 12), "scale2": big(VaspToTHz**2, 12)}
    c.cases("Wigner", ["VelInv", "WigInv", "TotInv", "KuboInv", "TensorInv", "CloseInv"], out, glob=data)
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds)
    c.assumptions += [
        "rates, isotope and boundary scattering enter as the code holds them (C11, C13, C16)",
        "dynamical matrices are those of the code (C08)",
        "Green-Kubo: pairs of degenerate bands are a matter of convention and are left out; meshes and supercells keeping the point group only",
    ]


def derivs(it, q, cell):
    dm = it.dynamical_matrix
    out = []
    for a in range(3):
        d = np.zeros(3)
        d[a] = H
        dq = cell @ d
        m = []
        for s in (1, -1):
            dm.run(np.array(q) + s * dq)
            m.append(np.array(dm.dynamical_matrix))
        x = (m[0] - m[1]) / (2 * H)
        out.append([[bigs(r.real, 15), bigs(r.imag, 15)] for r in x])
    return out


def parts(it, gp, q, cell):
    f, e = (np.array(x) for x in it.get_phonons()[:2])
    e = e[gp]
    return {"f": bigs(f[gp], 12), "e": [[bigs(e[:, j].real, 15), bigs(e[:, j].imag, 15)] for j in range(e.shape[1])],
            "dd": derivs(it, q, cell)}


def pairs(f, k, rng, low=0.1):
    """Bands which are not degenerate, in pairs."""
    n = len(f)
    ok = [i for i in range(n) if f[i] > low and (np.abs(np.delete(f, i) - f[i]) > 2e-3).all()]
    p = [[i, j] for i in ok for j in ok]
    rng.shuffle(p)
    return [[i + 1, j + 1] for i, j in p[:k]]


def bands(V, f):
    """Group velocities; of degenerate bands the eigenvalues for every direction."""
    v = np.einsum("iij->ij", V).real.copy()
    d = np.array(degenerate(f, 1e-4))
    for k in set(d.tolist()):
        ix = np.where(d == k)[0]
        if len(ix) > 1:
            for a in range(3):
                v[ix, a] = np.linalg.eigvalsh(V[np.ix_(ix, ix)][:, :, a])
    return v


def tiny(g):
    """Numbers which would be written as zero."""
    return np.where((g != 0) & (abs(g) < 1e-40), 1e-40, g)


def head(tc, geo, ph, cut, star, length, sigmas, iso, ig):
    bz = ph.grid
    qd = int(np.prod(bz.D_diag))
    gps = [int(x) for x in tc.grid_points]
    q = np.rint(np.array(bz.addresses)[gps] @ bz.QDinv.T * qd).astype(int)
    f = np.array(tc.frequencies)
    V = getattr(tc, "velocity_operator", None)
    v = np.zeros(f.shape + (3,)) if V is None else np.array([bands(np.array(V[i]), f[i]) for i in range(len(f))])
    x = {"ops": geo.ops.tolist(), "star": bool(star), "tr": True, "qd": qd, "N": qd,
         "gs": [{"q": q[i].tolist(), "f": bigs(f[i], 12), "fd": bigs(f[i], 18), "v": bigs(v[i], 12)} for i in ig],
         "lat": bigs(geo.A, 12), "inv": bigs(geo.inv, 12), "cut": big(cut, 12), "length": big(length or 0, 12),
         "T": bigs(np.array(tc.temperatures), 12), "isotope": iso is not None, "iso": bigs(iso[:, ig], 60) if iso is not None else [],
         "gamma": bigs(tiny(np.array(tc.gamma)[:, :, ig]), 60), "vol": big(ph.primitive.volume, 12)}
    return x, gps, f


def total(tc, geo, ph, star, sym, sums, adds, desc, key):
    bz = ph.grid
    qd = int(np.prod(bz.D_diag))
    gps = [int(x) for x in tc.grid_points]
    q = np.rint(np.array(bz.addresses)[gps] @ bz.QDinv.T * qd).astype(int)
    S = []
    for kap, mode in sums:
        kap, mode = np.array(kap).real, np.array(mode).real
        for j in range(kap.shape[0]):
            for k in range(kap.shape[1]):
                S.append({"kappa": bigs(kap[j, k], 12), "mode": bigs(mode[j, k].reshape(-1, 6), 12)})
    A = []
    for t, p, r in adds:
        t, p, r = (np.array(y).real for y in (t, p, r))
        for j in range(t.shape[0]):
            for k in range(t.shape[1]):
                A.append({"total": bigs(t[j, k], 12), "p": bigs(p[j, k], 12), "q": bigs(r[j, k], 12)})
    return {"kind": "tot", "key": key, "ops": geo.ops.tolist(), "star": bool(star), "tr": True, "qd": qd, "N": qd,
            "gs": [{"q": q[i].tolist()} for i in range(len(gps))], "full": True, "sym": bool(sym), "sums": S, "adds": A, "desc": desc}


def one(a):
    seed, iw, thorough = a
    rng = np.random.default_rng([seed, 2200, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 2
    nac = bool(rng.integers(0, 4) == 0)
    nbt = 3 * len(w.primitive)
    mk = {"use_grg": grg, "is_mesh_symmetry": bool(rng.integers(0, 5))}
    maxn = 36 if nbt <= 6 else 12
    for _ in range(80):
        mesh = float(rng.uniform(6, 16)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return []
    geo = Geo(w, ph)
    ph.init_phph_interaction()
    it = ph.phph_interaction
    it.run_phonon_solver()
    fall = np.array(it.get_phonons()[0])
    fm = fall.max()
    if fm < 1:
        return []
    desc0 = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac} {mk}"
    sym = geo.symmetric_mesh(ph.grid)
    cut = 0.02
    if rng.integers(0, 3) == 0:
        u = np.unique(np.round(fall, 4))
        gaps = [(u[i] + u[i + 1]) / 2 for i in range(len(u) - 1) if u[i + 1] - u[i] > 0.02 and 0.02 < u[i] < fm / 2]
        if gaps:
            cut = float(rng.choice(gaps))
    temps = [round(float(rng.uniform(3, 50)), 2), round(float(rng.uniform(100, 1500)), 2)]
    sg = round(float(rng.uniform(0.06, 0.15) * fm), 3)
    mv = rng.uniform(0, 3e-3, size=nbt // 3)
    mvs = [mv[0] * (1 + x % 7) for x in w.primitive.numbers]
    out = []
    cell = np.array(w.primitive.cell)
    compact = bool(rng.integers(0, 2))

    def make(ct, **kw):
        k = dict(mk)
        k["cutoff_frequency"] = cut
        k.update({x: kw.pop(x) for x in ("is_mesh_symmetry",) if x in kw})
        p = w.make(mesh, nac=nac, compact=compact, **k)
        p.sigmas = kw.pop("sigmas", [None])
        p.init_phph_interaction()
        p.run_thermal_conductivity(temperatures=kw.pop("temperatures", temps), conductivity_type=ct, **kw)
        return p, p.thermal_conductivity

    for rep in range(2):
        star = bool(rng.integers(0, 3)) or nbt > 9
        sigmas = [[None, sg], [sg, None], [None], [sg]][int(rng.integers(0, 4))]
        length = float(rng.uniform(0.01, 50)) if rng.integers(0, 2) else None
        isot = bool(rng.integers(0, 2))
        tt = [[0.0], []][int(rng.integers(0, 2))] + [temps[int(x)] for x in rng.permutation(2)]
        kw = {"is_kappa_star": star, "boundary_mfp": length}
        if isot:
            kw["mass_variances"] = mvs
        ws = {"write_kappa": True} if rep == 0 else {}
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)
            try:
                p, tc = make("wigner", sigmas=sigmas, temperatures=tt, **kw, **ws)
                files = {}
                for s in sigmas if ws else []:
                    fn = [x for x in os.listdir(".") if x.startswith("kappa-m") and (f"-s{s}." in x if s else "-s" not in x)]
                    assert len(fn) == 1, os.listdir(".")
                    with h5py.File(fn[0]) as h:
                        files[s] = {x: h[x][()] for x in h if x.startswith(("kappa_", "mode_kappa_", "gamma")) and x != "kappa_unit_conversion"}
            finally:
                os.chdir(here)
        iso = np.array(tc.gamma_isotope) if isot else None
        desc = f"{desc0} cut={cut:.4f} {kw} sigmas={sigmas} T={tt}"
        ng = len(tc.grid_points)
        ig = sorted(int(y) for y in rng.permutation(ng)[: 4 if nbt <= 6 else 2])
        x, gps, f = head(tc, geo, p, cut, star, length, sigmas, iso, ig)
        V = np.array(tc.velocity_operator)
        S2 = np.array(tc.gv_by_gv_operator)
        for y, i in zip(x["gs"], ig):
            y.update(vre=bigs(V[i].real, 18), vim=bigs(V[i].imag, 18), sum2=bigs(S2[i].real, 24))
        x.update(kind="wig", key="wigner", route=f"star={star}", coh=True, pop=True, desc=desc,
                 bands=[] if nbt <= 6 else sorted((rng.permutation(nbt)[:4] + 1).tolist()),
                 modeP=bigs(np.array(tc.mode_kappa_P_RTA)[:, :, ig], 12), modeC=bigs(np.array(tc.mode_kappa_C)[:, :, ig].real, 12))
        out.append(x)
        out.append(total(tc, geo, p, star, sym, [(tc.kappa_P_RTA, tc.mode_kappa_P_RTA), (tc.kappa_C, tc.mode_kappa_C)],
                         [(tc.kappa_TOT_RTA, tc.kappa_P_RTA, tc.kappa_C)], desc, "wigner totals"))
        for s, d in files.items():
            j = sigmas.index(s)
            for nm, v in d.items():
                attr = {"gamma": tc.gamma, "gamma_isotope": tc.gamma_isotope}.get(nm, getattr(tc, nm, None))
                out.append(close(np.array(v).real, np.array(attr)[j].real, 20, 10**8, 1e-12, f"file {nm}", f"{desc} sigma={s}"))
        if star:
            out.append({"kind": "tensor", "key": "tensor", "ops": geo.ops.tolist(), "inv": bigs(geo.inv, 12), "desc": desc,
                        "tensors": bigs(np.array([tc.kappa_P_RTA, tc.kappa_C]).real.reshape(-1, 6), 12)})
        # the velocities
        for i in ig[: 2 if nbt <= 6 else 1]:
            q = np.array(tc.qpoints)[i]
            pr = pairs(f[i], 12, rng)
            if abs(q).max() < 1e-8 or not pr or f[i].min() < 0.1:
                continue
            g = parts(p.phph_interaction, gps[i], q, cell)
            out.append({"kind": "vel", "key": "velocity", **g, "vre": bigs(V[i].real, 18), "vim": bigs(V[i].imag, 18), "pairs": pr,
                        "tol": big(1e-5 * abs(V[i]).max() ** 2 + 1e-6, 36), "desc": f"{desc} q={q.tolist()}"})
        # the standard form
        nd = not (np.diff(f, axis=1)[f[:, 1:] > cut] < 1e-3).any()
        _, tr = make(None, sigmas=sigmas, temperatures=tt, **kw)
        js = [j for j, s in enumerate(sigmas) if s]  # weights of tetrahedra depend on how degenerate states are chosen
        if js:
            out.append(close(np.array(tc.gamma)[js], np.array(tr.gamma)[js], 40, 10**7, 1e-20, "rates", desc))
        if nd and (fall[np.array(gps)] > 0.1).all():
            out.append(close(np.array(tc.kappa_P_RTA), np.array(tr.kappa), 12, 10**5, 1e-9, "populations of RTA", desc))
    # symmetry
    cs = SimpleNamespace(w=w)
    whole = sym and keeps(cs) and mk["is_mesh_symmetry"] and good(fall)
    if whole and nbt <= 6 and not nac:
        kw = {"sigmas": [sg], "mass_variances": mvs}
        _, t1 = make("wigner", **kw)
        _, t2 = make("wigner", is_kappa_star=False, **kw)
        _, t3 = make("wigner", is_mesh_symmetry=False, **kw)
        for key, t in (("star", t2), ("mesh symmetry", t3)):
            for nm in ("kappa_P_RTA", "kappa_C", "kappa_TOT_RTA"):
                out.append(close(np.array(getattr(t, nm)), np.array(getattr(t1, nm)), 12, 10**5, 1e-9, f"{nm}: {key} or not", f"{desc0} {kw}"))
    # Green-Kubo
    star = whole and bool(rng.integers(0, 3))
    if (not star or not nac) and nbt <= 12:
        kw = {"sigmas": [None, sg] if nbt <= 6 else [sg], "is_kappa_star": star, "temperatures": [0.0, *temps]}
        if rng.integers(0, 2):
            kw["mass_variances"] = mvs
        p, tc = make("kubo", **kw)
        desc = f"{desc0} cut={cut:.4f} kubo {kw}"
        iso = np.array(tc.gamma_isotope) if "mass_variances" in kw else None
        ok = [i for i in range(len(tc.grid_points)) if abs(np.array(tc.qpoints)[i]).max() > 1e-8 and np.array(tc.frequencies)[i].min() > 0.02]
        ig = sorted(int(ok[y]) for y in rng.permutation(len(ok))[:3])
        if ig:
            x, gps, f = head(tc, geo, p, cut, star, None, kw["sigmas"], iso, ig)
            vmax = 1e-3
            from phono3py.phonon.velocity_operator import VelocityOperator

            for y, i in zip(x["gs"], ig):
                q = np.array(tc.qpoints)[i]
                y.update(parts(p.phph_interaction, gps[i], q, cell))
                y["pairs"] = pairs(f[i], 10, rng, 0.02)
                if not keeps(cs):  # velocities of bands are made symmetric
                    y["pairs"] = [z for z in y["pairs"] if z[0] != z[1]]
                vo = VelocityOperator(p.phph_interaction.dynamical_matrix)
                vo.run([q])
                z = np.sqrt(np.maximum(f[i], 1e-3))
                vmax = max(vmax, (abs(vo.velocity_operators[0]).max(axis=2) * (f[i][:, None] + f[i]) / (2 * np.outer(z, z)))[f[i] > 0.02].max())
            x.update(kind="kubo", key="kubo", vtol=big(1e-5 * vmax**2, 24), mode=bigs(np.array(tc.mode_kappa_mat)[:, :, ig].real, 12), desc=desc,
                     route=f"star={star}")
            out.append(x)
        out.append(total(tc, geo, p, star, sym, [(tc.kappa, tc.mode_kappa_mat)], [], desc, "kubo totals"))
    # direct solution
    N = int(np.prod(ph.grid.D_diag))
    if whole and nbt <= 6 and N <= 27:
        kw = {"sigmas": [sg], "is_LBTE": True}
        if rng.integers(0, 2):
            kw["mass_variances"] = mvs
        red = bool(rng.integers(0, 3) == 0)
        kw["is_reducible_collision_matrix"] = red
        desc = f"{desc0} cut={cut:.4f} lbte {kw}"
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)
            try:
                p, tc = make("wigner", write_kappa=True, **kw)
                fn = [x for x in os.listdir(".") if x.startswith("kappa-m")]
                with h5py.File(fn[0]) as h:
                    d = {x: h[x][()] for x in h if x.startswith(("kappa_", "mode_kappa_")) and x != "kappa_unit_conversion"}
            finally:
                os.chdir(here)
        for nm in ("kappa_P_exact", "kappa_P_RTA", "kappa_C", "kappa_TOT_exact", "kappa_TOT_RTA"):
            out.append(close(np.array(d[nm]).real, np.array(getattr(tc, nm))[0].real, 12, 10**8, 1e-12, f"lbte file {nm}", desc))
        out.append(total(tc, geo, p, True, sym, [] if red else [(tc.kappa_P_exact, tc.mode_kappa_P_exact), (tc.kappa_P_RTA, tc.mode_kappa_P_RTA), (tc.kappa_C, tc.mode_kappa_C)],
                         [(tc.kappa_TOT_exact, tc.kappa_P_exact, tc.kappa_C), (tc.kappa_TOT_RTA, tc.kappa_P_RTA, tc.kappa_C)], desc, "lbte totals"))
        _, tl = make(None, **kw)
        nd = not (np.diff(fall, axis=1)[fall[:, 1:] > cut] < 1e-3).any()
        if nd and (fall[np.array(tl.grid_points)] > 0.1).all():
            out.append(close(np.array(tc.kappa_P_exact), np.array(tl.kappa), 12, 10**4, 1e-9, "lbte populations", desc))
            out.append(close(np.array(tc.kappa_P_RTA), np.array(tl.kappa_RTA), 12, 10**4, 1e-9, "lbte populations RTA", desc))
        if not red:
            kr = {k: v for k, v in kw.items() if k not in ("is_LBTE", "is_reducible_collision_matrix")}
            _, tr = make("wigner", **kr)
            out.append(close(np.array(tc.kappa_C).real, np.array(tr.kappa_C), 12, 10**6, 1e-9, "lbte coherences", desc))
    return out
