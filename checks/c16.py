"""C16: isotope scattering."""
import numpy as np

from checks.c07 import degenerate, symmetric
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

CUT = 0.02
NAMES = ["sc", "cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "random", "rs"]


def run(c):
    bases, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(240 if c.thorough else 120)]):
        for x in cs:
            if "b" in x:
                x["b"] += len(bases)
        bases += bs
        out += cs
    c.cases("Isotope", ["RateInv", "CloseInv", "VarInv", "ZeroInv"], out, glob={"bases": bases})
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += ["weights of the tetrahedron method are those of the real code (decided by C09)",
                      "natural abundances are those of the phonopy package"]


def eig(e):
    """Rows <re, im> per band."""
    return [[bigs(e[:, k].real, 15), bigs(e[:, k].imag, 15)] for k in range(e.shape[1])]


def one(a):
    seed, iw, thorough = a
    from phono3py.api_isotope import Phono3pyIsotope
    from phono3py.other.isotope import Isotope, get_mass_variances
    from phono3py.other.tetrahedron_method import get_integration_weights

    rng = np.random.default_rng([seed, 1600, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 3
    nac = bool(rng.integers(0, 3) == 0)
    mk = {"cutoff_frequency": CUT, "use_grg": grg}
    nbt = 3 * len(w.primitive)
    maxn = 27 if nbt <= 6 else 8
    for _ in range(60):
        mesh = float(rng.uniform(5, 14)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []
    na = len(ph.primitive)
    g = rng.uniform(0, 3e-3, size=na) * (rng.integers(0, 4, size=na) > 0)
    desc = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac} variances={g}"
    bases, out = [], []

    def make(bands, sigma, own):
        iso = Isotope(mesh, ph.primitive, mass_variances=g, band_indices=bands, sigma=sigma, cutoff_frequency=CUT,
                      use_grg=grg, bz_grid=None if own else ph.grid)
        iso.init_dynamical_matrix(ph.fc2, ph.supercell, ph.primitive, nac_params=ph.nac_params)
        return iso

    ref = make(None, 0.5, False)
    ref.set_grid_point(0)
    ref.run()
    f, e, _ = ref.get_phonons()
    f1 = f = np.array(f)
    e = np.array(e)
    fm = f.max()
    if not fm > 1:
        return [], []
    if (abs(f - CUT) < 1e-9).any():
        return [], []
    grid = ph.grid
    reg = grid.grg2bzg
    gps = [int(x) for x in rng.permutation(len(grid.addresses))[:2]]
    if rng.integers(0, 2):
        gps[0] = 0
    gps = list(dict.fromkeys(gps))
    sig = [round(float(rng.uniform(0.03, 0.15) * fm), 3), float(rng.uniform(0.05, 0.2) * fm)]
    n = nbt
    # without the symmetry of the grid, frequencies of different points do not meet
    f2 = (f[reg] + rng.uniform(0.0005, 0.002, size=(len(reg), nbt)))[grid.bzg2grg]
    for gp, f in [(gp, f) for gp in gps] + [(gp, f2) for gp in gps]:
        wt = get_integration_weights(np.array(f[gp]), f, grid, grid_points=np.arange(len(grid.addresses), dtype="int64"))
        bases.append({"n": n, "cut": big(CUT, 12), "f0": bigs(f[gp], 12), "e0": eig(e[gp]), "f": [bigs(f[q], 12) for q in reg],
                      "e": [eig(e[q]) for q in reg], "w": [bigs(wt[q], 15) for q in reg]})
    f = f1
    gs = bigs(g, 15)
    for ib, gp in enumerate(gps):
        for _ in range(6 if thorough else 3):
            s = [None, *sig][int(rng.integers(0, 3))]
            bands = None if rng.integers(0, 2) else [int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)]
            lang = "Py" if rng.integers(0, 4) == 0 and n <= 6 else "C"
            own = bool(rng.integers(0, 2))
            iso = make(bands, s if rng.integers(0, 2) else 0.7, own)
            if rng.integers(0, 2):
                iso.set_grid_point(gps[-1])
                iso.run()
            share = int(rng.integers(0, 3))
            if lang == "Py" and s is None:
                share = 2
                if min(grid.D_diag) < 3:  # tetrahedra of two equal vertices
                    lang = "C"
            if share:
                iso.set_phonons(f if share == 1 else f2, e, np.ones(len(f), dtype="byte"))
            iso.set_grid_point(gp)
            iso.sigma = s
            iso.run(lang=lang)
            hd = {"b": ib + 1 + (len(gps) if share == 2 else 0), "bands": [x + 1 for x in (bands if bands is not None else range(n))], "g": gs, "tet": s is None,
                  "sigma": big(s or 0, 12), "desc": f"{desc} gp={gp} sigma={s} bands={bands} {lang} own grid={own} shared phonons={share}"}
            out.append({**hd, "kind": "rate", "key": lang, "got": bigs(iso.gamma, 30)})
    # through the API
    bands = None if rng.integers(0, 2) else sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
    ss = [[None, sig[0]], [sig[0]], [sig[1], None, sig[0]], None][int(rng.integers(0, 4))]
    api = Phono3pyIsotope(mesh, ph.primitive, mass_variances=g, band_indices=bands, sigmas=ss, use_grg=grg, cutoff_frequency=CUT)
    api.init_dynamical_matrix(ph.fc2, ph.supercell, ph.primitive, nac_params=ph.nac_params)
    order = gps[::-1] if rng.integers(0, 2) else gps
    api.run(order)
    for i, s in enumerate(ss or [None]):
        for k, gp in enumerate(order):
            out.append({"kind": "rate", "key": "api", "b": gps.index(gp) + 1, "bands": [x + 1 for x in (bands if bands is not None else range(n))],
                        "g": gs, "tet": s is None, "sigma": big(s or 0, 12), "got": bigs(api.gamma[i, k], 30),
                        "desc": f"{desc} API gps={order} gp={gp} sigmas={ss} sigma={s} bands={bands}"})
    # other force constants given to the same object
    if rng.integers(0, 2):
        api.init_dynamical_matrix(ph.fc2 * 1.44, ph.supercell, ph.primitive, nac_params=ph.nac_params)
        api.run(order)
        fresh = Phono3pyIsotope(mesh, ph.primitive, mass_variances=g, band_indices=bands, sigmas=ss, use_grg=grg, cutoff_frequency=CUT)
        fresh.init_dynamical_matrix(ph.fc2 * 1.44, ph.supercell, ph.primitive, nac_params=ph.nac_params)
        fresh.run(order)
        out.append({"kind": "close", "key": "new force constants", "a": bigs(np.array(api.gamma).ravel(), 30),
                    "z": bigs(np.array(fresh.gamma).ravel(), 30), "abs": big(1e-12 * abs(np.array(fresh.gamma)).max(), 30), "rel": 10**9,
                    "desc": f"{desc} API gps={order} sigmas={ss} bands={bands}, force constants given twice"})
    # in a conductivity calculation
    p = w.make(mesh, nac=nac, compact=bool(rng.integers(0, 2)), **mk)
    ss = ss or [None]
    p.sigmas = ss
    if bands is not None:
        p.band_indices = [[x] for x in bands]
    p.init_phph_interaction()
    own = rng.integers(0, 2)
    reg_gps = [int(x) for x in gps if x in set(int(y) for y in reg)]
    if reg_gps and N_ok(p, reg_gps):
        kw = {"mass_variances": g} if own else {"is_isotope": True}
        gg = gs if own else bigs(get_mass_variances(primitive=ph.primitive), 15)
        p.run_thermal_conductivity(grid_points=reg_gps, temperatures=[300.0], **kw)
        tc = p.thermal_conductivity
        for i, s in enumerate(ss):
            for k, gp in enumerate(reg_gps):
                out.append({"kind": "rate", "key": "conductivity", "b": gps.index(gp) + 1,
                            "bands": [x + 1 for x in (bands if bands is not None else range(n))], "g": gg, "tet": s is None,
                            "sigma": big(s or 0, 12), "got": bigs(tc.gamma_isotope[i, k], 30),
                            "desc": f"{desc} conductivity gps={reg_gps} gp={gp} sigma={s} of {ss} bands={bands} own={own}"})
    # no variance, no rate
    iso = Isotope(mesh, ph.primitive, mass_variances=np.zeros(na), sigma=sig[0], use_grg=grg)
    iso.init_dynamical_matrix(ph.fc2, ph.supercell, ph.primitive)
    iso.set_grid_point(gps[0])
    iso.run()
    out.append({"kind": "zero", "key": "zero", "got": bigs(iso.gamma, 30), "desc": desc})
    # equivalent points; degenerate bands only as averages, one variance per kind of atoms
    if not nac and symmetric(type("x", (), {"w": w})):
        from phono3py.phonon.grid import get_ir_grid_points

        kinds = {x: rng.uniform(1e-4, 1e-3) for x in ph.primitive.symbols}
        gk = np.array([kinds[x] for x in ph.primitive.symbols])
        mp = get_ir_grid_points(grid)[2]
        irs = [int(x) for x in np.unique(mp) if (mp == x).sum() > 1]
        if irs:
            r = int(rng.choice(irs))
            qs = [int(grid.grg2bzg[x]) for x in np.nonzero(mp == r)[0]]
            iso = Isotope(mesh, ph.primitive, mass_variances=gk, sigma=sig[0], cutoff_frequency=CUT, use_grg=grg)
            iso.init_dynamical_matrix(ph.fc2, ph.supercell, ph.primitive)
            rs = []
            for q in qs[:4]:
                iso.set_grid_point(q)
                iso.run()
                d = degenerate(f[q], 1e-4)
                x = np.array(iso.gamma)
                rs.append(np.array([x[[j for j in range(n) if d[j] == d[i]]].mean() for i in range(n)]))
            for k in range(1, len(rs)):
                out.append({"kind": "close", "key": "equivalent", "a": bigs(rs[k], 30), "z": bigs(rs[0], 30), "abs": "1000000000000000",
                            "rel": "1000000", "desc": f"{desc} points {qs[0]} and {qs[k]} variances {gk}"})
    # variances
    from phonopy.structure.atoms import isotope_data

    names = [str(x) for x in rng.choice(["Si", "Ga", "N", "Na", "Cl", "Zn", "H", "Sn"], size=3)]
    own = {}
    if rng.integers(0, 2):
        x = rng.uniform(0.1, 1, size=int(rng.integers(1, 4)))
        x /= x.sum()
        m = float(rng.uniform(2, 200))
        own = {names[0]: [[k + 1, float(m + k * rng.uniform(0.5, 2)), float(y)] for k, y in enumerate(x)]}
    v = get_mass_variances(symbols=names, isotope_data=own or None)
    out.append({"kind": "variance", "key": "given" if own else "natural", "got": bigs(v, 30), "desc": f"{names} {own}",
                "iso": [[[big(y[1], 15), big(y[2], 15)] for y in (own.get(x) or isotope_data[x])] for x in names]})
    iso = Isotope(mesh, ph.primitive, use_grg=grg)
    out.append({"kind": "variance", "key": "default", "got": bigs(iso.mass_variances, 30), "desc": f"default {ph.primitive.symbols}",
                "iso": [[[big(y[1], 15), big(y[2], 15)] for y in isotope_data[x]] for x in ph.primitive.symbols]})
    return bases, out


def N_ok(p, gps):
    it = p.phph_interaction
    for gp in gps:
        it.set_grid_point(gp)
        if len(it.get_triplets_at_q()[0]) > 30:
            return False
    return True
