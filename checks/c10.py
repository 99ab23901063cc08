"""C10: imaginary part of the self-energy."""
import os
import tempfile

import numpy as np

from checks.c07 import degenerate
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

CUT = 0.02
UNIT = 3306215.697005045  # 18 pi / hbar^2 in THz, eV (the unit the package documents)
NAMES = ["sc", "cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "random", "rs"]


def run(c):
    bases, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(48 if c.thorough else 20)]):
        for x in cs:
            if "b" in x:
                x["b"] += len(bases)
        bases += bs
        out += cs
    data = {"bases": bases, "unit": big(UNIT, 15), "unitden": str(10**50)}
    c.cases("SelfEnergy", ["IseInv", "DetailInv", "GroupInv", "PointsInv", "BoseInv"], out, glob=data)
    kinds = {}
    for x in out:
        k = x["kind"] + (" " + x["route"] if "route" in x else "")
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += [
        "integration weights and strengths entering the sum are those of the real code (decided by C09 and C07)",
        "modes of a frequency exactly at the cutoff frequency are not generated",
    ]


def deg(f):
    """Indices of degenerate sets, or None if the frequencies are ambiguous."""
    d = np.diff(f)
    if ((d > 1e-6) & (d < 1e-3)).any():
        return None
    return [x + 1 for x in degenerate(f, 1e-4)]


def base(ph, it, gp, sets, extra, unit_bands=True):
    """What enters the sum at a grid point."""
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    it.set_grid_point(gp)
    trip, wt = it.get_triplets_at_q()[:2]
    f = it.get_phonons()[0]
    it.run()
    v = np.array(it.interaction_strength)
    n = f.shape[1]
    d = deg(f[gp])
    if d is None:
        return None
    pts = np.array(list(f[gp]) + list(extra))
    gs = []
    for sigma, cutoff in sets:
        g = get_triplets_integration_weights(it, pts, sigma, sigma_cutoff=cutoff)[0]
        gs.append([[[bigs(g[k, t, x].ravel(), 20) for t in range(len(trip))] for k in range(2)] for x in range(len(pts))])
    return {"n": n, "w": [int(x) for x in wt], "f": [[bigs(f[t[1]], 12), bigs(f[t[2]], 12)] for t in trip],
            "cut": big(CUT, 12), "sum": [np.sum(it.bz_grid.addresses[t], axis=0).tolist() for t in trip],
            "v": [bigs(x.ravel(), 40) for x in v], "g": gs, "deg": d}


def got(x):
    """[point][band] with 25 decimals."""
    return [bigs(r, 25) for r in np.atleast_2d(x)]


def one(a):
    seed, iw, thorough = a
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy
    from phono3py.phonon3.imag_self_energy import get_frequency_points as points
    from phono3py.phonon.func import bose_einstein

    rng = np.random.default_rng([seed, 1000, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 3
    nac = bool(rng.integers(0, 4) == 0)
    mk = {"cutoff_frequency": CUT, "is_mesh_symmetry": bool(rng.integers(0, 4)), "use_grg": grg}
    nbt = 3 * len(w.primitive)
    maxn = 27 if nbt <= 6 else 8
    for _ in range(60):
        mesh = float(rng.uniform(5, 14)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []

    def fresh(bands=None, sigmas=None, **kw):
        k = dict(mk)
        k.update(kw)
        p = w.make(mesh, nac=nac, compact=bool(rng.integers(0, 2)), **k)
        if bands is not None:
            p.band_indices = bands
        if sigmas is not None:
            p.sigmas = sigmas
        p.init_phph_interaction()
        return p

    ph = fresh()
    it = ph.phph_interaction
    it.run_phonon_solver()
    f = it.get_phonons()[0]
    fm = f.max()
    na = len(ph.grid.addresses)
    cands = [int(x) for x in rng.permutation(na)]
    desc = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac}"
    bases, out, used = [], [], []
    cut = float(rng.uniform(2, 4))
    sets = [(None, None), (round(float(rng.uniform(0.05, 0.1) * fm), 3), None), (float(rng.uniform(0.05, 0.2) * fm), cut)]
    extra = np.sort(rng.uniform(0, 2.1 * fm, size=3))
    for gp in cands:
        if len(it_triplets(it, gp)) > (20 if nbt <= 6 else 10):
            continue
        b = base(ph, it, gp, sets, extra)
        if b is None:
            continue
        bases.append(b)
        used.append(gp)
        if len(bases) == (2 if nbt < 9 else 1):
            break
    n = nbt
    inner = list(range(1, n + 1))
    temps = [0.0, round(float(rng.uniform(5, 60)), 3), round(float(rng.uniform(100, 1500)), 3)]
    for ib, gp in enumerate(used):
        for rep in range(8 if thorough else 4):
            bands = inner if rng.integers(0, 2) else sorted(int(x) + 1 for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
            if rng.integers(0, 4) == 0:
                bands = bands[::-1]
            s = int(rng.integers(0, 3))
            cls = int(rng.choice([0, 0, 1, 2]))
            T = float(rng.choice(temps))
            lang = "Python" if rng.integers(0, 5) == 0 else "C"
            detail = bool(rng.integers(0, 2)) and lang == "C"
            freq = bool(rng.integers(0, 2))
            full = bool(rng.integers(0, 2))
            p = fresh([[x - 1 for x in bands]])
            i2 = p.phph_interaction
            ise = ImagSelfEnergy(i2, with_detail=detail, lang=lang)
            if rng.integers(0, 2):
                i2.run_phonon_solver()
                ise.set_grid_point(gp)
            else:
                ise.set_grid_point(gp)
                ise.run_interaction()
            first, fullf = rng.integers(0, 2), rng.integers(0, 2)
            if first:  # something else first
                ise.set_sigma(sets[0][0])
                ise.temperature = 77.0
                ise.run_integration_weights()
                ise.run_interaction(is_full_pp=bool(fullf))
                ise.run()
            ise.set_sigma(*sets[s])
            if freq:
                ise.frequency_points = extra
            ise.run_integration_weights(scattering_event_class=cls or None)
            order = int(rng.integers(0, 3))
            if order:
                ise.run_interaction(is_full_pp=full)
            if order == 2 or lang == "Python":  # strengths of the Python code are the subject of C07
                i2.run()
                ise.set_interaction_strength(np.array(i2.interaction_strength))
            if rng.integers(0, 2):
                ise.temperature = 413.0
                ise.run()
            ise.temperature = T
            ise.run()
            pts = [n + 1, n + 2, n + 3] if freq else [0]
            hd = {"b": ib + 1, "s": s + 1, "T": big(T, 12), "cls": cls, "bands": bands, "pts": pts,
                  "desc": f"{desc} gp={gp} sigma={sets[s]} T={T} class={cls} bands={bands} {lang} detail={detail} freq={freq} full={full} order={order} first={first} {fullf}"}
            out.append({**hd, "kind": "ise", "which": "all", "route": f"{lang} detail={detail} freq={freq}", "key": "ise",
                        "got": got(ise.imag_self_energy)})
            if detail:
                N, U = ise.get_imag_self_energy_N_and_U()
                out.append({**hd, "kind": "ise", "which": "N", "route": "normal", "key": "normal", "got": got(N)})
                out.append({**hd, "kind": "ise", "which": "U", "route": "umklapp", "key": "umklapp", "got": got(U)})
                d = np.array(ise.detailed_imag_self_energy)
                d = d if freq else d[None]
                out.append({**hd, "kind": "detail", "key": "detail",
                            "got": [[[bigs(d[x, t, i].ravel(), 25) for i in range(len(bands))] for t in range(d.shape[1])]
                                    for x in range(len(d))]})
        # through the API: lists of grid points, sigmas and temperatures
    if not used:
        return bases, out
    ns = sets[1][0]
    groups = [[x - 1 for x in inner]]
    if rng.integers(0, 2):
        perm = [int(x) for x in rng.permutation(n)]
        k = int(rng.integers(1, n + 1))
        groups = [perm[:k]] + ([perm[k:]] if k < n else [])
    flat = [x + 1 for g in groups for x in g]
    sig = [None, ns] if rng.integers(0, 2) else [ns, None]
    p = fresh(groups, sig)
    cls = [None, 1, 2][int(rng.integers(0, 3))]
    at = bool(rng.integers(0, 2))
    order = [int(x) for x in rng.permutation(len(used))]
    tt = [temps[int(x)] for x in rng.permutation(3)]
    keep = bool(rng.integers(0, 2))
    kw = {"frequency_points_at_bands": True} if at else {"frequency_points": extra, "num_points_in_batch": int(rng.integers(1, 5))}
    txt = not at
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            r = p.run_imag_self_energy([used[x] for x in order], tt, scattering_event_class=cls, write_txt=txt,
                                       keep_gamma_detail=keep, output_filename="o", **kw)
            files = {x: np.loadtxt(x) for x in os.listdir(".") if x.endswith(".dat")}
        finally:
            os.chdir(cwd)
    gam = r[1]
    for si, sg in enumerate(sig):
        for ti, T in enumerate(tt):
            for k, ib in enumerate(order):
                hd = {"b": ib + 1, "s": 1 if sg is None else 2, "T": big(T, 12), "cls": cls or 0, "bands": flat,
                      "pts": [0] if at else [n + 1, n + 2, n + 3],
                      "desc": f"{desc} API gp={used[ib]} sigma={sg} of {sig} T={T} of {tt} class={cls} groups={groups} {kw}"}
                out.append({**hd, "kind": "ise", "which": "all", "route": f"API at_bands={at}", "key": "api",
                            "got": got(gam[si, ti, k] if at else gam[si, ti, k].T)})
                if keep and rng.integers(0, 3) == 0:
                    d = np.array(r[2][k])[si, ti]
                    d = d[None] if at else d
                    out.append({**hd, "kind": "detail", "key": "api detail",
                                "got": [[[bigs(d[x, t, i].ravel(), 25) for i in range(n)] for t in range(d.shape[1])] for x in range(len(d))]})
                if txt:
                    rows = []
                    for g in groups:
                        D = [int(x) for x in p.phph_interaction.mesh_numbers]
                        hit = [v for x, v in files.items() if x == fname(D, used[ib], g, sg, T, cls, "o")]
                        rows.append(bigs(hit[0][:, 1], 25) if len(hit) == 1 and abs(hit[0][:, 0] - extra).max() < 1e-6 else ["0"] * 3)
                    pos, gr = 1, []
                    for g in groups:
                        gr.append(list(range(pos, pos + len(g))))
                        pos += len(g)
                    out.append({**hd, "kind": "group", "groups": gr, "got": rows, "key": "text", "files": sorted(files)})
    # sampling points
    for _ in range(3):
        sg = [None, [None, 0.1], [0.3, 0.2]][int(rng.integers(0, 3))]
        st = [None, float(rng.uniform(0.1, 2))][int(rng.integers(0, 2))]
        nm = [None, int(rng.integers(2, 30))][int(rng.integers(0, 2))]
        x = points(max_phonon_freq=fm, sigmas=sg, frequency_step=st, num_frequency_points=nm)
        out.append({"kind": "points", "max": big(fm, 12), "sigma": big(max([y for y in (sg or []) if y] or [0]), 12),
                    "step": big(st or 0, 12), "num": nm or 0, "got": bigs(x, 12), "key": "points", "desc": f"points {sg} {st} {nm}"})
    T = float(rng.uniform(1, 2000))
    x = rng.uniform(0.02, 30, size=8)
    out.append({"kind": "bose", "T": big(T, 12), "f": bigs(x, 12), "got": bigs(bose_einstein(x, T), 24), "key": "bose", "desc": f"bose {T}"})
    return bases, out


def it_triplets(it, gp):
    it.set_grid_point(gp)
    return it.get_triplets_at_q()[0]


def z(x):
    return f"{x:f}".rstrip("0").rstrip(".")


def fname(D, gp, bi, sigma, T, cls, out):
    """Documented name of the text file."""
    s = f"gammas-m{D[0]}{D[1]}{D[2]}-g{gp}-"
    s += "" if sigma is None else f"s{z(sigma)}-"
    s += f"t{z(T)}-" + "".join(f"b{x + 1}" for x in bi)
    return s + (f"-c{cls}" if cls else "") + f".{out}.dat"
