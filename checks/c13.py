"""C13: collision matrix, direct solution, collision files."""
import os
import shutil
import tempfile
from types import SimpleNamespace

import h5py
import numpy as np

from checks.c07 import degenerate, symmetric
from checks.c10 import UNIT
from checks.c11 import CONV, Geo, good
from lib import tlc
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

NAMES = ["sc", "p1", "cscl", "random", "bcc2", "fcc4", "zb", "random", "hcp", "polar", "random", "rs"]
CUT = 0.02


def run(c):
    t = c.thorough
    cb, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, t) for i in range(48 if t else 24)]):
        for x in cs:
            if "cb" in x:
                x["cb"] += len(cb)
        cb += bs
        out += cs
    data = {"cbases": cb, "bases": [], "unit": big(UNIT, 15), "unitden": str(10**50), "conv": big(CONV, 12)}
    c.cases("Collision", ["RowInv", "PairInv", "IrrInv", "AsmInv", "ExpandInv", "CloseInv"], out, glob=data)
    files(c)
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(cb))
    c.assumptions += [
        "strengths and integration weights entering a row are those of the code (C07, C09)",
        "solutions are compared where no eigenvalue lies near the cutoff of the pseudo inversion",
        "symmetry routes are compared with smearing, over sums of degenerate bands",
    ]


class Run:
    """One direct solution in a scratch directory, with its files."""

    def __init__(self, ph, **kw):
        d = tempfile.mkdtemp(prefix="c13")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            ph.run_thermal_conductivity(is_LBTE=True, write_LBTE_solution=True, write_kappa=True, **kw)
            self.raw, self.gamma0, self.unitary, self.eig = [], [], [], []
            m = "".join(str(int(x)) for x in ph.mesh_numbers)
            for s in ph.sigmas:
                suf = f"-m{m}" + ("" if s is None else "-s" + np.format_float_positional(s, trim="-")) + ".hdf5"
                with h5py.File("collision" + suf) as f:
                    self.raw.append(f["collision_matrix"][:])
                    self.gamma0.append(f["gamma"][:])
                with h5py.File("coleigs" + suf) as f:
                    self.eig.append(f["collision_eigenvalues"][:])
                if os.path.exists("unitary" + suf):
                    with h5py.File("unitary" + suf) as f:
                        self.unitary.append(f["unitary_matrix"][:])
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        self.tc = ph.thermal_conductivity


def piece(ph, gp, temps, red, **kw):
    """Raw piece at a grid point, [sigma][T]."""
    ph.run_thermal_conductivity(is_LBTE=True, temperatures=temps, grid_points=[gp],
                                is_reducible_collision_matrix=red, **kw)
    tc = ph.thermal_conductivity
    return np.array(tc.collision_matrix)[:, :, 0]


def one(a):
    seed, iw, thorough = a
    from phono3py.phonon3.collision_matrix import CollisionMatrix
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    rng = np.random.default_rng([seed, 1300, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 5 == 2
    nac = bool(rng.integers(0, 4) == 0)
    n = 3 * len(w.primitive)
    if n > 9:
        return [], []
    maxn = 27 if n == 3 else 12 if n == 6 else 8
    for _ in range(80):
        mesh = float(rng.uniform(6, 16)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, cutoff_frequency=CUT, use_grg=grg)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 3 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []
    geo = Geo(w, ph)
    ph.init_phph_interaction()
    it = ph.phph_interaction
    it.run_phonon_solver()
    fall = np.array(it.get_phonons()[0])
    fm = fall.max()
    if fm < 1:
        return [], []
    bz = ph.grid
    grg2bzg = np.array(bz.grg2bzg)
    N = int(np.prod(bz.D_diag))
    qd = N
    ng = len(grg2bzg)
    q = np.rint(np.array(bz.addresses) @ bz.QDinv.T * qd).astype(int)
    sg = round(float(rng.uniform(0.08, 0.2) * fm), 3)
    temps = [round(float(rng.uniform(20, 100)), 2), round(float(rng.uniform(100, 1500)), 2)]
    desc = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac} sg={sg}"
    ok = good(fall[grg2bzg])
    dg = [degenerate(fall[g], 1e-4) for g in grg2bzg]
    held = symmetric(SimpleNamespace(w=w))
    sym = held and geo.symmetric_mesh(bz)
    bases, out = [], []

    def make(sigmas, **kw):
        p = w.make(mesh, nac=nac, compact=bool(rng.integers(0, 2)), cutoff_frequency=CUT, use_grg=grg, **kw)
        p.sigmas = sigmas
        p.init_phph_interaction()
        return p

    both = [None, sg]
    rec = np.linalg.inv(w.primitive.cell.T).T
    common = {"ops": geo.ops.tolist(), "tr": True, "qd": qd, "pts": q[grg2bzg].tolist(), "n": n, "desc": desc,
              "rec": bigs(rec, 12), "recinv": bigs(np.linalg.inv(rec), 12)}

    # ---------------------------------------------------------- pieces
    pn = make(both, is_mesh_symmetry=False)
    # (without the symmetry of triplets)
    itn = pn.phph_interaction
    ps = make(both)
    rows = {}
    ir = None
    for gp in [int(x) for x in rng.permutation(grg2bzg)[: 3 if n < 9 else 1]]:
        itn.set_grid_point(gp)
        trip = itn.get_triplets_at_q()[0]
        if len(trip) != ng:
            raise RuntimeError(f"{len(trip)} triplets of {ng} without symmetry: {desc}")
        itn.run()
        v = np.array(itn.interaction_strength)
        f = np.array(itn.get_phonons()[0])
        gs = []
        for s in both:
            g = get_triplets_integration_weights(itn, f[gp], s, is_collision_matrix=True)[0]
            gs.append([bigs(x.ravel(), 20) for x in g[2]])
        b = {"n": n, "q1": [int(bz.bzg2grg[t[1]]) + 1 for t in trip], "f2": [bigs(f[t[2]], 12) for t in trip],
             "v": [bigs(x.ravel(), 40) for x in v], "g": gs, "cut": big(CUT, 12),
             "deg": dg[int(bz.bzg2grg[gp])], "degs": [dg[int(bz.bzg2grg[t[1]])] for t in trip]}
        bases.append(b)
        cb = len(bases)
        own = piece(pn, gp, temps, True, is_full_pp=bool(rng.integers(0, 2)))
        rows[gp] = own
        full = list(range(1, n + 1))
        for s in range(2):
            k = int(rng.integers(0, 2))
            out.append({"kind": "row", "key": f"own{s}", "cb": cb, "s": s + 1, "T": big(temps[k], 12), "own": not nac, "bands": full,
                        "got": bigs(own[s, k], 25), "desc": f"{desc} gp={gp} T={temps[k]}"})
        # symmetry of triplets
        red = piece(ps, gp, temps, True, is_full_pp=bool(rng.integers(0, 2)))
        k = int(rng.integers(0, 2))
        if ok and held and not nac:
            out.append({"kind": "row", "key": "sym", "cb": cb, "s": 2, "T": big(temps[k], 12), "own": False, "bands": full,
                        "got": bigs(red[1, k], 25), "desc": f"{desc} gp={gp} T={temps[k]}"})
        # a few bands (of the same modes)
        bands = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
        pb = w.make(mesh, nac=nac, cutoff_frequency=CUT, use_grg=grg, is_mesh_symmetry=False)
        pb.band_indices = [bands]
        pb.sigmas = both
        pb.init_phph_interaction()
        f, e, _ = itn.get_phonons()
        pb.set_phonon_data(f.copy(), e.copy(), bz.addresses)
        few = piece(pb, gp, temps, True)
        s, k = int(rng.integers(0, 2)), int(rng.integers(0, 2))
        # (phonons at Gamma are solved again with NAC)
        if not nac:
            out.append({"kind": "row", "key": "bands", "cb": cb, "s": s + 1, "T": big(temps[k], 12), "own": True,
                        "bands": [x + 1 for x in bands], "got": bigs(few[s, k], 25), "desc": f"{desc} gp={gp} bands={bands}"})
        # compressed
        irr = piece(ps, gp, temps, False, is_full_pp=bool(rng.integers(0, 2)))
        tc = ps.thermal_conductivity
        if ir is None:
            from phono3py.phonon.grid import get_ir_grid_points

            ir = [int(bz.grg2bzg[x]) for x in get_ir_grid_points(bz)[0]]
        for s in range(2):
            k = int(rng.integers(0, 2))
            out.append(dict(common, kind="irr", key=f"irr{s}", star=True, irq=q[ir].tolist(), red=bigs(red[s, k], 25),
                            irr=bigs(irr[s, k], 25), desc=f"{desc} gp={gp} T={temps[k]}"))
        # other language
        s, k = int(rng.integers(0, 2)), int(rng.integers(0, 2))
        for red_ in (True, False):
            # (Python averages no strengths over the three atoms)
            kw = {}
            if not red_:
                if not held:
                    break
                from phono3py.phonon.grid import get_grid_points_by_rotations

                kw = {"rotations_cartesian": np.array([rec @ r @ np.linalg.inv(rec) for r in _qops(bz, np.array(bz.rotations))]),
                      "num_ir_grid_points": len(ir),
                      "rot_grid_points": np.array([get_grid_points_by_rotations(g, bz) for g in ir], dtype="int64")}
            p0 = make(both, make_r0_average=False, is_mesh_symmetry=held)
            p0.phph_interaction.run_phonon_solver()
            ms = []
            for lang in ("C", "Py"):
                cm = CollisionMatrix(p0.phph_interaction, is_reducible_collision_matrix=red_, lang=lang, **kw)
                cm.set_grid_point(gp)
                cm.set_sigma(both[s])
                cm.run_integration_weights()
                cm.run_interaction(is_full_pp=True)
                cm.temperature = temps[k]
                cm.run()
                ms.append(np.array(cm.get_collision_matrix()))
            out.append(_close(*ms, 25, 1e8, max(1e-18, 1e-11 * abs(red[s, k]).max()), "python" + str(int(red_)),
                              f"{desc} gp={gp} s={both[s]}"))
    gps = sorted(rows)
    if ok and not nac:
        for g in gps:
            for h in gps:
                if rng.integers(0, 2):
                    k = int(rng.integers(0, 2))
                    out.append({"kind": "pair", "key": "pair", "rg": bigs(rows[g][1, k], 25), "rh": bigs(rows[h][1, k], 25),
                                "dg": dg[int(bz.bzg2grg[g])], "dh": dg[int(bz.bzg2grg[h])],
                                "g": int(bz.bzg2grg[g]) + 1, "h": int(bz.bzg2grg[h]) + 1, "desc": f"{desc} gps={g},{h}"})

    # ------------------------------------------------------- solutions
    iso = bool(rng.integers(0, 2))
    length = [None, round(float(rng.uniform(0.01, 10)), 3)][int(rng.integers(0, 2))]
    variance = rng.uniform(1e-4, 1e-2, size=len(w.primitive))
    T = float(temps[1])
    base = {"temperatures": [T], "is_isotope": iso, "mass_variances": variance if iso else None, "boundary_mfp": length}
    size_ir, size_red = len(ir) * n * 3, N * n
    first = None
    if size_ir <= (90 if thorough else 66):
        for s in both:
            p = make([s])
            method = int(rng.integers(0, 2))
            solver = int(rng.choice([0, 3, 4, 5]))
            r = Run(p, pinv_method=method, pinv_solver=solver, is_full_pp=bool(rng.integers(0, 2)), **base)
            pc = cutoff(r, rng)
            if pc:
                r = Run(make([s]), pinv_method=method, pinv_solver=solver, pinv_cutoff=pc, **base)
            x = snap(r, p, "irr", common, q[ir], geo, base, iso, length, method, T, fall[ir], [dg[int(bz.bzg2grg[g])] for g in ir], rng, pc)
            if x:
                x["desc"] = f"{desc} s={s} iso={iso} mfp={length} method={method} solver={solver} pinv cutoff={pc}"
                out.append(x)
                if s and not pc:
                    first = r
    if size_red <= (90 if thorough else 60) and ok and held:
        s = [None, sg][int(rng.integers(0, 2))]
        p = make([s])
        method = int(rng.integers(0, 2))
        r = Run(p, pinv_method=method, is_reducible_collision_matrix=True, **base)
        pc = cutoff(r, rng)
        if pc:
            r = Run(make([s]), pinv_method=method, is_reducible_collision_matrix=True, pinv_cutoff=pc, **base)
        x = snap(r, p, "red", common, q[ir], geo, base, iso, length, method, T, fall[grg2bzg], dg, rng, pc)
        if x:
            # pieces at the irreducible points
            x["raw"] = bigs(r.raw[0][0][[int(bz.bzg2grg[g]) for g in ir]], 25)
            x["desc"] = f"{desc} s={s} iso={iso} mfp={length} method={method} reducible pinv cutoff={pc}"
            out.append(x)
        pi = make([s])
        ri = Run(pi, pinv_method=method, **base)
        gi = [r.tc.gamma, ri.tc.gamma]
        ex = dict(common, kind="expand", key="expand", star=True, irq=q[ir].tolist(), v=bigs(ri.tc.group_velocities, 12),
                  vfull=bigs(r.tc.group_velocities, 12), desc=desc)
        ex["full"] = [bigs(gi[0][0, 0], 25), bigs(r.tc.mode_heat_capacities[0], 60)]
        ex["ir"] = [bigs(gi[1][0, 0], 25), bigs(ri.tc.mode_heat_capacities[0], 60)]
        if iso:
            ex["full"].append(bigs(r.tc.gamma_isotope[0], 25))
            ex["ir"].append(bigs(ri.tc.gamma_isotope[0], 25))
        out.append(ex)
    # --------------------------------------------------- same equation
    if sym and not nac and max(size_ir, size_red) <= 250:
        ref = None
        routes = [("irr", {}, {}), ("red", {"is_reducible_collision_matrix": True}, {}),
                  ("solver7", {"pinv_solver": 7}, {}), ("solver3", {"pinv_solver": 3}, {}), ("solver5", {"pinv_solver": 5}, {}),
                  ("fullpp", {"is_full_pp": True}, {}), ("redpp", {"is_reducible_collision_matrix": True, "is_full_pp": True}, {}),
                  ("collective", {"solve_collective_phonon": True}, {})]
        if not has_deg(dg):
            routes += [("nostar", {"is_kappa_star": False}, {}),
                       ("nostar-red", {"is_kappa_star": False, "is_reducible_collision_matrix": True}, {}),
                       ("nosym", {}, {"is_mesh_symmetry": False})]
        sel = [routes[0]] + [routes[int(i)] for i in rng.permutation(range(1, len(routes)))[: 8 if thorough else 4]]
        for name, kw, mk in sel:
            p = make([sg], **mk)
            k = dict(base)
            if has_deg(dg):
                # (velocities of degenerate modes are conventional)
                k["boundary_mfp"] = None
            k.update(kw)
            p.run_thermal_conductivity(is_LBTE=True, **k)
            tc = p.thermal_conductivity
            if name == "irr":
                ref = tc
                e = np.abs(np.array(tc.collision_eigenvalues)).ravel()
                if ((e > 1e-11) & (e < 1e-6 * e.max())).any() or e.max() < 1e-4 or (np.array(tc.collision_eigenvalues) < -1e-9).any():
                    break
                continue
            if name.startswith("solver7"):
                # the null space is judged by another cutoff
                if e.max() > 1 or (e[e > 1e-11].min() < 1e-10 * e.max()):
                    continue
            out.append(_close(tc.kappa, ref.kappa, 12, 1e6, 1e-9, name, f"{desc} {base} {name}"))
            if name == "redpp":
                pi = make([sg])
                pi.run_thermal_conductivity(is_LBTE=True, **dict(base, boundary_mfp=k["boundary_mfp"], is_full_pp=True))
                x, y = np.array(tc.averaged_pp_interaction), np.array(pi.thermal_conductivity.averaged_pp_interaction)
                out.append(_close(x[[int(bz.bzg2grg[g]) for g in ir]], y, 40, 1e8, 1e-25, "avepp", f"{desc} averaged strength"))
    # linewidths and their part of the conductivity are the RTA ones
    p = make([sg])
    p.run_thermal_conductivity(is_LBTE=True, **base)
    x = p.thermal_conductivity
    p = make([sg])
    p.run_thermal_conductivity(is_LBTE=False, **base)
    y = p.thermal_conductivity
    out.append(_close(x.gamma, y.gamma, 25, 1e8, 1e-15, "rta gamma", f"{desc} {base}"))
    if iso:
        out.append(_close(x.gamma_isotope, y.gamma_isotope, 25, 1e8, 1e-15, "rta iso", f"{desc} {base}"))
    g = np.array(y.gamma) + (np.array(y.gamma_isotope)[:, None] if iso else 0)
    lo = np.array(y.frequencies) > CUT
    if (g[0, 0][lo] > 1e-9).all():
        out.append(_close(x.kappa_RTA, y.kappa, 12, 1e7, 1e-9, "rta kappa", f"{desc} {base}"))
    return bases, out


def has_deg(dg):
    return any(len(set(d)) < len(d) for d in dg)


def _qops(bz, rots):
    """Operations on grid addresses to those on wave vectors."""
    Q = np.array(bz.QDinv)
    return [np.rint(Q @ r @ np.linalg.inv(Q)) for r in rots]


def _close(a, b, nd, rel, abs_, key, desc):
    return {"kind": "close", "a": bigs(np.ravel(a), nd), "z": bigs(np.ravel(b), nd), "rel": int(rel), "abs": big(abs_, nd),
            "key": key, "desc": desc}


def cutoff(r, rng):
    """A cutoff of the pseudo inversion between two eigenvalues, or none."""
    e = np.sort(np.abs(np.ravel(r.eig[0][0])))
    e = e[e > 1e-7]
    k = [i for i in range(len(e) - 1) if e[i + 1] > 1.05 * e[i]] if np.isfinite(e).all() else []
    if not k or rng.integers(0, 2):
        return None
    i = int(rng.choice(k))
    return float(np.sqrt(e[i] * e[i + 1]))


def snap(r, ph, form, common, irq, geo, base, iso, length, method, T, f, deg, rng, pc=None):
    tc = r.tc
    eig = np.ravel(r.eig[0][0])
    e = np.abs(eig)
    if not np.isfinite(e).all():
        raise RuntimeError(f"eigenvalues {eig}")
    pc = pc or 1e-8
    if ((e > 0.99 * pc) & (e < 1.01 * pc)).any() or (pc == 1e-8 and ((e > 1e-10) & (e < 1e-6)).any()) or not e.max() > 1e-4 or not good(f):
        return None
    size = len(eig)
    U = np.array(r.unitary[0]).reshape(size, size)
    q0 = np.array(irq if form == "irr" else common["pts"])
    g0 = [i + 1 for i in range(len(q0)) if not (q0[i] % common["qd"]).any()]
    x = dict(common, kind="asm", key=form, form=form, star=True, irq=np.array(irq).tolist(), f=bigs(f, 12), cut=big(CUT, 12),
             T=big(T, 12), gamma=bigs(np.array(tc.gamma)[0, 0], 25), isotope=iso,
             iso=bigs(np.array(tc.gamma_isotope)[0], 25) if iso else [], v=bigs(np.array(tc.group_velocities), 12),
             length=big(length or 0, 12), deg=deg, w=bigs(eig, 25), U=bigs(U, 20), method=method, pinv=big(pc, 25),
             z=rng.integers(-5, 6, size=(2, size)).tolist(), fv=bigs(np.array(tc.get_f_vectors()), 25),
             mode=bigs(np.array(tc.mode_kappa)[0, 0], 12), kappa=bigs(np.array(tc.kappa)[0, 0], 12),
             rmode=bigs(np.array(tc.mode_kappa_RTA)[0, 0], 12), rkappa=bigs(np.array(tc.kappa_RTA)[0, 0], 12),
             lat=bigs(geo.A, 12), inv=bigs(geo.inv, 12), vol=big(ph.primitive.volume, 12), N=common["qd"], gamma0=g0[0])
    if form == "irr":
        x["raw"] = bigs(r.raw[0][0], 25)
    return x


# ------------------------------------------------------------------- files
FILEWORLDS = [("sc", [3, 3, 3], False), ("cscl", [2, 2, 2], False), ("sc", [2, 2, 2], True), ("bcc2", [3, 3, 3], False)]
TEMPS = {1: 310.0, 2: 720.0}


def files(c):
    t = c.thorough
    items = []
    for i in range(8 if t else 4):
        name, mesh, red = FILEWORLDS[i % len(FILEWORLDS)]
        items.append((c.seed, i, name, mesh, red))
    total = 0
    worlds = pmap(c, filepools, items)
    jobs = []
    for it, pools in zip(items, worlds):
        hs = tlc.histories("Colfiles", ["TypeOK"], ["NeverMixed", "WholeFirst", "Complete", "ReadOnly"], pools, c.seed, 3, check=c)
        rng = np.random.default_rng([c.seed, 1313, it[1]])
        hs = [hs[k] for k in rng.permutation(len(hs))[: 1000 if t else 40]]
        hs += tlc.histories("Colfiles", ["TypeOK"], [], pools, c.seed + 7, 7, limit=1500 if t else 100)
        hs += tlc.histories("Colfiles", ["TypeOK"], [], pools, c.seed + 8, 11, limit=600 if t else 24)
        total += len(hs)
        k = 3 if not t else 8
        jobs += [(it, pools, hs[j::k]) for j in range(k)]
    for bad in pmap(c, replay, jobs):
        for what, data in bad:
            c.fail("Colfiles." + what.split(":")[0], what, data)
    c.traces += total
    c.note(file_histories=total)


def filephs(item):
    seed, i, name, mesh, red = item
    rng = np.random.default_rng([seed, 1314, i])
    while True:
        w = World(rng, name, maxn=36)
        ph = w.make(mesh, cutoff_frequency=CUT)
        ph.init_phph_interaction()
        ph.phph_interaction.run_phonon_solver()
        f = np.array(ph.phph_interaction.get_phonons()[0])
        if f.max() > 1:
            break
    sg = round(float(rng.uniform(0.1, 0.2) * f.max()), 3)

    def make(v, sigmas, bands=None):
        p = w.make(mesh, cutoff_frequency=CUT)
        p.fc3 = p.fc3 * (1 + 0.25 * (v - 1))
        if bands:
            p.band_indices = [[b - 1 for b in bands]]
        p.sigmas = [[None, sg][s - 1] for s in sigmas]
        p.init_phph_interaction()
        return p

    from phono3py.phonon.grid import get_ir_grid_points

    ir = [int(ph.grid.grg2bzg[x]) for x in get_ir_grid_points(ph.grid)[0]]
    return rng, w, make, ir, 3 * len(w.primitive), red, ph.grid


def filepools(item):
    rng, w, make, ir, nb, red, grid = filephs(item)
    ng = len(ir)
    tsets = [[1], [1, 2], [2]]
    ns = 2
    sgs = [[1], [2], [1, 2]] if item[1] % 2 else [[2]]
    if sgs == [[2]]:
        sgs, ns = [[1]], 1

    def pick(a):
        return a[int(rng.integers(0, len(a)))]

    allg = list(range(1, ng + 1))
    few = sorted(int(x) + 1 for x in rng.permutation(ng)[: max(1, ng // 2)])
    cut = int(rng.integers(1, nb))
    lo, hi = list(range(1, cut + 1)), list(range(cut + 1, nb + 1))
    main = 2 if rng.integers(0, 2) else 1
    other = pick([t for t in (1, 2, 3) if t != main])
    full = sgs[-1]
    pieces = [{"v": 1, "t": main, "gps": allg, "bands": [], "sg": full}, {"v": 2, "t": main, "gps": few, "bands": [], "sg": pick(sgs)},
              {"v": 1, "t": other, "gps": few, "bands": [], "sg": full},
              {"v": 3, "t": main, "gps": allg, "bands": lo, "sg": full}, {"v": 4, "t": main, "gps": allg, "bands": hi, "sg": full},
              {"v": 5, "t": other, "gps": few, "bands": lo, "sg": pick(sgs)}]
    wholes = [{"v": 2, "t": main, "sg": full, "each": True}, {"v": 1, "t": other, "sg": pick(sgs), "each": False}]
    g, b = pick(allg), pick(range(1, nb + 1))
    removes = [{"k": "whole", "s": s, "g": 1, "b": 1} for s in range(1, ns + 1)]
    removes += [{"k": "point", "s": pick(full), "g": g, "b": 1}, {"k": "point", "s": pick(full), "g": 1, "b": 1},
                {"k": "band", "s": pick(full), "g": g, "b": b}]
    reads = [{"sg": full, "all": True, "keep": False}, {"sg": full, "all": False, "keep": False}, {"sg": full, "all": True, "keep": True},
             {"sg": pick(sgs)[::-1], "all": True, "keep": False}]
    return {"ng": ng, "nb": nb, "ns": ns, "tsets": tsets, "pieces": pieces, "wholes": wholes, "removes": removes, "reads": reads}


def replay(job):
    item, pools, hs = job
    rng, w, make, ir, nb, red, grid = filephs(item)
    name = item[4]
    pos = [int(grid.bzg2grg[g]) for g in ir] if red else list(range(len(ir)))
    home = tempfile.mkdtemp(prefix="c13f")
    cwd = os.getcwd()
    objs, raw, ref = {}, {}, {}
    sig = [None, None]
    # (the other scattering makes the equation well conditioned)
    lbte = {"is_LBTE": True, "is_reducible_collision_matrix": red, "is_isotope": True, "mass_variances": [0.01] * len(w.primitive),
            "boundary_mfp": 0.05}

    def obj(v, sg, bands=()):
        k = (v, tuple(sg), tuple(bands))
        if k not in objs:
            objs[k] = make(v, sg, bands)
        return objs[k]

    def ts(t):
        return [TEMPS[x] for x in pools["tsets"][t - 1]]

    def suffix(s, extra=""):
        p = obj(1, [s])
        x = p.sigmas[0]
        return "collision-m" + "".join(str(int(k)) for k in p.mesh_numbers) + extra + (
            "" if x is None else "-s" + np.format_float_positional(x, trim="-")) + ".hdf5"

    def fresh():
        d = tempfile.mkdtemp(dir=home), os.getcwd()
        os.chdir(d[0])
        return d

    def leave(d):
        os.chdir(d[1])
        shutil.rmtree(d[0])

    def base(v, s, t):
        """Matrix and linewidths of a version without any file of pieces."""
        if (v, s) not in raw and v > 2:
            # linewidths of degenerate modes are averaged over those calculated
            bands = [q["bands"] for q in pools["pieces"] if q["v"] == v][0]
            base(1, s, t)
            m, g = [np.zeros_like(x) for x in raw[1, s]]
            p = make(v, [s], bands)
            for i, gp in enumerate(ir):
                p.run_thermal_conductivity(temperatures=[TEMPS[1], TEMPS[2]], grid_points=[gp], **lbte)
                tc = p.thermal_conductivity
                for k, b in enumerate(bands):
                    m[:, pos[i], b - 1] = np.array(tc.collision_matrix)[0, :, 0, k]
                    g[:, pos[i], b - 1] = np.array(tc.gamma)[0, :, 0, k]
            raw[v, s] = m, g
        if (v, s) not in raw:
            d = fresh()
            p = make(v, [s])
            p.run_thermal_conductivity(temperatures=[TEMPS[1], TEMPS[2]], write_LBTE_solution=True, **lbte)
            with h5py.File(suffix(s)) as f:
                raw[v, s] = f["collision_matrix"][:], f["gamma"][:]
            leave(d)
        return [x[t - 1] for x in raw[v, s]]

    def expected(sg, t, vs):
        k = (tuple(sg), tuple(t), repr(vs))
        if k in ref:
            return ref[k]
        d = fresh()
        for s, vm in zip(sg, vs):
            m, g = [np.array(x) for x in zip(*[base(1, s, x) for x in t])]
            for x, vv in enumerate(t):
                for i, row in enumerate(vm):
                    for b, v in enumerate(row):
                        y = base(v, s, vv)
                        m[x, pos[i], b], g[x, pos[i], b] = y[0][pos[i], b], y[1][pos[i], b]
            with h5py.File(suffix(s), "w") as f:
                f["collision_matrix"], f["gamma"], f["temperature"] = m, g, [TEMPS[x] for x in t]
                f["mesh"] = obj(1, sg).mesh_numbers
        p = obj(1, sg)
        p.run_thermal_conductivity(read_collision="all", **lbte)
        ref[k] = np.array(p.thermal_conductivity.kappa), np.array(p.thermal_conductivity.gamma)
        leave(d)
        return ref[k]

    bad = []
    seen = set()

    def note(what, h, i, extra=""):
        if what not in seen:
            seen.add(what)
            bad.append((f"{what}: {item[2]} {item[3]} reducible={red} step {i} {extra}", {"item": list(item), "pools": pools, "history": h, "step": i}))

    try:
        for h in hs:
            d = fresh()
            for i, o in enumerate(h):
                if o["op"] == "pieces":
                    q = pools["pieces"][o["i"] - 1]
                    p = obj(q["v"], q["sg"], q["bands"])
                    p.run_thermal_conductivity(temperatures=ts(q["t"]), grid_points=[ir[g - 1] for g in q["gps"]],
                                               write_collision=True, **lbte)
                elif o["op"] == "whole":
                    q = pools["wholes"][o["i"] - 1]
                    p = obj(q["v"], q["sg"])
                    p.run_thermal_conductivity(temperatures=ts(q["t"]), write_collision=q["each"], write_LBTE_solution=True, **lbte)
                    want = expected(q["sg"], pools["tsets"][q["t"] - 1], [[[q["v"]] * nb] * len(ir)] * len(q["sg"]))
                    if not same(p.thermal_conductivity.kappa, want[0]):
                        note("stored", h, i, "solution differs from the stored one")
                elif o["op"] == "remove":
                    q = pools["removes"][o["i"] - 1]
                    e = "" if q["k"] == "whole" else f"-g{ir[q['g'] - 1]}" + (f"-b{q['b']}" if q["k"] == "band" else "")
                    try:
                        os.remove(suffix(q["s"], e))
                    except FileNotFoundError:
                        note("missing", h, i, suffix(q["s"], e))
                        break
                else:
                    q = pools["reads"][o["i"] - 1]
                    p = obj(1, q["sg"])
                    before = p.thermal_conductivity
                    try:
                        p.run_thermal_conductivity(read_collision="all" if q["all"] else [0], write_LBTE_solution=q["keep"], **lbte)
                        tc = p.thermal_conductivity
                        ok = bool(tc) and tc is not before
                    except (RuntimeError, ValueError, OSError) as x:
                        ok, tc = False, x
                    if ok != o["ok"]:
                        note("accept" if o["ok"] else "refuse", h, i, f"read {q}: {ok} {'' if ok else repr(tc)}")
                        break
                    if not ok:
                        continue
                    want = expected(q["sg"], o["t"], o["v"])
                    if not np.array_equal(np.array(tc.temperatures), [TEMPS[x] for x in o["t"]]):
                        note("temperatures", h, i, f"{tc.temperatures}")
                        break
                    if not same(tc.kappa, want[0]):
                        note("kappa", h, i, f"read {q}: {np.ravel(tc.kappa)[:3]} {np.ravel(want[0])[:3]}")
                        break
                    if not same(tc.gamma, want[1]):
                        note("gamma", h, i, f"read {q}")
                        break
            leave(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(home, ignore_errors=True)
    return bad


def same(a, b):
    a, b = np.array(a), np.array(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-9 * max(1e-6, abs(b).max())))
