"""C21: cumulative quantities of kappa and phonon files."""
import contextlib
import importlib
import io
import os
import sys
import tempfile

import h5py
import numpy as np

from checks import gridgen
from checks.c09 import U, samples, values
from checks.c11 import Geo
from lib.gridcase import L, make
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

NAMES = ["sc", "cscl", "random", "bcc2", "p1", "zb", "random", "rs"]
D6 = "600000000000000000000000"  # printed with 6 decimals
D5 = "6000000000000000000000000"


def run(c):
    out = []
    for cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(64 if c.thorough else 24)]):
        out += cs
    c.cases("Kaccum", ["SampleInv", "MapInv", "DosInv", "TotalInv2", "SmearDos", "MfpInv", "KdeInv"], out)
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, outputs=sum(len(x.get("outs", [])) for x in out))
    c.assumptions += [
        "the 24 tetrahedra around a grid point are those of C09",
        "a sampling point at a corner may leave out the tetrahedra with that corner (known finding of C09)",
        "the contents of kappa and phonon files are right (C11, C15)",
    ]


def geometry(bz):
    from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

    qd = int(np.prod(bz.D_diag))
    q = np.rint(np.array(bz.addresses)[bz.grg2bzg] @ bz.QDinv.T * qd).astype(int)
    return {"D": L(bz.D_diag), "P": L(bz.P), "addresses": L(bz.addresses), "bzg2grg": L(bz.bzg2grg), "q": L(q), "qd": qd,
            "table": L(get_tetrahedra_relative_grid_address(bz.microzone_lattice))}


def rows(bz, ops, gps):
    """Which of the points is equivalent to each grid point."""
    qd = int(np.prod(bz.D_diag))
    q = np.rint(np.array(bz.addresses)[bz.grg2bzg] @ bz.QDinv.T * qd).astype(int)
    at = [int(bz.bzg2grg[g]) for g in gps]
    if len(at) == qd:
        return [at.index(i) + 1 for i in range(qd)]
    m = [0] * qd
    seen = {tuple(x % qd): i for i, x in enumerate(q)}
    for r, i in enumerate(at):
        for o in ops:
            for s in (1, -1):
                k = seen.get(tuple(s * (np.array(o).T @ q[i]) % qd))
                if k is not None:
                    m[k] = r + 1
    assert all(m)
    return m


def some(rng, n, k=3):
    ks = {1, n} | {int(x) + 1 for x in rng.choice(n, size=min(n, k), replace=False)}
    return sorted(ks)


def outp(what, raw, J, I, x, n, sm, here=True, eps="1", rel=0, exact=True, xeps="1", even=True, above=True, match=None, **kw):
    """J, I: (points, elements)."""
    return {"what": what, "raw": raw, "J": J, "I": I, "x": x, "n": n, "sum": sm, "here": here, "eps": eps, "rel": rel,
            "exact": exact, "xeps": xeps, "even": even, "above": above, "has": match is not None,
            "match": match if match is not None else [], "given": False, "sig": "0", "smooth": 1000000, **kw}


def call(*a):
    from phono3py.cui import kaccum_script

    out, err, av = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = ["phono3py-kaccum", *map(str, a)]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            kaccum_script.main()
    finally:
        sys.argv = av
    blocks, cur = [], []
    for ln in out.getvalue().splitlines() + [""]:
        if ln.startswith("#"):
            continue
        if ln.strip():
            cur.append(ln.split())
        elif cur:
            blocks.append(cur)
            cur = []
    return blocks


def dens(v):
    r = float(np.max(v) - np.min(v))
    return int(min(1e9, np.ceil(1 / max(r, 1e-9))))


def printed(rng, block, what, raw, n, sm, fmt, ne, ks):
    a = np.array(block, dtype=float)
    eps, rel, xeps = {"f": (D6, 0, "600000000000"), "5": (D5, 0, "6000000000000"), "e": ("1", 1000000, "600000000000")}[fmt]
    return outp(what, raw, bigs(a[:, 1:1 + ne], 30), bigs(a[:, 1 + ne:], 30), bigs(a[:, 0], 18), n, sm, eps=eps, rel=rel,
                exact=False, xeps=xeps)


def one(a):
    seed, iw, thorough = a
    rng = np.random.default_rng([seed, 2100, iw])
    out = direct(rng, iw)
    w = World(rng, NAMES[iw % len(NAMES)], maxn=24)
    nb = 3 * len(w.primitive)
    mk = {"use_grg": iw % 4 == 2, "is_mesh_symmetry": bool(rng.integers(0, 4))}
    for _ in range(80):
        mesh = float(rng.uniform(6, 14)) if mk["use_grg"] else random_mesh(rng, w.crystal, 24 if nb <= 6 else 12)
        try:
            ph = w.make(mesh, nac=False, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        ngp = int(np.prod(ph.grid.D_diag))
        if ngp <= (30 if nb <= 6 else 10):
            break
    else:
        return out
    ph.init_phph_interaction()
    ph.phph_interaction.run_phonon_solver()
    f = np.array(ph.phph_interaction.get_phonons()[0])
    if f.max() < 1:
        return out
    ops = np.array(ph.primitive_symmetry.pointgroup_operations, dtype=int).tolist()
    cwd = os.getcwd()
    tmp = tempfile.TemporaryDirectory()
    os.chdir(tmp.name)
    try:
        out += files(rng, iw, ph, ops, w.desc + f" mesh={mesh} {mk}")
    finally:
        os.chdir(cwd)
        tmp.cleanup()
    return out


def made_up(rng, name, imaginary):
    """Data which make a difference."""
    with h5py.File(name, "a") as h:
        def put(key, v):
            if key in h:
                del h[key]
            h[key] = v

        sh = h["gamma"].shape
        if rng.integers(0, 2):
            f = rng.uniform(0.5, 9, size=sh[1:])
            if imaginary:
                f[rng.random(f.shape) < 0.3] *= -1
                f[0] = -0.2
            put("frequency", np.sort(f, axis=1))
        g = 10.0 ** rng.uniform(-4, 1, size=sh)
        g[rng.random(sh) < 0.2] = 0
        if rng.integers(0, 2):
            g[rng.random(sh) < 0.1] = 1e-13
        put("gamma", g)
        put("group_velocity", rng.normal(0, 30, size=sh[1:] + (3,)))
        put("gv_by_gv", rng.normal(0, 500, size=sh[1:] + (6,)))
        put("heat_capacity", rng.uniform(0, 2, size=sh))
        put("mode_kappa", rng.normal(0, 40, size=sh + (6,)))
        put("kappa", h["mode_kappa"][:].sum(axis=(1, 2)) / np.prod(h["mesh"][:]))


def reread(yaml, bz):
    """The grid of the crystal in the file, whose lattice is rounded: of
    diagonals of the same length another one may be the shortest."""
    from phonopy.structure.symmetry import Symmetry

    from phono3py.interface.phono3py_yaml import Phono3pyYaml
    from phono3py.phonon.grid import BZGrid

    y = Phono3pyYaml()
    y.read(yaml)
    mesh = bz.grid_matrix if bz.grid_matrix is not None else bz.D_diag
    z = BZGrid(np.array(mesh, dtype="int64"), lattice=y.primitive.cell, symmetry_dataset=Symmetry(y.primitive).dataset, store_dense_gp_map=True)
    assert len(z.addresses) == len(bz.addresses) and (z.D_diag == bz.D_diag).all() and (z.P == bz.P).all()
    return z


def files(rng, iw, ph, ops, desc):
    from phono3py.file_IO import write_phonon_to_hdf5
    from phono3py.other.kaccum import GammaDOSsmearing, get_mfp, run_mfp_dos, run_prop_dos
    from phono3py.phonon.grid import get_ir_grid_points

    bz = ph.grid
    out = []
    temps = sorted(float(round(t, int(rng.integers(0, 3)))) for t in rng.uniform(20, 900, size=int(rng.integers(1, 3))))
    star = bool(rng.integers(0, 4))
    ph.run_thermal_conductivity(temperatures=temps, is_kappa_star=star, write_kappa=True)
    yaml = "phono3py_disp.yaml" if rng.integers(0, 2) else "phono3py.yaml"
    ph.save(yaml)
    bz = reread(yaml, bz)
    name = [x for x in os.listdir(".") if x.startswith("kappa-")][0]
    kept = iw % 3 == 0
    imag = bool(rng.integers(0, 3) == 0)
    if not kept:
        made_up(rng, name, imag)
    with h5py.File(name, "a") as h:
        sh = h["gamma"].shape[1:]
        g = h["gamma"][:]
        h["gamma"][:] = np.where(g < 1e-14, 0, g)
        g = h["group_velocity"][:]
        h["group_velocity"][:] = np.where(abs(g) < 1e-8, 0, g)
        h["ave_pp"] = 10.0 ** rng.uniform(-12, -9, size=sh)
        h["gruneisen"] = rng.normal(0, 2, size=sh)
        d = {k: h[k][:] for k in ("frequency", "gamma", "group_velocity", "gv_by_gv", "heat_capacity", "mode_kappa", "kappa", "ave_pp",
                                  "gruneisen", "grid_point", "weight", "temperature")}
    f = d["frequency"]
    if (f <= 0).sum() > 3:
        f = np.where(f > 0, f, 0)
    gps = [int(x) for x in d["grid_point"]]
    geo = {**geometry(bz), "ops": ops, "gps": gps, "map": rows(bz, ops, gps), "vol": big(ph.primitive.volume, 12)}
    T = d["temperature"]
    n = int(rng.integers(1, 12)) if rng.integers(0, 6) else 1
    x = np.linspace(f.min(), f.max() + 1e-8, n)
    ks = some(rng, n)
    xs = [{"k": k, "x": big(x[k - 1], 18)} for k in ks]
    R = {k: bigs(d[k][..., None] if k in ("gamma", "heat_capacity", "ave_pp", "gruneisen") else d[k], 30)
         for k in ("gamma", "heat_capacity", "mode_kappa", "ave_pp", "gruneisen", "gv_by_gv", "group_velocity")}
    every = {"dos": ("one", [R["ave_pp"]], False, "f", 1), "pqj": ("as", [R["ave_pp"]], False, "e", 1),
             "gruneisen": ("square", [R["gruneisen"]], False, "e", 1), "gv-norm": ("norm", [R["group_velocity"]], False, "e", 1),
             "cv": ("as", R["heat_capacity"], False, "f", 1), "tau": ("tau", R["gamma"], False, "f", 1), "gamma": ("as", R["gamma"], False, "f", 1)}
    sel = rng.permutation(list(every))[:4].tolist()

    def show(opts, what, raws, sm, fmt, ne, n, arg, axis, fixed_t):
        """One output for every temperature asked for."""
        it = None
        if rng.integers(0, 3) == 0 and not fixed_t:
            it = int(rng.integers(0, len(T)))
            opts = opts + ["--temperature", repr(float(T[it]))]
        b = call("--nsp", n, name, *opts) if rng.integers(0, 2) else call(name, *opts, "--nsp", n)
        idx = list(range(len(raws))) if it is None else [it]
        if len(b) != len(idx):
            raise AssertionError(f"{opts}: {len(b)} sets of lines instead of {len(idx)}")
        return [(i, printed(rng, y, what, raws[i], n, sm, fmt, ne, ks)) for i, y in zip(idx, b)]

    outs, smear = [], []
    for k in sel:
        what, raws, sm, fmt, ne = every[k]
        fixed_t = len(raws) == 1 and k in ("dos", "pqj", "gruneisen", "gv-norm")
        outs += [o for _, o in show([f"--{k}"], what, raws, sm, fmt, ne, n, None, x, fixed_t)]
        if n > 1 and rng.integers(0, 2):
            smear += [o for _, o in show([f"--{k}", "--smearing"], what, raws, sm, fmt, ne, n, None, x, fixed_t)]
    u = int(rng.integers(0, 3))
    tens = [(["tensor", "trace", "average"][u], R["mode_kappa"], [[], ["--trace"], ["--average"]][u], True)]
    tens += [(["volume", "vtrace", "vaverage"][u], [R["gv_by_gv"]], ["--gv"] + [[], ["--trace"], ["--average"]][u], False)]
    for what, raws, opts, kap in tens:
        for i, o in show(opts, what, raws, True, "f" if u == 0 else "5", 6 if u == 0 else 1, n, None, x, not kap):
            if kap and u == 0:
                o["match"], o["has"] = bigs(d["kappa"][i], 30), True
            outs.append(o)
    # the functions themselves
    kd, sp = run_prop_dos(f, d["mode_kappa"], *maps(bz, gps, geo["map"]), n, bz)
    for i in range(len(T)):
        outs.append(outp("tensor", R["mode_kappa"][i], bigs(kd[i, :, 0], 30), bigs(kd[i, :, 1], 30), bigs(sp[i], 18), n, True,
                         match=bigs(d["kappa"][i], 30)))
    base = {**geo, "v": bigs(f, 18), "xs": xs, "dens": dens(f)}
    out.append({**base, "kind": "dos", "key": "frequency", "outs": outs, "desc": f"{name} {sel} {desc}"})
    wt = np.bincount(geo["map"])[1:]
    g = GammaDOSsmearing(d["gamma"], f, wt, num_sampling_points=n, **({"sigma": 0.37} if iw % 2 else {}))
    p, y = g.get_gdos()
    for i in range(len(T) if n > 1 else 0):
        smear.append(outp("as", R["gamma"][i], bigs(y[i, :, :1], 30), bigs(y[i, :, 1:], 30), bigs(p, 18), n, False, rel=0))
        if iw % 2:
            smear[-1].update(given=True, sig=big(0.37, 18))
    out.append({**base, "kind": "smearing", "key": "smearing", "outs": smear, "desc": f"smearing {name} {sel} {desc}"})
    # along the mean free path
    mfp = get_mfp(d["gamma"], d["group_velocity"])
    for i in range(len(T)):
        out.append({"kind": "mfp", "key": "mfp", "v": bigs(mfp[i], 18), "gamma": bigs(d["gamma"][i], 30),
                    "gv": bigs(d["group_velocity"], 18), "desc": f"mean free paths {desc}"})
    per = {i: [] for i in range(len(T))}
    for what, raws, opts, kap in tens:
        for i, o in show(opts + ["--mfp"], what, raws if kap else raws * len(T), True, "f" if u == 0 else "5", 6 if u == 0 else 1, n, None, None, False):
            per[i].append(o)
    kd, sp = run_mfp_dos(mfp, d["mode_kappa"], *maps(bz, gps, geo["map"]), n, bz)
    for i in range(len(T)):
        per[i].append(outp("tensor", R["mode_kappa"][i], bigs(kd[i, :, 0], 30), bigs(kd[i, :, 1], 30), bigs(sp[i], 18), n, True))
        x = np.array(sp[i])
        out.append({**geo, "v": bigs(mfp[i], 18), "xs": [{"k": k, "x": big(x[k - 1], 18)} for k in ks], "dens": dens(mfp[i]), "kind": "dos",
                    "key": "mean free path", "outs": per[i], "desc": f"--mfp {name} {desc}"})
    # files of phonons
    ir, irw, _ = get_ir_grid_points(bz)
    ff = np.array(ph.phph_interaction.get_phonons()[0])
    if rng.integers(0, 3) == 0:
        ff = np.sort(rng.uniform(0.5, 9, size=(bz.bzg2grg.max() + 1, ff.shape[1])), axis=1)[bz.bzg2grg]
    e = ph.phph_interaction.get_phonons()[1]
    kw = {"ir_grid_points": bz.grg2bzg[ir], "ir_grid_weights": irw} if rng.integers(0, 3) else {}
    pn = write_phonon_to_hdf5(ff, e, bz.addresses, ph.mesh_numbers, bz_grid=bz, **kw)
    nosym = bool(rng.integers(0, 2)) or not kw
    gps = [int(x) for x in (bz.grg2bzg if nosym else bz.grg2bzg[ir])]
    f = ff[gps]
    if (f <= 0).sum() > 3:
        f = np.where(f > 0, f, 0)
    n = int(rng.integers(2, 9))
    x = np.linspace(f.min(), f.max() + 1e-8, n)
    ks = some(rng, n, 2)
    opts = ["--dos", "--nsp", n] + (["--no-gridsym"] if nosym and kw else [])
    geo = {**geo, "gps": gps, "map": rows(bz, ops, gps), "v": bigs(f, 18), "xs": [{"k": k, "x": big(x[k - 1], 18)} for k in ks], "dens": dens(f)}
    none = bigs(np.zeros(f.shape + (1,)), 30)
    for kind, o in (("dos", []), ("smearing", ["--smearing"])):
        b = call(pn, *opts, *o)
        out.append({**geo, "kind": kind, "key": "phonon file " + kind, "desc": f"{pn} {opts + o} {desc}",
                    "outs": [printed(rng, b[0], "one", none, n, False, "f", 1, ks)]})
    out += kde(rng, d, wt, desc)
    return out


def kde(rng, d, wt, desc):
    """Points of the density of lifetimes."""
    try:
        m = importlib.import_module("phono3py.scripts.phono3py_kdeplot")
    except ImportError:  # needs scipy and matplotlib
        return []
    g, f = d["gamma"][-1], d["frequency"]
    tau = 1 / (4 * np.pi * g[g > 0])
    cut = float(np.median(tau)) * 1.01 if len(tau) and rng.integers(0, 2) else None
    fmax = float(np.median(f)) + 1e-3 if rng.integers(0, 2) else None
    wt = [int(x) for x in wt]
    x, y = m.collect_data(g, np.array(wt), f, cut, fmax)
    return [{"kind": "kde", "key": "kde", "v": bigs(f, 18), "gamma": bigs(g, 30), "w": wt, "cut": big(cut or 0, 30),
             "fmax": "" if fmax is None else big(fmax, 18), "x": bigs(x, 18), "y": bigs(y, 30), "desc": f"kdeplot cut={cut} fmax={fmax} {desc}"}]


def maps(bz, gps, m):
    """Arguments of the functions for points which stand for others."""
    if len(gps) == len(m):
        return None, None
    at = [int(bz.bzg2grg[g]) for g in gps]
    return np.array([at[r - 1] for r in m], dtype="int64"), np.array(at, dtype="int64")


def direct(rng, iw):
    """Made-up values at chosen sampling points, many of them at corners."""
    from phono3py.other.kaccum import KappaDOSTHM

    for _, M, mesh, grp, tr, dense, _, desc in gridgen.params(rng, 60, shifts=False):
        try:
            bz, rots = make(M, mesh, grp, tr=True, dense=dense, force_SNF=bool(rng.integers(0, 2)))
        except RuntimeError:
            continue
        if int(np.prod(bz.D_diag)) <= 40:
            break
    else:
        return []
    from phono3py.phonon.grid import get_ir_grid_points

    D = [int(x) for x in bz.D_diag]
    N = int(np.prod(D))
    nb = int(rng.integers(1, 4))
    v = values(rng, D, nb, lo=-20)
    sym = bool(rng.integers(0, 2))
    ir, irw, irm = get_ir_grid_points(bz)
    gr = ir if sym else np.arange(N)
    gps = [int(bz.grg2bzg[i]) for i in gr]
    # operations of the grid in terms of its points
    ops = [np.array(o, dtype=int).T.tolist() for o in np.array(bz.reciprocal_operations)]
    f = np.array(v[gr], dtype=float) / U
    xs = samples(rng, f * U, 5)
    nt, ne = int(rng.integers(1, 3)), int(rng.integers(0, 2)) * 5 + 1
    p = rng.normal(0, 5, size=(nt, len(gr), nb, ne))
    if rng.integers(0, 2):
        p = abs(p)
    wt = rng.integers(0, 2) == 1
    mp = [int(np.where(gr == i)[0][0]) + 1 for i in (irm if sym else gr)]
    kw = {}
    if sym:
        kw = {"ir_grid_points": np.array(gr, dtype="int64"), "ir_grid_map": np.array(irm, dtype="int64")}
        if wt:
            kw["ir_grid_weights"] = np.array(irw)
    pts = [x / U for x in xs]
    k = KappaDOSTHM(p, f, bz, frequency_points=pts if rng.integers(0, 2) else np.array(pts), **kw)
    x, y = k.get_kdos()
    above = xs[-1] > f.max() * U
    raw = bigs(p, 30)
    outs = [outp("tensor" if ne == 6 else "as", raw[t], bigs(y[t, :, 0], 30), bigs(y[t, :, 1], 30), bigs(x, 18), len(xs), not (sym and wt), even=False,
                 above=bool(above)) for t in range(nt)]
    geo = geometry(bz)
    return [{**geo, "kind": "dos", "key": "direct", "ops": ops, "gps": gps, "map": mp, "vol": "1", "v": bigs(f, 18), "dens": 1,
             "xs": [{"k": i + 1, "x": big(pts[i], 18)} for i in range(len(pts))], "outs": outs, "desc": f"direct sym={sym} weights={wt} {desc}"}]
