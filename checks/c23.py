"""C23: mode Grueneisen tensors from third-order force constants."""
import itertools
import os
import tempfile

import numpy as np

from checks.c05 import cli
from checks.c07 import symmetric, table
from lib import crystals, worlds
from lib.par import VERIF, pmap
from lib.worlds import World, bigs, big, fixed, shells

NAMES = ["cscl", "p3", "p1", "random", "zb", "p3", "polar", "random", "fcc4", "p1", "random", "p3", "hcp", "random"]
worlds.NAMES["p3"] = 2
crystals.KNOWN["p3"] = ([[5, 1, -1], [1, 6, 2], [-1, 2, 7]], 20, [(0, (0, 0, 0)), (1, (7, 11, 9)), (2, (13, 3, 17))])


class Polynomial:
    """Exact second and third derivatives of pairs K/2 (r-a)^2 + C/6 (r-a)^3."""

    def __init__(self, cell, cut, a):
        lat, pos = cell.cell, cell.scaled_positions
        imgs = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
        self.n = len(cell)
        self.x, self.lat, self.a = pos @ lat, lat, a
        self.c = -min(4.0, 6.0 / max(cut - a, 0.1))
        self.pairs = []
        for i in range(self.n):
            for j in range(self.n):
                r = np.linalg.norm((pos[j] - pos[i] + imgs) @ lat, axis=1)
                for m in imgs[(r > 1e-5) & (r < cut)]:
                    s = 1.0 + 0.1 * ((int(cell.numbers[i]) + int(cell.numbers[j])) % 5)
                    self.pairs.append((i, j, m, s))

    def fcs(self, x, lat, third=False):
        n = self.n
        f2, f3 = np.zeros((n, n, 3, 3)), np.zeros((n, n, n, 3, 3, 3)) if third else None
        for i, j, m, s in self.pairs:
            v = x[j] + m @ lat - x[i]
            r = np.linalg.norm(v)
            e = v / r
            y = r - self.a
            d3 = self.c * s
            d2, d1 = 8.0 * s + d3 * y, 8.0 * s * y + d3 * y * y / 2
            ee = np.outer(e, e)
            P = np.eye(3) - ee
            k = d2 * ee + d1 / r * P
            f2[i, j] -= k
            f2[i, i] += k
            if third:
                de = np.einsum("ab,c->abc", P, e)
                t = d3 * np.einsum("a,b,c->abc", e, e, e)
                t += (d2 / r - d1 / r**2) * (de + de.transpose(0, 2, 1) + de.transpose(2, 1, 0))
                for p in itertools.product((0, 1), repeat=3):
                    q = [(i, j)[z] for z in p]
                    f3[q[0], q[1], q[2]] += 0.5 * (-1) ** (3 - sum(p)) * t
        return f2, f3


def embed_fc2(cell, cutoff, c=2.0):
    """Second derivatives of sum_i c/2 (rho_i - rho_i^0)^2, not symmetric for each pair."""
    n = len(cell)
    lat, pos = cell.cell, cell.scaled_positions
    imgs = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    f = np.zeros((n, 3, n, 3))
    for i in range(n):
        g = np.zeros((n, 3))
        for j in range(n):
            d = (pos[j] - pos[i] + imgs) @ lat
            r = np.linalg.norm(d, axis=1)
            for v, ri in zip(d, r):
                if 1e-5 < ri <= cutoff:
                    x = np.exp(2.5 - ri) * (1 + 0.1 * (int(cell.numbers[j]) % 3)) * v / ri
                    g[j] -= x
                    g[i] += x
        f += c * np.einsum("ia,jb->iajb", g, g)
    return np.array(f.transpose(0, 2, 1, 3), order="C")


def unique_pairs(ph, cut):
    """No pair within the cutoff has two images as near."""
    lat, pos = ph.supercell.cell, ph.supercell.scaled_positions
    imgs = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    for i in ph.primitive.p2s_map:
        for j in range(len(pos)):
            r = np.linalg.norm((pos[j] - pos[i] + imgs) @ lat, axis=1)
            if i == j:
                if r[r > 1e-5].min() < 2 * cut:
                    return False
    return True


def relax(f2, p2s, s2p, R):
    """Displacements X[kind][m, k, l] of the atoms that leave no force."""
    n = len(p2s)
    kind = {p: k for k, p in enumerate(p2s)}
    k0 = np.zeros((n, 3, n, 3))
    rhs = np.zeros((n, 3, 3, 3))
    for nu, p in enumerate(p2s):
        for M, s in enumerate(s2p):
            k0[nu, :, kind[s], :] += f2[p, M]
            # u_m = delta_mk R_l
            rhs[nu] -= np.einsum("ik,l->ikl", f2[p, M], R[nu, M])
    k0, rhs = k0.reshape(3 * n, 3 * n), rhs.reshape(3 * n, 9)
    X = np.linalg.lstsq(k0, rhs, rcond=1e-9)[0]
    return X.reshape(n, 3, 3, 3), abs(k0 @ X - rhs).max()


def factor():
    from phonopy.units import VaspToTHz

    return VaspToTHz


def one(a):
    seed, iw, thorough = a
    from phono3py.phonon3.gruneisen import Gruneisen, run_gruneisen_parameters
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

    rng = np.random.default_rng([seed, 2300, iw])
    name = NAMES[iw % len(NAMES)]
    own = (iw + iw // len(NAMES)) % 3 == 0
    nac = bool(rng.integers(0, 3) == 0)
    for _ in range(12):
        # crystals without symmetry have as many distances as bonds
        lo = 8 if name in ("p1", "p3") else 2
        w = World(rng, name, maxn=24, cut=int(rng.integers(lo, 2 * lo + 2)))
        if name == "random" and len(w.primitive) == 1 and rng.integers(0, 4):
            continue
        ph = w.make([1, 1, 1], nac=nac)
        scell, pcell = ph.supercell, ph.primitive
        pot = None
        if own:
            sh = shells(scell, 7.0)
            k = int(rng.integers(lo - 1, 2 * lo))
            cut = (sh[k] + sh[k + 1]) / 2 if len(sh) > k + 1 else sh[-1] + .1
            pot = Polynomial(scell, cut, a=sh[0] * float(rng.uniform(0.85, 0.95)))
            f2 = pot.fcs(pot.x, pot.lat)[0]
        else:
            f2 = w.fc2 + (embed_fc2(scell, w.cut) if rng.integers(0, 2) else 0)
        f2 = np.array(f2, dtype="double", order="C")
        # only crystals without soft modes: there is no tensor of a soft mode
        plain = get_dynamical_matrix(f2, scell, pcell)
        plain.run([0, 0, 0])
        low = [1.0, *np.linalg.eigvalsh(plain.dynamical_matrix)[3:]]
        for q in np.array(list(np.ndindex(4, 4, 4))[1:]) / 8 * 1.37:
            plain.run(q)
            low.append(np.linalg.eigvalsh(plain.dynamical_matrix)[0])
        if min(low) < 1e-3:
            continue
        p2s, s2p = [int(x) for x in pcell.p2s_map], [int(x) for x in pcell.s2p_map]
        n, ns = len(p2s), len(scell)
        svecs, multi = pcell.get_smallest_vectors()
        R = np.zeros((n, ns, 3))
        for nu in range(n):
            for M in range(ns):
                m, ad = multi[M, nu]
                R[nu, M] = svecs[ad:ad + m].mean(axis=0) @ pcell.cell
        X, rest = relax(f2, p2s, s2p, R)
        # interactions folded into a small supercell may leave a net force on the cell
        if rest < 1e-9:
            break
    else:
        return None, None, []
    f3 = np.array(pot.fcs(pot.x, pot.lat, third=True)[1] if own else w.fc3, dtype="double", order="C")
    qden = int(rng.choice([4, 6, 10, 12]))
    geo = w.geometry()
    T = qden * geo["den"]
    geo.update(name=f"{w.name} {n}", D=[1, 1, 1], Q=np.eye(3, dtype=int).tolist(), ism=fixed(1 / np.sqrt(pcell.masses)),
               fc2=fixed(f2[p2s].reshape(n, ns, 9)), fc3=fixed(f3[p2s].reshape(n, ns, ns, 27)),
               X=fixed(X.reshape(n, 27)), prim=fixed(pcell.cell), rec=fixed(np.linalg.inv(pcell.cell)))
    desc = f"{w.desc} own={own} nac={nac}"
    out = [{"kind": "table", "tab": 0, "desc": f"table {T}", "key": "table"},
           {"kind": "equil", "w": 0, "desc": "relaxation " + desc, "key": "equil"}]
    if own and unique_pairs(ph, cut):
        h = 2e-4
        for kl in rng.choice(9, size=2, replace=False):
            k, ll = divmod(int(kl), 3)
            e = np.zeros((3, 3))
            e[k, ll] = 1
            pm = []
            for s in (h, -h):
                F = np.eye(3) + s * e  # x -> F x
                kinds = [p2s.index(z) for z in s2p]
                x = pot.x @ F.T + s * X[kinds][:, :, k, ll]
                pm.append(pot.fcs(x, pot.lat @ F.T)[0][p2s].reshape(n, ns, 9))
            out.append({"kind": "strain", "w": 0, "kl": int(kl) + 1, "plus": fixed(pm[0]), "minus": fixed(pm[1]),
                        "inv2": 2500, "tol": big(1e-5 * max(1, abs(f3).max()), 12), "desc": f"strain {kl} {desc}", "key": "strain"})
    dmn = get_dynamical_matrix(f2, scell, pcell, nac_params=ph.nac_params) if nac else None

    def tensors(clamp, gr, qs, g, f, dirs, how):
        for q, gq, fq, d in zip(qs, g, f, dirs):
            dm = []
            if nac:
                qq = np.array(q) / qden
                if d is None:
                    dmn.run(qq)
                else:
                    dmn.run(qq, d)
                D = dmn.dynamical_matrix
                dm = [[[big(z.real, 12), big(z.imag, 12)] for z in row] for row in D]
            o = np.sign(fq) * (np.array(fq) / factor())**2
            out.append({"kind": "tensor", "w": 0, "clamp": int(clamp), "q": [int(x) for x in q], "dm": dm, "om2": bigs(o, 12),
                        "g": bigs(np.array(gq).reshape(len(fq), 9), 12), "key": how,
                        "desc": f"{how} q={list(map(int, q))}/{qden} ion_clamped={clamp} {desc}"})

    clamp = bool(rng.integers(0, 4) == 0)
    ndir = np.array(rng.normal(size=3)) if rng.integers(0, 2) else None
    gr = Gruneisen(f2, f3, scell, pcell, nac_params=ph.nac_params if nac else None, nac_q_direction=ndir, ion_clamped=clamp)
    qs = [[0, 0, 0]] + [[int(x) for x in rng.integers(-qden + 1, qden, size=3)] for _ in range(3 if thorough else 2)]
    qs = [q for i, q in enumerate(qs) if i == 0 or any(x % qden for x in q)]
    gr.set_qpoints(np.array(qs) / qden)
    gr.run()
    g, f = gr.get_gruneisen_parameters(), gr._frequencies
    tensors(clamp, gr, qs, g, f, [ndir if not any(q) else np.array(q) / qden for q in qs], "qpoints")
    # a path through Gamma
    clamp2 = bool(rng.integers(0, 4) == 0)
    gr = Gruneisen(f2, f3, scell, pcell, nac_params=ph.nac_params if nac else None, ion_clamped=clamp2)
    p = rng.integers(-qden // 2 + 1, qden // 2, size=3)
    p[0] = p[0] or 1
    paths = [[[int(x) for x in p * 0], [int(x) for x in p], [int(x) for x in rng.integers(1, qden, size=3)]],
             [[int(x) for x in p], [0, 0, 0]],
             [[int(x) for x in p], [0, 0, 0], [int(x) for x in rng.integers(1, qden // 2, size=3)]]]
    gr.set_band_structure([np.array(x) / qden for x in paths])
    gr.run()
    for path, gp, fp in zip(paths, gr.get_gruneisen_parameters(), gr._frequencies):
        dirs = []
        for i, q in enumerate(path):
            if any(q):
                dirs.append(np.array(q) / qden)
            else:
                dirs.append((np.array(path[i]) - path[i - 1] if i else np.array(path[1]) - path[0]) / qden)
        tensors(clamp2, gr, path, gp, fp, dirs, "band")
    # meshes: the irreducible points stand for all of them
    mesh = [int(x) for x in (rng.integers(2, 4, size=3) if w.name in ("p1", "random") else [int(rng.integers(2, 4))] * 3)]
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=os.path.join(VERIF, "work")) as tmp:
        os.chdir(tmp)
        try:
            files(rng, iw, w, ph, f2, f3, nac, mesh, geo, qden, desc, out, thorough, paths)
        finally:
            os.chdir(here)
    return geo, table(T), out


def davg(fs, ten, tol=1e-3):
    """Tensors averaged over degenerate modes, which no one can tell apart."""
    ten = np.array(ten, dtype=float)
    for f, t in zip(np.array(fs), ten):
        i = 0
        while i < len(f):
            j = i + 1
            while j < len(f) and f[j] - f[j - 1] < tol:
                j += 1
            t[i:j] = t[i:j].mean(axis=0)
            i = j
    return ten


def keeps(w, f2, ph):
    class S:
        pass

    s, t = S(), S()
    s.w, t.supercell, t.primitive, t.make, t.fc2 = t, w.supercell, w.primitive, w.make, f2
    return symmetric(s)


def flat(x):
    return np.array(x, dtype=float).ravel()


def files(rng, iw, w, ph, f2, f3, nac, mesh, geo, qden, desc, out, thorough, paths):
    """Written results are those of the object; mesh and command agree."""
    import h5py
    import yaml
    from phono3py import file_IO
    from phono3py.phonon3.gruneisen import Gruneisen, run_gruneisen_parameters

    scell, pcell = ph.supercell, ph.primitive
    rot = ph.primitive_symmetry.pointgroup_operations
    kw = {"nac_params": ph.nac_params if nac else None}
    clamp = bool(rng.integers(0, 2))

    def eq(got, ex, tol, what):
        got, ex = flat(got), flat(ex)
        if got.shape != ex.shape:
            raise AssertionError(f"{what}: {got.shape} instead of {ex.shape}")
        out.append({"kind": "file", "got": fixed(got), "ex": fixed(ex), "tol": big(tol, 12), "key": what, "desc": f"{what} {desc}"})

    def obj(c=clamp):
        return Gruneisen(f2, f3, scell, pcell, ion_clamped=c, **kw)

    run_gruneisen_parameters(f2, f3, scell, pcell, None, mesh, rot, None, ion_clamped=clamp, factor=factor(), log_level=0, **kw)
    with h5py.File("gruneisen.hdf5", "r") as h:
        hf = {k: h[k][()] for k in h}
    ref = obj()
    ref.set_qpoints(hf["qpoint"])
    ref.run()
    ten = ref.get_gruneisen_parameters()
    eq(davg(ref._frequencies, hf["gruneisen_tensor"]), davg(ref._frequencies, ten), 1e-9, "hdf5 tensor")
    eq(hf["gruneisen"], np.trace(hf["gruneisen_tensor"], axis1=2, axis2=3) / 3, 1e-9, "hdf5 trace")
    eq(hf["frequency"], ref._frequencies, 1e-9, "hdf5 frequency")
    eq(hf["mesh"], mesh, 1e-9, "hdf5 mesh")
    allq = np.array(list(np.ndindex(*mesh))) / mesh
    full = obj()
    full.set_qpoints(allq)
    full.run()

    def sums(g, f):
        o = np.sign(f) * (f / factor())**2
        t = np.trace(g, axis1=2, axis2=3)
        return [fixed(x) for x in (o.sum(axis=1), (o * t).sum(axis=1), (o * o * t).sum(axis=1))]

    if not nac and keeps(w, f2, ph):
        out.append({"kind": "mesh", "weights": [int(x) for x in hf["weight"]], "total": int(np.prod(mesh)), "key": "mesh",
                    "part": sums(ten, ref._frequencies), "full": sums(full.get_gruneisen_parameters(), full._frequencies),
                    "desc": f"mesh {mesh} {desc}"})
    # written bands and q-points
    bp = [np.array(x) / qden for x in paths]
    qp = [x for y in bp for x in y]
    run_gruneisen_parameters(f2, f3, scell, pcell, bp, None, rot, None, ion_clamped=clamp, factor=factor(), log_level=0,
                             output_filename="x", **kw)
    run_gruneisen_parameters(f2, f3, scell, pcell, None, None, rot, qp, ion_clamped=clamp, factor=factor(), log_level=0, **kw)
    b = yaml.safe_load(open("gruneisen.x.yaml"))
    rb = obj()
    rb.set_band_structure(bp)
    rb.run()
    ex_t = [t for p in rb.get_gruneisen_parameters() for t in p]
    ex_f = [t for p in rb._frequencies for t in p]
    phs = [p for s in b["path"] for p in s["phonon"]]
    assert [s["nqpoint"] for s in b["path"]] == [len(p) for p in bp]
    same_yaml(eq, phs, qp, ex_t, ex_f, "band yaml")
    for s, path in zip(b["path"], paths):
        out.append({"kind": "dist", "w": 0, "qden": qden, "qs": path, "got": fixed([p["distance"] for p in s["phonon"]]),
                    "tol": big(2e-7, 12), "key": "distance", "desc": f"distances {path} {desc}"})
    y = yaml.safe_load(open("gruneisen.yaml"))
    rq = obj()
    rq.set_qpoints(qp)
    rq.run()
    assert y["nqpoint"] == len(qp)
    same_yaml(eq, y["phonon"], qp, rq.get_gruneisen_parameters(), rq._frequencies, "qpoints yaml")
    # the command
    if iw % (2 if thorough else 4) == 0:
        compact = bool(rng.integers(0, 2))
        ph.fc2, ph.fc3 = f2, f3
        ph.save("p.yaml", settings={"force_sets": False, "displacements": False, "force_constants": False})
        p2s = pcell.p2s_map
        file_IO.write_fc3_to_hdf5(f3[p2s] if compact else f3, p2s_map=p2s)
        file_IO.write_fc2_to_hdf5(f2[p2s] if compact else f2, p2s_map=p2s)
        args = ["-c", "p.yaml", "--fc3", "--fc2", "--gruneisen"] + (["--nac"] if nac else []) + (["--ion-clamped"] if clamp else [])
        if compact:
            args += ["--cfc"]
        os.remove("gruneisen.hdf5")
        how = "compact" if compact else "full"
        cli([*args, "--mesh", *map(str, mesh)])
        with h5py.File("gruneisen.hdf5", "r") as h:
            eq(davg(ref._frequencies, h["gruneisen_tensor"][()]), davg(ref._frequencies, ten), 1e-6, f"command mesh {how}")
            eq(h["weight"][()], hf["weight"], 1e-7, f"command weight {how}")
        os.remove("gruneisen.yaml")
        s = " ".join(f"{x:.15f}" for x in flat(qp))
        cli([*args, f"--qpoints={s}"])
        y = yaml.safe_load(open("gruneisen.yaml"))
        same_yaml(eq, y["phonon"], qp, rq.get_gruneisen_parameters(), rq._frequencies, f"command qpoints {how}", 2e-7)
        os.remove("gruneisen.yaml")
        bd = [(paths[0][0], paths[0][1]), (paths[0][1], paths[0][2])]
        s = " ".join(f"{x}/{qden}" for x in [*bd[0][0], *bd[0][1], *bd[1][1]])
        cli([*args, f"--band={s}", "--band-points", "3"])
        y = yaml.safe_load(open("gruneisen.yaml"))
        rb = obj()
        rb.set_band_structure([np.linspace(np.array(a) / qden, np.array(z) / qden, 3) for a, z in bd])
        rb.run()
        phs = [p for s in y["path"] for p in s["phonon"]]
        same_yaml(eq, phs, [q for p in rb._band_paths for q in p], [t for p in rb.get_gruneisen_parameters() for t in p],
                  [t for p in rb._frequencies for t in p], f"command band {how}", 2e-7)


def same_yaml(eq, phs, qs, ten, fs, what, tol=2e-7):
    assert len(phs) == len(qs), f"{what}: {len(phs)} q-points instead of {len(qs)}"
    eq([p["q-position"] for p in phs], qs, 2e-7, what + " q")
    got = np.array([[b["frequency"] for b in p["band"]] for p in phs], dtype=float)
    for g, e in zip(got, fs):
        soft = (abs(g) < 1e-4) & (abs(e) < 1e-4)  # rounding noise of the acoustic modes at Gamma
        g[soft] = e[soft]
    eq(got, fs, tol, what + " frequency")
    raw = np.array([[b["gruneisen_tensor"] for b in p["band"]] for p in phs], dtype=float)
    eq(davg(fs, raw), davg(fs, ten), 10 * tol, what + " tensor")
    eq([[b["gruneisen"] for b in p["band"]] for p in phs], np.trace(raw, axis1=2, axis2=3) / 3, 2e-7, what + " trace")


def run(c):
    worlds, tables, out, names = [], [], [], {}
    for geo, tab, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(240 if c.thorough else 72)]):
        if geo is None:
            continue
        tables.append(tab)
        geo["tab"] = len(tables)
        worlds.append(geo)
        nm = geo.pop("name")
        names[nm] = names.get(nm, 0) + 1
        for x in cs:
            if "w" in x:
                x["w"] = len(worlds)
            if "tab" in x:
                x["tab"] = len(tables)
        out += cs
    c.cases("Gruneisen", ["TableInv", "EquilInv", "StrainInv", "TensorInv", "GammaInv", "DistInv", "FileInv", "MeshInv"],
            out, glob={"worlds": worlds, "tables": tables, "unit": "0"})
    kinds = {}
    for x in out:
        kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.note(kinds=kinds, worlds=len(worlds), crystals=names)
    c.assumptions += ["the dynamical matrix with the non-analytical term is that of the phonopy package",
                      "the strain derivative of the non-analytical term is not part of the tensor"]
