"""C15: joint density of states."""
import os
import tempfile

import numpy as np

from checks.c07 import symmetric
from checks.c10 import CUT, it_triplets, z
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

NAMES = ["sc", "cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "random", "rs"]


def run(c):
    bases, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(300 if c.thorough else 72)]):
        for x in cs:
            if "b" in x:
                x["b"] += len(bases)
        bases += bs
        out += cs
    c.cases("Jdos", ["JdosInv", "PositiveInv", "SameInv", "TextInv", "PointsInv"], out, glob={"bases": bases, "unit": "1", "unitden": "1"})
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += ["integration weights are those of the real code (decided by C09)"]


def base(it, gp, sets, pts):
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    it.set_grid_point(gp)
    trip, wt = it.get_triplets_at_q()[:2]
    it.run_phonon_solver()
    f = it.get_phonons()[0]
    gs = []
    for sigma, cutoff in sets:
        g = get_triplets_integration_weights(it, np.array(pts), sigma, sigma_cutoff=cutoff, is_collision_matrix=True)[0]
        gs.append([[[bigs(g[k, t, x].ravel(), 20) for t in range(len(trip))] for k in range(3)] for x in range(len(pts))])
    return {"n": f.shape[1], "w": [int(x) for x in wt], "cut": big(CUT, 12), "g": gs,
            "f": [[bigs(f[t[1]], 12), bigs(f[t[2]], 12)] for t in trip]}


def rows(x):
    return [bigs(r, 30) for r in x]


def tk(T):
    return "none" if T is None else big(T, 12)


def one(a):
    seed, iw, thorough = a
    from phono3py.api_jointdos import Phono3pyJointDos
    from phono3py.phonon3.joint_dos import JointDos

    rng = np.random.default_rng([seed, 1500, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 3
    nac = bool(rng.integers(0, 3) == 0)
    msym = bool(rng.integers(0, 4))
    mk = {"cutoff_frequency": CUT, "is_mesh_symmetry": msym, "use_grg": grg}
    nbt = 3 * len(w.primitive)
    maxn = 27 if nbt <= 6 else 8
    for _ in range(60):
        mesh = float(rng.uniform(5, 14)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []
    ph.init_phph_interaction()
    it = ph.phph_interaction
    it.run_phonon_solver()
    fm = it.get_phonons()[0].max()
    if not fm > 1:
        return [], []
    N = int(np.prod(ph.grid.D_diag))
    gps = [int(x) for x in rng.permutation(len(ph.grid.addresses)) if len(it_triplets(it, int(x))) <= (20 if nbt <= 6 else 10)][:2]
    if rng.integers(0, 2) and len(it_triplets(it, 0)) <= 20:
        gps = [gps[0], 0] if rng.integers(0, 2) else [0, gps[-1]]
    gps = list(dict.fromkeys(gps))
    if not gps:
        return [], []
    desc = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac} mesh symmetry={msym}"
    bases, out = [], []
    temps = [0.0, round(float(rng.uniform(5, 60)), 3), round(float(rng.uniform(100, 1500)), 3)]
    sets = [(None, None), (round(float(rng.uniform(0.05, 0.1) * fm), 3), None), (float(rng.uniform(0.05, 0.2) * fm), float(rng.uniform(2, 4)))]
    # the class
    pts = np.sort(rng.uniform(0, 2.1 * fm, size=5))
    qd = [float(x) for x in rng.normal(size=3)] if nac and rng.integers(0, 2) else None

    def make(cls, **kw):
        return cls(ph.primitive, ph.supercell, ph.grid, ph.fc2, nac_params=ph.nac_params, cutoff_frequency=CUT, **kw)

    def direct(gp, s, T, sym=msym, order=None, lang="C"):
        jd = make(JointDos, is_mesh_symmetry=sym, sigma_cutoff=sets[s][1], sigma=sets[s][0] if rng.integers(0, 2) else None)
        if rng.integers(0, 2):  # something else first
            jd.set_grid_point(gps[-1])
            jd.frequency_points = pts[:2]
            jd.temperature = None if rng.integers(0, 2) else 55.0
            jd.run()
        jd.nac_q_direction = qd if gp == 0 else None
        jd.set_grid_point(gp)
        jd.sigma = sets[s][0]
        jd.temperature = T
        jd.frequency_points = pts if order is None else pts[order]
        if lang == "C":
            jd.run()
        else:
            jd.run_phonon_solver()
            jd.run_integration_weights()
            jd.run_jdos(lang="Py")
        r = np.array(jd.joint_dos)
        if order is not None:
            x = np.zeros_like(r)
            x[order] = r
            r = x
        return r

    def reference(gp, sets, pts):
        """The interaction object; at Gamma in a direction it does without symmetry, unlike the joint DOS."""
        if gp or qd is None:
            return base(it, gp, sets, pts)
        jd = make(JointDos, is_mesh_symmetry=msym)
        jd.nac_q_direction = qd
        r = base(jd, gp, sets, pts)
        it.nac_q_direction = qd
        it.set_grid_point(0)
        it.run_phonon_solver()
        fs = [np.array(x.get_phonons()[0]) for x in (it, jd)]
        fs = [np.where(abs(x) < 1e-4, 0, x) for x in fs]
        out.append({"kind": "same", "key": "phonons with direction", "a": bigs(fs[0].ravel(), 30), "z": bigs(fs[1].ravel(), 30), "desc": desc})
        it.nac_q_direction = None
        it.run_phonon_solver_at_gamma()
        return r

    sy = symmetric(type("x", (), {"w": w}))
    for gp in gps:
        bases.append(reference(gp, sets, pts))
        for _ in range(8 if thorough else 4):
            s, T = int(rng.integers(0, 3)), [None, *temps][int(rng.integers(0, 4))]
            lang = "Py" if T is not None and T > 0 and rng.integers(0, 4) == 0 and sets[s][1] is None else "C"
            o = rng.permutation(len(pts)) if rng.integers(0, 2) else None
            hd = {"b": len(bases), "s": s + 1, "T": tk(T), "N": N, "pts": [1, 2, 3, 4, 5],
                  "desc": f"{desc} gp={gp} sigma={sets[s]} T={T} nac direction={qd} {lang} order={o}"}
            r = direct(gp, s, T, order=o, lang=lang)
            out.append({**hd, "kind": "jdos", "key": "jdos " + lang, "got": rows(r)})
            if sy and not nac and s and rng.integers(0, 2):  # tetrahedra are not symmetric themselves
                r2 = direct(gp, s, T, sym=not msym)
                out.append({"kind": "same", "key": "mesh symmetry", "a": bigs(r.ravel(), 30), "z": bigs(r2.ravel(), 30), "desc": hd["desc"]})
    # through the API
    sig = [[None], [sets[1][0]], [None, sets[1][0]], [sets[1][0], None]][int(rng.integers(0, 4))]
    tt = None if rng.integers(0, 3) == 0 else [temps[int(x)] for x in rng.permutation(3)[: int(rng.integers(1, 4))]]
    step = float(rng.uniform(0.3, 0.6) * fm) if rng.integers(0, 3) == 0 else None
    num = int(rng.integers(3, 7)) if step is None or rng.integers(0, 4) == 0 else None
    nb = [None, 1, 2, 3][int(rng.integers(0, 4))]
    name = [None, "o"][int(rng.integers(0, 2))]
    kw = {"nac_params": ph.nac_params, "nac_q_direction": qd, "sigmas": sig, "cutoff_frequency": CUT, "frequency_step": step,
          "num_frequency_points": num, "num_points_in_batch": nb, "temperatures": tt, "use_grg": grg, "is_mesh_symmetry": msym,
          "output_filename": name}
    api = Phono3pyJointDos(ph.supercell, ph.primitive, ph.fc2, mesh=mesh, **kw)
    res = {}
    cwd = os.getcwd()
    order = gps[::-1] if rng.integers(0, 2) else gps
    d = f"{desc} API gps={order} {dict(kw, nac_params=None)}"
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            api.run(order, write_jdos=True)
            res[order[-1]] = np.array(api.joint_dos)
            files = {x: np.loadtxt(x) for x in os.listdir(".") if x.endswith(".dat")}
        finally:
            os.chdir(cwd)
    if len(order) > 1:
        api.run(order[:1])
        res[order[0]] = np.array(api.joint_dos)
    fp = np.array(api.frequency_points)
    out.append({"kind": "points", "max": big(fm, 12), "sigma": big(max([y for y in sig if y] or [0]), 12), "step": big(step or 0, 12),
                "num": num or 0, "got": bigs(fp, 12), "key": "points", "desc": d})
    for gp in order:
        bases.append(reference(gp, [(x, None) for x in sig], fp))
        for i, sg in enumerate(sig):
            for k, T in enumerate(tt or [None]):
                r = res[gp][i, k]
                dd = f"{d} gp={gp} sigma={sg} T={T}"
                out.append({"kind": "jdos", "key": "api", "b": len(bases), "s": i + 1, "T": tk(T), "N": N,
                            "pts": list(range(1, len(fp) + 1)), "got": rows(r), "desc": dd})
                v = files.get(fname(api.mesh_numbers, gp, sg, T, name, msym))
                out.append({"kind": "text", "key": "text", "rows": len(fp), "n": 0 if v is None else len(v),
                            "f": [] if v is None else bigs(v[:, 0], 12), "fx": bigs(fp, 12),
                            "a": [[], []] if v is None else [bigs(v[:, k], 30) for k in (1, 2)],
                            "z": [bigs(r[:, 0], 30), bigs(r[:, 1], 30)], "desc": f"{dd} files {sorted(files)}"})
    return bases, out


def fname(D, gp, sigma, T, name, sym):
    s = "jdos-m%d%d%d" % tuple(int(x) for x in D) + f"-g{gp}" + ("" if sigma is None else f"-s{z(sigma)}")
    s += "" if name is None else f".{name}"
    return s + ("" if T is None else f"-t{z(T)}") + ("" if sym else ".nosym") + ("" if name is None else f".{name}") + ".dat"
