"""C17: real part of the self-energy and spectral function."""
import os
import tempfile

import h5py
import numpy as np

from checks.c10 import CUT, UNIT, base, fname, it_triplets, z
from lib.par import pmap
from lib.worlds import World, big, bigs, random_mesh

NAMES = ["sc", "cscl", "p1", "bcc2", "random", "zb", "fcc4", "hcp", "polar", "random", "random", "rs"]


def run(c):
    bases, out = [], []
    for bs, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(48 if c.thorough else 24)]):
        for x in cs:
            if "b" in x:
                x["b"] += len(bases)
        bases += bs
        out += cs
    data = {"bases": bases, "unit": big(UNIT, 15), "unitden": str(10**50)}
    c.cases("RealSE", ["RseInv", "RGroupInv", "KKInv", "SpecInv", "SGroupInv", "PtsInv"], out, glob=data)
    kinds = {}
    for x in out:
        k = x["kind"] + " " + x["key"]
        kinds[k] = kinds.get(k, 0) + 1
    c.note(kinds=kinds, bases=len(bases))
    c.assumptions += [
        "integration weights and strengths entering the sum are those of the real code (decided by C09 and C07)",
        "modes and sampling points of a frequency exactly at the cutoff frequency are not generated",
    ]


def rows(x):
    return [bigs(r, 25) for r in np.atleast_2d(x)]


def eps_name(e):
    return z(e) if e > 1e-5 else f"{e:.3e}"


def one(a):
    seed, iw, thorough = a
    from phono3py.phonon3.real_self_energy import ImagToReal, RealSelfEnergy, imag_to_real
    from phono3py.phonon3.spectral_function import run_spectral_function

    rng = np.random.default_rng([seed, 1700, iw])
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36)
    grg = iw % 4 == 3
    nac = bool(rng.integers(0, 4) == 0)
    mk = {"cutoff_frequency": CUT, "is_mesh_symmetry": bool(rng.integers(0, 4)), "use_grg": grg}
    nbt = 3 * len(w.primitive)
    maxn = 27 if nbt <= 6 else 8
    for _ in range(60):
        mesh = float(rng.uniform(5, 14)) if grg else random_mesh(rng, w.crystal, maxn)
        try:
            ph = w.make(mesh, nac=nac, **mk)
        except RuntimeError as e:
            if "symmetry" in str(e).lower():
                continue
            raise
        if 2 <= int(np.prod(ph.grid.D_diag)) <= maxn:
            break
    else:
        return [], []

    def fresh(bands=None, sigmas=None):
        p = w.make(mesh, nac=nac, compact=bool(rng.integers(0, 2)), **mk)
        if bands is not None:
            p.band_indices = bands
        if sigmas is not None:
            p.sigmas = sigmas
        p.init_phph_interaction()
        return p

    ph.init_phph_interaction()
    it = ph.phph_interaction
    it.run_phonon_solver()
    f = np.array(it.get_phonons()[0])
    fm = f.max()
    if not fm > 1:
        return [], []
    na = len(ph.grid.addresses)
    desc = f"{w.desc} mesh={np.array(mesh).tolist()} nac={nac}"
    bases, out, used = [], [], []
    sg = round(float(rng.uniform(0.05, 0.1) * fm), 3)
    two = [None, sg]
    npt = int(rng.integers(4, 9))
    from phono3py.phonon3.imag_self_energy import get_frequency_points

    uni = get_frequency_points(max_phonon_freq=fm, sigmas=two, num_frequency_points=npt)
    for gp in [int(x) for x in rng.permutation(na)]:
        if len(it_triplets(it, gp)) > (20 if nbt <= 6 else 10):
            continue
        b = base(ph, it, gp, [(None, None), (sg, None)], uni)
        if b is None:
            continue
        b["pf"] = bigs(f[gp], 12)
        bases.append(b)
        used.append(gp)
        if len(bases) == (2 if nbt < 9 else 1):
            break
    if not used:
        return [], []
    n = nbt
    inner = list(range(1, n + 1))
    temps = [0.0, round(float(rng.uniform(5, 60)), 3), round(float(rng.uniform(100, 1500)), 3)]
    extra = np.sort(rng.uniform(0, 2.1 * fm, size=3))
    # far below the cutoff frequency: no shift
    extra[0] = float(rng.choice([extra[0], 0.0, CUT / 2]))

    def groups():
        if rng.integers(0, 2):
            return [list(range(n))]
        perm = [int(x) for x in rng.permutation(n)]
        k = int(rng.integers(1, n + 1))
        return [perm[:k]] + ([perm[k:]] if k < n else [])

    for ib, gp in enumerate(used):
        p = None
        for rep in range(8 if thorough else 4):
            if p is None or rng.integers(0, 2):
                bands = inner if rng.integers(0, 2) else sorted(int(x) + 1 for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False))
                p = fresh([[x - 1 for x in bands]])
                if rng.integers(0, 2):
                    p.phph_interaction.run_phonon_solver()
                rse = None
            lang = "Python" if rng.integers(0, 4) == 0 else "C"
            T = float(rng.choice(temps))
            eps = [None, 0.05, float(rng.uniform(0.005, 0.3)), 1e-6][int(rng.integers(0, 4))]
            freq = bool(rng.integers(0, 2))
            i2 = p.phph_interaction
            reuse = rse is not None and lang == "C" and bool(rng.integers(0, 2))
            how = int(rng.integers(0, 3))
            if reuse:
                rse.epsilon = eps
                rse.temperature = T
                if rse.frequency_points is None and freq:
                    rse.frequency_points = extra
                freq = rse.frequency_points is not None
                if how == 0:  # another grid point in between
                    rse.grid_point = int(rng.integers(0, na))
                    rse.run()
                    rse.grid_point = gp
            else:
                if how == 0:
                    rse = RealSelfEnergy(i2, grid_point=gp, temperature=T, epsilon=eps, lang=lang)
                else:
                    rse = RealSelfEnergy(i2, lang=lang)
                    rse.epsilon = eps
                    rse.temperature = T
                    rse.grid_point = gp
                if freq:
                    rse.frequency_points = extra
                if lang == "Python":  # strengths of the Python code are the subject of C07
                    i2.run()
                    v = np.array(i2.interaction_strength)
                    rse.run_interaction()
                    if not np.allclose(v, rse._pp_strength, rtol=1e-9, atol=1e-9 * v.max()):
                        rse = None
                        continue
                elif how == 1:
                    rse.run_interaction()
            rse.run()
            out.append({"kind": "rse", "b": ib + 1, "T": big(T, 12), "eps": big(0.05 if eps is None else eps, 12), "bands": bands,
                        "pts": [1, 2, 3] if freq else [0], "w": bigs(extra, 12), "got": rows(rse.real_self_energy),
                        "key": f"{lang} freq={freq}" + (" reuse" if reuse else ""),
                        "desc": f"{desc} gp={gp} T={T} eps={eps} bands={bands} {lang} freq={freq} reuse={reuse} how={how}"})
    # through the API
    cwd = os.getcwd()
    order = [int(x) for x in rng.permutation(len(used))]
    gps = [used[x] for x in order]
    for route in range(2):
        gr = groups()
        flat = [x + 1 for g in gr for x in g]
        pos, idx = 1, []
        for g in gr:
            idx.append(list(range(pos, pos + len(g))))
            pos += len(g)
        tt = [temps[int(x)] for x in rng.permutation(3)][: int(rng.integers(1, 4))]
        e1, e2 = round(float(rng.uniform(0.01, 0.3)), 4), round(float(rng.uniform(0.01, 0.3)), 4)
        sig = [None, [None], [None, sg], [sg, e2], [e1]][int(rng.integers(0, 5))]
        arg = [None, [e1, e2], [e2]][int(rng.integers(0, 3))]
        eff = arg or [x for x in (sig or []) if x is not None] or [0.05]
        at = bool(rng.integers(0, 2))
        pt = int(rng.integers(0, 3))
        kw = {"frequency_points_at_bands": True} if at else [{"frequency_points": extra}, {"num_frequency_points": 3}, {"frequency_step": fm * 0.9}][pt]
        txt, h5 = not at and bool(rng.integers(0, 3)), bool(rng.integers(0, 3))
        on = [None, "o"][int(rng.integers(0, 2))]
        p = fresh(gr, sig)
        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)
            try:
                pts, dl = p.run_real_self_energy(gps, tt, epsilons=arg, write_txt=txt, write_hdf5=h5, output_filename=on, **kw)
                files = {x: np.loadtxt(x) for x in os.listdir(".") if x.endswith(".dat")}
                hdfs = {}
                for x in os.listdir("."):
                    if x.endswith(".hdf5"):
                        with h5py.File(x) as h:
                            hdfs[x] = {k: h[k][()] for k in h}
            finally:
                os.chdir(cwd)
        if not at and pt:
            sx = max(arg or [x for x in (sig or []) if x is not None] or [0])
            out.append({"kind": "points", "max": big(fm, 12), "sigma": big(sx, 12), "step": big(kw.get("frequency_step", 0), 12),
                        "num": kw.get("num_frequency_points", 0), "got": bigs(pts, 12), "key": "points", "desc": f"{desc} {kw}"})
        D = [int(x) for x in p.phph_interaction.mesh_numbers]
        sym = mk["is_mesh_symmetry"]
        for ei, ep in enumerate(eff):
            for k, ib in enumerate(order):
                hname = f"deltas-m{D[0]}{D[1]}{D[2]}-g{used[ib]}-e{eps_name(ep)}" + (f".{on}" if on else "") + ".hdf5"
                for ti, T in enumerate(tt):
                    hd = {"b": ib + 1, "T": big(T, 12), "eps": big(ep, 12), "bands": flat, "pts": [0] if at else list(range(1, len(pts) + 1)),
                          "w": [] if at else bigs(pts, 12),
                          "desc": f"{desc} API gp={used[ib]} of {gps} sigmas={sig} epsilons={arg} eps={ep} T={T} of {tt} groups={gr} {kw}"}
                    x = dl[ei, ti, k]
                    out.append({**hd, "kind": "rse", "key": f"api at_bands={at}", "got": rows(x if at else x.T)})
                    if h5:
                        hit = hdfs.get(hname)
                        ok = hit is not None and hit["band_index"].tolist() == [x - 1 for x in flat] and abs(hit["temperature"] - tt).max() < 1e-9 \
                            and int(hit["grid_point"]) == used[ib] and abs(hit["epsilon"] - ep) < 1e-9 and abs(hit["frequency"] - f[used[ib]]).max() < 1e-8 \
                            and hit["mesh"].tolist() == D and (at or abs(hit["frequency_points"] - pts).max() < 1e-9)
                        y = hit["delta"][ti] if ok else x * 0 + 77
                        out.append({**hd, "kind": "rse", "key": "hdf5", "got": rows(y if at else y.T), "files": sorted(hdfs)})
                    if txt:
                        rs = []
                        for g in gr:
                            tn = f"deltas-m{D[0]}{D[1]}{D[2]}-g{used[ib]}-e{eps_name(ep)}-t{z(T)}-" + "".join(f"b{x + 1}" for x in g)
                            tn += (f".{on}" if on else "" if sym else ".nosym") + ".dat"
                            v = files.get(tn)
                            rs.append(bigs(v[:, 1], 25) if v is not None and abs(v[:, 0] - pts).max() < 1e-6 else ["7" * 30] * len(pts))
                        out.append({**hd, "kind": "rgroup", "groups": idx, "got": rs, "key": "text", "files": sorted(files)})
    # spectral functions
    gr = groups()
    flat = [x + 1 for g in gr for x in g]
    pos, idx = 1, []
    for g in gr:
        idx.append(list(range(pos, pos + len(g))))
        pos += len(g)
    sig = [two, two[::-1]][int(rng.integers(0, 2))]
    tt = [temps[int(x)] for x in rng.permutation(3)][: int(rng.integers(1, 4))]
    p = fresh(gr, sig)
    kw = [{"num_frequency_points": npt}, {"frequency_points": uni}][int(rng.integers(0, 2))]
    kw["num_points_in_batch"] = [None, 1, 3][int(rng.integers(0, 3))]
    api = bool(rng.integers(0, 2))
    txt, h5 = api or bool(rng.integers(0, 2)), api or bool(rng.integers(0, 2))
    on = [None, "o"][int(rng.integers(0, 2))]
    s = None
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            if api:
                p.run_spectral_function(gps, tt, write_txt=txt, write_hdf5=h5, output_filename=on, **kw)
            else:
                s = run_spectral_function(p.phph_interaction, gps, temperatures=tt, sigmas=sig, band_indices=gr, write_txt=txt,
                                          write_hdf5=h5, output_filename=on, **kw)
            files = {x: np.loadtxt(x) for x in os.listdir(".") if x.endswith(".dat")}
            hdfs = {}
            for x in os.listdir("."):
                if x.endswith(".hdf5"):
                    with h5py.File(x) as h:
                        hdfs[x] = {k: h[k][()] for k in h}
        finally:
            os.chdir(cwd)
    D = [int(x) for x in p.phph_interaction.mesh_numbers]
    if s and abs(s.frequency_points - uni).max() > 1e-9:
        out.append({"kind": "points", "max": big(fm, 12), "sigma": big(sg, 12), "step": "0", "num": npt, "got": bigs(s.frequency_points, 12),
                    "key": "points", "desc": f"{desc} spectral {kw}"})
    for si, sv in enumerate(sig):
        for k, ib in enumerate(order):
            mid = f"-m{D[0]}{D[1]}{D[2]}-g{used[ib]}"
            allb = sorted(flat) == flat == inner
            bn = "" if allb else "-" + "".join(f"b{x}" for x in flat)
            sn = "" if sv is None else f"-s{z(sv)}"
            for ti, T in enumerate(tt):
                hd = {"b": ib + 1, "s": 1 if sv is None else 2, "T": big(T, 12), "cls": 0, "bands": flat,
                      "pts": [n + 1 + x for x in range(npt)], "w": bigs(uni, 12),
                      "desc": f"{desc} spectral gp={used[ib]} of {gps} sigma={sv} of {sig} T={T} of {tt} groups={gr} {kw}"}
                if s:
                    out.append({**hd, "kind": "spec", "key": "function", "gam": rows(s.half_linewidths[si, ti, k]),
                                "del": rows(s.shifts[si, ti, k]), "got": rows(s.spectral_functions[si, ti, k])})
                if h5:
                    cand = [x for x in hdfs if x.startswith("spectral" + mid + "-") or x.startswith("spectral" + mid + ".")]
                    hits = [hdfs[x] for x in cand if x in ("spectral" + mid + bn + sn + (f".{on}" if on else "") + ".hdf5",
                                                           "spectral" + mid + sn + (f".{on}" if on else "") + ".hdf5")]
                    ok = len(hits) == 1 and hits[0]["band_index"].tolist() == [x - 1 for x in flat] and abs(hits[0]["temperature"] - tt).max() < 1e-9 \
                        and int(hits[0]["grid_point"]) == used[ib] and abs(hits[0]["frequency"] - f[used[ib]]).max() < 1e-8 \
                        and abs(hits[0]["frequency_point"] - uni).max() < 1e-9 and hits[0]["mesh"].tolist() == D
                    hh = hits[0] if ok else None
                    bad = np.full((n, npt), 77.0)
                    ref = hh["spectral_function"][ti] if ok else bad
                    out.append({**hd, "kind": "spec", "key": "hdf5", "gam": rows(hh["half_linewidth"][ti] if ok else bad),
                                "del": rows(hh["shift"][ti] if ok else bad), "got": rows(hh["spectral_function"][ti] if ok else bad), "files": sorted(hdfs)})
                if txt:
                    rs = []
                    for g in gr:
                        tn = "spectral" + mid + sn + f"-t{z(T)}-" + "".join(f"b{x + 1}" for x in g)
                        tn += (f".{on}" if on else "" if mk["is_mesh_symmetry"] else ".nosym") + ".dat"
                        v = files.get(tn)
                        rs.append(bigs(v[:, 1], 25) if v is not None and abs(v[:, 0] - uni).max() < 1e-6 else ["7" * 30] * npt)
                    out.append({**hd, "kind": "sgroup", "groups": idx, "got": rs, "ref": rows(s.spectral_functions[si, ti, k] if s else ref),
                                "key": "spectral text", "files": sorted(files)})
    # the transform alone
    for _ in range(4):
        m = int(rng.integers(2, 12))
        im = rng.normal(size=m) * float(10.0 ** rng.integers(-4, 1))
        if rng.integers(0, 2):
            im[0] = 0
        d = float(rng.uniform(0.01, 1))
        x = np.arange(m) * d
        half = bool(rng.integers(0, 2))
        if half or rng.integers(0, 2):
            r = ImagToReal(im, x)
            r.run(method="half_shift") if half else r.run()
            re, y = r.re_part, r.frequency_points
        else:
            re, y = imag_to_real(im, x)
        okx = len(y) == m and abs(y - x - (d / 2 if half else 0)).max() < 1e-9
        out.append({"kind": "kk", "im": bigs(im, 20), "half": int(half), "got": bigs(re, 20) if okx else ["9" * 40], "key": f"kk half={half}",
                    "desc": f"kk {m} {d} {half}"})
    return bases, out
