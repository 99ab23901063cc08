"""C14: stored data files return what was computed."""
import os
import shutil
import tempfile

import h5py
import numpy as np

from lib import tlc, worlds
from lib.par import pmap

KINDS = ["pp", "gamma", "collision", "phonon", "detail", "unitary", "coleigs", "fc3", "fc2", "address"]
TAKES = {"pp": "gsct", "gamma": "gbsct", "collision": "gbsct", "phonon": "t", "detail": "gbsct", "unitary": "sct", "coleigs": "sct",
         "address": "t", "fc3": "t", "fc2": "t"}
REFUSED = (OSError, KeyError, RuntimeError, ValueError, AssertionError, TypeError)
PAIRS = {"R": RuntimeError}


def ident(k):
    """What the name of the file distinguishes."""
    kind, mesh, gp, band, sigma, cut, tag = k
    if kind in ("fc3", "fc2"):
        return (kind, tag)
    return (kind, "".join(map(str, mesh)), gp, band, sigma, cut if sigma is not None else None, tag)


def plain_pool(rng, n):
    ks = []
    fams = [KINDS[int(x)] for x in rng.permutation(len(KINDS))[:2]]
    base = None
    while len(ks) < n:
        kind = fams[int(rng.integers(0, 2))]
        take = TAKES[kind]
        pick = lambda c, a: a[int(rng.integers(0, len(a)))] if c in take else None  # noqa: E731
        k = [kind, [[2, 2, 2], [1, 1, 11], [11, 1, 1]][int(rng.integers(0, 3))], pick("g", [1, 11, 110]), pick("b", [None, 0, 1, 10]),
             pick("s", [None, 0.1, 0.11, 1.0, 1e-5]), pick("c", [None, 1.0, 3.0, 1.1]), pick("t", [None, "a", "b1", "s1"])]
        if kind in ("fc3", "fc2"):
            k[1] = [1, 1, int(rng.integers(1, 3))]
            k[6] = k[6] or "full"
        if kind in ("unitary", "coleigs"):  # without mesh numbers inside
            k[1] = [[2, 2, 2], [1, 1, 11]][int(rng.integers(0, 2))]
        if base is not None and rng.integers(0, 3):  # differs from an earlier one in one place
            j = int(rng.integers(1, 7))
            old = list(base)
            if old[0] == kind:
                old[j] = k[j]
                k = old
        if k[2] is None and "g" in take:
            k[2] = 1
        if k[6] == "full":  # the maps of compact force constants are compared
            k[1] = [1, 1, 1]
        base = k
        if k not in ks:
            ks.append(k)
    return ks


def indices(ks):
    ids = []
    for k in ks:
        if ident(k) not in ids:
            ids.append(ident(k))
    stamps = []
    for k in ks:
        if k[1] not in stamps:
            stamps.append(k[1])
    return ids, stamps


def content(seed, kind, v, k):
    """Random arrays; the band index and p2s map belong to the call."""
    rng = np.random.default_rng([seed, 14, KINDS.index(kind), v])
    nt, nb, ng, nq = (int(x) for x in rng.integers(1, 5, size=4))
    r = lambda *s: rng.normal(size=s) * 10.0 ** rng.integers(-300, 300, size=s) * (rng.integers(0, 5, size=s) > 0)  # noqa: E731
    T = np.sort(rng.uniform(0, 1000, size=nt))
    comp = ["gzip", "lzf", 4, None][int(rng.integers(0, 4))]
    if kind == "pp":
        s = (nt, nb, 3 * ng, 3 * ng)
        return {"pp": r(*s), "zero": None if rng.integers(0, 2) else rng.integers(0, 2, size=s).astype("byte"), "comp": comp}
    if kind == "gamma":
        d = {"temperature": T, "gamma": r(nt, ng, nb) if k[2] is None else r(nt) if k[3] is not None else r(nt, nb)}
        if rng.integers(0, 2):
            d["gamma_isotope"] = r(ng, nb) if k[2] is None else float(r()) if k[3] is not None else r(nb)
        if rng.integers(0, 2):
            d["ave_pp"] = r(ng, nb) if k[2] is None else float(r()) if k[3] is not None else r(nb)
        if rng.integers(0, 2):
            d["gamma_N"], d["gamma_U"] = r(*d["gamma"].shape), r(*d["gamma"].shape)
        return d
    if kind == "collision":
        return {"T": T, "gamma": r(nt, ng, nb), "cm": r(nt, ng, nb, 3, nq, nb, 3)}
    if kind == "phonon":
        return {"f": r(ng, nb), "e": r(ng, nb, nb) + 1j * r(ng, nb, nb), "a": rng.integers(-9, 9, size=(ng, 3)), "comp": comp}
    if kind == "detail":
        return {"T": T, "d": r(nt, ng, nb, nb), "t": rng.integers(0, 99, size=(ng, 3)), "w": rng.integers(1, 9, size=ng), "comp": comp}
    if kind == "unitary":
        return {"T": T, "u": r(1, nt, nb, nb)}
    if kind == "coleigs":
        return {"T": T, "u": r(nt, nb)}
    if kind == "address":
        return {"a": rng.integers(-9, 9, size=(ng, 3)), "m": rng.integers(0, 9, size=ng), "comp": comp}
    n = 2 * ng
    return {"fc": r(n if k[6] == "full" else ng, n, *([n, 3, 3, 3] if kind == "fc3" else [3, 3])), "p2s": bool(rng.integers(0, 2)), "comp": comp}


def changed(fn):
    """Name of the one file a call wrote."""
    def look():
        return {x: (os.stat(x).st_mtime_ns, os.stat(x).st_ino, os.path.getsize(x)) for x in os.listdir(".")}

    for x in os.listdir("."):
        os.utime(x, ns=(1, 1))
    a = look()
    name = fn()
    new = [x for x, s in look().items() if a.get(x) != s]
    if len(new) != 1:
        raise RuntimeError(f"harness: {new} written")
    if name is not None and name != new[0]:
        return f"!{name} returned but {new[0]} written"
    return new[0]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def p2s_of(mesh, shape):
    """Map from primitive cell: differs between stamps."""
    m = np.arange(shape[0], dtype="intc") * (1 if shape[0] == shape[1] else shape[1] // shape[0])
    return m if mesh[2] == 1 else m + 1


def write(k, d):
    from phono3py import file_IO as F

    kind, mesh, gp, band, sigma, cut, tag = k
    sc = {"sigma": sigma, "sigma_cutoff": cut, "filename": tag}
    if kind == "pp":
        return changed(lambda: F.write_pp_to_hdf5(mesh, pp=d["pp"], g_zero=d["zero"], grid_point=gp, verbose=False, compression=d["comp"], **sc))
    if kind == "gamma":
        x = {a: b for a, b in d.items() if a != "ave_pp"}
        return changed(lambda: F.write_kappa_to_hdf5(x.pop("temperature"), mesh, averaged_pp_interaction=d.get("ave_pp"), grid_point=gp, band_index=band,
                                                     verbose=False, **x, **sc))
    if kind == "collision":
        return changed(lambda: F.write_collision_to_hdf5(d["T"], mesh, gamma=d["gamma"], collision_matrix=d["cm"], grid_point=gp, band_index=band, **sc))
    if kind == "phonon":
        return changed(lambda: F.write_phonon_to_hdf5(d["f"], d["e"], d["a"], mesh, compression=d["comp"], filename=tag))
    if kind == "detail":
        return changed(lambda: F.write_gamma_detail_to_hdf5(d["T"], mesh, gamma_detail=d["d"], grid_point=gp, triplet=d["t"], weight=d["w"], band_index=band,
                                                            compression=d["comp"], verbose=False, **sc))
    if kind == "unitary":
        return changed(lambda: F.write_unitary_matrix_to_hdf5(d["T"], mesh, unitary_matrix=d["u"], **sc))
    if kind == "coleigs":
        return changed(lambda: F.write_collision_eigenvalues_to_hdf5(d["T"], mesh, d["u"], verbose=False, **sc))
    if kind == "address":
        return changed(lambda: F.write_grid_address_to_hdf5(d["a"], mesh, d["m"], compression=d["comp"], filename=tag))
    fn = {"fc3": F.write_fc3_to_hdf5, "fc2": F.write_fc2_to_hdf5}[kind]
    p = p2s_of(mesh, d["fc"].shape)
    return changed(lambda: fn(d["fc"], filename=f"{kind}.{tag}", p2s_map=p, compression=d["comp"]))


def read(k, d, name, rng):
    """None when refused; else a text saying what differs from d, or ""."""
    from phono3py import file_IO as F

    kind, mesh, gp, band, sigma, cut, tag = k
    sc = {"sigma": sigma, "sigma_cutoff": cut, "filename": tag}
    try:
        if kind == "pp":
            r = F.read_pp_from_hdf5(mesh, grid_point=gp, verbose=False, **sc)
        elif kind == "gamma":
            r = F.read_gamma_from_hdf5(mesh, grid_point=gp, band_index=band, **sc)[0]
        elif kind == "collision":
            ix = "all" if d is None or rng.integers(0, 2) else [int(x) for x in np.sort(rng.permutation(len(d["T"]))[: int(rng.integers(1, 4))])]
            r = F.read_collision_from_hdf5(mesh, indices=ix, grid_point=gp, band_index=band, verbose=False, **sc)
        elif kind == "phonon":
            r = F.read_phonon_from_hdf5(mesh, filename=tag, verbose=False)
        elif kind in ("fc3", "fc2"):
            if d is None:
                p = None
            else:
                p = p2s_of(mesh, d["fc"].shape)
            r = {"fc3": F.read_fc3_from_hdf5, "fc2": F.read_fc2_from_hdf5}[kind](filename=f"{kind}.{tag}", p2s_map=p)
        else:
            if name is None or not os.path.exists(name):
                return None
            with h5py.File(name) as f:
                r = {x: f[x][()] for x in f}
            if "mesh" in r and r["mesh"].tolist() != mesh:
                return None
    except REFUSED:
        return None
    if r is None:
        return None
    if d is None:
        return "something"
    bad = []
    if kind == "pp":
        z = d["zero"]
        ex = d["pp"] if z is None else np.where(z == 0, d["pp"], 0)
        if not same(r[0], ex):
            bad.append("pp")
        if (r[1] is None) != (z is None) or (z is not None and not same(r[1], z)):
            bad.append("g_zero")
    elif kind == "gamma":
        bad = [x for x in d if x not in r or not same(r[x], d[x])] + [x for x in r if x not in d]
    elif kind == "collision":
        s = slice(None) if ix == "all" else ix
        bad = [n for n, x, y in (("matrix", r[0][0], d["cm"][s]), ("gamma", r[1], d["gamma"][s]), ("temperature", r[2], d["T"][s])) if not same(x, y)]
        t = F.read_collision_from_hdf5(mesh, indices=ix, grid_point=gp, band_index=band, only_temperatures=True, verbose=False, **sc)
        if t is None or not same(t[2], d["T"]):
            bad.append("temperatures")
    elif kind == "phonon":
        bad = [n for n, x, y in zip("fea", r, (d["f"], d["e"], d["a"])) if not same(x, y)]
    elif kind in ("fc3", "fc2"):
        bad = [] if same(r, d["fc"]) and r.flags.c_contiguous else ["fc"]
    else:
        m = {"detail": {"T": "temperature", "d": "gamma_detail", "t": "triplet", "w": "weight"}, "unitary": {"T": "temperature", "u": "unitary_matrix"},
             "coleigs": {"T": "temperature", "u": "collision_eigenvalues"}, "address": {"a": "grid_address", "m": "grid_mapping_table"}}[kind]
        bad = [y for x, y in m.items() if y not in r or not same(r[y], d[x])]
        for x, y in () if kind in ("unitary", "coleigs", "address") else (("grid_point", gp), ("band_index", None if band is None else band + 1), ("sigma", sigma)):
            if y is not None and (x not in r or r[x] != y):
                bad.append(x)
    return " ".join(bad)


def plain(job):
    seed, n, ks, hs = job
    ids, _ = indices(ks)
    out, total = [], 0
    cwd = os.getcwd()
    rng = np.random.default_rng([seed, 1401, n])
    for h in hs:
        total += 1
        tmp = tempfile.mkdtemp(prefix="c14-")
        os.chdir(tmp)
        try:
            with open(os.devnull, "w") as null:
                import contextlib

                with contextlib.redirect_stdout(null):
                    e = replay_plain(seed * 1000 + n, ks, ids, h, rng)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)
        if e:
            out.append((h, e))
            if len(out) > 2:
                break
    return total, out


def replay_plain(seed, ks, ids, h, rng):
    names, last = {}, {}
    for i, s in enumerate(h):
        if s["op"] == "write":
            k = ks[s["i"] - 1]
            name = write(k, content(seed, k[0], s["v"], k))
            if name[0] == "!":
                return f"step {i + 1}: {name}"
            names[ident(k)] = name
            other = [x for x, y in names.items() if y == name and x != ident(k)]
            if other:
                return f"step {i + 1}: {ident(k)} and {other[0]} have the same file {name}"
            last[ident(k)] = (k, s["v"])
        elif s["op"] == "remove":
            os.remove(names.pop(ids[s["f"] - 1]))
        else:
            k = ks[s["j"] - 1]
            v = s["res"][0]
            kw = last.get(ident(k))
            # for the shape of what is asked for, also when it will be refused
            d = content(seed, k[0], v, kw[0]) if v else content(seed, k[0], kw[1], kw[0]) if kw and k[0] in ("fc3", "fc2") else None
            r = read(k, d, names.get(ident(k)), rng)
            if v == 0 and r is not None:
                return f"step {i + 1}: {k} was read although what is stored is {kw}"
            if v and r is None:
                return f"step {i + 1}: {k} is not read"
            if v and r:
                return f"step {i + 1}: {k}: {r} not read as written"
    return None


# ------------------------------------------------------- stored strengths
PLACES = [("sc", [2, 2, 2]), ("cscl", [2, 2, 2]), ("bcc2", [2, 2, 2]), ("p1", [1, 2, 2]), ("rs", [2, 2, 2]), ("p1", [1, 1, 11])]


class Pp:
    def __init__(self, rng, k):
        name, self.mesh = PLACES[k % len(PLACES)]
        self.w = worlds.World(rng, name, maxn=36)
        self.k3 = [1.0, 1.7]
        self.sig = [None, round(float(rng.uniform(0.4, 1.5)), 3), 0.1]
        self.cut = [None, 3.1][int(rng.integers(0, 2))]
        self.T = [30.0, 300.0]
        self.compact = bool(rng.integers(0, 2))
        self.bands = bool(rng.integers(0, 3) == 0)
        tc = self.run(1, [1], 1)
        self.gps = [int(x) for x in tc.grid_points]
        self.nosym = all(self.ntrip(g, True) != self.ntrip(g, False) for g in self.gps)
        self.refs = {(v, s): np.array(self.run(v, [s], 1).gamma)[0] for v in (1, 2) for s in (1, 2, 3)}
        self.kappa = {(v, s, lbte): np.array(self.run(v, [s], 1, lbte=lbte).kappa)[0] for v in (1, 2) for s in (1, 2, 3) for lbte in (False, True)
                      if not (lbte and self.bands)}

    def ntrip(self, g, sym):
        ph = self.w.make(self.mesh, is_mesh_symmetry=sym)
        ph.init_phph_interaction()
        ph.phph_interaction.set_grid_point(g)
        return len(ph.phph_interaction.get_triplets_at_q()[0])

    def run(self, v, sl, stamp, lbte=False, mesh=None, **kw):
        ph = self.w.make(mesh or self.mesh, compact=self.compact, is_mesh_symmetry=stamp != 2, fcs=(self.w.fc2, self.w.fc3 * self.k3[v - 1]))
        ph.sigmas = [self.sig[s - 1] for s in sl]
        if self.cut is not None:
            ph.sigma_cutoff = self.cut
        nb = len(ph.primitive) * 3
        if self.bands and stamp != 3:
            ph.band_indices = [[nb - 1, 0]]
        ph.init_phph_interaction()
        ph.run_thermal_conductivity(is_LBTE=lbte, temperatures=self.T, **kw)
        return ph.thermal_conductivity

    def pools(self, rng):
        """Files are (tag, smearing, point)."""
        ng = len(self.gps)
        fid = lambda t, s, g: ((t - 1) * 3 + s - 1) * ng + g  # noqa: E731
        wr, rd = [], []
        for i in range(5):
            t, s = int(rng.integers(1, 3)), int(rng.integers(1, 4))
            lbte = bool(rng.integers(0, 3) == 0) and not self.bands
            g = [int(x) + 1 for x in rng.permutation(ng)][: int(rng.integers(1, ng + 1))] if rng.integers(0, 2) and not lbte else list(range(1, ng + 1))
            st = 1
            if not lbte and rng.integers(0, 4) == 0:
                if self.bands:
                    st = 3
                elif self.nosym:
                    st = 2
            if st == 2:  # points are all of the grid then
                g = [int(x) + 1 for x in rng.permutation(ng)][: int(rng.integers(1, ng + 1))]
            sl = [s] if rng.integers(0, 3) else [int(x) + 1 for x in rng.permutation(3)[:2] if x + 1 != s] + [s]
            wr.append({"tag": t, "sl": sl, "s": s, "g": g, "lbte": lbte, "stamp": st, "full": bool(rng.integers(0, 2)),
                       "compression": ["gzip", "lzf", None][int(rng.integers(0, 3))], "files": [fid(t, s, x) for x in g],
                       "alias": self.mesh == [1, 1, 11] and bool(rng.integers(0, 3) == 0)})
            if wr[-1]["alias"]:
                wr[-1].update({"stamp": 4, "lbte": False})
        for i in range(5):
            t, s = int(rng.integers(1, 3)), int(rng.integers(1, 4))
            lbte = bool(rng.integers(0, 3) == 0) and not self.bands
            g = [int(x) + 1 for x in rng.permutation(ng)][: int(rng.integers(1, ng + 1))] if rng.integers(0, 2) and not lbte else list(range(1, ng + 1))
            if rng.integers(0, 3):
                w = wr[int(rng.integers(0, len(wr)))]
                t, s = w["tag"], w["s"]
                if not lbte:
                    g = w["g"]
            rd.append({"tag": t, "s": s, "g": g, "lbte": lbte, "stamp": 1, "files": [fid(t, s, x) for x in g]})
        return wr, rd, 6 * ng


def tag(t):
    return None if t == 1 else "b2"


def strengths(job):
    seed, k, depth, limit = job
    worlds.threads(1)
    rng = np.random.default_rng([seed, 1402, k])
    p = Pp(rng, k)
    out, total, first = [], 0, None
    wr, rd, nf = p.pools(rng)
    hs = tlc.histories("Files", ["TypeOK"], [], {"nf": nf, "nv": 2, "writers": [[w["stamp"], w["files"]] for w in wr],
                                                 "readers": [[r["stamp"], r["files"]] for r in rd]}, seed + k, depth, limit=limit)
    cwd = os.getcwd()
    names = {}
    for h in hs:
        total += 1
        first = first or h
        tmp = tempfile.mkdtemp(prefix="c14-")
        os.chdir(tmp)
        try:
            e = replay_pp(p, wr, rd, h, names)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)
        if e:
            out.append((h, f"{p.w.desc} mesh={p.mesh} sigmas={p.sig} cutoff={p.cut} bands={p.bands} writers={wr} readers={rd}: {e}"))
            if len(out) > 2:
                break
    return total, out, first


def replay_pp(p, wr, rd, h, names):
    for i, s in enumerate(h):
        head = f"step {i + 1} {s}: "
        if s["op"] == "write":
            w = wr[s["i"] - 1]
            before = set(os.listdir("."))
            gl = None if w["lbte"] else [p.gps[x - 1] for x in w["g"]]
            p.run(s["v"], w["sl"], w["stamp"], lbte=w["lbte"], grid_points=gl, write_pp=True, is_full_pp=w["full"], compression=w["compression"],
                  output_filename=tag(w["tag"]), mesh=[11, 1, 1] if w["alias"] else None)
            for f, g in zip(w["files"], w["g"]):
                x = f"pp-m{''.join(map(str, p.run_mesh()))}-g{p.gps[g - 1]}"
                sg = p.sig[w["s"] - 1]
                if sg is not None:
                    z = lambda v: f"{v:f}".rstrip("0").rstrip(".")  # noqa: E731
                    x += "-s" + z(sg) + ("-sd" + z(p.cut) if p.cut is not None else "")
                names[f] = x + ("" if w["tag"] == 1 else "." + tag(w["tag"])) + ".hdf5"
                if not os.path.exists(names[f]):
                    return head + f"{names[f]} is not there, {sorted(set(os.listdir('.')) - before)} is"
        elif s["op"] == "remove":
            os.remove(names[s["f"]])
        else:
            r = rd[s["j"] - 1]
            whole = r["g"] == list(range(1, len(p.gps) + 1))
            gl = None if r["lbte"] or whole else [p.gps[x - 1] for x in r["g"]]
            try:
                tc = p.run(1, [r["s"]], 1, lbte=r["lbte"], grid_points=gl, read_pp=True, input_filename=tag(r["tag"]))
                ok = tc is not None and not isinstance(tc, bool)
            except REFUSED:
                ok = False
            if ok != s["ok"]:
                return head + f"reading strengths {'succeeded' if ok else 'was refused'}: reader {r}, files {sorted(os.listdir('.'))}"
            if ok:
                gam = np.array(tc.gamma)[0]
                for n, (g, v) in enumerate(zip(r["g"], s["res"])):
                    a, b = gam[:, n], p.refs[v, r["s"]][:, g - 1]
                    if abs(a - b).max() > 1e-9 * abs(p.refs[v, r["s"]]).max() + 1e-30:
                        return head + f"linewidths from stored strengths at point {g} off by {abs(a - b).max():g} of {abs(b).max():g}"
                if len(set(s["res"])) == 1 and whole and not p.bands:
                    ex = p.kappa[s["res"][0], r["s"], r["lbte"]]
                    a = np.array(tc.kappa)[0]
                    if abs(a - ex).max() > 1e-7 * abs(ex).max():
                        return head + f"conductivity from stored strengths off by {abs(a - ex).max() / abs(ex).max():g}"
    return None


Pp.run_mesh = lambda p: p.mesh


# ---------------------------------------------------------- stored phonons
def phonons(job):
    seed, k, depth, limit = job
    worlds.threads(1)
    rng = np.random.default_rng([seed, 1403, k])
    name = ["cscl", "p1", "rs", "zb", "random", "hcp"][k % 6]
    w = worlds.World(rng, name, maxn=36)
    meshes = [[2, 2, 2], [1, 1, 11], [11, 1, 1]]
    scale = [1.0, 1.44]
    nac = bool(rng.integers(0, 3) == 0)
    made = {}

    def make(v, m):
        if (v, m) not in made:
            ph = w.make(meshes[m - 1], nac=nac, fcs=(w.fc2 * scale[v - 1], w.fc3))
            ph.init_phph_interaction()
            ph.run_phonon_solver()
            made[v, m] = [np.array(x) for x in ph.get_phonon_data()] + [ph.grid]
        return made[v, m]

    ms = [1, 2, 3]
    for m in (2, 3):
        try:
            w.make(meshes[m - 1]).grid  # noqa: B018
        except RuntimeError as e:
            if "symmetry" not in str(e).lower():
                raise
            ms.remove(m)
    wr = [[m, t] for m in ms for t in (1, 2)]
    fid = lambda m, t: (1 if m == 1 else 2) + 2 * (t - 1)  # noqa: E731
    data = {"nf": 4, "nv": 2, "writers": [[m, [fid(m, t)]] for m, t in wr], "readers": [[m, [fid(m, t)]] for m, t in wr]}
    hs = tlc.histories("Files", ["TypeOK"], [], data, seed + k, depth, limit=limit)
    out, total = [], 0
    cwd = os.getcwd()
    for h in hs:
        total += 1
        tmp = tempfile.mkdtemp(prefix="c14-")
        os.chdir(tmp)
        try:
            e = replay_ph(w, nac, meshes, scale, make, wr, fid, h)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)
        if e:
            out.append((h, f"{w.desc} nac={nac} writers={wr}: {e}"))
            if len(out) > 2:
                break
    return total, out


def replay_ph(w, nac, meshes, scale, make, wr, fid, h):
    from phono3py.file_IO import read_phonon_from_hdf5, write_phonon_to_hdf5

    names = {}
    for i, s in enumerate(h):
        head = f"step {i + 1} {s}: "
        if s["op"] == "write":
            m, t = wr[s["i"] - 1]
            f, e, a, grid = make(s["v"], m)
            names[fid(m, t)] = write_phonon_to_hdf5(f, e, a, meshes[m - 1], bz_grid=grid, filename=tag(t))
        elif s["op"] == "remove":
            os.remove(names[s["f"]])
        else:
            m, t = wr[s["j"] - 1]
            ph = w.make(meshes[m - 1], nac=nac, fcs=(w.fc2, w.fc3))
            ph.init_phph_interaction()
            try:
                x = read_phonon_from_hdf5(meshes[m - 1], filename=tag(t), verbose=False)
                ok = x is not None
                if ok:
                    ph.set_phonon_data(*x)
            except REFUSED:
                ok = False
            if ok != s["ok"]:
                return head + f"reading phonons {'succeeded' if ok else 'was refused'}"
            if ok:
                v = s["res"][0]
                f, e, a, grid = make(v, m)
                it = ph.phph_interaction
                it.run_phonon_solver()
                g = it.get_phonons()
                if not (same(g[0], f) and same(g[1], e)):
                    return head + "phonons in use are not those which were stored"
                # strengths are of the stored phonons
                gp = len(ph.grid.addresses) // 2
                res = []
                for q in (ph, None):
                    if q is None:
                        q = w.make(meshes[m - 1], nac=nac, fcs=(w.fc2 * scale[v - 1], w.fc3))
                        q.init_phph_interaction()
                        q.run_phonon_solver()
                    q.phph_interaction.set_grid_point(gp)
                    q.phph_interaction.run()
                    res.append(np.array(q.phph_interaction.interaction_strength))
                if abs(res[0] - res[1]).max() > 1e-9 * abs(res[1]).max():
                    return head + "strengths differ from those of the stored phonons"
    return None


def run(c):
    t = c.thorough
    rng = np.random.default_rng([c.seed, 14])
    props = ["LastWritten", "Isolation"]
    # the specification itself
    r = tlc.histories("Files", ["TypeOK"], props, {"nf": 2, "nv": 2, "writers": [[1, [1]], [2, [1, 2]]], "readers": [[1, [1]], [2, [2, 1]]]}, c.seed, 4, check=c)
    hist = {"exhaustive depth 4": len(r)}
    jobs = []
    todo = []
    for n in range(160 if t else 40):
        ks = plain_pool(rng, int(rng.integers(3, 7)))
        todo.append((c.seed, n, ks, int(rng.integers(4, 9)), 120 if t else 60))
    jobs = pmap(c, enum_plain, todo)
    hist["plain"] = sum(len(j[3]) for j in jobs)
    total = 0
    for n, out in pmap(c, plain, jobs):
        total += n
        for h, what in out:
            c.fail("Files:store", what, h)
    for n, out, first in pmap(c, strengths, [(c.seed, k, int(rng.integers(3, 6)), 40 if t else 10) for k in range(24 if t else 12)]):
        total += n
        hist["strengths"] = hist.get("strengths", 0) + n
        for h, what in out:
            c.fail("Files:strengths", what, h)
    for n, out in pmap(c, phonons, [(c.seed, k, int(rng.integers(3, 6)), 60 if t else 12) for k in range(24 if t else 12)]):
        total += n
        hist["phonons"] = hist.get("phonons", 0) + n
        for h, what in out:
            c.fail("Files:phonons", what, h)
    c.traces += total
    c.sample({"spec": "Files", "keys": jobs[0][2], "history": jobs[0][3][0]})
    c.note(histories=hist)
    c.assumptions += ["names of files distinguish sigmas to six decimals, mesh numbers by their digits"]


def enum_plain(job):
    seed, n, ks, depth, limit = job
    ids, stamps = indices(ks)
    ix = [[stamps.index(k[1]) + 1, [ids.index(ident(k)) + 1]] for k in ks]
    hs = tlc.histories("Files", ["TypeOK"], [], {"nf": len(ids), "nv": 2, "writers": ix, "readers": ix}, seed * 1000 + n, depth, limit=limit)
    return seed, n, ks, hs
