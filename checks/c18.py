"""C18: saving and loading, and where load() takes its inputs from."""
import contextlib
import copy
import io
import os
import shutil
import tempfile
import warnings

import numpy as np

from lib import tlc, toys, worlds
from lib.par import pmap
import phono3py
from phono3py import Phono3py
from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5, write_FORCES_FC2, write_FORCES_FC3
from phonopy.interface.calculator import get_default_physical_units
from phonopy.units import Bohr, Hartree
from phonopy.structure.atoms import PhonopyAtoms

CALCS = [None, "qe", "wien2k", "vasp", "abinit", "crystal", "lammps", "aims", "turbomole", "siesta", "cp2k"]


ALL = [{"force_sets": a, "displacements": b, "born_effective_charge": c, "dielectric_constant": d}
       for a in (True, False) for b in (True, False) for c in (True, False) for d in (True, False)]


def units(calc):
    if not calc:
        return 1.0, 1.0
    u = get_default_physical_units(CALCS[calc])
    return u["distance_to_A"], u["force_to_eVperA"] or 1.0


class World:
    """Crystal, pools of masses, NAC parameters and datasets."""

    def __init__(self, rng, calc, pscm, magnetic=True):
        name = str(rng.choice(["sc", "cscl", "tet", "fcc", "hcp"] if magnetic else ["cscl", "tet"]))
        lat, sym, pos, smat, cut, pmat = toys.CELLS[name]
        self.name, self.calc, self.pscm = name, calc, pscm
        lat = np.array(lat)
        pos = np.array(pos)
        if rng.integers(0, 3) == 0:  # rigid rotation and shift
            q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            q *= np.sign(np.linalg.det(q))
            lat = lat @ q
            pos = pos + rng.uniform(size=3)
        n = len(sym)
        kw = {}
        m = int(rng.integers(0, 6)) if magnetic else 0
        if m == 1:
            kw["magnetic_moments"] = rng.integers(-2, 3, size=n) * 1.25
        elif m == 2:
            kw["magnetic_moments"] = rng.integers(-2, 3, size=(n, 3)) * 0.75
        if m == 3:
            kw["masses"] = [30.25] * n
        self.atoms = dict(symbols=sym, scaled_positions=pos, **kw)
        self.lat = lat / units(calc)[0]
        k = int(rng.integers(0, 3))
        smat = [np.eye(3, dtype=int), np.diag([1, 1, 2]), np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])][k]
        smat = smat if magnetic else np.diag([1, 1, 2])
        psm = [np.diag([2, 1, 1]), np.eye(3, dtype=int), np.diag([1, 2, 1]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])][int(rng.integers(0, 4))]
        psm = psm if magnetic else np.diag([2, 2, 1])
        if m in (1, 2):
            pmat = None  # moments of the atoms of the unit cell are different
        self.kw = dict(supercell_matrix=smat, primitive_matrix=pmat)
        if pscm:
            self.kw["phonon_supercell_matrix"] = psm
        self.seed = int(rng.integers(1000))
        ph = self.blank()
        self.cells = (ph.supercell, ph.phonon_supercell)
        self.nprim = len(ph.primitive)
        self.base_mass = ph.primitive.masses
        cutd = None
        u = 1 / units(calc)[0]
        self.disp = {}
        if rng.integers(0, 2):
            ph.generate_displacements(distance=0.03 * u)
            d = sorted({round(x["pair_distance"], 4) for f in ph.dataset["first_atoms"] for x in f["second_atoms"]})
            if len(d) > 1:
                cutd = (d[0] + d[1]) / 2
        for w in (0, 1):
            for d in (1, 2, 3, 4):
                ph = self.blank()
                a = {"distance": 0.02 * d * u}
                if d > 2:
                    a.update(number_of_snapshots=4, random_seed=d)
                elif d == 2 and rng.integers(0, 2):
                    a["is_plusminus"] = True
                if w and pscm:
                    ph.generate_fc2_displacements(**a)
                    self.disp[w, d] = ph.phonon_dataset
                elif w == 0:
                    if d == 1 and cutd:
                        a["cutoff_pair_distance"] = cutd
                    ph.generate_displacements(**a)
                    self.disp[w, d] = ph.dataset
        self.kind = [1, 1, 2, 2]
        self.nac = {}
        for v in (1, 2, 3):
            born = rng.normal(size=(self.nprim, 3, 3))
            diel = rng.normal(size=(3, 3))
            self.nac[v] = {"born": born - born.mean(axis=0), "dielectric": diel @ diel.T + np.eye(3)}
        self.nac[2].update(method="wang", factor=12.5)
        self.nac[3].update(method="gonze", factor=14.25)
        self.factor = [0, 1, 2]

    def cell(self, calc=None, scale=1.0):
        return PhonopyAtoms(cell=self.lat * scale, **self.atoms)

    def blank(self, calc=None, unit=0):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return Phono3py(self.cell(scale=units(unit)[0]), calculator=CALCS[calc] if calc else None, log_level=0, **self.kw)

    def masses(self, v):
        # same for atoms of the same sublattice is not needed: they are of the primitive cell
        return self.base_mass if v == 0 else np.round(self.base_mass * (1 + 0.111 * v) + 0.01 * np.arange(self.nprim), 4)

    def count(self, w, d):
        ds = self.disp[w, d]
        if "displacements" in ds:
            return len(ds["displacements"])
        return len(ds["first_atoms"]) + sum(len(x.get("second_atoms", [])) for x in ds["first_atoms"])

    def values(self, w, d, f):
        n = self.count(w, d)
        rng = np.random.default_rng([n, w, d, f])
        return rng.normal(size=(n, len(self.cells[w]), 3)) * 0.3, np.random.default_rng([n, w, d]).normal(size=n) * 100

    def dataset(self, w, x, unit=0, seed=True):
        """Dataset of displacements d, forces f and energies e, in given units."""
        d, f, e = x["d"], x["f"], x["e"]
        if d == 0:
            return None
        L, F = units(unit)
        ds = copy.deepcopy(self.disp[w, d])
        force, en = self.values(w, d, f)
        if "displacements" in ds:
            ds["displacements"] = ds["displacements"] * L
            if f:
                ds["forces"] = force * F
            if e:
                ds["supercell_energies"] = en
            return ds
        for i, y in enumerate(entries(ds)):
            y["displacement"] = np.array(y["displacement"]) * L
            if f:
                y["forces"] = force[i] * F
            if e:
                y["supercell_energy"] = en[i]
        return ds

    def expect_nac(self, v, factor):
        if v == 0:
            return None
        n = dict(self.nac[v])
        if factor < 0:
            n["factor"] = Hartree * Bohr  # of eV and angstrom
        return n


def entries(ds):
    """All displacements of pairs in the order of their ids."""
    r = list(ds["first_atoms"])
    for d in ds["first_atoms"]:
        r += list(d.get("second_atoms", []))
    return r


def near(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol)


def same_cell(a, b, mtol=1e-6):
    if not near(a.cell, b.cell, 1e-9):
        return "lattice"
    if a.symbols != b.symbols:
        return "symbols"
    d = a.scaled_positions - b.scaled_positions
    if np.abs(d - np.rint(d)).max() > 1e-9:
        return "positions"
    if not near(a.masses, b.masses, mtol):
        return "masses"
    ma, mb = a.magnetic_moments, b.magnetic_moments
    if (ma is None) != (mb is None) or (ma is not None and not near(ma, mb, 1e-6)):
        return "magnetic moments"
    return None


def same_dataset(a, b, tol=2e-9):
    if (a is None) != (b is None):
        return f"{'missing' if a is None else 'not expected'}"
    if a is None:
        return None
    if ("displacements" in a) != ("displacements" in b):
        return "of the other type"
    if "displacements" in a:
        for k in ("displacements", "forces", "supercell_energies"):
            if (k in a) != (k in b):
                return f"{k} {'missing' if k in b else 'not expected'}"
            if k in a and not near(a[k], b[k], tol):
                return f"{k} differ"
        return None
    if a["natom"] != b["natom"]:
        return f"natom {a['natom']} instead of {b['natom']}"
    x, y = entries(a), entries(b)
    if len(a["first_atoms"]) != len(b["first_atoms"]) or len(x) != len(y):
        return "number of displacements differs"
    for i, (p, q) in enumerate(zip(x, y)):
        for k in ("displacement", "forces", "supercell_energy", "pair_distance", "included", "number", "id"):
            if k == "id" and not (k in p and k in q):
                continue
            if (k in p) != (k in q):
                return f"{k} of displacement {i + 1} {'missing' if k in q else 'not expected'}"
            if k in p and not near(p[k], q[k], 1e-8 if k in ("supercell_energy", "pair_distance") else tol):
                return f"{k} of displacement {i + 1} differs"
    for p, q in zip(a["first_atoms"], b["first_atoms"]):
        if len(p.get("second_atoms", [])) != len(q.get("second_atoms", [])):
            return "number of second atoms differs"
    dup = [{int(i): int(j) for i, j in (z.items() if isinstance(z, dict) else z)} for z in (a.get("duplicates") or {}, b.get("duplicates") or {})]
    if dup[0] != dup[1]:
        return "duplicates differ"
    if ("cutoff_distance" in a) != ("cutoff_distance" in b) or not near(a.get("cutoff_distance", 0), b.get("cutoff_distance", 0), 1e-8):
        return "cutoff distance differs"
    return None


def same_nac(a, b):
    if (a is None) != (b is None):
        return "missing" if a is None else "not expected"
    if a is None:
        return None
    if set(a) != set(b):
        return f"has {sorted(a)} instead of {sorted(b)}"
    for k, tol in (("born", 1e-12), ("dielectric", 1e-12), ("factor", 1e-5)):
        if k in a and not near(a[k], b[k], tol):
            return f"{k} differs"
    if str(a.get("method")).lower() != str(b.get("method")).lower():
        return "method differs"
    return None


def same(w, ph, o):
    """ph against the object of tokens o."""
    q = w.blank(o["calc"], o["unit"])
    if o["mass"]:
        q.masses = w.masses(o["mass"])
    for n in ("unitcell", "primitive", "supercell", "phonon_supercell", "phonon_primitive"):
        e = same_cell(getattr(ph, n), getattr(q, n))
        if e:
            return f"{e} of {n}"
    for n in ("supercell_matrix", "phonon_supercell_matrix", "primitive_matrix"):
        a, b = getattr(ph, n), getattr(q, n)
        if (a is None) != (b is None) or (a is not None and not near(a, b, 1e-12)):
            return n
    if ph.calculator != q.calculator:
        return f"calculator {ph.calculator}"
    e = same_nac(ph.nac_params, w.expect_nac(o["nac"], o["factor"]))
    if e:
        return f"NAC parameters: {e}"
    for n, k in (("dataset", "ds"), ("phonon_dataset", "pds")):
        want = w.dataset(int(k == "pds"), o[k], o["unit"])
        e = same_dataset(getattr(ph, n), want)
        if e:
            return f"{n}: {e}"
    return None


def trip(w, h):
    ph = w.blank(w.calc)
    if os.path.exists("p.yaml"):
        os.unlink("p.yaml")
    for i, s in enumerate(h):
        head = f"step {i + 1} {s['op']}: "
        op = s["op"]
        if op == "mass":
            ph.masses = w.masses(s["v"])
        elif op == "nac":
            ph.nac_params = copy.deepcopy(w.nac[s["v"]]) if s["v"] else None
        elif op in ("ds", "pds"):
            x = w.dataset(int(op == "pds"), s, s["unit"])
            if op == "ds":
                ph.dataset = x
            else:
                ph.phonon_dataset = x
        elif op == "save":
            ph.save("p.yaml", settings=s["s"])
            e = same(w, ph, s["obj"])
            if e:
                return head + e + " changed"
        elif op == "load":
            ph = phono3py.load("p.yaml", produce_fc=False, is_nac=s["nac"], log_level=0)
            e = same(w, ph, s["obj"])
            if e:
                return head + e
    return None


# ------------------------------------------------------------- sources
def write_forces(w, which, x, content, name):
    """Forces file: only forces (1) or displacements and forces (2)."""
    if content == 0:
        return
    if content == 2:
        ds = w.dataset(which, x)
        np.savetxt(name, np.hstack([ds["displacements"].reshape(-1, 3), ds["forces"].reshape(-1, 3)]), fmt="%.16f")
        return
    ds = w.dataset(which, {**x, "f": 0, "e": 0})
    f = w.values(which, x["d"], x["f"])[0]
    if which:
        write_FORCES_FC2(ds, list(f), filename=name)
    else:
        write_FORCES_FC3(ds, [y for y, e in zip(f, entries(ds)) if e.get("included", True)], filename=name)


def source(w, h):
    s, want = h["sit"], h["from"]
    for f in os.listdir("."):
        os.unlink(f)
    d3, d2 = (1, 3)[s["kind"] - 1], (2, 4)[s["pkind"] - 1]
    X = lambda d, f: {"d": d, "f": f, "e": 0}  # noqa: E731
    args = {}
    # what each origin has
    data3 = {"yaml": X(d3, 1), "disp": X(d3, 0), "none": X(0, 0)}
    data2 = {"yaml": X(d2, 1), "disp": X(d2, 0), "none": X(0, 0)}
    for o, k, f in (("arg", "af3", 2), ("cwd", "ff3", 3)):
        data3[o] = X(4 if s[k] == 2 else d3, f)
        write_forces(w, 0, data3[o], s[k], "FORCES_FC3" if o == "cwd" else "my_fc3_forces")
    for o, k, f in (("arg", "af2", 2), ("cwd", "ff2", 3)):
        data2[o] = X(3 if s[k] == 2 else d2, f)
        if w.pscm:
            write_forces(w, 1, data2[o], s[k], "FORCES_FC2" if o == "cwd" else "my_fc2_forces")
        elif s[k]:
            open("FORCES_FC2", "w").write("0 0 0 0 0 0\n")  # not read
    if s["af3"]:
        args["forces_fc3_filename"] = "my_fc3_forces"
    if s["af2"]:
        args["forces_fc2_filename"] = "my_fc2_forces"
    q = w.blank()
    p2s, pp2s = q.primitive.p2s_map, q.phonon_primitive.p2s_map
    n3, n2 = len(w.cells[0]), len(w.cells[1])
    files = {}
    for i, (k, name) in enumerate((("fc3", "fc3.hdf5"), ("afc3", "my3.hdf5"), ("fc2", "fc2.hdf5"), ("afc2", "my2.hdf5"))):
        rng = np.random.default_rng([w.seed, i])
        a = rng.normal(size=(n3, n3, n3, 3, 3, 3)) if i < 2 else rng.normal(size=(n2, n2, 3, 3))
        if rng.integers(0, 2):
            a = a[p2s if i < 2 else pp2s]
        files[k] = np.array(a, order="C")
        if s[k]:
            if i < 2:
                write_fc3_to_hdf5(files[k], filename=name, p2s_map=p2s)
            else:
                write_fc2_to_hdf5(files[k], filename=name, p2s_map=pp2s)
    if s["afc3"]:
        args["fc3_filename"] = "my3.hdf5"
    if s["afc2"]:
        args["fc2_filename"] = "my2.hdf5"
    # NAC
    for k, name, f in (("born", "BORN", 1.5), ("aborn", "my_born", 2.5)):
        if s[k]:
            with open(name, "w") as z:
                z.write("14.4\n")
                z.write(" ".join(str(x) for x in (np.eye(3) * f).ravel()) + "\n")
                for a in independent(q.primitive):
                    z.write(" ".join(["0"] * 9) + "\n")
    if s["aborn"]:
        args["born_filename"] = "my_born"
    if s["anac"]:
        args["nac_params"] = {"born": np.zeros((w.nprim, 3, 3)), "dielectric": np.eye(3) * 3.5, "factor": 14.4}
    if s["way"] == "yaml":
        ph = w.blank(w.calc if s["calc"] else None)
        ph.dataset = w.dataset(0, X(d3, 1)) if s["yds"] == 2 else w.dataset(0, X(d3, 0)) if s["yds"] else None
        if w.pscm:
            ph.phonon_dataset = w.dataset(1, X(d2, 1)) if s["ypds"] == 2 else w.dataset(1, X(d2, 0)) if s["ypds"] else None
        if s["ynac"]:
            ph.nac_params = {"born": np.zeros((w.nprim, 3, 3)), "dielectric": np.eye(3) * 4.5, "factor": 14.4}
        ph.save("p.yaml")
        args["phono3py_yaml"] = "p.yaml"
    else:
        args.update(unitcell=w.cell(), supercell_matrix=w.kw["supercell_matrix"], calculator=CALCS[s["calc"]] if s["calc"] else None,
                    primitive_matrix=np.eye(3) if w.kw["primitive_matrix"] is None else w.kw["primitive_matrix"])
        if w.pscm:
            args["phonon_supercell_matrix"] = w.kw["phonon_supercell_matrix"]
    calc = "symfc" if want["type3"] == 2 or want["type2"] == 2 else None
    ph = phono3py.load(is_nac=bool(s["isnac"]), produce_fc=bool(s["produce"]), symmetrize_fc=bool(s["sym"]), is_compact_fc=bool(s["compact"]),
                       fc_calculator=calc, log_level=0, **args)
    unit = s["calc"]
    ex3, ex2 = w.dataset(0, data3[want["data3"]], unit), w.dataset(1, data2[want["data2"]], unit)
    if ex3 and want["data3"] in ("arg", "cwd") and want["type3"] == 1:  # pairs out of the cutoff are not in the file
        for y in entries(ex3):
            if not y.get("included", True):
                y["forces"] = np.zeros_like(y["forces"])
    e = same_dataset(ph.dataset, ex3)
    if e:
        return f"dataset is not that of {want['data3']}: {e}"
    e = same_dataset(ph.phonon_dataset, ex2)
    if e:
        return f"phonon dataset is not that of {want['data2']}: {e}"
    eps = {"aborn": 2.5, "born": 1.5, "arg": 3.5, "yaml": 4.5, "none": None}[want["nac"]]
    got = None if ph.nac_params is None else ph.nac_params["dielectric"][0, 0]
    if got != eps:
        return f"NAC parameters are not those of {want['nac']}"
    q = w.blank(None, unit)
    for n, o in (("fc3", want["fc3"]), ("fc2", want["fc2"])):
        x = getattr(ph, n)
        if o == "none":
            if x is not None:
                return f"{n} not expected"
            continue
        if x is None:
            return f"{n} of {o} is missing"
        if o in ("arg", "cwd"):
            y = files[("a" if o == "arg" else "") + n]
        else:
            if o == "made2":
                q.phonon_dataset = ex2
            else:
                q.dataset = ex3
            if n == "fc3":
                q.produce_fc3(symmetrize_fc3r=bool(s["sym"]), is_compact_fc=bool(s["compact"]), fc_calculator=calc)
            else:
                q.produce_fc2(symmetrize_fc2=bool(s["sym"]), is_compact_fc=bool(s["compact"]), fc_calculator=calc)
            y = getattr(q, n)
        if x.shape != y.shape or np.abs(x - y).max() > 1e-6 * max(1.0, np.abs(y).max()):
            return f"{n} is not that of {o}"
    return None


def independent(cell):
    from phonopy.structure.symmetry import Symmetry

    return Symmetry(cell).get_independent_atoms()


def group(job):
    seed, k, depth, limit, what = job
    rng = np.random.default_rng([seed, 18, k])
    worlds.threads(1)
    calc = int(rng.integers(0, len(CALCS))) if rng.integers(0, 2) else 0
    pscm = int(rng.integers(0, 2))
    for i in range(6):  # spglib finds no symmetry of some magnetic structures
        try:
            w = World(rng, calc, pscm, magnetic=what == "trip")
            break
        except Exception:
            if i == 5:
                raise
    out, n = [], 0
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="c18-")
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "trip":
                sub = lambda a, n: sorted(int(x) for x in rng.permutation(a)[:n])  # noqa: E731
                pool = {"mass": sub([1, 2], 1), "nac": sub([0, 1, 2, 3], 3), "d": sub([0, 1, 2, 3, 4], 2), "f": sub([0, 1, 2], 2), "e": sub([0, 1], 1),
                        "settings": [ALL[int(i)] for i in rng.permutation(len(ALL))[:3]]}
                data = {"pool": pool, "factor": w.factor, "dkind": w.kind,
                        "calc": calc, "pscm": pscm}
                hs = tlc.histories("Yaml", ["Once", "LoadsSame"], [], data, seed * 1000 + k, depth, limit=limit)
            else:
                hs = tlc.histories("Sources", ["ArgsWin", "Exists", "NoYaml"], [], {"calc": calc}, seed * 1000 + k, 30, limit=limit * 4)
                hs = [h for h in hs if h["sit"]["pscm"] == pscm][:limit]
            for h in hs:
                n += 1
                e = trip(w, h) if what == "trip" else source(w, h)
                if e:
                    out.append((h, f"{w.name} calc={CALCS[calc]} pscm={pscm}: {e}"))
                    if len(out) > 2:
                        break
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return n, out, what


def run(c):
    t = c.thorough
    n = tlc.histories("Yaml", ["Once", "LoadsSame"], ["RoundTrip", "SaveReadsOnly", "FileIndependent"],
                      {"pool": {"mass": [1], "nac": [0, 1], "d": [0, 1], "f": [0, 1], "e": [0, 1], "settings": ALL[::5]}, "factor": [0, 1, 2], "dkind": [1], "calc": 1, "pscm": 1},
                      c.seed, 4, check=c)
    hist = {"exhaustive depth 4": len(n)}
    todo = [(c.seed, k, 9, 40 if t else 16, "trip" if k % 2 else "source") for k in range(120 if t else 40)]
    total = 0
    for n, out, what in pmap(c, group, todo):
        total += n
        hist[what] = hist.get(what, 0) + n
        for h, e in out:
            c.fail(f"Yaml:{what}", e, h)
    c.traces += total
    c.note(histories=hist)
    c.assumptions += ["masses are kept to 6 decimals, energies of pairs and pair distances to 8, the NAC factor to 6 (as printed)",
                      "the frequency factor and symmetry settings are arguments of load()",
                      "files named by arguments exist"]
