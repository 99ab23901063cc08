"""C19: results always belong to the current inputs."""
import contextlib
import io
import os
import warnings

import numpy as np

from lib import tlc, toys, worlds
from lib.par import pmap
from phono3py import Phono3py
from phonopy.structure.atoms import PhonopyAtoms

REFUSED = Exception
T = [300.0]


class Case:
    """Pools of versions of the inputs of one crystal."""

    def __init__(self, name, pscm, seed):
        self.name, self.pscm = name, pscm
        rng = np.random.default_rng([seed, 19])
        lat, sym, pos, smat, cut, pmat = toys.CELLS[name]
        smat = np.diag([2, 2, 2]) if name == "sc" else smat
        self.cell = lambda: PhonopyAtoms(cell=lat, symbols=sym, scaled_positions=pos)  # noqa: E731
        self.kw = dict(supercell_matrix=smat, primitive_matrix=pmat)
        if pscm:
            self.kw = dict(supercell_matrix=np.diag([1, 1, 2]) @ (smat // 2), primitive_matrix=pmat, phonon_supercell_matrix=smat)
        ph = self.blank()
        self.nat = len(ph.primitive)
        self.p2s = ph.primitive.p2s_map
        self.pp2s = ph.phonon_primitive.p2s_map
        f2 = toys.pair_fcs(ph.phonon_supercell, cut)[0]
        f3 = toys.pair_fcs(ph.supercell, cut)[1]
        lay = rng.integers(0, 2, size=(2, 4))
        self.fc2 = {v: (f2[self.pp2s] if lay[0][v] else f2) * (1 + 0.17 * v) for v in (1, 2, 3)}
        self.fc3 = {v: (f3[self.p2s] if lay[1][v] else f3) * (1 - 0.21 * v) for v in (1, 2, 3)}
        self.mesh = {1: [2, 2, 2], 2: [3, 3, 3] if self.nat < 3 else [2, 2, 1], 3: 9.0}
        self.mass = {v: ph.primitive.masses * f for v, f in ((1, 1.3), (2, 0.7), (3, 2.0))}
        nb = 3 * self.nat
        self.band = {1: [[0, 1, 2]], 2: [[nb - 1], [0]], 3: [list(range(nb))]}
        self.sig = {1: [0.4], 2: [0.3, 0.9], 3: [None, 0.5]}
        self.cut = {1: 2.0, 2: 4.0}
        born = np.array([np.eye(3) * (1.0 if k % 2 == 0 else -1.0) for k in range(self.nat)])
        if self.nat % 2:
            born = born * 0
        self.nac = {v: {"born": born * v, "dielectric": np.eye(3) * (2 + v), "factor": 14.4, **({"method": "wang"} if v == 2 else {})}
                    for v in (1, 2)}
        self.opt = {1: {}, 2: {"symmetrize_fc3q": True}, 3: {"frequency_scale_factor": 1.05}, 4: {"constant_averaged_interaction": 1e-9},
                    5: {"nac_q_direction": [1, 0, 0]}, 6: {"constant_averaged_interaction": 3e-9, "frequency_scale_factor": 0.9}}
        self.const = [0, 0, 0, 1, 0, 1]
        self.memo = {}
        # datasets: 1, 2 pairs, 3, 4 random
        self.gen = {1: {}, 2: {"distance": 0.05, "is_plusminus": True}, 3: {"number_of_snapshots": 6, "random_seed": 3},
                    4: {"number_of_snapshots": 6, "random_seed": 8, "distance": 0.07}}
        self.kind = [1, 1, 2, 2, 1, 1]
        self.auto = [5, 6, 5, 6]
        self.gen2 = {**self.gen, 5: {"distance": 0.03}, 6: {"distance": 0.05}}
        if pscm:  # generated together with those of pairs
            self.gen2[6] = {"distance": 0.05, "is_plusminus": True}
            self.auto = [5, 6, 5, 7]
            self.gen2[7] = {"distance": 0.07}
            self.kind.append(1)
        self.dsets = {(w, d): self._dataset(w, d) for w in (0, 1) for d in (self.gen2 if w else self.gen)}

    def blank(self):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return Phono3py(self.cell(), log_level=0, **self.kw)

    def _dataset(self, w, d):
        ph = self.blank()
        if w:
            ph.generate_fc2_displacements(**self.gen2[d])
            return ph.phonon_dataset
        ph.generate_displacements(**self.gen[d])
        return ph.dataset

    def count(self, w, d):
        ds = self.dsets[w, d]
        if "displacements" in ds:
            return len(ds["displacements"])
        return len(ds["first_atoms"]) + sum(len(x.get("second_atoms", [])) for x in ds["first_atoms"])

    def forces(self, w, d, f):
        """Forces of version f in the fc3 (w = 0) or fc2 (w = 1) dataset."""
        n = self.count(w, d)
        nat = len(self.kw["phonon_supercell_matrix"] if False else self._cells[w])
        return np.random.default_rng([n, nat, f]).normal(size=(n, nat, 3)) * 0.1

    @property
    def _cells(self):
        if "cells" not in self.memo:
            ph = self.blank()
            self.memo["cells"] = (ph.supercell, ph.phonon_supercell)
        return self.memo["cells"]

    def with_forces(self, w, d, f):
        import copy

        if d == 0:
            return None
        ds = copy.deepcopy(self.dsets[w, d])
        if f == 0:
            return ds
        F = self.forces(w, d, f)
        if "displacements" in ds:
            ds["forces"] = F
            return ds
        for x, y in zip(ds["first_atoms"], F):
            x["forces"] = y
        k = len(ds["first_atoms"])
        for x in ds["first_atoms"]:
            for s in x.get("second_atoms", []):
                s["forces"] = F[k]
                k += 1
        return ds

    # force constants of a term, by objects which did nothing else
    def fcs(self, term, which):
        key = (which, repr(term))
        if key in self.memo:
            return self.memo[key]
        if not term:
            r = None
        elif len(term) > 1:
            ph = self.blank()
            base = self.fcs(term[:-1], which)
            setattr(ph, f"fc{which}", np.array(base, order="C"))
            modify(ph, term[-1][0])
            r = getattr(ph, f"fc{which}")
        else:
            t = term[0]
            if t[0] == "set":
                r = (self.fc2 if which == 2 else self.fc3)[t[1]]
            else:
                _, d, f, s, cc, q = t
                ph = self.blank()
                if t[0].startswith("produce2"):
                    if t[0] == "produce2p":
                        ph.generate_fc2_displacements(**self.gen2[d])
                        ph.phonon_forces = self.forces(1, d, f)
                    else:
                        ph.dataset = self.with_forces(0, d, f)
                    produce(ph, 2, s, cc, q)
                else:
                    ph.dataset = self.with_forces(0, d, f)
                    produce(ph, 3, s, cc, q)
                r = getattr(ph, f"fc{which}")
        self.memo[key] = None if r is None else np.array(r, dtype="double", order="C")
        return self.memo[key]

    def fresh(self, val):
        """Object of the given inputs which did nothing else."""
        it, sig, cut = val
        b, o = it
        ph = self.blank()
        if b["mass"]:
            ph.masses = self.mass[b["mass"]]
        ph.fc2 = self.fcs(b["fc2"], 2).copy()
        f3 = self.fcs(b["fc3"], 3)
        if f3 is not None:
            ph.fc3 = f3.copy()
        if b["band"]:
            ph.band_indices = self.band[b["band"]]
        if b["nac"]:
            ph.nac_params = self.nac[b["nac"]]
        ph.mesh_numbers = self.mesh[b["mesh"]]
        if sig:
            ph.sigmas = self.sig[sig]
        if cut:
            ph.sigma_cutoff = self.cut[cut]
        ph.init_phph_interaction(**self.opt[o])
        return ph

    def strength(self, val):
        key = ("strength", repr(val))
        if key not in self.memo:
            self.memo[key] = strength(self.fresh([val[0], 0, 0]), val[1])
        return self.memo[key]

    def value(self, k, val):
        key = (k, repr(val))
        if key not in self.memo:
            if len(self.memo) > 4000:
                self.memo = {a: b for a, b in self.memo.items() if a == "cells"}
            self.memo[key] = call(self.fresh(val), k)
        return self.memo[key]


def modify(ph, m):
    if m == "perm":
        ph.set_permutation_symmetry()
    elif m == "trans":
        ph.set_translational_invariance()
    else:
        ph.cutoff_fc3_by_zero(3.5)


def produce(ph, w, s, cc, q):
    kw = {"is_compact_fc": bool(cc), "fc_calculator": "symfc" if q else None}
    if w == 3:
        ph.produce_fc3(symmetrize_fc3r=bool(s), **kw)
    else:
        ph.produce_fc2(symmetrize_fc2=bool(s), **kw)


def conductivity(tc):
    if tc is None:
        return None
    r = {}
    for n in ("kappa", "gamma", "kappa_TOT_RTA", "kappa_RTA", "frequencies", "temperatures", "mesh_numbers", "grid_points", "collision_matrix"):
        v = getattr(tc, n, None)
        if v is not None:
            r[n] = np.array(v)
    r["sigmas"] = np.array([0 if x is None else x for x in tc.sigmas], dtype=float)
    return r


def call(ph, k):
    gps = [0, int(ph.grid.grg2bzg[-1])]
    if k in ("rta", "lbte", "wigner"):
        ph.run_thermal_conductivity(is_LBTE=k == "lbte", temperatures=T, conductivity_type="wigner" if k == "wigner" else None)
        return conductivity(ph.thermal_conductivity)
    fp = np.array([0.5, 2.1])
    if k in ("imag", "detail", "gamma"):
        if k == "gamma":
            gps = gps[:1]
        v = ph.run_imag_self_energy(gps, T, frequency_points=fp, keep_gamma_detail=k == "detail")
        return {"fp": v[0], "g": v[1], **({"d": pack(v[2])} if k == "detail" else {})}
    if k == "bands":
        v = ph.run_imag_self_energy(gps, T, frequency_points_at_bands=True)
        return {"g": v[1]}
    if k == "real":
        v = ph.run_real_self_energy(gps, T, frequency_points=fp, epsilons=[0.3])
        return {"fp": v[0], "d": v[1]}
    if k == "spectral":
        ph.run_spectral_function(gps[1:], T, num_frequency_points=9)
        s = getattr(ph, "_spectral_function", None)
        return {n: getattr(s, n) for n in ("spectral_functions", "shifts", "half_linewidths", "frequency_points")} if s is not None else {}
    if k == "phonons1":
        ph.run_phonon_solver()
    if k.startswith("phonons"):
        f, e, a = ph.get_phonon_data()
        return {"f": np.array(f), "e": np.array(e), "a": np.array(a)}
    raise KeyError(k)


def pack(d):
    return np.concatenate([np.ravel(np.asarray(x)) for y in d for x in y]) if isinstance(d, (list, tuple)) else np.ravel(d)


def strength(ph, g):
    it = ph.phph_interaction
    it.set_grid_point(0 if g == 1 else int(ph.grid.grg2bzg[-1]))
    it.run()
    return {"s": np.array(it.interaction_strength)}


def differ(a, b, partial=False, skip=None):
    """Where two results differ."""
    if (a is None) != (b is None):
        return f"{'missing' if a is None else 'unexpected result'}"
    if a is None:
        return None
    if set(a) != set(b):
        return f"parts {sorted(a)} instead of {sorted(b)}"
    for n in a:
        x, y = np.asarray(a[n]), np.asarray(b[n])
        if x.shape != y.shape:
            return f"{n} of shape {x.shape} instead of {y.shape}"
        if x.dtype == object:
            continue
        if n in "fe" and (partial or skip is not None):
            z = np.zeros(len(x), dtype=bool)
            if partial:  # not solved yet
                z |= (np.asarray(a["f"]) == 0).all(axis=1)
            if skip is not None:
                z[skip] = True
            x, y = x[~z], y[~z]
        if x.size and not np.allclose(x, y, rtol=1e-7, atol=1e-9 * max(1e-30, np.nanmax(np.abs(y)) if np.isfinite(y).any() else 1), equal_nan=True):
            return f"{n} differs from that of the current inputs"
    return None


def cells(x):
    if x is None:
        return None
    return {"n": np.array([len(x)]), "p": np.array([c.positions for c in x if c is not None]), "m": np.array([c.masses for c in x if c is not None])}


def replay(case, start, h):
    ph = case.blank()
    if start:
        ph.fc2, ph.fc3 = case.fcs([["set", 1]], 2).copy(), case.fcs([["set", 1]], 3).copy()
        ph.mesh_numbers = case.mesh[1]
        if start == 2:
            ph.init_phph_interaction()
    for i, s in enumerate(h):
        head = f"step {i + 1} {s['op']} {s.get('k', s.get('v', s.get('m', '')))}: "
        try:
            got, err = step(case, ph, s), None
        except REFUSED as e:
            got, err = None, e
        if s.get("ok", True) != (err is None):
            return head + (f"refused by {type(err).__name__}: {str(err)[:120]}" if err else "was not refused")
        if err is not None:
            continue
        e = compare(case, ph, s, got)
        if e:
            return head + e
    return None


def step(case, ph, s):
    op = s["op"]
    if op in ("fc2", "fc3"):
        setattr(ph, op, case.fcs([["set", s["v"]]], int(op[2])).copy() if s["v"] else None)
    elif op == "mesh":
        ph.mesh_numbers = case.mesh[s["v"]]
    elif op == "mass":
        ph.masses = case.mass[s["v"]]
    elif op == "band":
        ph.band_indices = case.band[s["v"]] if s["v"] else None
    elif op == "nac":
        ph.nac_params = case.nac[s["v"]] if s["v"] else None
    elif op == "sig":
        ph.sigmas = case.sig[s["v"]] if s["v"] else None
    elif op == "cut":
        ph.sigma_cutoff = case.cut[s["v"]] if s["v"] else None
    elif op == "init":
        ph.init_phph_interaction(**case.opt[s["o"]])
    elif op == "run":
        return call(ph, s["k"])
    elif op == "phonons":
        return call(ph, f"phonons{s['full']}")
    elif op == "strength":
        return strength(ph, s["g"])
    elif op == "grid":
        ph.phph_interaction.set_grid_point(0 if s["g"] == 1 else int(ph.grid.grg2bzg[-1]))
    elif op == "give":
        if s["val"]:
            p = case.value("phonons1", s["val"])
            p = {n: np.array(x) for n, x in p.items()}
        else:
            p = {"f": np.zeros((1, 3 * case.nat)), "e": np.zeros((1, 3 * case.nat, 3 * case.nat)), "a": np.array(ph.grid.addresses)}
        if not s["right"]:
            p["a"] = p["a"][:-1] if s["val"] else p["a"] + 1
        ph.set_phonon_data(p["f"], p["e"], p["a"])
    elif op == "peek":
        it = ph.phph_interaction
        st = None if it is None else it.interaction_strength
        d = ph.detailed_gammas
        return {"tc": conductivity(ph.thermal_conductivity), "dg": None if d is None else {"d": pack(d)}, "strength": None if st is None else {"s": np.array(st)}}
    elif op in ("ds", "pds"):
        w = int(op == "pds")
        setattr(ph, "phonon_dataset" if w else "dataset", case.with_forces(w, s["d"], s["f"]))
    elif op == "gen":
        ph.generate_displacements(**case.gen[s["d"]])
    elif op == "gen2":
        ph.generate_fc2_displacements(**case.gen2[s["d"]])
    elif op in ("forces", "forces2"):
        w = int(op == "forces2")
        F = case.forces(w, s["d"], s["f"]) if s["d"] else case.forces(w, 1, s["f"])
        if w:
            ph.phonon_forces = F
        else:
            ph.forces = F
    elif op == "cells":
        if s["d"] == 0:
            return None
        return cells(ph.phonon_supercells_with_displacements if s["w"] else ph.supercells_with_displacements)
    elif op in ("produce2", "produce3"):
        produce(ph, int(op[-1]), s["s"], s["c"], s["q"])
    elif op == "modify":
        modify(ph, s["m"])
    return None


def compare(case, ph, s, got):
    op = s["op"]
    if op == "run":
        return differ(got, case.value(s["k"], s["val"]))
    if op == "phonons":
        o = s["val"][0][1]
        skip = int(ph.grid.gp_Gamma) if "nac_q_direction" in case.opt[o] else None
        return differ(got, case.value("phonons1", s["val"]), partial=not s["full"], skip=skip)
    if op == "strength":
        return differ(got, case.strength(s["val"]))
    if op == "peek":
        for n, kind in (("tc", None), ("dg", "detail")):
            want = None
            if s[n]:
                want = case.value(s[n][0], s[n][1])
                if n == "dg":
                    want = {"d": want["d"]}
            e = differ(got[n], want)
            if e:
                return f"kept {'conductivity' if n == 'tc' else 'detailed gammas'}: {e}"
        if s["strength"] == ["any"]:
            return None
        e = differ(got["strength"], case.strength(s["strength"]) if s["strength"] else None)
        return e and f"kept interaction strength: {e}"
    if op == "cells":
        if s["d"] == 0:
            return None
        q = case.blank()
        if s["mass"]:
            q.masses = case.mass[s["mass"]]
        if s["w"]:
            q.generate_fc2_displacements(**case.gen2[s["d"]])
            want = cells(q.phonon_supercells_with_displacements)
        else:
            q.generate_displacements(**case.gen[s["d"]])
            want = cells(q.supercells_with_displacements)
        return differ(got, want)
    if op in ("produce2", "produce3", "modify"):
        for w in (2, 3):
            want = case.fcs(s[f"fc{w}"], w)
            x = getattr(ph, f"fc{w}")
            e = differ(None if x is None else {"fc": x}, None if want is None else {"fc": want})
            if e:
                return f"fc{w}: {e}"
    return None


SOLVER = ["fc2", "fc3", "mesh", "mass", "band", "sig", "cut", "nac", "init", "phonons", "strength", "peek", "modify", "grid", "give"]
DATA = ["ds", "pds", "gen", "gen2", "forces", "forces2", "cells", "produce3", "produce2", "modify", "mass", "fc2", "fc3"]


def group(job):
    seed, k, depth, limit = job
    rng = np.random.default_rng([seed, 19, k])
    worlds.threads(1)
    two = k % 2
    name = str(rng.choice(["sc", "cscl", "tet"]))
    pscm = int(two and rng.integers(0, 2))
    if pscm:
        name = str(rng.choice(["cscl", "tet"]))
    case = Case(name, pscm, int(rng.integers(1000)))
    sub = lambda a, n: sorted(int(x) for x in rng.permutation(a)[:n])  # noqa: E731
    pool = {"fc2": sub([1, 2, 3], 2), "fc3": sub([1, 2, 3], 2), "mesh": sub([1, 2, 3], 2), "mass": sub([1, 2, 3], 2), "band": sub([0, 1, 2, 3], 2),
            "sig": sub([0, 1, 2, 3], 2), "cut": sub([0, 1, 2], 2), "nac": sub([0, 1, 2], 2), "opt": sub([1, 2, 3, 4, 5, 6], 2), "gp": [1, 2],
            "run": [], "modify": ["perm", "trans", "cutoff"], "d": sub([0, 1, 2, 3, 4], 2), "pd": sub([1, 2, 3, 4], 2), "f": sub([0, 1, 2], 2),
            "layout": [0, 1], "calc": sub([0, 1], 1) if name != "sc" else [0]}  # symfc: fc3 of sc vanishes
    kinds = ["rta", "imag", "detail", "bands", "real", "spectral", "wigner", "lbte"]
    if two:
        ops = list(DATA)
        pool["fc2"] = [0] + pool["fc2"][:1]
        pool["fc3"] = pool["fc3"][:1]
        pool["f"] = [0, 1] if rng.integers(0, 2) else [1, 2]
        pool["modify"] = [str(rng.choice(pool["modify"]))]
        if not rng.integers(0, 3):
            ops += ["mesh", "init", "phonons"]
            pool["run"] = ["imag"]
            pool["opt"] = [1]
    else:
        drop = set(str(x) for x in rng.permutation(SOLVER[:8])[:3])
        ops = [o for o in SOLVER if o not in drop]
        pool["run"] = [str(x) for x in rng.permutation(kinds)[:3]]
        pool["modify"] = [str(rng.choice(pool["modify"]))]
        if rng.integers(0, 3) == 0:
            pool["fc3"] = [0] + pool["fc3"][:1]
        if 5 in pool["opt"]:  # phonons at Gamma with a direction: other points are refused
            pool["run"], pool["gp"] = ["gamma"], [1]
        if case.nat % 2:
            ops = [o for o in ops if o != "nac"]
    start = 0 if two else int(rng.integers(0, 4)) % 3 if rng.integers(0, 3) else 2
    data = {"pool": pool, "ops": ops, "pscm": pscm, "dkind": case.kind, "const": case.const, "auto": case.auto, "start": start}
    hs = tlc.histories("Api", ["Current", "StrengthCurrent", "Repeatable"], [], data, seed * 1000 + k, depth, limit=limit)
    out = []
    cwd = os.getcwd()
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for h in hs:
            e = replay(case, start, h)
            if e:
                out.append((h, f"{name} pscm={pscm} start={start} {pool}: {e}"))
                if len(out) > 2:
                    break
    os.chdir(cwd)
    return len(hs), out, "data" if two else "solver"


def run(c):
    t = c.thorough
    props = ["RunsCurrent", "RefusalIsNoop", "Available"]
    base = {"pscm": 0, "dkind": [1, 2], "const": [0, 1], "auto": [2, 2], "start": 0}
    n = tlc.histories("Api", ["Current", "StrengthCurrent", "Repeatable"], props,
                      {**base, "start": 1, "pool": {"fc3": [1], "mesh": [1], "nac": [0, 1], "opt": [1, 2], "run": ["rta", "imag"], "gp": [1], "modify": ["perm"]},
                       "ops": ["fc3", "mesh", "nac", "init", "strength", "peek"]}, c.seed, 4, check=c)
    m = tlc.histories("Api", ["Current", "StrengthCurrent", "Repeatable"], props,
                      {**base, "pscm": 1, "pool": {"d": [1], "pd": [2], "f": [0, 1], "layout": [0], "calc": [0, 1], "modify": []},
                       "ops": ["ds", "gen", "forces", "forces2", "produce3", "produce2"]}, c.seed, 4, check=c)
    hist = {"exhaustive depth 4": len(n) + len(m)}
    todo = [(c.seed, k, 12 if k % 2 == 0 else 10, 60 if t else 14) for k in range(160 if t else 48)]
    total = 0
    for n, out, what in pmap(c, group, todo):
        total += n
        hist[what] = hist.get(what, 0) + n
        for h, w in out:
            c.fail(f"Api:{what}", w, h)
    c.traces += total
    c.note(histories=hist)
    c.assumptions += ["results of an object which did nothing else are those of its inputs (decided by the other properties)",
                      "forces and displacements of one dataset are inputs of their own: setting one keeps the other"]
