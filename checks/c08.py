"""C08: the store of phonons on the grid."""
import warnings

import numpy as np

from checks.c07 import symmetric
from lib import tlc
from lib.par import pmap
from lib.worlds import World

DIRS = [None, [1.0, 0, 0], [0, 1.0, 1.0]]


class Store:
    """A real Interaction with reference phonons of every point."""

    def __init__(self, seed, k, **opt):
        from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
        from phonopy.units import VaspToTHz

        rng = np.random.default_rng([seed, 800, k])
        self.opt = opt
        self.w = World(rng, opt.get("name"), maxn=24)
        # direction-dependent phonons need charges
        self.nac = opt["nac"]
        self.mesh = opt.get("mesh", [2, 2, 2])
        kw = {"is_mesh_symmetry": opt["sym"], "use_grg": opt.get("grg", False)}
        for m in (self.mesh, [2, 2, 2], [3, 3, 3], [2, 2, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]):
            try:
                self.ph = self.w.make(m, compact=opt["compact"], nac=bool(self.nac), **kw)
            except RuntimeError as e:
                if "symmetry" in str(e).lower():
                    continue
                raise
            break
        if self.nac == "wang":
            self.ph.nac_params = dict(self.ph.nac_params, method="wang")
        self.grid = self.ph.grid
        self.fcs = [self.ph.fc2.copy(), self.ph.fc2 * 1.44]
        self.ref = []
        q = self.grid.addresses @ self.grid.QDinv.T
        G = self.grid.gp_Gamma
        self.scale = 1.0 / VaspToTHz**2
        for fc in self.fcs:
            dm = get_dynamical_matrix(fc, self.ph.phonon_supercell, self.ph.phonon_primitive, nac_params=self.ph.nac_params)
            plain = []
            for x in q:
                dm.run(x)
                plain.append(dm.dynamical_matrix.copy())
            dirs = {}
            if self.nac:
                for d in (1, 2):
                    dm.run(np.zeros(3), q_direction=np.array(DIRS[d]))
                    dirs[d] = dm.dynamical_matrix.copy()
            self.ref.append((plain, dirs))
        pts = [g for g in range(len(q)) if g != G]
        g1, g2 = (int(x) for x in rng.choice(pts, size=2, replace=False))
        self.pts = {1: [int(G)], 2: [g1], 3: [g2]}
        self.pts[4] = [g for g in pts if g not in (g1, g2)]
        n = 3 * len(self.ph.primitive)
        self.given = (rng.random((len(q), n)) + 1, np.linalg.qr(rng.random((len(q), n, n)) + 1j * rng.random((len(q), n, n)))[0])
        self.uplo = opt.get("uplo", "L")
        self.rng = rng

    def start(self):
        self.ph.fc2 = self.fcs[0]
        self.ph.init_phph_interaction(lapack_zheev_uplo=self.uplo)
        self.it = self.ph.phph_interaction

    def do(self, op, k):
        it = self.it
        if op == "some":
            pts = {1: [1], 2: [2], 3: [3, 2, 2], 4: [1, 3, 1]}[k]
            it.run_phonon_solver(np.array([self.pts[p][0] for p in pts], dtype="int64"))
        elif op == "all":
            self.ph.run_phonon_solver()
        elif op == "rotate":
            it.run_phonon_solver(solve_by_rotation=True)
        elif op == "dir":
            it.nac_q_direction = DIRS[k]
        elif op == "at":
            it.set_grid_point(self.pts[k][0])
        elif op == "give":
            self.ph.set_phonon_data(*self.given, self.grid.addresses)
        elif op == "givebad":
            a = self.grid.addresses.copy()
            if k == 1:
                a = a[:-1]
            else:
                a[-1, 0] += 1
            self.ph.set_phonon_data(*self.given, a)
        elif op == "matrix":
            it.init_dynamical_matrix(self.fcs[k - 1], self.ph.phonon_supercell, self.ph.phonon_primitive,
                                     nac_params=self.ph.nac_params)
        elif op == "run":
            it.run()
        else:
            raise AssertionError(op)

    def wrong(self, vals, before):
        f, e, done = self.it.get_phonons()
        for p, v in enumerate(vals, 1):
            for g in self.pts[p]:
                if v == ["u"]:
                    if done[g]:
                        return f"point {g} is marked as solved"
                    continue
                if not done[g]:
                    return f"point {g} is not solved"
                if v == ["x"]:
                    if not (np.array_equal(f[g], self.given[0][g]) and np.array_equal(e[g], self.given[1][g])):
                        return f"point {g} has not the given phonons"
                    continue
                plain, dirs = self.ref[v[1] - 1]
                D = dirs[v[2]] if v[0] == "d" and self.nac else plain[g]
                got = (e[g] * (np.sign(f[g]) * f[g] ** 2 * self.scale)) @ e[g].conj().T
                if abs(got - D).max() > 1e-7 * abs(D).max() + 1e-12:
                    return f"phonons of point {g} ({self.grid.addresses[g].tolist()}) are not those of {v}"
                if abs(e[g].conj().T @ e[g] - np.eye(len(D))).max() > 1e-8:
                    return f"eigenvectors of point {g} are not orthonormal"
                if (np.diff(f[g]) < -1e-6).any():
                    return f"frequencies of point {g} are not ascending"
                if before is not None and before[1][p - 1] == v and before[0][2][g] and v != ["x"]:
                    if not before[2] and not (np.array_equal(f[g], before[0][0][g]) and np.array_equal(e[g], before[0][1][g])):
                        return f"point {g} was solved twice"
        return None


def work(a):
    seed, k, opt, hists = a
    warnings.filterwarnings("ignore")
    s = Store(seed, k, **opt)
    out = []
    if not symmetric(s):
        # force constants without the symmetry of the crystal cannot be rotated
        hists = [h for h in hists if all(st["op"] != "rotate" for st in h)]
    for h in hists:
        s.start()
        before = None
        for n, st in enumerate(h):
            raised = None
            try:
                s.do(st["op"], st["k"])
            except (RuntimeError, ValueError) as e:
                raised = e
            ops = "/".join(f"{x['op']}({x['k']})" for x in h[: n + 1])
            bad = None
            if st["refused"] and raised is None:
                bad = "was not refused"
            elif raised is not None and not st["refused"]:
                bad = f"raised {raised!r}"
            else:
                bad = s.wrong(st["val"], before)
            if bad:
                out.append((ops, f"{s.w.desc} {opt}: {bad} after {ops}"))
                break
            f, e, d = s.it.get_phonons()
            # only Gamma may be solved anew when it is under study
            before = ((f.copy(), e.copy(), d.copy()), st["val"], n + 1 < len(h) and h[n + 1]["op"] in ("rotate", "give", "at", "matrix"))
        if len(out) > 4:
            break
    return len(hists), out


def run(c):
    t = c.thorough
    hs = {}
    for dirs in (True, False):
        data = {"dirs": dirs, "init": True}
        invs, props = ["OfNow"], ["Kept", "PlainElsewhere", "RefusedKeeps"]
        hs[dirs] = tlc.histories("Solver", invs, props, data, c.seed, 3, check=c)
        hs[dirs] += tlc.histories("Solver", invs, props, data, c.seed + 1, 8, limit=2000 if t else 300)
        if t and dirs:
            hs[dirs] += tlc.histories("Solver", invs, props, data, c.seed, 4, check=c)
    jobs = []
    opts = [
        {"name": "cscl", "nac": "gonze", "sym": True, "compact": False},
        {"name": "cscl", "nac": "wang", "sym": False, "compact": True, "uplo": "U"},
        {"name": "sc", "nac": "", "sym": True, "compact": True},
        {"name": "rs", "nac": "wang", "sym": True, "compact": True, "grg": True, "mesh": 9.0},
    ]
    for k, o in enumerate(opts):
        h = hs[bool(o["nac"])]
        if not t and k in (0, 3):  # the slow ones see a part
            h = h[:: 3 if k else 2]
        n = 4
        jobs += [(c.seed, k, o, h[i::n]) for i in range(n)]
    # many crystals, short histories that solve everything
    short = [x for x in hs[False] if x[-1]["op"] in ("rotate", "all") and len(x) == 3][:: 40]
    short += [x for x in hs[True] if x[-1]["op"] in ("rotate",) and len(x) == 3][:: 60]
    for k in range(60 if t else 16):
        jobs.append((c.seed, 100 + k, {"name": None, "nac": ["", "wang", "gonze"][k % 3] if k % 2 else "", "sym": bool(k % 4), "compact": bool(k % 2),
                                       "mesh": [[2, 2, 2], [3, 3, 3], 8.0, [2, 3, 1]][k % 4], "grg": k % 4 == 2}, short))
    jobs.sort(key=lambda j: -len(j[3]))
    total = 0
    for j, (n, out) in zip(jobs, pmap(c, work, jobs)):
        total += n
        for ops, what in out:
            c.fail(f"Solver:{ops}", what, ops)
    c.traces += total
    c.sample({"spec": "Solver", "history": [f"{s['op']}({s['k']})" for s in hs[True][5]]})
    c.note(histories={str(k): len(v) for k, v in hs.items()}, replays=total)
