"""C12: distributed linewidth runs and their assembly."""
import os
import shutil
import tempfile

import h5py
import numpy as np

from lib import tlc, worlds
from lib.par import pmap

NB = 3


class Crash(BaseException):
    pass


class Torn:
    """Stop the n-th written file after a few datasets (or before it is opened)."""

    def __init__(self, n, k):
        self.n, self.k, self.count, self.path = n, k, 0, None

    def __enter__(self):
        self.File = h5py.File
        me = self

        class File(self.File):
            def __init__(self, name, mode="r", *a, **kw):
                self._w = mode == "w"
                if self._w:
                    me.count += 1
                    if me.count == me.n + 1 and me.k < 0:
                        raise Crash()
                super().__init__(name, mode, *a, **kw)
                self._left = me.k if self._w and me.count == me.n + 1 else 10**9
                if self._left < 10**9:
                    me.path = os.path.abspath(name)

            def create_dataset(self, *a, **kw):
                if self._left == 0:
                    raise Crash()
                self._left -= 1
                return super().create_dataset(*a, **kw)

        h5py.File = File
        return self

    def __exit__(self, *a):
        h5py.File = self.File


class Place:
    """One crystal, its reference results for two versions of fc3."""

    def __init__(self, rng, name, mesh, opts):
        self.w = worlds.World(rng, name, maxn=36)
        self.mesh, self.opts = mesh, opts
        self.k3 = [1.0, 1.7]
        ph = self.run(1, [1])[0]
        tc = ph.thermal_conductivity
        self.gps = [int(x) for x in tc.grid_points]
        self.nb = len(ph.primitive) * 3
        fm = np.array(tc.frequencies).max()
        self.fm = fm
        self.ref = {v: self.result(self.run(v, [1, 2], sig=None)[1]) for v in (1, 2)}

    def sigma(self, s):
        return self.opts["sigmas"][s - 1]

    def run(self, v, sl, bands=None, mesh=None, sig=None, **kw):
        o = self.opts
        ph = self.w.make(mesh or self.mesh, compact=o["compact"], nac=o["nac"], fcs=(self.w.fc2, self.w.fc3 * self.k3[0 if v == 8 else v - 1]),
                         use_grg=o["grg"])
        ph.sigmas = sig or [self.sigma(s) for s in sl]
        if o["cutoff"] is not None:
            ph.sigma_cutoff = o["cutoff"]
        if bands is not None:
            ph.band_indices = bands
        ph.init_phph_interaction()
        if o["iso"] is not None:
            kw["mass_variances"] = o["iso"][: len(ph.primitive)]
            kw["is_isotope"] = True
        T = o["T"]
        if v == 8:  # a run at other temperatures, or at less of them
            T = [t + 50 for t in T] if len(sl) == 1 else T[-1:]
        kw.setdefault("temperatures", T)
        ph.run_thermal_conductivity(is_full_pp=o["full"], is_N_U=o["nu"], boundary_mfp=o["length"], **kw)
        return ph, ph.thermal_conductivity

    def result(self, tc):
        r = {"gamma": np.array(tc.gamma), "kappa": np.array(tc.kappa), "mode": np.array(tc.mode_kappa)}
        if self.opts["iso"] is not None:
            r["iso"] = np.array(tc.gamma_isotope)
        if self.opts["nu"]:
            N, U = tc.get_gamma_N_U()
            r["N"], r["U"] = np.array(N), np.array(U)
        if self.opts["full"]:
            r["ave"] = np.array(tc.averaged_pp_interaction)
        return r


OPTS = [
    # name, mesh, options; meshes with four or fewer irreducible points are wanted
    ("sc", [2, 2, 2], {}),
    ("sc", [3, 3, 3], {"full": True, "nu": True}),
    ("cscl", [2, 2, 2], {"iso": True, "nu": True}),
    ("fcc4", 7.0, {"grg": True, "full": True}),
    ("bcc2", [2, 2, 2], {"length": 3.0, "iso": True}),
    ("p1", [1, 2, 2], {"full": True, "cutoff": 3.1, "sig": "two"}),
    ("p1", [1, 1, 11], {"alien": [11, 1, 1]}),
    ("rs", [2, 2, 2], {"nac": True, "full": True, "nu": True, "iso": True}),
]


def place(rng, k):
    name, mesh, o = OPTS[k % len(OPTS)]
    opts = {"grg": False, "nac": False, "iso": None, "full": False, "nu": False, "length": None, "cutoff": None, "alien": None,
            "compact": bool(rng.integers(0, 2)), "T": [0.0, 30.0, 300.0][: int(rng.integers(2, 4))],
            "sigmas": [None, round(float(rng.uniform(0.4, 1.5)), 3)]}
    opts.update({x: y for x, y in o.items() if x != "sig"})
    if o.get("sig"):
        opts["sigmas"] = [0.1, 0.15]
    elif rng.integers(0, 3) == 0:
        opts["sigmas"] = [0.8, 0.08]
    if opts["iso"]:
        opts["iso"] = rng.uniform(0, 2e-3, size=8)
    return Place(rng, name, mesh, opts)


def groups(p, bl):
    """Band indices of a run; model bands 1..3 stand for ranges of the bands."""
    cuts = np.array_split(np.arange(p.nb), NB)
    return [int(x) for b in bl for x in cuts[b - 1]]


def points(p, gl):
    return [p.gps[g - 1] for g in gl]


def work(job):
    seed, k, hs = job
    from lib.worlds import threads

    threads(1)
    rng = np.random.default_rng([seed, 1200, k])
    p = place(rng, k)
    bad, n = [], 0
    cwd = os.getcwd()
    for h in hs:
        tmp = tempfile.mkdtemp(prefix="c12-")
        os.chdir(tmp)
        try:
            e = replay(p, h, rng)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)
        n += 1
        if e:
            bad.append((h, f"{p.w.desc} mesh={p.mesh} {p.opts}: {e}"))
            if len(bad) >= 3:
                break
    return n, bad


def tag(t):
    return None if t == 1 else "b2"


def replay(p, h, rng):
    for i, s in enumerate(h):
        head = f"step {i + 1} {s['op']}: "
        if s["op"] == "work":
            gl = [g for g in s["gl"]]
            bands = groups(p, s["bl"]) if s["bl"] else None
            per = 1 if bands is None else len(bands)
            # number of real files before the cut: bands of the model are groups of real ones
            n = 0
            pl = points(p, gl)
            if s["cut"] != "no":
                perm, nsl = max(1, len(s["bl"])), len(s["sl"])
                gdone, rest = divmod(s["n"], perm * nsl)
                sdone, bdone = divmod(rest, perm)
                real_b = len(groups(p, s["bl"][:bdone])) if s["bl"] else 0
                n = len(points(p, gl[:gdone])) * nsl * per + sdone * per + real_b
            kw = {"write_gamma": True, "grid_points": pl, "output_filename": tag(s["t"])}
            if s["cut"] == "no":
                p.run(s["v"], s["sl"], bands=None if bands is None else [[b] for b in bands], **kw)
            else:
                with Torn(n, -1 if s["cut"] == "clean" else int(rng.integers(0, 6))) as torn:
                    try:
                        p.run(s["v"], s["sl"], bands=None if bands is None else [[b] for b in bands], **kw)
                        return head + f"wrote {torn.count} files, {n + 1} at least expected"
                    except Crash:
                        pass
                if torn.path and rng.integers(0, 2):  # killed: what was not flushed is lost
                    size = os.path.getsize(torn.path)
                    with open(torn.path, "r+b") as f:
                        f.truncate(int(rng.integers(0, max(1, size - 1))))
        elif s["op"] == "whole":
            p.run(s["v"], s["sl"], write_kappa=True, output_filename=tag(s["t"]))
        elif s["op"] == "other":
            if s["k"] == 1:
                m = [1, 1, 1] if not p.opts["grg"] else 15.0
                p.run(1, [1, 2], mesh=m, write_gamma=True, output_filename=tag(s["t"]))
            elif s["k"] == 2:
                p.run(1, [1], sig=[0.333], write_gamma=True, write_kappa=True, output_filename=tag(s["t"]))
            else:
                p.run(2, [1, 2], write_gamma=True, write_kappa=True, output_filename="third")
        elif s["op"] == "alien":
            p.run(2, [s["s"]], mesh=p.opts["alien"], write_kappa=True, output_filename=tag(s["t"]))
        elif s["op"] == "clear":
            x = name(p, p.sigma(s["s"]), tag(s["t"]))
            if not os.path.exists(x):
                return head + f"{x} of the complete set does not exist: {sorted(os.listdir('.'))}"
            os.remove(x)
        else:
            e = assemble(p, s)
            if e:
                return head + e
    return None


def name(p, sigma, t):
    m = np.array(p.run_mesh) if hasattr(p, "run_mesh") else None
    if m is None:
        from phono3py.file_IO import get_filename_suffix  # noqa: F401

        ph = p.w.make(p.mesh, use_grg=p.opts["grg"])
        m = p.run_mesh = np.array(ph.mesh_numbers)
    x = "kappa-m%d%d%d" % tuple(m)
    z = lambda v: f"{v:f}".rstrip("0").rstrip(".")  # noqa: E731
    if sigma is not None:
        x += "-s" + z(sigma)
        if p.opts["cutoff"] is not None:
            x += "-sd" + z(p.opts["cutoff"])
    return x + ("" if t is None else "." + t) + ".hdf5"


def assemble(p, s):
    kw = {"read_gamma": True, "input_filename": tag(s["t"]), "output_filename": tag(s["t"]), "write_kappa": s["write"]}
    try:
        ph, tc = p.run(1, s["sl"], **kw)
        ok = tc is not None and not isinstance(tc, bool)
    except (OSError, KeyError, RuntimeError, ValueError):
        ok = False
    if ok != s["ok"]:
        return f"assembly {'succeeded' if ok else 'was refused'}, sources {s['src']}, files {sorted(os.listdir('.'))}"
    if not ok:
        return None
    got = p.result(tc)
    parts_b = np.array_split(np.arange(p.nb), NB)
    # expected: each number from the version it was computed with
    for key in ("gamma", "N", "U"):
        if key not in got:
            continue
        ex = np.zeros_like(got[key])
        for i, sg in enumerate(s["sl"]):
            for g in range(len(p.gps)):
                for b, pb in enumerate(parts_b):
                    v = s["src"][i][g][b]
                    ix = np.ix_(range(ex.shape[1]), [g], pb)
                    ex[i][ix] = p.ref[v][key][sg - 1][ix]
        if abs(ex - got[key]).max() > 1e-9 * abs(ex).max():
            return f"{key} is not that of the files, off by {abs(ex - got[key]).max():g}; sources {s['src']}"
    vs = {v for t in s["src"] for r in t for v in r}
    if len(vs) == 1:
        v = vs.pop()
        for key, i in (("kappa", 1), ("mode", 1), ("iso", 1)):
            if key in got:
                ex = p.ref[v][key][[x - 1 for x in s["sl"]]]
                if abs(ex - got[key]).max() > 1e-8 * abs(ex).max():
                    return f"{key} differs from the undistributed one by {abs(ex - got[key]).max() / abs(ex).max():g}"
        if "ave" in got:
            ex = p.ref[v]["ave"]
            if abs(ex - got["ave"]).max() > 1e-8 * abs(ex).max():
                return "averaged strengths differ from the undistributed ones"
    return None


def pool(rng, ng, n):
    """Random jobs <tag, version, points, smearings, bands> next to a set which covers everything."""
    t, v = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    al = [int(x) + 1 for x in rng.permutation(ng)]
    sig = [[1], [2], [1, 2], [2, 1]]
    jobs = [[t, v, al, sig[int(rng.integers(2, 4))], []]]
    cut, bl = int(rng.integers(0, ng + 1)), [int(x) + 1 for x in rng.permutation(NB)]
    jobs += [[t, v, g, [1, 2], b] for g, b in ((al[:cut], []), (al[cut:], bl[:1]), (al[cut:], bl[1:])) if g and b is not None]
    while len(jobs) < n:
        g = [int(x) + 1 for x in rng.permutation(ng)][: int(rng.integers(1, ng + 1))]
        b = [int(x) + 1 for x in rng.permutation(NB)][: int(rng.integers(0, NB + 1))]
        jobs.append([int(rng.integers(1, 3)), (1, 2, 1, 2, 8)[int(rng.integers(0, 5))], g, sig[int(rng.integers(0, 4))], b])
    for j in jobs:  # all bands in their order are written as one file
        if j[4] == list(range(1, NB + 1)):
            j[4] = []
    return jobs


def run(c):
    t = c.thorough
    invs, props = ["TypeOK", "Emit"], ["OwnWork", "OneVersion", "StaysGood"]
    jobs, nh, total = [], {}, 0
    rng = np.random.default_rng([c.seed, 12])
    ks = range(len(OPTS) * (2 if t else 1))
    ngs = pmap(c, count, [(c.seed, k) for k in ks])
    nb = 6 if t else 2
    todo = [(k, ngs[k], OPTS[k % len(OPTS)][2].get("alien") is not None, c.seed * 100 + k * 10 + j, pool(rng, ngs[k], 6), int(rng.integers(2, 7)), 40 if t else 8)
            for k in ks for j in range(nb)]
    for (k, *_), hs in zip(todo, pmap(c, enum, todo)):
        nh[k] = nh.get(k, 0) + len(hs)
        jobs.append((c.seed, k, hs))
    r = tlc.histories("Workload", invs, props, {"ng": 2, "nb": NB, "jobs": pool(rng, 2, 5), "alien": True}, c.seed, 3, check=c)
    nh["exhaustive depth 3, 2 points, 5 jobs"] = len(r)
    for j, (n, out) in zip(jobs, pmap(c, work, jobs)):
        total += n
        for ops, what in out:
            c.fail("Workload", what, ops)
    c.traces += total
    c.sample({"spec": "Workload", "history": jobs[0][2][0]})
    c.note(histories={str(k): v for k, v in nh.items()}, replays=total)


def count(job):
    return len(place(np.random.default_rng([job[0], 1200, job[1]]), job[1]).gps)


def enum(job):
    k, ng, alien, seed, jobs, depth, limit = job
    return tlc.histories("Workload", ["TypeOK", "Emit"], ["OwnWork", "OneVersion", "StaysGood"],
                         {"ng": ng, "nb": NB, "jobs": jobs, "alien": alien}, seed, depth, limit=limit)
