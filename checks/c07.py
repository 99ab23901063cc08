"""C07: three-phonon interaction strength."""
import numpy as np

from lib.par import pmap
from lib.worlds import World, big, bigs, fixed, random_mesh, threads

CUT1 = 0.05
CUT0 = 0.01  # THz, keeps acoustic modes at Gamma out
UNIT = 0.003585491184882004  # documented unit conversion in eV^2 for one grid point


def table(T):
    k = np.arange(T) * (2 * np.pi / T)
    return {"T": int(T), "cos": fixed(np.cos(k)), "sin": fixed(np.sin(k))}


def lcm(*a):
    return int(np.lcm.reduce(np.array(a, dtype=int)))


class Case:
    """One world on one mesh."""

    def __init__(self, rng, w, maxpts, grg=False, nac=False):
        self.w, self.rng, self.nac, self.grg = w, rng, nac, grg
        for _ in range(40):
            self.mesh = float(rng.uniform(6, 14)) if grg else random_mesh(rng, w.crystal, maxpts)
            try:
                ph = w.make(self.mesh, nac=nac, use_grg=grg)
            except RuntimeError as e:
                if "symmetry" in str(e).lower():
                    continue
                raise
            n = int(np.prod(ph.grid.D_diag))
            if 2 <= n <= maxpts * 2:
                break
        else:
            raise ValueError("no mesh")
        self.grid = ph.grid
        self.N = n
        self.nb = len(ph.primitive) * 3

    def inter(self, gp, sym=False, lang="C", compact=False, r0=True, bands=None, cut=None, omp=None, g_zero=None,
              const=None, scale=None, fcsym=False, run=True, uplo="L", phonons=None):
        kw = {"make_r0_average": r0, "is_mesh_symmetry": sym, "use_grg": self.grg}
        if cut is not None:
            kw["cutoff_frequency"] = cut
        ph = self.w.make(self.mesh, compact=compact, nac=self.nac, **kw)
        if bands is not None:
            ph.band_indices = [list(bands)]
        ph.init_phph_interaction(symmetrize_fc3q=fcsym, constant_averaged_interaction=const, openmp_per_triplets=omp,
                                 frequency_scale_factor=scale, lapack_zheev_uplo=uplo)
        it = ph.phph_interaction
        if phonons is not None:
            ph.set_phonon_data(*phonons)
        it.set_grid_point(int(gp))
        if run:
            it.run(lang=lang, g_zero=g_zero)
        return ph, it


def degenerate(f, tol=1e-5):
    d, k = [], 0
    for i, x in enumerate(f):
        if i and x - f[i - 1] > tol:
            k += 1
        d.append(k)
    return d


def run(c):
    nworld = 40 if c.thorough else 12
    worlds, tables, out = [], [], []
    for geo, tab, cs in pmap(c, one, [(c.seed, i, c.thorough) for i in range(nworld)]):
        tables.append(tab)
        geo["tab"] = len(tables)
        worlds.append(geo)
        for x in cs:
            if "w" in x:
                x["w"] = len(worlds)
            if "tab" in x:
                x["tab"] = len(tables)
        out += cs
    data = {"worlds": worlds, "tables": tables, "unit": big(UNIT, 15)}
    c.cases("Interact", ["TableInv", "UnitInv", "Formula", "VariantInv", "NonNegative", "ExchangeInv", "StarInv", "AverageInv"],
            out, glob=data)
    kinds = {}
    for x in out:
        kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.note(kinds=kinds, worlds=len(worlds))


NAMES = ["sc", "cscl", "zb", "hcp", "polar", "p1", "fcc4", "bcc2", "random", "random", "random", "rs"]


def one(a):
    seed, iw, thorough = a
    rng = np.random.default_rng([seed, 700, iw])
    nform = 4 if thorough else 3
    nvar = 12 if thorough else 6
    out = []
    w = World(rng, NAMES[iw % len(NAMES)], maxn=36 if thorough else 30)
    cs = Case(rng, w, 40, grg=iw % 4 == 3, nac=bool(rng.integers(0, 3) == 0))
    D = [int(x) for x in cs.grid.D_diag]
    T = 2 * lcm(*D) * w.geometry()["den"]
    geo = w.geometry()
    p2s = geo["p2s"]
    geo.update(D=D, Q=np.array(cs.grid.Q).astype(int).tolist(),
               ism=fixed(1 / np.sqrt(w.primitive.masses)), fc3=fixed(w.fc3[p2s].reshape(len(p2s), len(w.fc3), len(w.fc3), 27)))
    wi = 0
    desc = f"{w.desc} mesh={np.array(cs.mesh).tolist()} N={cs.N} nac={cs.nac}"
    out.append({"kind": "table", "tab": wi, "desc": f"table {T}", "key": "table"})
    n = cs.nb
    addr = cs.grid.addresses
    # base: all bands, no cutoff, legacy and averaged, every second point without symmetry
    gps = [int(x) for x in rng.choice(len(addr), size=min(len(addr), 2), replace=False)]
    phon = None
    for ig, gp in enumerate(gps):
        base = {}
        for r0 in (False, True):
            ph, it = cs.inter(gp, r0=r0, cut=CUT0, omp=bool(rng.integers(0, 2)), phonons=phon)
            freqs, eigs, _ = it.get_phonons()
            if phon is None:
                phon = (freqs.copy(), eigs.copy(), addr)
                ph, it = cs.inter(gp, r0=r0, cut=CUT0, phonons=phon)
            trip = it.get_triplets_at_q()[0]
            unit = it.unit_conversion_factor
            base[r0] = it.interaction_strength / unit
            v = base[r0]
            pick = rng.choice(len(trip), size=min(nform, len(trip)), replace=False)
            for t in pick:
                f = phon[0][trip[t]]
                out.append({
                    "kind": "formula", "desc": f"{desc} gp={gp} triplet={trip[t].tolist()} r0={r0}", "key": desc,
                    "w": wi, "adr": addr[trip[t]].astype(int).tolist(), "r0": r0, "cut": big(CUT0, 12),
                    "freq": fixed(f), "eig": [{"re": fixed(e.real), "im": fixed(e.imag)} for e in phon[1][trip[t]]],
                    "got": bigs(v[t].ravel(), 18)})
            out.append({"kind": "unit", "desc": f"unit conversion of {desc}", "key": "unit",
                        "got": big(unit, 15), "N": str(cs.N)})
            if not r0:
                gpl = gp
        trip = it.get_triplets_at_q()[0]
        # exchange of modes
        look = {tuple(t): k for k, t in enumerate(trip.tolist())}
        for t in rng.choice(len(trip), size=min(4, len(trip)), replace=False):
            tr = trip[t]
            to = [(1, 0, 2), (2, 1, 0), (2, 0, 1), (1, 2, 0), (0, 2, 1)][int(rng.integers(0, 5))]
            new = tr[list(to)]
            ph2, it2 = cs.inter(new[0], r0=True, cut=CUT0, phonons=phon, run=False)
            t2 = it2.get_triplets_at_q()[0].tolist()
            if new.tolist() not in t2:
                continue
            it2.run()
            g = it2.interaction_strength[t2.index(new.tolist())] / it2.unit_conversion_factor
            # got[b] = base[b'] with b'[to[i]] = b[i], i.e. base slot s reads b[inv[s]]
            inv = [to.index(s) + 1 for s in range(3)]
            out.append({"kind": "exchange", "desc": f"{desc} triplet={tr.tolist()} exchanged {to}", "key": desc,
                        "n": n, "to": inv, "base": bigs(base[True][t].ravel(), 18), "got": bigs(g.ravel(), 18)})
        # variants
        f3 = phon[0]
        fmed = np.sort(f3.ravel())
        for iv in range(nvar):
            r0 = bool(rng.integers(0, 2))
            o = {"lang": "C", "r0": r0}
            sub = rng.choice(len(trip), size=min(4, len(trip)), replace=False)
            ref, perm = base[r0], None
            mode = iv % 6
            if rng.integers(0, 2):
                k = n if rng.integers(0, 3) == 0 else int(rng.integers(1, n + 1))
                o["bands"] = [int(x) for x in rng.permutation(n)[:k]]
                if rng.integers(0, 2):
                    o["bands"] = sorted(o["bands"])
            if rng.integers(0, 2):
                o["compact"] = True
            if rng.integers(0, 2):
                x = float(fmed[int(len(fmed) * rng.uniform(0.1, 0.6))])
                o["cut"] = max(x + 1e-6, CUT0)
            else:
                o["cut"] = CUT0
            o["omp"] = [None, True, False][int(rng.integers(0, 3))]
            threads([1, 2, 3, 8][int(rng.integers(0, 4))])
            num, den, avg = "1", "1", ""
            nb0 = len(o.get("bands", range(n)))
            gz = None
            if mode == 1 or (mode in (0, 2) and rng.integers(0, 2)):
                gz = (rng.random((len(trip), nb0, n, n)) < 0.6).astype("byte")
                o["g_zero"] = np.array(gz, dtype="byte", order="C")
            if mode == 2:
                o["fcsym"] = True
                perm = {}
            elif mode == 3:
                o["lang"], o["compact"], o["r0"] = "Python", bool(rng.integers(0, 2)), False
                ref = base[False]
                o.pop("g_zero", None)
                gz = None
            elif mode == 4:
                o["const"] = 1.25e-8
            elif mode == 5:
                o["scale"] = 1.5
                num, den = "3", "2"
            if mode == 5 and (addr[gp] == 0).all():
                continue  # Gamma under study is solved anew, not scaled
            if mode == 3 and not thorough and n > 6:
                continue
            if mode == 5:
                ph, it = cs.inter(gp, phonons=(phon[0] * 1.5, phon[1], addr), **o)
                fr = phon[0] * 1.5
            else:
                ph, it = cs.inter(gp, phonons=phon, **o)
                fr = phon[0]
            if mode == 4:
                got = it.interaction_strength
                avg = big(1.25e-8 / cs.N, 24)
                k18 = 24
            else:
                got = it.interaction_strength / it.unit_conversion_factor
                k18 = 18
            if perm is not None:
                perms = []
                ok = []
                for t in sub:
                    tr = trip[t]
                    six = []
                    for ex in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2)):
                        new = tr[list(ex)]
                        ph2, it2 = cs.inter(new[0], r0=o["r0"], cut=CUT0, phonons=phon, run=False)
                        t2 = it2.get_triplets_at_q()[0].tolist()
                        if new.tolist() not in t2:
                            break
                        it2.run()
                        six.append(bigs((it2.interaction_strength[t2.index(new.tolist())] / it2.unit_conversion_factor).ravel(), 18))
                    if len(six) == 6:
                        perms.append(six)
                        ok.append(t)
                sub = ok
                if not sub:
                    continue
            od = {k: v for k, v in o.items() if k != "g_zero"}
            out.append({
                "kind": "variant", "desc": f"{desc} gp={gp} {od} mask={gz is not None}", "key": desc, "n": n,
                "sym": perm is not None, "perm": perms if perm is not None else [], "average": avg,
                "mulnum": num, "mulden": den, "bands": o.get("bands", list(range(n))), "cut": big(o["cut"], 12),
                "freq": [fixed(fr[trip[t]]) for t in sub], "base": [bigs(ref[t].ravel(), 18) for t in sub],
                "mask": [] if gz is None else [gz[t].ravel().astype(int).tolist() for t in sub],
                "got": [bigs(got[t].ravel(), k18) for t in sub]})
            if mode in (0, 5):
                wts = it.get_triplets_at_q()[1]
                out.append({"kind": "average", "desc": f"{desc} averaged interaction", "key": desc, "n": n,
                            "weights": [str(int(x)) for x in wts], "v": [bigs(x.ravel(), 18) for x in got],
                            "got": bigs(it.averaged_interaction / it.unit_conversion_factor, 18)})
        threads(8)
    out += stars(rng, cs, desc)
    return geo, table(T), out


def symmetric(cs):
    """Does the supercell keep the point group (so that the force constants do)?"""
    C = cs.w.supercell.cell.T
    B = cs.w.primitive.cell.T
    for r in cs.w.make(None).primitive_symmetry.pointgroup_operations:
        x = np.linalg.inv(C) @ (B @ r @ np.linalg.inv(B)) @ C
        if abs(x - np.rint(x)).max() > 1e-4:
            return False
    # small supercells fold interactions of different directions together
    from phonopy.structure.cells import compute_all_sg_permutations
    from phonopy.structure.symmetry import Symmetry

    sc = cs.w.supercell
    sym = Symmetry(sc, symprec=1e-5)
    ops = sym.symmetry_operations
    perms = compute_all_sg_permutations(sc.scaled_positions, ops["rotations"], ops["translations"], C, 1e-5)
    fc = cs.w.fc2
    for r, p in zip(ops["rotations"], perms):
        x = C @ r @ np.linalg.inv(C)
        if abs(np.einsum("ab,ijbc,dc->ijad", x, fc, x) - fc[np.ix_(p, p)]).max() > 1e-8 * abs(fc).max():
            return False
    return True


def stars(rng, cs, desc):
    """Triplets related by operations of the point group."""
    from phono3py.phonon.grid import get_grid_points_by_rotations

    out = []
    grid = cs.grid
    addr = grid.addresses
    if len(grid.rotations) < 2 or not symmetric(cs):
        return out
    gps = rng.choice(len(addr), size=min(2, len(addr)), replace=False)
    for gp in gps:
        ph, it = cs.inter(gp, cut=CUT1, r0=True)
        trip = it.get_triplets_at_q()[0]
        v = it.interaction_strength / it.unit_conversion_factor
        fr = it.get_phonons()[0].copy()
        phon = (fr, it.get_phonons()[1].copy(), addr)
        t = int(rng.integers(0, len(trip)))
        tr = trip[t]
        r = grid.rotations[int(rng.integers(0, len(grid.rotations)))]
        im = [int(get_grid_points_by_rotations(int(g), grid, reciprocal_rotations=[r], with_surface=True)[0]) for g in tr]
        ph2, it2 = cs.inter(im[0], cut=CUT1, r0=True, phonons=phon, run=False)
        t2 = it2.get_triplets_at_q()[0].tolist()
        # any listed triplet with the same q-points modulo reciprocal lattice vectors
        cand = [k for k, x in enumerate(t2) if grid.bzg2grg[x[1]] == grid.bzg2grg[im[1]]]
        if not cand:
            continue
        it2.run()
        g = it2.interaction_strength[cand[0]] / it2.unit_conversion_factor
        deg = [degenerate(fr[x]) for x in tr]
        if any(degenerate(fr[x]) != degenerate(fr[y]) for x, y in zip(tr, t2[cand[0]])):
            continue
        if any((abs(fr[x] - CUT1) < 1e-3).any() for x in tr):
            continue
        out.append({"kind": "star", "desc": f"{desc} triplet={tr.tolist()} image={t2[cand[0]]} r={np.array(r).tolist()}",
                    "key": desc, "n": cs.nb, "deg": deg, "a": bigs(v[t].ravel(), 18), "b": bigs(g.ravel(), 18)})
    return out
