"""C05: forces, energies and displacements of datasets: histories of ForceSets
are replayed on Phono3py objects and files."""
import copy
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile

import numpy as np

from lib import boot  # noqa: F401
from lib import crystals as cr
from lib import tlc
import phono3py
from phono3py import Phono3py
from phono3py import file_IO
from phono3py.phonon3.dataset import get_displacements_and_forces_fc3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class World:
    """One crystal with its displacements: what the tokens of ForceSets stand for."""

    def __init__(self, target, typ, seed, cut=True):
        rng = np.random.default_rng(seed)
        self.target, self.typ = target, typ
        crystal = cr.known_crystal("polar")
        self.cell = crystal.cell()
        self.S = np.diag([1, 1, 1]) if target == "fc3" else np.diag([1, 1, 2])
        self.P = np.diag([1, 1, 2]) if target == "fc2" else None
        self.base = self.fresh_ph3()
        if typ == 1:
            b = self.base
            b.generate_displacements(distance=0.03)
            if target == "fc3" and cut:
                d = sorted({round(x["pair_distance"], 4) for f in b.dataset["first_atoms"] for x in f["second_atoms"]})
                b.generate_displacements(distance=0.03, cutoff_pair_distance=(d[0] + d[1]) / 2)
            ds = b.dataset if target == "fc3" else b.phonon_dataset
            self.structs = {1: ds}
            ent = list(self.entries(ds))
            self.n = len(ent)
            self.n1 = len(ds["first_atoms"])
            self.inc = [bool(e.get("included", True)) for e in ent]
            self.natom = ds["natom"]
        else:
            self.natom = len(self.base.supercell if target == "fc3" else self.base.phonon_supercell)
            self.n = self.n1 = 3
            self.inc = [True] * 3
            self.structs = {k: {"displacements": np.round(rng.uniform(-0.05, 0.05, (3, self.natom, 3)), 8)} for k in (1, 2)}
        self.f = np.round(rng.uniform(-1, 1, (self.n, self.natom, 3)), 7)
        self.f[:, -1] = -self.f[:, :-1].sum(axis=1)  # no drift
        self.e = np.round(rng.uniform(-50, -10, self.n), 7)

    def fresh_ph3(self):
        return Phono3py(self.cell, self.S, phonon_supercell_matrix=self.P, primitive_matrix=np.eye(3), calculator="lammps", log_level=0)

    @staticmethod
    def entries(ds):
        yield from ds["first_atoms"]
        for d in ds["first_atoms"]:
            yield from d.get("second_atoms", [])

    # ------------------------------------------------------- real operations
    def start(self):
        self.ph3 = self.fresh_ph3()
        for f in os.listdir("."):
            os.unlink(f)

    def struct(self, d, k=None):
        """A dataset with displacements d and the k-th data for calculated supercells."""
        ds = copy.deepcopy(self.structs[d])
        if k is None:
            return ds
        if self.typ == 1:
            for i, e in enumerate(self.entries(ds)):
                if self.inc[i]:
                    e["forces"] = k * self.f[i]
                    e["supercell_energy"] = float(k * self.e[i])
        else:
            ds["forces"] = k * self.f
            ds["supercell_energies"] = k * self.e
        return ds

    @property
    def ds(self):
        return self.ph3.dataset if self.target == "fc3" else self.ph3.phonon_dataset

    @ds.setter
    def ds(self, v):
        if self.target == "fc3":
            self.ph3.dataset = v
        else:
            self.ph3.phonon_dataset = v

    @property
    def pre(self):
        return "" if self.target == "fc3" else "phonon_"

    @property
    def ffile(self):
        return "FORCES_FC3" if self.target == "fc3" else "FORCES_FC2"

    def set(self, name, v):
        setattr(self.ph3, self.pre + name, v)

    def get(self, name):
        return getattr(self.ph3, self.pre + name)

    def read(self, **kw):
        fn = file_IO.parse_FORCES_FC3 if self.target == "fc3" else file_IO.parse_FORCES_FC2
        r = fn(self.ds, filename=self.ffile, **kw)
        if r == []:  # parse_FORCES_FC2 says so instead of raising
            raise RuntimeError("refused")

    def do(self, op, k):
        if op == "new":
            d = self.struct(k)
            self.ds = d
            self.spoil(d)
        elif op == "full":
            d = self.struct(k // 10, k % 10)
            self.ds = d
            self.spoil(d)
        elif op == "unset":
            self.ds = None
        elif op == "setd":
            self.set("displacements", self.structs[k]["displacements"].tolist() if k == 1 else self.structs[k]["displacements"])
        elif op == "setf":
            a = k * self.f
            self.set("forces", a if k == 1 else list(a))
            a[:] = 7.0
        elif op == "sete":
            a = k * self.e
            self.set("supercell_energies", a if k == 1 else a.tolist())
            a[:] = 7.0
        elif op == "badf":
            self.set("forces", self.f[:-1] * 3 if k == 1 else np.concatenate([self.f, self.f[:1]]) * 3)
        elif op == "bade":
            self.set("supercell_energies", self.e[:-1] * 3 if k == 1 else np.append(self.e, 1.0) * 3)
        elif op == "badd":
            self.set("displacements", np.zeros((3, self.natom + 1, 3)))
        elif op == "write":
            fn = file_IO.write_FORCES_FC3 if self.target == "fc3" else file_IO.write_FORCES_FC2
            fn(self.ds, filename=self.ffile)
        elif op == "wlist":
            fn = file_IO.write_FORCES_FC3 if self.target == "fc3" else file_IO.write_FORCES_FC2
            fs = [k % 10 * self.f[i] for i in range(self.n) if self.inc[i]]
            kw = {"forces_fc3" if self.target == "fc3" else "forces_fc2": fs}
            ds = self.struct(k // 10, 2 if self.typ == 1 and k % 10 == 1 else None)  # the list comes first
            fn(ds, filename=self.ffile, **kw)
        elif op == "read":
            self.read()
        elif op == "read2":
            self.read(unit_conversion_factor=2.0)
        elif op == "torn":
            txt = open(self.ffile).read()
            try:
                with open(self.ffile, "w") as w:
                    w.write("".join(txt.splitlines(True)[:-1]))
                self.read()
            finally:
                with open(self.ffile, "w") as w:
                    w.write(txt)
        elif op in ("collect", "collectsp", "collectbad"):
            self.collect(op, k)
        elif op == "save":
            self.ph3.save("p.yaml", settings={"force_sets": bool(k), "displacements": True})
        elif op == "load":
            self.ph3 = phono3py.load("p.yaml", produce_fc=False, log_level=0)
        else:
            raise AssertionError(op)

    def collect(self, op, k):
        """Collection of forces by the command line from files of LAMMPS."""
        zero = k > 10
        idx = [i for i in range(self.n) if self.inc[i]]
        names = []
        z = np.round(self.f[0] / 3, 8)
        z[-1] = -z[:-1].sum(axis=0)
        for j, i in enumerate(idx):
            tok = k % 10 if op != "collectbad" else 2
            names.append(f"forces.{(j * 7) % 101}.{i}")
            lammps(names[-1], tok * self.f[i] + (z if zero else 0))
        lammps("forces.perfect", z)
        if op == "collectbad":
            names = names[:-1] if k == 1 else names + names[:1]
        fc = "--cf3" if self.target == "fc3" else "--cf2"
        if self.target == "fc3" and k % 10 == 2 and op != "collectbad":
            with open("list.txt", "w") as w:
                w.write("".join(n + "\n" for n in names))
            args = ["--cf3-file", "list.txt"]
        else:
            args = [fc, *names]
        if zero:
            args += ["--cfz" if self.target == "fc3" or k % 10 == 1 else "--cfz-fc2", "forces.perfect"]
        if op == "collectsp":
            args += ["--sp"]
        with open("p.yaml") as f:
            txt = f.read()
        if "calculator:" not in txt:  # not kept by load
            txt = txt.replace("phono3py:\n", "phono3py:\n  calculator: lammps\n", 1)
            with open("p.yaml", "w") as f:
                f.write(txt)
        cli([*args, "-c", "p.yaml"])
        if op == "collectsp":
            os.replace("phono3py_params.yaml", "p.yaml")

    @staticmethod
    def spoil(d):
        """The caller's own object changes after it was given."""
        if "first_atoms" in d:
            for e in World.entries(d):
                e.pop("forces", None)
                e["displacement"] = [9.0, 9.0, 9.0]
                e["number"] = 0
        else:
            for k in list(d):
                d[k] = np.array(d[k]) * 0 + 9.0

    # ---------------------------------------------------------- observation
    def tok(self, a, base, tol):
        a = np.asarray(a, dtype=float)
        if a.shape != base.shape:
            return -99
        if (a == 0).all():
            return 0
        for k in (1, 2, 4):
            if np.abs(a - k * base).max() < tol:
                return k
        return -99

    def seen(self):
        ds = self.ds
        out = {"on": ds is not None, "d": 0, "f": [], "e": [], "raw": None}
        if ds is None:
            return out, []
        bad = []
        # displacements
        if self.typ == 1:
            ref = list(self.entries(self.structs[1]))
            ent = list(self.entries(ds))
            ok = len(ent) == len(ref) and len(ds["first_atoms"]) == self.n1
            for a, b in zip(ent, ref):
                ok &= a["number"] == b["number"] and np.allclose(a["displacement"], b["displacement"], atol=1e-12)
                ok &= a.get("id") == b.get("id") or "id" not in a
                ok &= bool(a.get("included", True)) == bool(b.get("included", True))
            out["d"] = 1 if ok else -99
            out["raw"] = [(-1 if "forces" not in e else self.tok(e["forces"], self.f[i], 1e-9)) for i, e in enumerate(ent)]
        else:
            for k in (1, 2):
                a = np.array(ds["displacements"])
                if a.shape == (3, self.natom, 3) and np.abs(a - self.structs[k]["displacements"]).max() < 1e-8:
                    out["d"] = k
            out["raw"] = None
        want = self.expected_disps(out["d"])
        got = self.get("displacements")
        if self.target == "fc2" and isinstance(got, list):
            got = np.array(got)
        if want is not None and (np.shape(got) != want.shape or np.abs(np.array(got) - want).max() > 1e-9):
            bad.append("displacements")
        cells = self.ph3.supercells_with_displacements if self.target == "fc3" else self.ph3.phonon_supercells_with_displacements
        sc = self.ph3.supercell if self.target == "fc3" else self.ph3.phonon_supercell
        if want is not None:
            if len(cells) != self.n:
                bad.append("supercells")
            else:
                for i, x in enumerate(cells):
                    if not self.inc[i]:
                        if x is not None:
                            bad.append("supercell beyond cutoff")
                    elif np.abs(x.positions - sc.positions - want[i]).max() > 1e-8:
                        bad.append(f"supercell {i}")
        f = self.get("forces")
        if f is not None and len(f):
            out["f"] = [self.tok(f[i], self.f[i], 1e-7) if i < len(f) else -99 for i in range(max(self.n, len(f)))][: max(self.n, len(f))]
        e = self.get("supercell_energies")
        if e is not None and len(e) and out["f"]:
            out["e"] = [self.tok(e[i], self.e[i], 1e-6) if i < len(e) else -99 for i in range(self.n)]
        if self.target == "fc3" and want is not None:
            d, ff = get_displacements_and_forces_fc3(ds)
            idx = [i for i in range(self.n) if self.inc[i]]
            # the same atom displaced twice is a finding recorded apart
            same = self.same_atom()
            cmp_ = [j for j, i in enumerate(idx) if i not in same]
            if len(d) != len(idx) or np.abs(np.array(d)[cmp_] - want[[idx[j] for j in cmp_]]).max() > 1e-9:
                bad.append("pairs to displacements")
            if (ff is None) != (not out["f"]) or (ff is not None and [self.tok(x, self.f[i], 1e-7) for x, i in zip(ff, idx)] != [out["f"][i] for i in idx]):
                bad.append("pairs to forces")
        return out, bad

    def same_atom(self):
        if self.typ != 1:
            return set()
        s, i = set(), self.n1
        for f in self.structs[1]["first_atoms"]:
            for x in f.get("second_atoms", []):
                if x["number"] == f["number"]:
                    s.add(i)
                i += 1
        return s

    def expected_disps(self, d):
        if d < 1:
            return None
        if self.typ == 2:
            return self.structs[d]["displacements"]
        out = np.zeros((self.n, self.natom, 3))
        i = 0
        for f in self.structs[1]["first_atoms"]:
            out[i, f["number"]] = f["displacement"]
            i += 1
        for f in self.structs[1]["first_atoms"]:
            for s in f.get("second_atoms", []):
                out[i, f["number"]] += f["displacement"]
                out[i, s["number"]] += s["displacement"]
                i += 1
        return out

    def desc(self):
        return f"{self.target} type-{self.typ}"


def lammps(name, f):
    with open(name, "w") as w:
        w.write("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS pp pp pp\n0 1\n0 1\n0 1\n" % len(f))
        w.write("ITEM: ATOMS id type x y z fx fy fz\n")
        for i in np.argsort(-np.arange(len(f)) % 3, kind="stable"):  # in no order
            w.write("%d 1 0 0 0 %.12f %.12f %.12f\n" % (i + 1, *f[i]))


def cli(args, load=False):
    """Run the command of phono3py in this process."""
    from phono3py.cui.phono3py_script import main

    old, sys.argv = sys.argv, ["phono3py", *args]
    try:
        main(fc_symmetry=load, is_nac=load, load_phono3py_yaml=load)
    except SystemExit as e:
        if e.code:
            raise RuntimeError(f"exit status {e.code}") from e
    finally:
        sys.argv = old


def replay(w, hist):
    w.start()
    for n, s in enumerate(hist):
        raised = None
        try:
            w.do(s["op"], s["k"])
        except (RuntimeError, IndexError, ValueError, TypeError) as e:
            raised = e
        ops = [f"{x['op']}({x['k']})" for x in hist[: n + 1]]
        if s["refused"] and raised is None:
            return f"{s['op']} was not refused", ops
        if not s["refused"] and raised is not None:
            return f"{s['op']} raised {raised!r}", ops
        got, bad = w.seen()
        exp = dict(s["seen"])
        raw = exp.pop("raw")
        graw = got.pop("raw")
        if got != exp:
            return f"after {s['op']}: {got} instead of {exp}", ops
        if graw is not None and exp["on"] and graw != raw:
            return f"after {s['op']}: forces {graw} instead of {raw}", ops
        if bad:
            return f"after {s['op']}: {bad}", ops
    return None


def _work(a):
    target, typ, seed, hists = a
    w = World(target, typ, seed)
    d = tempfile.mkdtemp(prefix="c05-", dir=os.path.join(VERIF, "work"))
    old = os.getcwd()
    os.chdir(d)
    try:
        out = []
        for h in hists:
            r = replay(w, h)
            if r:
                out.append(r)
                if len(out) > 5:
                    break
        return out
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def histories(c, w, depth, limit):
    """All histories of a depth, or `limit` random ones of TLC's simulator."""
    data = {"type": w.typ, "n": w.n, "n1": w.n1, "inc": w.inc, "depth": depth, "sp": w.target == "fc3"}
    cfg = "SPECIFICATION Spec\nINVARIANT Whole\nINVARIANT OneSource\nINVARIANT NoEnergyAlone\nINVARIANT Emit\n"
    if limit:
        r = tlc.run("ForceSets", cfg, data=data, workers=1,
                    extra=["-simulate", f"num={max(40, limit // 20)}", "-depth", str(depth + 2), "-seed", str(c.seed + 5)])
    else:
        r = tlc.run("ForceSets", cfg + "PROPERTY RefusedKeeps\n", data=data)
        c.add_tlc(r)
    if r.violations:
        raise RuntimeError(f"ForceSets specification: {r.violations[0][0]}")
    hs = {p: json.loads(json.loads(p)) for p in r.prints if p.startswith('"')}
    ks = sorted(hs)
    if limit and len(ks) > limit:
        rng = np.random.default_rng(c.seed + 500)
        ks = [ks[i] for i in sorted(rng.choice(len(ks), limit, replace=False))]
    return [hs[k] for k in ks]


def run(c):
    t = c.thorough
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    total = {}
    jobs = []
    for target in ("fc3", "fc2"):
        for typ in (1, 2):
            w = World(target, typ, c.seed)
            for depth, limit in (((3, 0), (4, 20000), (8, 10000)) if t else ((2, 0), (3, 0 if typ == 1 else 500), (7, 250))):
                hs = histories(c, w, depth, limit)
                total[f"{w.desc()} depth {depth}"] = len(hs)
                c.traces += len(hs)
                c.sample({"spec": "ForceSets", "world": w.desc(), "history": [f"{s['op']}({s['k']})" for s in hs[0]]})
                for i in range(8):
                    jobs.append((target, typ, c.seed, hs[i::8]))
    with mp.get_context("fork").Pool(8) as pool:
        for a, out in zip(jobs, pool.map(_work, jobs, chunksize=1)):
            for what, ops in out:
                c.fail(f"ForceSets:{a[0]}:{a[1]}:{'/'.join(ops)}", f"{a[0]} type-{a[1]}: {what}; history {ops}", ops)
    c.note(histories=total)
    same_atom(c)


def same_atom(c):
    """Displacements of a pair on one atom add up (get_displacements_and_forces_fc3)."""
    w = World("fc3", 1, c.seed, cut=False)
    same = w.same_atom()
    d, _ = get_displacements_and_forces_fc3(w.structs[1])
    want = w.expected_disps(1)
    if np.abs(d - want)[sorted(same)].max() > 1e-9:
        c.fail("ForceSets.SameAtom:dataset of pairs to displacements", "second displacement replaces the first one of the same atom", None)
