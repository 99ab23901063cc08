"""C03: triplets at q."""
import numpy as np

from checks import gridgen
from lib import lattices as lat
from lib.gridcase import L, make


def cases(c, n, maxpts):
    from phono3py.phonon3.triplets import get_all_triplets, get_nosym_triplets_at_q, get_triplets_at_q

    rng = np.random.default_rng(c.seed + 100)
    out = []
    for _, M, mesh, grp, tr, dense, _, desc in gridgen.params(rng, maxpts, shifts=False):
        if len(out) >= n:
            break
        try:
            bz, rots = make(M, mesh, grp, tr=tr, dense=dense, force_SNF=bool(rng.integers(0, 2)))
        except RuntimeError:
            continue
        N = int(np.prod(bz.D_diag))
        if dense:
            pool = np.arange(len(bz.addresses))
        else:
            pool = np.arange(N)
        gps = {0, int(bz.gp_Gamma)} | {int(x) for x in rng.choice(pool, size=min(3, len(pool)), replace=False)}
        # a zone-boundary point, where equivalent points matter
        surf = [g for g in pool if (np.array(bz.bzg2grg) == bz.bzg2grg[g]).sum() > 1]
        if surf:
            gps.add(int(rng.choice(surf)))
        for gp in sorted(gps):
            mode = int(rng.integers(0, 6))
            tr_t = swap = sym = True
            rot = bz.rotations
            if mode == 0:
                sym = False
                t, w, mt, mq = get_nosym_triplets_at_q(gp, bz)
            elif mode == 1:
                swap = False
                t, w, mt, mq = get_triplets_at_q(gp, bz, swappable=False)
            elif mode == 2:
                tr_t = False
                t, w, mt, mq = get_triplets_at_q(gp, bz, is_time_reversal=False)
            elif mode == 3:  # a subgroup of operations given by the caller
                k = rng.choice(len(bz.rotations), size=1)
                rot = np.array(lat.generate([bz.rotations[x] for x in k]))
                tr_t = bool(rng.integers(0, 2))
                t, w, mt, mq = get_triplets_at_q(gp, bz, reciprocal_rotations=rot, is_time_reversal=tr_t)
            else:
                t, w, mt, mq = get_triplets_at_q(gp, bz)
            d = f"{desc} gp={gp} sym={sym} tr={tr_t} swap={swap}"
            out.append({
                "desc": d, "key": d, "D": L(bz.D_diag), "Q": L(bz.Q), "M": L(M), "addresses": L(bz.addresses),
                "bzg2grg": L(bz.bzg2grg), "gp": gp, "rotations": L(rot), "tr": tr_t, "swap": swap, "sym": sym,
                "triplets": L(t), "weights": L(w), "map_triplets": L(mt), "map_q": L(mq),
                "all_triplets": L(get_all_triplets(gp, bz)),
            })
    return out


def run(c):
    cs = cases(c, 4000 if c.thorough else 400, 150 if c.thorough else 64)
    c.cases("Triplets", ["MapQInv", "MapTInv", "ListInv", "OrderInv", "WeightInv", "NormalInv", "AllInv"], cs)
    c.cases("Triplets", ["SmallestG"], cs[: len(cs) // 4],
            key=lambda x: "umklapp G of get_triplets_at_q")
    c.note(triplets=sum(len(x["triplets"]) for x in cs), nosym=sum(not x["sym"] for x in cs))
