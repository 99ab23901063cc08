"""C20: settings from the configuration file and the command line."""
import json
import os
import random
import re
import sys
import tempfile

import numpy as np

from lib import boot, par, tlc  # noqa: F401

CTL = {"main": {}, "load": {"fc_symmetry": True, "is_nac": True, "load_phono3py_yaml": True}}
INV = ["TypeOK", "Precedence", "FileAlone"]


def canon(v):
    if v is None:
        return "-"
    if isinstance(v, (bool, np.bool_)):
        return "T" if v else "F"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, (list, tuple, np.ndarray)):
        return "[" + ", ".join(canon(x) for x in v) + "]"
    return format(float(v) + 0.0, ".12g")


def conf_text(words, rng):
    """Lines of a configuration file."""
    out = []
    for w in words:
        tag = rng.choice([str.upper, str.lower, str.title, str])(w["key"])
        eq = rng.choice(["=", " = ", "= ", "   =  "])
        text = w["words"][0]
        if " " in text and rng.random() < 0.4:
            x = text.split(" ")
            k = rng.randrange(1, len(x))
            tag = tag.lower()  # phonopy continues lines of lower-case tags only
            text = " ".join(x[:k]) + " +++\n" + rng.choice(["", "   "]) + " ".join(x[k:])
        if rng.random() < 0.2:
            out.append(rng.choice(["# TMAX = 5", "", "  # comment", "   "]))
        out.append(rng.choice(["", "", "  "]) + tag + eq + text + rng.choice(["", "", "  "]))
    return "\n".join(out) + rng.choice(["", "\n", "\n\n# end\n"])


def argv(words, rng):
    out = []
    for w in words:
        key = w["key"]
        if key.startswith("--") and rng.random() < 0.2:
            key = "--" + key[2:].replace("-", "_")
        x = w["words"]
        if key.startswith("--") and len(x) == 1 and rng.random() < 0.25:
            out.append(f"{key}={x[0]}")
        else:
            out += [key, *x]
    return out


def get_settings(ctl, conf, args, d):
    from phono3py.cui.phono3py_argparse import get_parser
    from phono3py.cui.settings import Phono3pyConfParser

    old, sys.argv = sys.argv, ["phono3py", *args]
    try:
        parser, _ = get_parser(**CTL[ctl])
        a = parser.parse_args()
        fn = None
        if conf is not None:
            fn = os.path.join(d, "run.conf")
            with open(fn, "w") as w:
                w.write(conf)
        return Phono3pyConfParser(filename=fn, args=a, default_settings=dict(CTL[ctl])).settings
    finally:
        sys.argv = old


def derived(s):
    import phono3py.cui.phono3py_script as ps

    f = getattr(ps, "get_default_values", None)
    if f is None:
        return None
    p = f(s)
    g = p.__getitem__
    t = g("temperatures")
    return {"sigmas": [canon(x) for x in g("sigmas")], "npoints": canon(g("num_frequency_points")),
            "step": canon(g("frequency_step")), "cutoff": canon(g("cutoff_frequency")),
            "batch": canon(g("num_points_in_batch")), "tpoints": canon(g("temperature_points")),
            "temps": None if t is None else np.array(t, dtype=float)}


def one(it, fail):
    ctl, h, seed = it["ctl"], it["h"], it["seed"]
    rng = random.Random(seed)
    words = h["hist"]
    fw = [w for w in words if w["route"] == "file"]
    conf = conf_text(fw, rng) if fw or rng.random() < 0.5 else None
    args = argv([w for w in words if w["route"] == "option"], rng)
    info = {"control": ctl, "conf": conf, "args": args}
    with tempfile.TemporaryDirectory() as d:
        try:
            s = get_settings(ctl, conf, args, d)
        except SystemExit as x:
            fail("refused", {**info, "exit": str(x)})
            return
    bad = {}
    for a, d0 in it["defaults"].items():
        exp = h["set"][a] if a in h["set"] else d0
        got = canon(getattr(s, a))
        if exp != got:
            bad[a] = [got, exp]
    if bad:
        fail("settings:" + sorted(bad)[0], {**info, "got, expected": bad})
    try:
        g = derived(s)
    except (KeyError, TypeError):
        g = None  # another interface of an internal function
    e = h["der"]
    if g is not None:
        for k in ("sigmas", "npoints", "step", "cutoff", "batch", "tpoints"):
            if g[k] != e[k]:
                fail("run:" + k, {**info, "got": g[k], "expected": e[k]})
        t = g["temps"]
        if e["temps"] == "-":
            ok = t is None
        elif e["temps"] == "range":
            lo, st, n = e["range"]
            ok = t is not None and len(t) == n and np.allclose(t, (lo + st * np.arange(n)) / 1000.0, rtol=0, atol=1e-6)
        else:
            ok = t is not None and canon(t) == e["temps"]
        if not ok:
            fail("run:temperatures", {**info, "got": None if t is None else t.tolist()[:20], "expected": [e["temps"], e["range"]]})


def chunk(items):
    out = []
    for it in items:
        fails = []
        one(it, lambda k, d, fails=fails: fails.append((k, d)))
        out += fails
    return out


def run(c):
    rng = random.Random(c.seed * 7919 + 20)
    n = 0
    counts = {}
    for ctl in ("main", "load"):
        hs = tlc.histories("Settings", INV, ["NoCross"], {"mode": "each", "control": ctl}, c.seed, 2, check=c)
        defaults = next(h["full"] for h in hs if not h["hist"])
        each = len(hs)
        for k in range(10 if c.thorough else 1):
            hs += tlc.histories("Settings", INV, [], {"mode": "mix", "control": ctl}, c.seed + 100 * k,
                                rng.choice([6, 10, 14]), limit=600 if c.thorough else 120)
        items = [{"ctl": ctl, "h": h, "seed": rng.randrange(10**9), "defaults": defaults} for h in hs]
        n += len(items)
        parts = [items[i:i + 60] for i in range(0, len(items), 60)]
        seen = set()
        for r in par.pmap(c, chunk, parts):
            for k, d in r or []:
                if k not in seen:
                    seen.add(k)
                    c.fail(k, f"{k} {json.dumps(d, default=str)[:600]}", d)
        counts[ctl] = {"single settings (all)": each, "mixed": len(hs) - each}
        c.sample({"control": ctl, "hist": hs[-1]["hist"][:6], "set": hs[-1]["set"]})
    c.traces += n
    c.note(histories=counts)
    c.assumptions.append("one tag and one option per setting; no '=' inside values of the file")
