"""Verdict, evidence and replay files of a check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.fails = []  # dicts with key, what, data
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, **kw):
        self.extra.update(kw)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def fail(self, key, what, data=None):
        self.fails.append({"key": key, "what": what, "data": data})

    def cases(self, spec, invs, cs, glob=None, consts="", key=None, timeout=800):
        """Validate recorded cases; a failed invariant becomes a failure."""
        from lib import tlc

        if not cs:
            return
        data = dict(glob or {})
        data["cases"] = cs
        r, bad = tlc.cases(spec, invs, data, consts=consts, timeout=timeout)
        self.add_tlc(r)
        self.traces += len(cs)
        self.sample({"spec": spec, "invariants": list(invs), "case": _short(cs[0])})
        for i, name in bad:
            c = cs[i]
            k = (key(c) if key else str(c.get("key", i)))
            self.fail(f"{spec}.{name}:{k}", f"{name} fails for {c.get('desc', k)}", c)
        return r

    def finish(self):
        known = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            known = [k for k in json.load(open(p)) if k["property"] == self.prop and k["status"] == "open"]
        new, old = [], {}
        for f in self.fails:
            hit = [k for k in known if f["key"] in k["keys"]]
            if hit:
                old[hit[0]["what"]] = hit[0]
            else:
                new.append(f)
        for w in old:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        replay = None
        if new:
            d = os.path.join(VERIF, "work", "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(replay, "w") as w:
                json.dump(new[:50], w, indent=1, default=str)
            for f in new[:10]:
                print("  FAIL", f["key"], "--", str(f["what"])[:400])
        cov = dict(self.extra)
        cov.update(
            states=int(self.states), transitions=int(self.transitions),
            traces_validated_against_impl=int(self.traces), samples=self.samples,
        )
        ev = {
            "property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as w:
            json.dump(ev, w, indent=1, default=str)
        print(f"{self.prop} {self.tier}: {self.traces} traces/cases, {self.states} states, "
              f"{len(new)} violation(s), {time.time()-self.t0:.1f} s")
        if new:
            print(f"VIOLATION property={self.prop} replay={replay}")
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def _short(o, n=600):
    s = json.dumps(o, default=str)
    return s if len(s) <= n else s[:n] + "..."
