"""Run one check in a child process, so that a crash of the code under test
(signal, or an exception raised inside /repo on valid input) is a verdict."""
import importlib
import json
import os
import subprocess
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(prop):
    sys.path.insert(0, VERIF)
    from lib.report import Check

    c = Check(prop)
    sys.stdout.flush()
    out = os.dup(1)  # what the code under test prints is not for the reader
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        return _child(c, prop, out)
    finally:
        sys.stdout.flush()


def _restore(out):
    sys.stdout.flush()
    os.dup2(out, 1)


def _child(c, prop, out):
    from lib.par import blame, malformed

    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(c)
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        b = blame(e) or malformed(e)
        if b:
            c.fail(f"exception:{type(e).__name__}:{os.path.basename(b[0])}",
                   f"{type(e).__name__}: {e} raised in {b[0]}:{b[1]} on a valid input")
        else:
            _restore(out)
            return 2
    _restore(out)
    return c.finish()


def main(prop):
    p = subprocess.run([sys.executable, "-m", "checks.main", prop, "--child"], cwd=VERIF)
    rc = p.returncode
    if rc < 0 or rc in (134, 136, 139):
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{prop}-crash.json")
        with open(f, "w") as w:
            json.dump({"property": prop, "crash": rc, "seed": os.environ.get("VERIF_SEED", "1")}, w)
        ev = os.path.join(VERIF, "evidence", prop + ".json")
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        with open(ev, "w") as w:
            json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"),
                       "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
                       "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                    "samples": [f"the code under test crashed the process (status {rc})"]},
                       "wall_s": 0.0, "violations": 1}, w)
        print(f"the code under test crashed the process (status {rc})")
        print(f"VIOLATION property={prop} replay={f}")
        rc = 1
    return rc


if __name__ == "__main__":
    os.chdir(VERIF)
    if sys.argv[-1] == "--child":
        sys.exit(child(sys.argv[1]))
    sys.exit(main(sys.argv[1]))
