"""Parallel map over worlds; an exception raised inside /repo is reported as such."""
import multiprocessing as mp
import os
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CodeError(Exception):
    """The code under test raised on a valid input."""


def repo_root():
    return os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


# A result that cannot even be written down as a state of the specification
# (infinite, wrong shape, missing row) is a wrong result, not a harness failure.
MALFORMED = (OverflowError, FloatingPointError, ZeroDivisionError, AssertionError, IndexError, ValueError)


def malformed(e):
    if not isinstance(e, MALFORMED):
        return None
    f = traceback.extract_tb(e.__traceback__)
    ours = [x for x in f if os.path.realpath(x.filename).startswith(VERIF + "/")]
    x = (ours or f)[-1]
    return x.filename, x.lineno


def blame(e):
    """(file, line) in /repo where e was raised, or None if the harness raised it."""
    if isinstance(e, ImportError):
        return None
    frames = traceback.extract_tb(e.__traceback__)
    files = [os.path.realpath(f.filename) for f in frames]
    ours = [i for i, f in enumerate(files) if f.startswith(VERIF + "/")]
    theirs = [i for i, f in enumerate(files) if f.startswith(repo_root() + "/")]
    if theirs and (not ours or theirs[-1] > ours[-1]):
        return files[theirs[-1]], frames[theirs[-1]].lineno
    return None


def _call(a):
    fn, x, th = a
    from lib.worlds import threads

    threads(th)
    try:
        return ("ok", fn(x))
    except Exception as e:  # noqa: BLE001
        b = blame(e) or malformed(e)
        return ("code" if b else "harness", type(e).__name__, str(e), b, traceback.format_exc())


def pmap(c, fn, items, procs=8, th=1):
    """[fn(x) for x in items]; failures inside /repo become failures of check c."""
    out = []
    items = list(items)
    if os.environ.get("VERIF_SERIAL"):
        res = [_call((fn, x, th)) for x in items]
    else:
        with mp.get_context("fork").Pool(procs) as pool:
            # a worker that dies (signal) would leave map waiting for ever
            pids = [p.pid for p in pool._pool]
            job = pool.map_async(_call, [(fn, x, th) for x in items], chunksize=1)
            while True:
                job.wait(0.5)
                if job.ready():
                    break
                now = [p.pid for p in pool._pool]
                if now != pids or any(p.exitcode not in (None, 0) for p in pool._pool):
                    pool.terminate()
                    os.abort()  # the parent reports a crash of the code under test
            res = job.get()
    for x, r in zip(items, res):
        if r[0] == "ok":
            out.append(r[1])
        elif r[0] == "code":
            c.fail(f"exception:{r[1]}:{os.path.basename(r[3][0])}",
                   f"{r[1]}: {r[2]} raised in {r[3][0]}:{r[3][1]} on a valid input ({str(x)[:100]})")
        else:
            raise RuntimeError("harness: " + r[4])
    return out
