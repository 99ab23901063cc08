"""Build the C extension modules of /repo's current working tree, out of tree.

The build directory is keyed by the content of every file that takes part in
the C build, so a stale module is never used and a second check in the same
sandbox reuses the first one's build.  Nothing is written in /repo.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.path.join(VERIF, ".build")
MODULES = ("_phono3py", "_phononcalc", "_recgrid")
VENV = "/opt/venv"


def _sources():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for root, _, files in os.walk(os.path.join(REPO, "c")):
        out += [os.path.join(root, f) for f in files]
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build(verbose=False):
    """Return the directory that holds the three freshly built modules."""
    key = source_hash()
    d = os.path.join(BUILD_ROOT, key)
    ok = os.path.join(d, "OK")
    os.makedirs(BUILD_ROOT, exist_ok=True)
    with open(os.path.join(BUILD_ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        env = dict(os.environ)
        env["PATH"] = f"{VENV}/bin:/usr/local/bin:/usr/bin:/bin"
        env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        jobs = str(os.cpu_count() or 4)
        cmds = [
            [
                "cmake", "-S", REPO, "-B", d, "-G", "Ninja",
                "-DSKBUILD_PROJECT_NAME=phono3py", "-DCMAKE_BUILD_TYPE=Release",
                f"-DPython_EXECUTABLE={VENV}/bin/python",
                f"-DCMAKE_MAKE_PROGRAM={VENV}/bin/ninja",
                "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            ],
            ["ninja", "-C", d, "-j", jobs, *MODULES],
        ]
        for c in cmds:
            p = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                sys.stderr.write(p.stdout[-6000:])
                raise RuntimeError("build of the C modules failed: " + " ".join(c))
        for m in MODULES:
            if not glob.glob(os.path.join(d, m + "*.so")):
                raise RuntimeError(f"{m} was not built")
        open(ok, "w").close()
        # keep the four most recent builds only
        old = sorted(
            (x for x in glob.glob(os.path.join(BUILD_ROOT, "*", "OK"))),
            key=os.path.getmtime,
        )[:-4]
        for o in old:
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    return d


if __name__ == "__main__":
    print(build(verbose=True))
