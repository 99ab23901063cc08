"""Run TLC on a specification of /verif/spec against recorded data."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    pass


def _overrides():
    src = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    h = hashlib.sha256()
    for s in src:
        h.update(open(s, "rb").read())
    d = os.path.join(VERIF, ".build", "java-" + h.hexdigest()[:16])
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    with open(os.path.join(VERIF, ".build", "lock-java"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "OK")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            p = subprocess.run(["javac", "-cp", JARS, "-d", d, *src], capture_output=True, text=True)
            if p.returncode:
                raise TLCError(p.stdout + p.stderr)
            open(os.path.join(d, "OK"), "w").close()
    return d


def workdir(tag):
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + "-", dir=WORK)


class Result:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.violations = []  # (invariant, state text)
        self.prints = []
        self.out = ""
        self.wall = 0.0


def run(spec, cfg, data=None, env=None, workers=8, cont=True, extra=(), timeout=800, heap="8g"):
    """cfg: text of the .cfg.  data: JSON-able object, passed as IOEnv.VDATA."""
    d = workdir("tlc")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        with open(os.path.join(d, "run.cfg"), "w") as w:
            w.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if data is not None:
            p = os.path.join(d, "data.json")
            with open(p, "w") as w:
                json.dump(data, w)
            e["VDATA"] = p
        e.update(env or {})
        cmd = [
            "java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", "-cp",
            f"{JARS}:{_overrides()}:{d}", "tlc2.TLC", "-config", "run.cfg",
            "-workers", str(workers), "-deadlock", "-metadir", os.path.join(d, "meta"),
            "-noGenerateSpecTE",
        ]
        if cont:
            cmd.append("-continue")
        cmd += list(extra) + [spec + ".tla"]
        t = time.time()
        try:
            pr = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TLCError(f"TLC timed out on {spec}") from x
        r = Result()
        r.wall = time.time() - t
        r.out = pr.stdout + pr.stderr
        _parse(r, spec)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _parse(r, spec):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if not m:
        m2 = re.findall(r"(\d+) states generated", r.out)
        if not m2 and "The number of states generated:" not in r.out:
            raise TLCError(f"TLC gave no result on {spec}:\n" + r.out[-4000:])
    else:
        r.states = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    lines = r.out.splitlines()
    i = 0
    bad = []
    while i < len(lines):
        ln = lines[i]
        mm = re.match(r"Error: (?:Invariant|Action property|Property) (\S+) is violated", ln)
        mi = re.match(r"Error: Invariant (\S+) is violated by the initial state", ln)
        if mi or mm:
            name = (mi or mm).group(1)
            j = i + 1
            buf = []
            while j < len(lines) and not lines[j].startswith("Error: Inv") and not lines[j].startswith("Error: Action prop") and "states generated" not in lines[j]:
                buf.append(lines[j])
                j += 1
            r.violations.append((name, "\n".join(buf)))
            i = j
            continue
        if ln.startswith("Error:") and "The behavior up to this point is" not in ln:
            bad.append("\n".join(lines[i:i + 25]))
        if ln.startswith("<<") or ln.startswith('"'):
            r.prints.append(ln)
        i += 1
    bad = [b for b in bad if "Temporal properties were violated" not in b]
    if bad:
        raise TLCError(f"TLC error on {spec}:\n" + "\n".join(bad)[:6000])


def cases(spec, kinds, data, consts="", timeout=800, workers=8):
    """Validate recorded cases: every invariant in `kinds` on every case.

    The spec EXTENDS Cases: variable pos, one state per case.
    Returns (Result, [(case index from 0, invariant)]).
    """
    cfg = "INIT Init\nNEXT Next\nCONSTANT NChunks = 8\n" + consts + "\n"
    for k in kinds:
        cfg += f"INVARIANT {k}\n"
    r = run(spec, cfg, data=data, timeout=timeout, workers=workers)
    out = []
    for name, txt in r.violations:
        m = re.findall(r"pos = (-?\d+)", txt)
        out.append((int(m[-1]) - 1, name))
    n = len(data["cases"]) if isinstance(data, dict) else len(data)
    if r.distinct != n + min(8, max(n, 1)) and r.distinct != n + 8:
        raise TLCError(f"{spec}: {n} cases but {r.distinct} distinct states\n" + r.out[-2000:])
    return r, sorted(set(out))


def histories(spec, invs, props, data, seed, depth, limit=0, check=None, timeout=800):
    """Histories printed by a history-emitting specification.

    All of the given depth, or about `limit` random ones of TLC's simulator.
    """
    data = dict(data, depth=depth)
    cfg = "SPECIFICATION Spec\n" + "".join(f"INVARIANT {i}\n" for i in [*invs, "Emit"])
    if limit:
        r = run(spec, cfg, data=data, workers=1, timeout=timeout,
                extra=["-simulate", f"num={max(40, limit)}", "-depth", str(depth + 2), "-seed", str(seed)])
    else:
        r = run(spec, cfg + "".join(f"PROPERTY {p}\n" for p in props), data=data, timeout=timeout)
        if check is not None:
            check.add_tlc(r)
    if r.violations:
        raise RuntimeError(f"{spec} specification: {r.violations[0][0]}\n{r.violations[0][1][:2000]}")
    hs = {p: json.loads(json.loads(p)) for p in r.prints if p.startswith('"')}
    ks = sorted(hs)
    if limit and len(ks) > limit:
        import random

        ks = sorted(random.Random(seed).sample(ks, limit))
    return [hs[k] for k in ks]
