"""Common machinery of the checks: building drivers from /repo's working tree, running TLC,
collecting verdicts, writing evidence.

Exit codes: 0 the property held on everything explored; 1 with a VIOLATION line; 2 the check
itself failed (model error, build error of the machinery)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, ".build")
JOBS = 8
FRACTION = float(os.environ.get("VP_FRACTION", "1"))     # development only: a share of the generated histories
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []      # (what, replay text)
        self.known = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.dir, *a)


# ------------------------------------------------------------------------------- building ---
CXXFLAGS = ["-std=c++14", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DMPC_WALKGEN_API_H",
            '-DMPC_WALKGEN_API=__attribute__((visibility("default")))']


def _cxx():
    return ["ccache", "g++"] if shutil.which("ccache") else ["g++"]


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "600M"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_BASEDIR"] = REPO
    e["LC_ALL"] = "C.UTF-8"
    return e


def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".cpp") and f != "qpsolverfactory.cpp":
                out.append(os.path.join(root, f))
    return sorted(out)


def _compile(src, obj, includes, extra=()):
    cmd = _cxx() + CXXFLAGS + list(extra) + sum([["-I", i] for i in includes], []) + \
        ["-isystem", "/usr/include/eigen3", "-c", src, "-o", obj]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env())
    return src, p.returncode, p.stdout


def needed(sources):
    """The library sources that the given files reach through their includes (x.h is taken to be
    implemented by x.cpp); only a guess, the link tells."""
    lib = {os.path.splitext(os.path.basename(s))[0]: s for s in lib_sources()}
    seen, todo, res = set(), list(sources), set()
    while todo:
        f = todo.pop()
        for inc in re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', open(f, errors="replace").read()):
            b = os.path.splitext(os.path.basename(inc))[0]
            for g in [lib.get(b)] + [os.path.join(d, inc) for d in (REPO, os.path.join(REPO, "qpsolver"),
                                                                    os.path.join(VERIF, "harness"), os.path.dirname(f))]:
                if g and g not in seen and os.path.isfile(g):
                    seen.add(g)
                    todo.append(g)
                    if g == lib.get(b):
                        res.add(g)
    return res


def build(ctx, driver, extra_sources=(), includes=(), flags=(), with_lib=True):
    """Compile /repo's current sources and the driver; returns the executable."""
    inc = [REPO, os.path.join(REPO, "qpsolver"), os.path.join(VERIF, "harness")]
    inc = list(includes) + inc
    odir = ctx.path("obj")
    os.makedirs(odir, exist_ok=True)
    own = [os.path.join(VERIF, "harness", x) for x in [driver] + [x for x in extra_sources if not os.path.isabs(x)]]
    own += [x for x in extra_sources if os.path.isabs(x)]

    def compiled(srcs):
        jobs = [(s, os.path.join(odir, os.path.relpath(s, "/").replace("/", "_") + ".o"), inc, flags if s in own else ())
                for s in srcs]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for src, rc, out in ex.map(lambda j: _compile(*j), jobs):
                if rc != 0:
                    raise CheckError("cannot compile %s:\n%s" % (src, out[-4000:]))
        return [j[1] for j in jobs]

    exe = ctx.path(os.path.splitext(driver)[0])
    lib = lib_sources() if with_lib else []
    first = needed(own) & set(lib)
    ar = ctx.path("librepo.a")   # an archive: classes the driver does not use need no QP solver at link time
    objs = []
    for part in (own + [s for s in lib if s in first], [s for s in lib if s not in first]):
        o = compiled(part)
        if not objs:
            objs, o = o[:len(own)], o[len(own):]
        if o:
            subprocess.run(["ar", "rcs", ar] + o, check=True)
        p = subprocess.run(["g++", "-o", exe] + objs + ([ar] if os.path.exists(ar) else []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 or not lib:
            break
    if p.returncode != 0:
        raise CheckError("cannot link %s:\n%s" % (driver, p.stdout[-4000:]))
    return exe


def run_driver(ctx, exe, script, out, timeout=600):
    p = subprocess.run([exe, script, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, MALLOC_PERTURB_="151"),
                       timeout=timeout)
    if p.returncode != 0:
        raise CheckError("driver %s failed (%d): %s" % (exe, p.returncode, p.stdout[-2000:]))


# ------------------------------------------------------------------------------- TLC --------
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))

    def printed(self, tag):
        """Strings printed with PrintT whose text begins with the tag."""
        res = []
        pre = '"%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                res.append(json.loads(line)[len(tag) + 1:])
        return res


_n = [0]


def tlc(ctx, module, cfg, args=(), env=None, timeout=600, heap="3g", workers="1", retries=1):
    """Run TLC; anything but a clean end is a model failure (exit 2 of the check)."""
    last = None
    for _ in range(retries + 1):
        _n[0] += 1
        meta = ctx.path("tlc%d" % _n[0])
        os.makedirs(meta)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               timeout=timeout)
            last = TlcResult(p.returncode, p.stdout)
        except subprocess.TimeoutExpired as x:
            last = TlcResult(-1, "TLC timed out after %ss\n%s" % (timeout, (x.stdout or b"")[-2000:]))
        shutil.rmtree(meta, ignore_errors=True)
        if last.rc == 0:
            return last
    raise CheckError("TLC failed on %s (%s), exit %d:\n%s" % (module, cfg, last.rc, _brief(last.out)))


def _brief(out):
    keep = [l for l in out.splitlines() if not l.startswith('"') and "Parsing file" not in l and "Semantic" not in l
            and "Linting" not in l]
    return "\n".join(keep[:40] + ["..."] + keep[-25:])[:6000]


def parallel(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------------------- traces -----
def validate(ctx, module, cfg, histories, chunks=JOBS, timeout=800):
    """histories: list of lists of events (dicts).  Every event becomes one line; returns the
    list of (history index, event index, property, what)."""
    n = max(1, min(chunks, len(histories)))
    total = sum(len(h) for h in histories)
    parts, cur, size = [], [], 0
    for i, h in enumerate(histories):
        cur.append(i)
        size += len(h)
        if size >= total / n and len(parts) < n - 1:
            parts.append(cur)
            cur, size = [], 0
    if cur:
        parts.append(cur)

    def one(part):
        index = []
        f = ctx.path("trace-%d-%d.ndjson" % (part[0], _n[0]))
        with open(f, "w") as o:
            for i in part:
                for k, ev in enumerate(histories[i]):
                    o.write(json.dumps(ev, separators=(",", ":")) + "\n")
                    index.append((i, k))
        r = tlc(ctx, module, cfg, env={"TRACE": f, "PROP": ctx.prop}, timeout=timeout)
        os.unlink(f)
        bad = []
        for b in r.printed("BAD"):
            line, prop, what = b.split(" ", 2)
            i, k = index[int(line) - 1]
            bad.append((i, k, prop, what))
        return r, bad

    res = parallel(one, parts)
    bad = []
    for r, b in res:
        ctx.states += r.distinct
        ctx.transitions += max(0, r.generated - 1)
        bad += b
    ctx.traces += len(histories)
    return bad


def merge(acts, lines, tolerances):
    """Merge the calls of a history with the driver's observations.
    acts: list of [op, args...]; lines: driver events of the history."""
    out = []
    for k, a in enumerate(acts):
        if k >= len(lines):
            raise CheckError("driver recorded %d of %d events" % (len(lines), len(acts)))
        o = lines[k]
        crash = o["op"] == "crash"
        if not crash and o["op"] != a[0]:
            raise CheckError("driver event %s for call %s" % (o["op"], a[0]))
        ev = {"op": a[0], "a": a[1:], "o": o, "crash": crash}
        ev.update(tolerances)
        out.append(ev)
        if crash:
            break
    return out


def read_driver(path):
    """Driver output split by history (each begins with reset; a crash ends one)."""
    hs = []
    with open(path) as f:
        for line in f:
            e = json.loads(line)
            if e["op"] == "reset":
                hs.append([e])
            elif e["op"] == "crash" and (len(hs) <= e["hist"]):
                hs.append([e])      # crashed in its first call
            else:
                hs[-1].append(e)
    return hs


# ------------------------------------------------------------------------------- findings ---
def known_findings():
    """known_findings.txt: lines 'KNOWN property=<id> key=<key> <text>'; '#' and 'fixed:' lines are
    records only."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


def finish(ctx, technique_note, exhaustive=False):
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": dict({"states": ctx.states, "transitions": ctx.transitions,
                          "traces_validated_against_impl": ctx.traces,
                          "samples": ctx.samples[:3], "explanation": technique_note}, **ctx.extra),
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
    rc = 0
    if ctx.violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, ctx.prop + ".txt")
        with open(rp, "w") as f:
            for what, text in ctx.violations[:20]:
                f.write("## %s\n%s\n\n" % (what, text))
        for what, _ in ctx.violations[:8]:
            print("  " + what)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, os.path.relpath(rp, VERIF)))
        rc = 1
    else:
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    shutil.rmtree(ctx.dir, ignore_errors=True)
    return rc


def main(table, argv):
    if len(argv) < 2 or argv[1] not in table:
        print("usage: check.py PROPERTY   (one of %s)" % " ".join(sorted(table)))
        return 2
    ctx = Ctx(argv[1])
    try:
        return table[argv[1]](ctx)
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (ctx.prop, e))
        shutil.rmtree(ctx.dir, ignore_errors=True)
        return 2
