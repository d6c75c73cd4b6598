"""Common machinery of the checks: build of /repo's working tree, running Prolog and TLC, verdicts, evidence."""
import os, sys, json, hashlib, subprocess, shutil, time, fcntl, random, signal, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 1)
START = time.time()


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


# ---------------------------------------------------------------------------------------------
# build

def _tree_files():
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
                         stdout=subprocess.PIPE, check=True).stdout
    fs = sorted(f for f in set(out.split(b"\0")) - {b""}
                if f.startswith((b"src/", b"examples/", b"VERSION", b"COPYING"))
                and os.path.isfile(os.path.join(REPO.encode(), f)))
    return [f.decode() for f in fs]


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b"\0" + (b"x" if os.access(p, os.X_OK) else b"-"))
        with open(p, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fd:
        src = fd.read()
    h.update(src[src.index(b"BUILD_SCRIPT = "):src.index(b"# END BUILD")])
    return h.hexdigest()[:20]


BUILD_SCRIPT = r'''
set -e
export LC_ALL=C.UTF-8 CC=gcc
unset CFLAGS LDFLAGS MAKEFLAGS PL_PATH CDPATH
W=$1; J=$2; shift 2
cd $W/src
make_all() {
    timeout 120 make -C EnginePl config && timeout 120 make -C EnginePl top_comp && timeout 600 make -j$J all
}
regen() {
    ( . ./SETVARS; d=$1; shift; cd $d || exit 1
      for s in "$@"; do
          [ "${s%%/*}" = "$d" ] || continue
          n=${s##*/}
          rm -f $n.wam; timeout 120 make $n.wam && [ -s $n.wam ] || exit 1
      done )
}
./configure
if [ $# -eq 0 ]; then make_all
else
    cp -p $SEED_PL2WAM Pl2Wam/pl2wam
    touch -d '3 hours ago' Pl2Wam/pl2wam
    regen Pl2Wam "$@"
    regen BipsPl "$@"
    rm -f Pl2Wam/pl2wam
    make_all
    regen BipsPl "$@"
    cp Pl2Wam/pl2wam Pl2Wam/pl2wam0
    regen Pl2Wam "$@"
    make -C Fd2C clean; make -C EngineFD clean; make -C BipsFD clean
    make_all
fi
test -x TopComp/gprolog -a -x TopComp/gplc -a -x Pl2Wam/pl2wam -a -s BipsFD/libbips_fd.a
'''


def build():
    """Builds /repo's working tree in a cache directory named by its contents; returns its src directory."""
    files = _tree_files()
    h = tree_hash(files)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        w = os.path.join(CACHE, "build-" + h)
        if os.path.exists(os.path.join(w, "ok")):
            os.utime(os.path.join(w, "ok"))
            return os.path.join(w, "src")
        for d in sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("build-")),
                        key=os.path.getmtime)[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)
        for f in files:
            dst = os.path.join(w, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), dst, follow_symlinks=False)
        old, wam = time.time() - 7200, time.time() - 3600
        for d, _, fs in os.walk(w):
            for f in fs:
                t = wam if f.endswith(".wam") else old
                os.utime(os.path.join(d, f), (t, t), follow_symlinks=False)
        os.chmod(os.path.join(w, "src", "configure"), 0o755)
        stale = []
        for d in ("Pl2Wam", "BipsPl"):
            mk = open(os.path.join(w, "src", d, "Makefile.in"), errors="replace").read()
            mk = "\n".join(x for x in mk.split("\n") if re.match(r"[A-Z_]*OBJS *=| |PLS", x))
            for f in sorted(os.listdir(os.path.join(w, "src", d))):
                if not f.endswith(".pl"):
                    continue
                n = f[:-3]
                base = os.path.join(w, "src", d, n)
                if os.path.exists(base + ".wam"):
                    m = re.search(rb"^% hash: *(\S+)", open(base + ".wam", "rb").read(4000), re.M)
                    if not m or m.group(1).decode() != hashlib.sha1(open(base + ".pl", "rb").read()).hexdigest():
                        stale.append(d + "/" + n)
                elif n != "t" and re.search(r"\b%s(@OBJ_SUFFIX@|\.pl\b)" % re.escape(n), mk):
                    stale.append(d + "/" + n)
        env = dict(os.environ, SEED_PL2WAM="/opt/vp/seed/pl2wam")
        r = sh(["bash", "-c", BUILD_SCRIPT, "build", w, str(NCPU)] + stale, env=env)
        open(os.path.join(w, "build.log"), "wb").write(r.stdout)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-3000:].decode(errors="replace"))
            raise CheckError("the build of /repo failed")
        open(os.path.join(w, "ok"), "w").close()
        log("built", w)
        return os.path.join(w, "src")
# END BUILD


def plenv(src, **kw):
    e = dict(os.environ)
    for v in ("PL_PATH", "LINES", "COLUMNS"):
        e.pop(v, None)
    e["PATH"] = ":".join(os.path.join(src, d) for d in ("TopComp", "EnginePl", "Pl2Wam", "Wam2Ma", "Ma2Asm", "Fd2C")) \
        + ":/usr/local/bin:/usr/bin:/bin"
    e.update(LC_ALL="C.UTF-8", LINEDIT="no", GLOBALSZ="262144", TRAILSZ="65536", LOCALSZ="65536", CSTRSZ="65536", HOME="/nonexistent",
             GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=85")     # what is freed does not survive
    e.update(kw)
    return e


_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        base = os.path.join(CACHE, "work")
        os.makedirs(base, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="w", dir=base)
        import atexit
        atexit.register(lambda: os.environ.get("VERIF_KEEP") or shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, timeout=60, stdin=None, env=None, cwd=None, mem_gb=4):
    """Runs a command in its own process group; returns (rc | 'timeout', stdout, stderr) as bytes."""
    import resource
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    return rc, out, err


def gplc(src, files, out, opts=(), timeout=300):
    rc, o, e = run(["gplc", "-o", out] + list(opts) + list(files), timeout=timeout, env=plenv(src), cwd=os.path.dirname(out), mem_gb=16)
    if rc != 0 or not os.path.exists(out):
        return (o + e).decode(errors="replace") or "gplc: exit %s" % rc
    return None


def pmap(f, xs, workers=NCPU):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------------------------------------
# TLC

class TLCResult:
    pass


def tlc(module, cfg=None, env=None, timeout=600, heap="6g", workers=NCPU, extra=(), stack="32m"):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg.  Lines printed by the spec with
    PrintT(<<tag, ...>>) are not interpreted here.  Raises CheckError when TLC fails for a reason that is no verdict."""
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir())
    cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Dtlc2.TLC.ide=off",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    rc, out, err = run(cmd, timeout=timeout, env=e, cwd=SPEC, mem_gb=64)
    shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.wall = rc, out.decode(errors="replace"), time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    r.violated = re.findall(r"(?:Invariant|property|Action property) (\S+) is violated", r.out)
    if rc == "timeout":
        raise CheckError("TLC timed out on " + module)
    if rc not in (0, 12, 13) or (rc != 0 and not r.violated):
        txt = "\n".join(l[:300] for l in r.out.split("\n") if not l.startswith("<<\"") and not re.match(r"(Parsing|Semantic proc|Linting)", l))
        i = txt.find("rror")
        sys.stderr.write(txt[max(0, i - 100):i + 3000] + err.decode(errors="replace")[-1000:] + "\n")
        raise CheckError("TLC failed on %s (exit %s)" % (module, rc))
    return r


def tlc_strings(out, tag):
    """The payloads of PrintT(<<tag, id, text>>) lines (text: a TLA+ string, JSON inside)."""
    res = {}
    for m in re.finditer(r'^<<"%s", (\d+), "(.*)">>$' % re.escape(tag), out, re.M):
        res[int(m.group(1))] = json.loads(json.loads('"' + m.group(2) + '"'))
    return res


# ---------------------------------------------------------------------------------------------
# verdicts and evidence

class Check:
    def __init__(self, pid, level="model_checking", technique=None):
        self.pid, self.level = pid, level
        self.viol, self.known = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.listed = [k for k in json.load(open(kf))["findings"] if k["property"] == pid] if os.path.exists(kf) else []

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=5):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, key, what, replay):
        """key identifies the failing input/history (matched against the known findings)."""
        for k in self.listed:
            if re.fullmatch(k["match"], key):
                if k["match"] not in [x["match"] for x in self.known]:
                    self.known.append(k)
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, key=key, what=what, replay=replay), f, indent=1, default=str)
        self.viol.append((what, p))

    def finish(self):
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - START, 1), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for what, p in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + what.replace("\n", "\n  ")[:1500])
        c = {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}
        print("%s: %s in %.1fs %s" % (self.pid, "VIOLATED" if self.viol else "ok", time.time() - START, c))
        return 1 if self.viol else 0


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("%s: ERROR %s" % (pid, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


def rng(*salt):
    return random.Random("%s/%s" % (SEED, "/".join(map(str, salt))))
