"""Shared machinery: building the code under test, running cases in parallel,
verdicts (held / violated / inconclusive), evidence and replay files."""
import ctypes, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
CASE = os.environ.get("VERIF_CASE")         # run nothing but this case
NPROC = max(2, min(8, os.cpu_count() or 2))
CLI = os.path.join(BUILD, "cli", "debug", "pfp-cli")
HARNESS = os.path.join(BUILD, "harness", "debug", "pfp-monitor")
T0 = time.time()


class Violation(Exception):
    """The oracle saw the property broken. `what` is the witness in words, `replay` what replays it."""

    def __init__(self, what, **replay):
        super().__init__(what)
        self.what = what
        self.replay = replay

    def __reduce__(self):
        return (_mkviol, (self.what, self.replay))


def _mkviol(what, replay):
    return Violation(what, **replay)


class Inconclusive(Exception):
    """The monitor could not decide (watchdog, harness trouble). Never a violation."""


# ---------------------------------------------------------------- building

def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    path = env.get("PATH", "")
    for d in ("/root/.cargo/bin", "/usr/local/cargo/bin"):
        if os.path.isdir(d) and d not in path.split(":"):
            path = d + ":" + path
    env.update(PATH=path, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.setdefault("HOME", "/root")
    return env


def _wipe_fingerprints(target, names):
    """cargo trusts mtimes, which miss a file put back with an old one."""
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if any(d == n or d.startswith(n + "-") for n in names):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def _lock():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _run_build(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
        raise Inconclusive("building %s failed" % what)


def build_cli():
    with _lock():
        target = os.path.join(BUILD, "cli")
        _wipe_fingerprints(target, ["pfp", "pfp-cli"])
        env = _env()
        env["CARGO_TARGET_DIR"] = target
        _run_build(["cargo", "build", "--locked", "--offline", "-p", "pfp-cli"], REPO, env, "pfp-cli")
    return CLI


def build_harness():
    with _lock():
        target = os.path.join(BUILD, "harness")
        _wipe_fingerprints(target, ["pfp", "pfp-monitor"])
        env = _env()
        env["CARGO_TARGET_DIR"] = target
        src = os.path.join(VERIF, "harness")
        if REPO != "/repo":  # development only: monitoring a scratch copy
            src = os.path.join(BUILD, "harness-src")
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target"))
            p = os.path.join(src, "Cargo.toml")
            s = open(p).read().replace('"/repo/pfp"', '"%s/pfp"' % REPO)
            open(p, "w").write(s)
        _run_build(["cargo", "build", "--locked", "--offline"], src, env, "the library monitor")
    return HARNESS


def build_shim(name):
    """Compiles shim/<name>.c to a shared object."""
    with _lock():
        out = os.path.join(BUILD, name + ".so")
        src = os.path.join(VERIF, "shim", name + ".c")
        _run_build(["gcc", "-O2", "-w", "-g", "-shared", "-fPIC", "-o", out, src, "-ldl", "-lpthread"], VERIF, _env(), name)
    return out


def build_shim_path(name):
    return os.path.join(BUILD, name + ".so")


# ---------------------------------------------------------------- scratch

class Scratch:
    """A private directory, removed at the end."""

    def __init__(self, base=None):
        self.base = base or os.environ.get("PFPV_TMP") or "/tmp"

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="pfpv-", dir=self.base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- cases

class Obs:
    """What a monitor observed: counters, distinct non-trivial cases, samples."""

    def __init__(self):
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode("utf-8", "surrogatepass")).hexdigest()[:16])
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def merge(self, o):
        self.evaluations += o.evaluations
        for k, v in o.counters.items():
            self.count(k, v)
        self.distinct |= o.distinct
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


_WORK = None


def _worker(item):
    fn, args, seed = item
    obs = Obs()
    rng = random.Random(seed)
    try:
        fn(rng, obs, *args)
        return ("ok", obs, None)
    except Violation as v:
        v.replay.setdefault("case_seed", seed)
        v.replay.setdefault("case", [getattr(fn, "__name__", str(fn)), repr(args)])
        return ("violation", obs, v)
    except Inconclusive as e:
        return ("inconclusive", obs, "%s %s: %s" % (getattr(fn, "__name__", fn), seed, e))
    except Exception:
        return ("inconclusive", obs, "%s %s: %s" % (getattr(fn, "__name__", fn), seed, traceback.format_exc()))


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class Runner:
    """Runs cases in parallel, collects observations and verdicts."""

    def __init__(self, prop, budget):
        self.prop = prop
        self.deadline = T0 + budget
        self.obs = Obs()
        self.violations = []
        self.inconclusive = []
        self.known = []
        self.skipped = 0
        self.extra = {}
        self.parts = {}

    def run(self, fn, argslist, name=None, procs=NPROC):
        """fn(rng, obs, *args) for every args; each case has its own seed."""
        name = name or fn.__name__
        items = [(fn, a if isinstance(a, tuple) else (a,), "%s:%s:%s:%d" % (SEED, self.prop, name, i))
                 for i, a in enumerate(argslist)]
        if CASE:
            items = [x for x in items if x[2] == CASE]
        t = time.time()
        part = Obs()
        n = 0
        with mp.get_context("fork").Pool(procs, initializer=_init_worker) as pool:
            it = pool.imap_unordered(_worker, items, chunksize=1)
            for _ in range(len(items)):
                left = self.deadline + 60 - time.time()
                if time.time() > self.deadline:
                    self.skipped += len(items) - n
                    pool.terminate()
                    break
                try:
                    status, obs, v = it.next(timeout=max(1.0, left))
                except mp.TimeoutError:
                    self.inconclusive.append("watchdog fired in " + name)
                    pool.terminate()
                    break
                n += 1
                part.merge(obs)
                if status == "violation":
                    self.violations.append(v)
                    if len(self.violations) >= 5:
                        pool.terminate()
                        break
                elif status == "inconclusive":
                    self.inconclusive.append(v)
        self.obs.merge(part)
        self.parts[name] = {"cases_run": n, "of": len(items), "evaluations": part.evaluations,
                            "distinct_nontrivial": len(part.distinct), "wall_s": round(time.time() - t, 1)}
        return part

    def known_findings(self):
        p = os.path.join(VERIF, "known-findings.json")
        try:
            return [k for k in json.load(open(p))["findings"] if k["property"] == self.prop]
        except FileNotFoundError:
            return []


def finish(r, level, rule, assumptions, minimum=1):
    """Writes the evidence, prints the verdict, returns the exit status."""
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    listed = {k["signature"]: k for k in r.known_findings()}
    new, known = [], {}
    for v in r.violations:
        sig = v.replay.get("signature")
        if sig in listed:
            known[sig] = v
        else:
            new.append(v)
    cov = {"evaluations": r.obs.evaluations, "distinct_nontrivial": len(r.obs.distinct), "rule": rule,
           "samples": r.obs.samples[:6] or ["none"], "observed": dict(sorted(r.obs.counters.items())),
           "parts": r.parts, "cases_cut_by_budget": r.skipped, "inconclusive_cases": len(r.inconclusive)}
    cov.update(r.extra)
    ev = {"property": r.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    with open(os.path.join(EVID, r.prop + (".case" if CASE else "") + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for sig in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (r.prop, listed[sig]["what"]))
    for i, v in enumerate(new[:5]):
        path = os.path.join(EVID, "replay", "%s-%s%d.json" % (r.prop, "case-" if CASE else "", i))
        with open(path, "w") as f:
            json.dump({"property": r.prop, "seed": SEED, "tier": TIER, "what": v.what,
                       "replay": v.replay, "rerun": "python3 run.py %s --replay %s" % (r.prop, path)},
                      f, indent=1, default=repr)
        print("witness: " + v.what[:1500])
        print("VIOLATION property=%s replay=%s" % (r.prop, path))
    for e in r.inconclusive[:5]:
        print("inconclusive: " + str(e)[:1500])
    print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s" % (
        r.prop, r.obs.evaluations, len(r.obs.distinct), len(new), len(r.inconclusive), time.time() - T0))
    if new:
        return 1
    if CASE:
        return 0
    if len(r.obs.distinct) < minimum:
        print("error: the monitors observed too little to say anything (%d < %d)" % (len(r.obs.distinct), minimum))
        return 2
    if len(r.inconclusive) > max(2, r.obs.evaluations // 50):
        print("error: too many inconclusive cases")
        return 2
    return 0
