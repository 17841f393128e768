#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | check.py --setup | check.py --replay FILE

Runs the real pbrtrs crate, rebuilt from /repo's working tree, under the monitors of one property.
Exit 0: held on everything observed.  Exit 1 + VIOLATION line: broken.  Exit 2: inconclusive.
"""
import atexit, fcntl, glob, hashlib, json, os, random, re, resource, shutil, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
STABLE = "1.98.1"
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = max(2, min(8, os.cpu_count() or 2))

# what each property's harness needs of the crate
GROUP = {}
for _i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C25"):
    GROUP[_i] = ["scene"]
for _i in ("C12", "C13", "C14", "C15", "C16"):
    GROUP[_i] = ["matrix"]
for _i in ("C17", "C18", "C19"):
    GROUP[_i] = ["vecs"]
for _i in ("C20", "C21", "C22"):
    GROUP[_i] = ["boxes"]
GROUP["C23"] = ["rays"]
ALL = ["scene", "matrix", "vecs", "boxes", "rays"]
GROUP["C26"] = ["scene", "matrix", "vecs"]
GROUP["C27"] = ["vecs"]
GROUP["C10"] = ALL
GROUP["C24"] = ALL

# cases per (debug worker, release worker) in the quick tier; thorough multiplies
COUNTS = {
    "C01": (6000, 5000), "C02": (4800, 16000), "C03": (2880, 9000), "C04": (4800, 16000),
    "C05": (2400, 9000), "C06": (4480, 16000), "C07": (4480, 16000), "C08": (1600, 5200),
    "C09": (2400, 7200), "C25": (4480, 14000), "C10": (80, 120), "C24": (2500, 6000),
    "C12": (120000, 960000), "C13": (100000, 800000), "C14": (60000, 480000), "C15": (120000, 960000),
    "C16": (120000, 960000), "C17": (60000, 480000), "C18": (45000, 360000), "C19": (120000, 1000000),
    "C20": (32000, 320000), "C21": (80000, 800000), "C22": (12000, 96000), "C23": (120000, 1000000),
    "C26": (9600, 40000), "C27": (120000, 1000000),
}
THOROUGH_FACTOR = 10

RULES = {
    "C01": "a case is one hostile text (one of the hostile families: long runs, deep nesting, odd literals, mangled scenes, noise) parsed on a 2 MiB stack; non-trivial when the text has more than 8 characters; distinct by text",
    "C02": "a case is a generated scene (or a refusal probe) whose literals are random in sign, digits, point and exponent; non-trivial when at least one number is compared; distinct by text",
    "C03": "a case is a generated scene with arbitrary Unicode strings and escapes; non-trivial when at least one string is compared; distinct by text",
    "C04": "a case is a generated scene tree; non-trivial when the world has at least one directive; distinct by text",
    "C05": "a case is a generated scene with random parameter lists; non-trivial when at least one parameter is compared; distinct by text",
    "C06": "a case is a generated scene with random option directives; non-trivial when at least one option is compared; distinct by text",
    "C07": "a case is a well-formed scene with zero or more token or character edits, judged by an independent recogniser; non-trivial when the recogniser gives a definite verdict; distinct by text",
    "C08": "a case is a generated scene in a random layout; non-trivial when at least one position is compared; distinct by text",
    "C09": "a case is a pair of layouts of one token sequence; non-trivial when the two texts differ; distinct by the pair",
    "C10": "a case is a batch of ten calls (parses and math operations), run alone, again in other orders and from eight threads; distinct_nontrivial counts distinct per-thread call orders offered",
    "C11": "a case is one parse of one growing family at one size, with instructions counted by callgrind and every allocator event recorded; non-trivial when more than 10000 instructions were counted",
    "C12": "a case is one random matrix; non-trivial when it was judged (well conditioned); distinct by entries",
    "C13": "a case is one matrix with a row and/or column of zeros; distinct by entries",
    "C14": "a case is a triple of random matrices and all operations on them; distinct by entries",
    "C15": "a case is one transform (translation, scale, from a matrix) and the chain of derived transforms; distinct by parameters; non-trivial when judged",
    "C16": "a case is one transform applied or classified; distinct by parameters; non-trivial when judged",
    "C17": "a case is a tuple of random operands and all arithmetic operations on them; distinct by operands",
    "C18": "a case is a pair of random operands with ties and extremes, and all component operations on them; distinct by operands",
    "C19": "a case is a unit vector and a frame built from it, or a pair for facing; distinct by operands",
    "C20": "a case is a pair of boxes with probe points; distinct by corners",
    "C21": "a case is one box with all measures and probe points; distinct by corners",
    "C22": "a case is one integer box iterated to its end; non-trivial when not empty; distinct by corners",
    "C23": "a case is one ray and a sequence of differential scalings; distinct by fields",
    "C24": "a case is one parse or one batch of math operations on hostile operands under AddressSanitizer, the interpreter or the allocation monitor; distinct by input",
    "C26": "a case is a pair of scenes (a text and a slightly different one) or of math values differing in no, one or several components; non-trivial when both could be compared and the texts differ; distinct by the pair",
    "C27": "a case is one point (NaNs of all kinds, infinities, limits) or one element value and all operations on it; distinct by value",
    "C25": "a case is a scene with an injected defect whose offending place an independent recogniser names; non-trivial when it names one; distinct by text",
}
ASSUME = {
    "scene": ["the generator's own scene tree and the independent recogniser (harness/src/refparse.rs) state the scene language correctly where they give a verdict",
              "Rust's standard decimal-to-float conversion is correctly rounded"],
    "math": ["double-precision or exact integer reference computations; tolerances proportional to rounding error"],
}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ workload dictionary

def harvest(path):
    """Literals of the current source: they steer the workload, no verdict depends on them."""
    ints, floats, strs, chars = set(), set(), set(), set()
    for f in glob.glob(REPO + "/src/**/*.rs", recursive=True):
        s = open(f, encoding="utf-8", errors="replace").read()
        s = s.split("#[cfg(test)]\nmod tests")[0]
        s = re.sub(r"(?m)^\s*//.*$", "", s)
        for m in re.finditer(r"'(\\.|\\u\{[0-9a-fA-F]+\}|[^'\\])'", s):
            t = m.group(1)
            t = {"\\n": "\n", "\\t": "\t", "\\r": "\r", "\\\\": "\\", "\\'": "'", "\\0": "\0"}.get(t, t)
            if t.startswith("\\u{"):
                try:
                    t = chr(int(t[3:-1], 16))
                except (ValueError, OverflowError):
                    continue
            if len(t) == 1 and t not in "\n\r":
                chars.add(t)
        for m in re.finditer(r'"((?:\\.|[^"\\])*)"', s):
            t = m.group(1)
            if 0 < len(t) <= 40 and "\n" not in t and "\\" not in t:
                strs.add(t)
        t = re.sub(r'"((?:\\.|[^"\\])*)"', " ", s)
        for m in re.finditer(r"(?<![\w.])0x([0-9a-fA-F_]+)", t):
            ints.add(int(m.group(1).replace("_", ""), 16))
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?:_?[iu](?:8|16|32|64|size|128))?(?![\w.])", t):
            ints.add(int(m.group(1).replace("_", "")))
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.(?!\.)[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)", t):
            try:
                floats.add(float(m.group(1).replace("_", "")))
            except ValueError:
                pass
        for m in re.finditer(r"1(?:_?[iu](?:8|16|32|64|size))?\s*<<\s*(\d+)", t):
            ints.add(1 << min(62, int(m.group(1))))
    with open(path, "w", encoding="utf-8") as f:
        for i in sorted(ints):
            if i < 2 ** 63:
                f.write("i %d\n" % i)
        for x in sorted(floats):
            f.write("f %r\n" % x)
        for t in sorted(strs):
            f.write("s %s\n" % t)
        for c in sorted(chars):
            f.write("c %s\n" % c)
    return {"integers": len(ints), "floats": len(floats), "strings": len(strs), "characters": len(chars)}


# ------------------------------------------------------------------ builds

def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


CONFIGS = {
    # name: (toolchain, cargo flags, rustflags, f64)
    "dbg": (STABLE, [], "", False),
    "rel": (STABLE, ["--release"], "", False),
    "dbg64": (STABLE, [], "", True),
    "rel64": (STABLE, ["--release"], "", True),
    # sanitizers watch builds without debug assertions, so that nothing hides an access behind one
    "asan": (NIGHTLY, ["-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=address -Copt-level=1 -Cdebug-assertions=off -Coverflow-checks=off", False),
    "tsan": (NIGHTLY, ["-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=thread -Copt-level=1", False),
}


def built(cfg):
    tool, flags, _, _ = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    if "--target" in flags:
        d = os.path.join(d, TRIPLE)
    return os.path.join(d, "release" if "--release" in flags else "debug", "monitor")


def binary(cfg):
    """This run's own copy of a build, so that another run's build cannot replace it."""
    return os.path.join(BUILD, "run", "bin.%d" % os.getpid(), cfg)


def build_one(cfg, feats, plain):
    tool, flags, rf, f64 = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # always recompile the crate under test: time stamps of the working tree are not trusted
        for p in glob.glob(d + "/**/.fingerprint/pbrtrs-*", recursive=True) + glob.glob(d + "/**/.fingerprint/monitor-*", recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        e = base_env()
        e["RUSTUP_TOOLCHAIN"] = tool
        e["RUSTFLAGS"] = ("--cfg verif_hooks " + ("--cfg cs_plain " if plain else "") + rf).strip()
        cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", d,
               "--features", ",".join(feats + (["f64"] if f64 else []))] + flags
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode == 0:
            b = binary(cfg)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            atexit.register(shutil.rmtree, os.path.dirname(b), True)
            shutil.copy2(built(cfg), b)
    return p.returncode, p.stdout


def parallel(jobs):
    """jobs: list of thunks; returns their results in order."""
    out = [None] * len(jobs)
    err = []

    def go(i):
        try:
            out[i] = jobs[i]()
        except BaseException as ex:  # noqa
            err.append(ex)

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


def build(cfgs, feats, need_all=True):
    """Builds the configurations. Returns the feature list that was built."""
    tries = [(feats, False), (feats, True)]
    if not need_all:
        # properties that watch everything go on with whatever part of the crate the harness can reach
        for drop in ALL:
            tries.append(([f for f in feats if f != drop], False))
            tries.append(([f for f in feats if f != drop], True))
        tries += [([f], False) for f in ALL]
    last = ""
    for fs, plain in tries:
        rs = parallel([lambda c=cfgs[0]: build_one(c, fs, plain)])
        if rs[0][0] != 0:
            last = rs[0][1]
            continue
        rs = parallel([lambda c=c: build_one(c, fs, plain) for c in cfgs[1:]])
        for c, (rc, out) in zip(cfgs[1:], rs):
            if rc != 0:
                raise Inconclusive("build %s failed:\n%s" % (c, out[-3000:]))
        return fs
    raise Inconclusive("the harness does not build against the current tree:\n" + last[-4000:])


# ------------------------------------------------------------------ workers

def limits(cpu, mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


def sanitizer_env(scratch):
    e = base_env()
    e["ASAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:detect_leaks=1:exitcode=86"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=87"
    e["RUST_BACKTRACE"] = "0"
    e["TMPDIR"] = scratch
    return e


class Worker:
    """One monitor process over a range of cases; survives deaths by attributing them to a case."""

    def __init__(self, run, name, cfg, start, count, extra=(), prog=None, mem=6, case_cpu=40, around=None):
        self.run, self.name, self.cfg, self.start, self.count = run, name, cfg, start, count
        self.extra, self.mem, self.case_cpu = list(extra), mem, case_cpu
        self.prog = prog or [binary(cfg)]
        self.cwd, self.env = around or (run.scratch, {})
        self.reports, self.deaths, self.notes = [], [], []
        self.digests = {}

    def cmd(self, start, count, tag):
        s = self.run.scratch
        b = os.path.join(s, "%s-%s" % (self.name, tag))
        return b, self.prog + ["run", self.run.id, "--seed", str(self.run.seed), "--from", str(start), "--count", str(count),
                               "--tier", self.run.tier, "--dict", self.run.dict, "--out", b + ".json", "--state", b + ".state",
                               "--digests", b + ".dig", "--budget", str(self.run.budget)] + self.extra

    def once(self, start, count, tag, wall):
        b, cmd = self.cmd(start, count, tag)
        for x in (".json", ".state", ".dig"):
            if os.path.exists(b + x):
                os.unlink(b + x)
        with open(b + ".err", "wb") as err:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=dict(self.env, **sanitizer_env(self.run.scratch)),
                                 preexec_fn=limits(self.run.cpu, self.mem if self.cfg not in ("asan", "tsan", "miri", "memcheck") else 0), cwd=self.cwd)
            t0, seen, since = time.time(), None, None
            overrun = None
            while p.poll() is None:
                time.sleep(0.05)
                # a case that burns far more CPU time than any case does is stopped and judged alone
                try:
                    st = open(b + ".state", "rb").read(8)
                    cpu = cpu_time(p.pid)
                except (OSError, ValueError, IndexError):
                    continue
                if st != seen:
                    seen, since = st, cpu
                elif cpu - since > self.case_cpu:
                    overrun = "cpu"
                    p.kill()
                    break
                if time.time() - t0 > wall:
                    overrun = "wall"
                    p.kill()
                    break
            p.wait()
        rc = p.returncode
        rep = None
        if os.path.exists(b + ".json"):
            try:
                rep = json.load(open(b + ".json"))
            except ValueError:
                rep = None
        case = None
        if os.path.exists(b + ".state"):
            st = open(b + ".state", "rb").read(8)
            if len(st) == 8:
                case = struct.unpack("<Q", st)[0]
        dig = open(b + ".dig", "rb").read() if os.path.exists(b + ".dig") else b""
        errtext = open(b + ".err", "rb").read().decode("utf-8", "replace")
        return rc, rep, case, overrun, dig, errtext

    def go(self):
        start, end = self.start, self.start + self.count
        n = 0
        while start < end and n < 3:
            n += 1
            rc, rep, case, overrun, dig, err = self.once(start, end - start, "r%d" % n, self.run.wall)
            if rep is not None and rc in (0, 1):
                self.reports.append(rep)
                k = len(dig) // 8
                self.digests.update({start + j: dig[8 * j:8 * j + 8] for j in range(k)})
                if "--reverse" in self.extra:
                    self.digests = {end - 1 - j: dig[8 * j:8 * j + 8] for j in range(k)}
                return
            if overrun == "wall":
                self.notes.append("worker %s stopped by the watchdog" % self.name)
                return
            if case is None or (rc == 2 and "unknown property" in err):
                self.notes.append("worker %s gave up before or in a case: rc=%s %s" % (self.name, rc, err[-400:]))
                return
            # the process died (or hung) inside `case`: run that case alone, twice
            again = [self.once(case, 1, "alone%d" % k, self.run.wall) for k in (1, 2)]
            dead = [a for a in again if not (a[1] is not None and a[0] in (0, 1))]
            bad = [a for a in again if a[1] is not None and a[1].get("violations")]
            if len(dead) == 2 and all(a[3] != "wall" for a in dead):
                a = dead[0]
                how = "used more than %d s of CPU time without returning" % self.case_cpu if a[3] == "cpu" or a[0] == -24 else \
                    "the process died (%s)" % describe_rc(a[0])
                self.deaths.append({"case": case, "what": how, "detail": a[5][-3000:], "config": self.cfg})
            elif len(dead) == 0 and sanitizer_report(err):
                # a race or memory report that does not repeat is still a report
                self.deaths.append({"case": case, "what": "sanitizer report (%s)" % describe_rc(rc), "detail": err[-3000:], "config": self.cfg})
            elif not bad:
                self.notes.append("worker %s: death at case %d did not repeat (%s)" % (self.name, case, describe_rc(rc)))
            for a in bad:
                self.reports.append(a[1])
            if "--reverse" in self.extra:
                return
            start = case + 1


def sanitizer_report(err):
    return "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err or "WARNING: ThreadSanitizer" in err


def describe_rc(rc):
    if rc is not None and rc < 0:
        return "signal %d" % -rc
    return "exit %s" % rc


def cpu_time(pid):
    f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")


# ------------------------------------------------------------------ a run

class Run:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = os.path.join(BUILD, "run", "%s.%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        os.makedirs(EVID, exist_ok=True)
        self.dict = os.path.join(self.scratch, "dict")
        self.harvested = harvest(self.dict)
        quick = tier == "quick"
        self.budget = 150 if quick else 1500      # seconds of workload per worker, then it stops
        self.wall = 400 if quick else 3000        # watchdog: inconclusive, never a violation
        self.cpu = 3600 if quick else 20000
        self.violations = []
        self.counters = {}
        self.samples = []
        self.evals = 0
        self.distinct = 0
        self.notes = []
        self.configs = {}
        self.extra = {}

    def n(self, dbg, quick=None):
        d, r = COUNTS[self.id]
        c = d if dbg else r
        return c if self.tier == "quick" else c * THOROUGH_FACTOR

    def absorb(self, w):
        for rep in w.reports:
            self.evals += rep["evaluations"]
            self.distinct += rep["distinct"]
            for k, v in rep["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for s in rep["samples"][:2]:
                if len(self.samples) < 6:
                    self.samples.append("[%s] %s" % (w.cfg, s))
            for n in rep.get("inconclusive", []):
                self.notes.append(n)
            for v in rep["violations"]:
                self.violate(v["what"], v["input"], w, v["case"])
            c = self.configs.setdefault(w.cfg, {"evaluations": 0, "workers": 0})
            c["evaluations"] += rep["evaluations"]
            c["workers"] += 1
        for d in w.deaths:
            self.violate(d["what"], d["detail"], w, d["case"])
        self.notes += w.notes

    def violate(self, what, inp, w=None, case=None):
        self.violations.append({"property": self.id, "what": what, "input": inp, "config": w.cfg if w else None, "case": case,
                                "seed": self.seed, "tier": self.tier, "extra": w.extra if w else []})

    def go(self, ws):
        q = list(ws)
        lock = threading.Lock()

        def loop():
            while True:
                with lock:
                    if not q:
                        return
                    w = q.pop(0)
                w.go()
        parallel([loop for _ in range(CORES)])
        for w in ws:
            self.absorb(w)


def four_configs(run):
    feats = build(["dbg", "rel", "dbg64", "rel64"], GROUP[run.id], run.id not in ("C10", "C24"))
    run.extra["parts of the crate watched"] = feats
    return feats


def std(run, split=2):
    """The ordinary plan: both precisions, debug (overflow checks on) and optimised, disjoint case ranges."""
    four_configs(run)
    ws = []
    for k, cfg in enumerate(("dbg", "rel", "dbg64", "rel64")):
        n = run.n(cfg.startswith("dbg"))
        for s in range(split):
            ws.append(Worker(run, "%s-%d" % (cfg, s), cfg, (k * split + s) * 10_000_000, n))
    run.go(ws)


def plan_c01(run):
    four_configs(run)
    ws = []
    pairs = []
    for k, (a, b) in enumerate((("dbg", "rel"), ("dbg64", "rel64"))):
        for s in range(2):
            st = (k * 2 + s) * 10_000_000
            n = run.n(True)
            x, y = Worker(run, "%s-%d" % (a, s), a, st, n), Worker(run, "%s-%d" % (b, s), b, st, n)
            pairs.append((x, y))
            ws += [x, y]
    run.go(ws)
    same = 0
    for x, y in pairs:
        for c in sorted(set(x.digests) & set(y.digests)):
            if x.digests[c] != y.digests[c]:
                run.violate("debug and optimised builds give different verdicts (%s / %s)" % (x.digests[c].hex(), y.digests[c].hex()),
                            "case %d of configurations %s and %s" % (c, x.cfg, y.cfg), x, c)
                break
            same += 1
    run.counters["verdicts compared between debug and optimised builds"] = same


def surroundings(run):
    """Three places to run in: an empty directory, one full of files with the names scenes use, one with directories of these names; with different environment variables."""
    empty, full, dirs = (os.path.join(run.scratch, d) for d in ("empty", "full", "dirs"))
    os.makedirs(empty)
    os.makedirs(dirs)
    os.makedirs(os.path.join(full, "dir"))
    strs = [l[2:] for l in open(run.dict, encoding="utf-8").read().splitlines() if l.startswith("s ")]
    names = ["sphere", "matte", "glass", "image", "path", "halton", "a b", "checks", "x", "s", "f", "true", "1", "0.5", "tex-1", "lights.pbrt",
             "dir/file name.pbrt", "Cargo.toml"] + [t for t in strs if re.match(r"^[\w .-]{1,40}$", t) and t.strip(". ")]
    n = 0
    for t in names:
        p = os.path.join(full, t)
        if not os.path.exists(p):
            n += 1
            with open(p, "w") as f:
                f.write("WorldBegin Shape \"included\" WorldEnd\n")
        os.makedirs(os.path.join(dirs, t), exist_ok=True)
    env = {t: "1" for t in strs if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", t) and t not in os.environ and not re.match(r"LD_|MALLOC|RUST|GLIBC|[AT]SAN", t)}
    env.update({"HOME": full, "LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Tokyo", "PWD": "/", "DEBUG": "1", "RUST_LOG": "trace"})
    locale = ("LANG", "LC_ALL", "LC_NUMERIC", "LC_CTYPE", "LC_COLLATE", "LC_MESSAGES", "LANGUAGE")
    pick = random.Random(run.seed)
    safe = [t for t in strs if "\0" not in t]
    other = {k: pick.choice(safe) for k in env if k not in ("PWD", "HOME", "TZ")} if safe else {}
    other.update({k: "de_DE.UTF-8" for k in locale}, HOME="/nonexistent", TZ="America/Lima", TERM="dumb", NO_COLOR="1", COLUMNS="40")
    run.counters["files around the second process"] = n
    run.counters["environment variables around the second process"] = len(env)
    run.counters["environment variables around the third process"] = len(other)
    return (empty, {}), (full, env), (dirs, other)


def plan_c10(run):
    feats = four_configs(run)
    ws = []
    pairs = []
    here, there, elsewhere = surroundings(run)
    for k, cfg in enumerate(("dbg", "rel64")):
        n = run.n(cfg.startswith("dbg"))
        st = k * 10_000_000
        a = Worker(run, cfg + "-fwd", cfg, st, n, mem=12, case_cpu=200, around=here)
        b = Worker(run, cfg + "-rev", cfg, st, n, ["--reverse"], mem=12, case_cpu=200, around=there)
        # the third process begins in the middle of what the others do
        c = Worker(run, cfg + "-mid", cfg, st + n // 2, max(1, n // 4), mem=12, case_cpu=200, around=elsewhere)
        ws += [a, b, c]
        pairs += [(a, b), (a, c)]
    for k, cfg in enumerate(("rel", "dbg64")):
        ws.append(Worker(run, cfg, cfg, (k + 2) * 10_000_000, run.n(cfg.startswith("dbg")), mem=12, case_cpu=200))
    # four processes of eight threads at a time
    run.go(ws)
    same = 0
    for a, b in pairs:
        for c in sorted(set(a.digests) & set(b.digests)):
            if a.digests[c] != b.digests[c]:
                run.violate("the same calls gave other results in a process that had made other calls before, in other surroundings (working directory, environment)", "case %d (%s)" % (c, a.cfg), a, c)
                break
            same += 1
    run.counters["batches compared between processes with opposite histories"] = same
    build(["tsan"], feats)
    n = 12 if run.tier == "quick" else 120
    before = run.evals
    run.go([Worker(run, "tsan-%d" % s, "tsan", (50 + s) * 10_000_000, n, ["--light"], case_cpu=600) for s in range(4)])
    run.counters["batches watched by ThreadSanitizer"] = run.evals - before


def plan_c24(run):
    feats = four_configs(run)
    ws = []
    for k, cfg in enumerate(("dbg", "rel", "dbg64", "rel64")):
        ws.append(Worker(run, cfg, cfg, k * 10_000_000, run.n(cfg.startswith("dbg"))))
    run.go(ws)
    build(["asan"], feats)
    before = run.evals
    n = 900 if run.tier == "quick" else 12000
    run.go([Worker(run, "asan-%d" % s, "asan", (60 + s) * 10_000_000, n, case_cpu=200) for s in range(CORES)])
    run.counters["cases watched by AddressSanitizer"] = run.evals - before
    # memcheck sees reads of uninitialised memory inside a block, which AddressSanitizer does not
    before = run.evals
    n = 120 if run.tier == "quick" else 2500
    vg = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-exitcode=88", "--exit-on-first-error=yes", "--main-stacksize=8388608"]
    run.go([Worker(run, "memcheck-%d" % s, "memcheck", (70 + s) * 10_000_000, n, prog=vg + [binary("rel")], case_cpu=400) for s in range(CORES)])
    run.counters["cases watched by memcheck"] = run.evals - before
    miri(run, feats)


def miri(run, feats):
    """The undefined-behaviour interpreter on small inputs; every diagnostic is a violation."""
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["RUSTFLAGS"] = "--cfg verif_hooks -Cdebug-assertions=off -Coverflow-checks=off"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    d = os.path.join(BUILD, "miri")
    os.makedirs(d, exist_ok=True)
    e["MIRI_SYSROOT"] = os.path.join(d, "sysroot")
    for p in glob.glob(d + "/**/.fingerprint/pbrtrs-*", recursive=True) + glob.glob(d + "/**/.fingerprint/monitor-*", recursive=True):
        shutil.rmtree(p, ignore_errors=True)
    if not os.path.exists(e["MIRI_SYSROOT"] + "/.ok"):
        p = subprocess.run(["cargo", "miri", "setup"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            run.notes.append("interpreter not available: " + p.stdout[-500:])
            run.counters["cases watched by the interpreter"] = 0
            return
        open(e["MIRI_SYSROOT"] + "/.ok", "w").close()
    n = 12 if run.tier == "quick" else 150
    def one(s, build_only=False):
        out = os.path.join(run.scratch, "miri-%d.json" % s)
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "--target-dir", d, "--features", ",".join(feats), "--", "run", run.id,
               "--seed", str(run.seed), "--from", str((80 + s) * 10_000_000), "--count", "1" if build_only else str(n), "--tier", run.tier,
               "--budget", str(45 if run.tier == "quick" else 900), "--out", out]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=300 if run.tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            return out, None, "timeout"
        return out, p.returncode, p.stdout
    one(99, True)
    before = run.evals
    for s, (out, rc, text) in enumerate(parallel([lambda s=s: one(s) for s in range(CORES - 1)])):
        rep = None
        if os.path.exists(out):
            try:
                rep = json.load(open(out))
            except ValueError:
                pass
        w = Worker(run, "miri-%d" % s, "miri", (80 + s) * 10_000_000, n, prog=["true"])
        if rep is not None:
            w.reports.append(rep)
        elif text and "Undefined Behavior" in text:
            w.deaths.append({"case": None, "what": "undefined behaviour reported by the interpreter", "detail": text[-3000:], "config": "miri"})
        else:
            w.notes.append("interpreter run %d gave no report: rc=%s %s" % (s, rc, (text or "")[-400:]))
        run.absorb(w)
    run.counters["cases watched by the interpreter"] = run.evals - before


# ------------------------------------------------------------------ C11: cost

# below these totals growth says nothing
FLOORS = {"instructions": 200000, "bytes": 60000, "peak": 60000}


def growth(rows, what):
    """Growth of the last step of the ladder, per 4-fold length; and whether it is big enough to judge."""
    if len(rows) < 2 or not rows[-2][what] or not rows[-1][what] or rows[-1][what] <= FLOORS[what]:
        return 0.0, False
    a, b = rows[-2], rows[-1]
    step = b["chars"] / max(1, a["chars"])
    return b[what] / a[what] / (step / 4.0), True


def plan_c11(run):
    build(["rel"], ["scene"])
    sizes = [4000, 16000, 128000] if run.tier == "quick" else [2000, 8000, 32000, 128000, 1024000]
    limit = 6.0  # growth per step of 4 in length: 4 is linear, 16 is quadratic
    fams = list(range(112))
    table = []
    results = {}
    lock = threading.Lock()

    def measure(k, szs):
        out = os.path.join(run.scratch, "cg-%d-%d" % (k, szs[-1]))
        for f in glob.glob(out + "*"):
            os.unlink(f)
        cmd = ["valgrind", "--tool=callgrind", "--callgrind-out-file=" + out, "--toggle-collect=measured_parse", "--dump-after=measured_parse",
               binary("rel"), "cost", str(run.seed), str(k)] + [str(s) for s in szs]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env(), cwd=run.scratch,
                           preexec_fn=limits(60 if run.tier == "quick" else 1500, 0), timeout=700 if run.tier == "quick" else 3000)
        rows = []
        for i, line in enumerate(p.stdout.splitlines()):
            name, size, chars, verdict, total, peak, events = line.split("\t")
            ir = None
            f = "%s.%d" % (out, i + 1)
            if os.path.exists(f):
                m = re.search(r"^totals: (\d+)", open(f).read(), re.M)
                ir = int(m.group(1)) if m else None
            rows.append({"family": name, "chars": int(chars), "verdict": int(verdict), "bytes": int(total), "peak": int(peak),
                         "events": int(events), "instructions": ir})
        for f in glob.glob(out + "*"):
            os.unlink(f)
        return p.returncode, rows, p.stderr[-500:]

    def loop():
        while True:
            with lock:
                if not fams:
                    return
                k = fams.pop(0)
            try:
                r = measure(k, sizes[:-1])
                if r[0] == 0 and any(growth(r[1], what)[0] > limit for what in FLOORS):
                    # already superlinear: the largest size would only take long
                    with lock:
                        results[k] = r
                    continue
                r = measure(k, sizes)
                if r[0] != 0 or len(r[1]) < len(sizes):
                    # what was measured stays; a size that cannot be measured twice is judged below
                    r2 = measure(k, sizes[:1])
                    r3 = measure(k, sizes)
                    r = (r3[0], r3[1], r3[2] + ("" if r2[0] == 0 else " (smallest size fails as well)"))
            except subprocess.TimeoutExpired:
                r = (None, [], "watchdog")
            with lock:
                results[k] = r

    parallel([loop for _ in range(CORES)])
    worst = {"instructions": 0.0, "bytes": 0.0, "peak": 0.0}
    for k in sorted(results):
        rc, rows, err = results[k]
        if rc is None:
            run.notes.append("family %d: stopped by the watchdog" % k)
            continue
        if rc != 0 or len(rows) < len(sizes) - 1:
            if rc in (-24, -9):
                run.violate("a parse of about %d characters used more CPU time than the limit while smaller ones are quick" % sizes[len(rows)],
                            "family %d (%s)" % (k, rows[0]["family"] if rows else "?"), None, k)
            else:
                run.notes.append("family %d: measuring failed rc=%s %s" % (k, rc, err))
            continue
        for i, r in enumerate(rows):
            run.evals += 1
            if r["instructions"] is None:
                run.notes.append("family %d: no instruction count" % k)
            elif r["instructions"] > 10000:
                run.distinct += 1
            run.counters["instructions counted"] = run.counters.get("instructions counted", 0) + (r["instructions"] or 0)
            run.counters["allocator events recorded"] = run.counters.get("allocator events recorded", 0) + r["events"]
            v = {0: "refused", 1: "accepted", 2: "panicked"}.get(r["verdict"], "?")
            run.counters["parses " + v] = run.counters.get("parses " + v, 0) + 1
        a, b = rows[-2], rows[-1]
        for what in FLOORS:
            g, big = growth(rows, what)
            if big:
                worst[what] = max(worst[what], round(g, 2))
                if g > limit:
                    run.violate("%s grow %.1f-fold per 4-fold growth of the text (%d to %d characters)" % (what, g, a["chars"], b["chars"]),
                                json.dumps({"family": b["family"], "ladder": rows}), None, k)
        table.append([rows[0]["family"]] + [r["instructions"] for r in rows])
    run.extra["largest growth per 4-fold length"] = worst
    run.extra["instructions per family and size " + str(sizes)] = table[:112]
    run.samples = [json.dumps(results[k][1][-1]) for k in sorted(results) if results[k][1]][:5]
    run.configs["rel under callgrind"] = {"evaluations": run.evals}


PLANS = {"C01": plan_c01, "C10": plan_c10, "C11": plan_c11, "C24": plan_c24}
MIN_EVALS = {"C10": 100, "C11": 270}


# ------------------------------------------------------------------ verdict

def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(C\d\d) what=(.*?) input_sha=([0-9a-f]+|\*)\s*$", line.strip())
            if m:
                out.append(m.groups())
    return out


def finish(run):
    unknown = []
    for v in run.violations:
        sha = hashlib.sha256(v["input"].encode("utf-8", "replace")).hexdigest()[:16]
        hit = [k for k in known() if k[0] == run.id and k[1] == v["what"] and k[2] in (sha, "*")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (run.id, v["what"]))
        else:
            unknown.append(v)
    ev = {
        "property": run.id, "tier": run.tier, "seed": run.seed, "level": "exploration",
        "coverage": {
            "evaluations": run.evals, "distinct_nontrivial": run.distinct, "rule": RULES[run.id],
            "samples": [s[:700] for s in run.samples] or ["none"],
            "observed": dict(sorted(run.counters.items())), "configurations": run.configs,
            "literals of the source used to steer the workload": run.harvested,
        },
        "assumptions": ASSUME["scene" if "scene" in GROUP[run.id] else "math"],
        "wall_s": round(time.time() - run.t0, 2), "violations": len(unknown),
    }
    ev["coverage"].update(run.extra)
    if run.notes:
        ev["coverage"]["inconclusive"] = run.notes[:20]
    with open(os.path.join(EVID, run.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    shutil.rmtree(run.scratch, ignore_errors=True)
    if unknown:
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        for i, v in enumerate(unknown[:5]):
            path = os.path.join(EVID, "replays", "%s-%d.json" % (run.id, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s\n    %s" % (v["what"][:600], repr(v["input"][:400])))
            print("VIOLATION property=%s replay=%s" % (run.id, path), flush=True)
        return 1
    for n in run.notes[:20]:
        log("inconclusive:", n)
    if run.evals < MIN_EVALS.get(run.id, 500):
        log("too little observed: %d cases" % run.evals)
        return 2
    print("%s held on %d cases (%d distinct, non-trivial), %.1f s" % (run.id, run.evals, run.distinct, time.time() - run.t0))
    return 0


def setup():
    rs = parallel([lambda c=c: build_one(c, ALL, False) for c in ("dbg", "rel", "dbg64", "rel64")])
    rs += parallel([lambda c=c: build_one(c, ALL, False) for c in ("asan", "tsan")])
    for rc, out in rs:
        if rc != 0:
            log(out[-3000:])
    return 0 if rs[0][0] == 0 else 1


def replay(path):
    """Runs the recorded case again and prints what the monitors say."""
    v = json.load(open(path))
    run = Run(v["property"], v["tier"], v["seed"])
    print("input:\n" + v["input"])
    if v["config"] in CONFIGS and v["case"] is not None:
        build([v["config"]], GROUP[v["property"]], False)
        w = Worker(run, "replay", v["config"], v["case"], 1)
        w.go()
        for r in w.reports:
            print(json.dumps(r["violations"], indent=1))
        print(w.deaths)
    shutil.rmtree(run.scratch, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = Run(pid, tier, seed)
    try:
        PLANS.get(pid, std)(run)
        return finish(run)
    except Inconclusive as ex:
        log("INCONCLUSIVE: %s" % ex)
        shutil.rmtree(run.scratch, ignore_errors=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
