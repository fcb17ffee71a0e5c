#!/usr/bin/env python3
"""Runs the monitors of one property: build the library from /repo's working tree with instrumentation, run the
workloads, collect what the monitors saw, write evidence/<id>.json.

  run.py <ID>                     VERIF_SEED and VERIF_TIER from the environment
  run.py <ID> --replay FILE       repeats the one case a violation named
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
CACHE = os.path.join(VERIF, ".cache")
NCPU = max(2, os.cpu_count() or 2)

sys.path.insert(0, VERIF)

INC = ["-I" + REPO + "/Code", "-I" + REPO + "/Code/Json4C4", "-I" + REPO + "/Code/Terathon", "-I" + HARNESS]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

# compiler, flags for everything, flags for the library only, link flags
VARIANTS = {
    "asan":  ("clang++", ["-O1", "-g1"] + SAN, [], []),
    # unoptimised: accesses that the optimiser would drop are made and seen
    "asan0": ("clang++", ["-O0", "-g1"] + SAN, [], []),
    "asanlib0": ("clang++", ["-O1", "-g1"] + SAN, ["-O0"], []),
    "plain": ("clang++", ["-O2", "-g1"], [], []),
    "tsan":  ("clang++", ["-O1", "-g1", "-fsanitize=thread"], [], ["-pthread"]),
    "msan":  ("clang++", ["-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], [], []),
    # executed basic blocks are counted, and the bytes that functions of the C library touch
    "count": ("clang++", ["-O1", "-g1", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"], [], ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strcpy", "strtod", "write", "read",
        "strchr", "strrchr", "memchr", "strnlen", "strncmp", "strncpy", "strstr", "strspn", "strcspn", "strcat", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "atof", "fread", "fwrite"))] + ["-pthread"]),
    "iowrap": ("clang++", ["-O1", "-g1"] + SAN, [], ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "openat", "creat", "read", "pread", "pread64", "readv", "write", "pwrite", "pwrite64", "writev", "close", "fstat", "fstat64", "lseek", "lseek64", "stat", "stat64", "ftruncate", "fopen", "fopen64", "fread", "fwrite", "fclose"))]),
}

class HarnessError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def library_sources():
    out = []
    for d in ("Json4C4", "Terathon"):
        out += sorted(glob.glob(os.path.join(REPO, "Code", d, "**", "*.cpp"), recursive=True))
    if not out:
        raise HarnessError("no library sources under " + REPO)
    return out

def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in ("Json4C4", "Terathon"):
        for root, _, names in os.walk(os.path.join(REPO, "Code", d)):
            files += [os.path.join(root, n) for n in names]
    files += [os.path.join(HARNESS, n) for n in os.listdir(HARNESS)]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

_tree = None
_prune = threading.Lock()

def prune():
    """Keeps the last programs built; a program of another thread's or process's build may go at any time."""
    def age(d):
        try:
            return os.path.getmtime(d)
        except OSError:
            return 0.0
    with _prune:
        old = sorted(((age(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)))
        for t, d in old[:-100]:
            if time.time() - t > 3600 or len(old) > 300:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)

def build(variant, sources, extra=(), compiler=None, std=True, defines=(), shared=False, key=""):
    """Compiles the library and the harness sources; returns the path of the program."""
    global _tree
    _tree = _tree or tree_hash()
    cc, flags, libflags, link = VARIANTS[variant]
    cc = compiler or cc
    flags = ["-std=c++17"] + list(flags) + list(extra) + ["-D" + d for d in defines]
    ident = json.dumps([variant, cc, flags, libflags, link, sorted(sources), shared, key, _tree])
    out = os.path.join(CACHE, hashlib.sha256(ident.encode()).hexdigest()[:24])
    exe = os.path.join(out, "prog")
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(CACHE, exist_ok=True)
    prune()
    tmp = tempfile.mkdtemp(dir=CACHE, prefix="t.")
    jobs = []
    for i, s in enumerate(library_sources()):
        f = flags + libflags + (["-fPIC", "-DTERATHON_EXPORT"] if shared else [])
        jobs.append((s, os.path.join(tmp, "lib%d.o" % i), f))
    nlib = len(jobs)
    for i, s in enumerate(sources):
        jobs.append((os.path.join(HARNESS, s), os.path.join(tmp, "h%d.o" % i), flags))
    def one(j):
        p = subprocess.run([cc] + j[2] + ["-w"] + INC + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        return (p.returncode, j[0], p.stderr)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, s, err in ex.map(one, jobs):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                raise HarnessError("cannot compile %s (%s):\n%s" % (s, variant, err[-4000:]))
    objs = [j[1] for j in jobs]
    if shared:
        so = os.path.join(tmp, "libjson4c4.so")
        p = subprocess.run([cc] + flags + ["-shared", "-Wl,-soname,libjson4c4.so", "-o", so] + objs[:nlib], capture_output=True, text=True)
        if p.returncode:
            raise HarnessError("cannot link the shared library:\n" + p.stderr[-3000:])
        p = subprocess.run([cc] + flags + objs[nlib:] + [so, "-Wl,-rpath,$ORIGIN", "-o", os.path.join(tmp, "prog")] + link, capture_output=True, text=True)
    else:
        p = subprocess.run([cc] + flags + objs + ["-o", os.path.join(tmp, "prog")] + link, capture_output=True, text=True)
    if p.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError("cannot link (%s):\n%s" % (variant, p.stderr[-4000:]))
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build_all(specs):
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda s: build(**s), specs))

# ---------------------------------------------------------------------------

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else None
        self.dir = tempfile.mkdtemp(prefix="json4c4-%s-" % prop, dir=base)
        self.evaluations = 0
        self.events = {}
        self.samples = []
        self.hashes = set()
        self.violations = []
        self.notes = []
        self.extra = {}
        self.reuse = False          # a replay under memory that is used again at once

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def violation(self, what, stage, case, output=""):
        self.violations.append(dict(property=self.prop, what=what, stage=stage, case=case, seed=self.seed, tier=self.tier, output=output[-6000:]))

    def env(self, leaks):
        e = dict(os.environ)
        e.pop("LD_PRELOAD", None)
        common = "exitcode=77:abort_on_error=0:handle_abort=1:allocator_may_return_null=0:malloc_context_size=12"
        e["ASAN_OPTIONS"] = common + ":detect_leaks=%d:detect_stack_use_after_return=1:strict_string_checks=0:max_allocation_size_mb=8192" % (1 if leaks else 0)
        e["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=1:halt_on_error=1"
        e["MSAN_OPTIONS"] = "exitcode=77:halt_on_error=1"
        e["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=4"
        e["LSAN_OPTIONS"] = "exitcode=77"
        e["LC_ALL"] = "C"
        return e

    def shards(self, stage, exe, n=None, leaks=False, scale=1.0, budget=240, mode="", replay=None, timeout=800, wrap=(), extra_env=None):
        """Runs the program once per shard and collects what it saw."""
        n = 1 if replay is not None else (n or NCPU)
        sub = os.path.join(self.dir, stage + ("-replay" if replay is not None else ""))
        os.makedirs(sub, exist_ok=True)
        procs = []
        env = self.env(leaks)
        env.update(extra_env or {})
        for i in range(n):
            # every other shard has no quarantine, so that freed memory is used again at once and whatever is remembered
            # under an address meets another object there; the others see uses of freed memory however late
            here = env
            if i % 2 == 1 or (replay is not None and self.reuse):
                here = dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
            cmd = list(wrap) + [exe, "--prop=" + self.prop, "--dir=" + sub, "--seed=%d" % self.seed, "--shard=%d" % i, "--nshards=%d" % n, "--scale=%g" % scale, "--budget=%g" % budget]
            if mode:
                cmd.append("--mode=" + mode)
            if replay is not None:
                cmd.append("--replay=" + replay)
            err = open(os.path.join(sub, "stderr.%d" % i), "wb")
            procs.append((i, subprocess.Popen(cmd, stdout=err, stderr=err, cwd=sub, env=here, start_new_session=True), err))
        end = time.time() + timeout
        bad = None
        while any(p.poll() is None for _, p, _ in procs):
            for i, p, _ in procs:
                rc = p.poll()
                if rc not in (None, 0) and bad is None:
                    bad = time.time()
            # a violation in one shard ends the others soon
            if (bad and time.time() - bad > 5) or time.time() > end:
                for _, p, _ in procs:
                    if p.poll() is None:
                        p.vfkilled = True
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
                break
            time.sleep(0.05)
        late = time.time() > end
        results = []
        for i, p, err in procs:
            p.wait()
            err.close()
            text = open(os.path.join(sub, "stderr.%d" % i), "rb").read().decode("utf-8", "replace")
            res = None
            rp = os.path.join(sub, "result.%d.json" % i)
            if os.path.exists(rp):
                try: res = json.load(open(rp))
                except ValueError: res = None
            current = ""
            cp = os.path.join(sub, "current.%d" % i)
            if os.path.exists(cp):
                raw = open(cp, "rb").read()
                if len(raw) >= 8:
                    ln = struct.unpack("<Q", raw[:8])[0]
                    current = raw[8:8 + ln].decode("latin-1")
            results.append((i, p.returncode, getattr(p, "vfkilled", False), res, text, current))
        failed = False
        for i, rc, killed, res, text, current in results:
            if res:
                self.evaluations += res["evaluations"]
                for k, v in res["events"].items():
                    self.count(k, v)
                slow = "slowest case (ms)"
                self.events[slow] = max(self.events.get(slow, 0), int(1000 * res.get("slowest", 0)))
                if len(self.samples) < 8:
                    self.samples += res["samples"][:3]
                hp = os.path.join(sub, "hashes.%d" % i)
                if os.path.exists(hp):
                    raw = open(hp, "rb").read()
                    self.hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
            if killed:
                continue
            if rc == 0:
                if not res:
                    raise HarnessError("%s shard %d ended without a result" % (stage, i))
                continue
            failed = True
            if rc == 3:
                raise HarnessError("%s: %s" % (stage, text[-2000:]))
            if rc == 1 and res and res.get("violation"):
                self.violation(res["violation"], stage, res["replay"], text)
            else:
                what = ("a case does not end" if rc == 99 else "killed by signal %d" % -rc if rc < 0 else "sanitizer report" if rc == 77 else "unexpected end with code %d" % rc)
                m = re.search(r"(?m)^.*(ERROR: \w+Sanitizer.*|WARNING: \w+Sanitizer.*|runtime error: .*|terminate called.*)$", text)
                if m:
                    what += ": " + m.group(1).strip()
                fr = re.search(r"(?m)^\s*#\d+ .*?/Code/(Json4C4|Terathon)/\S+", text)
                if fr:
                    what += " " + fr.group(0).strip()
                if (rc == 99 or rc == -9) and replay is None:
                    # slowness must be repeatable to count
                    again = Run.__new__(Run)
                    again.__dict__.update(self.__dict__)
                    again.violations, again.events, again.samples, again.hashes = [], {}, [], set()
                    again.shards(stage, exe, leaks=leaks, scale=scale, mode=mode, replay=current, timeout=timeout, wrap=wrap, extra_env=extra_env)
                    if not again.violations:
                        raise HarnessError("%s: %s, not repeatable (case %s)" % (stage, what, current))
                self.violation(what, stage, current, text)
        if late and not failed:
            raise HarnessError("%s: time is up" % stage)
        return not failed

    # -----------------------------------------------------------------------
    def finish(self, info):
        known = load_known(self.prop)
        fresh, seen = [], []
        for v in self.violations:
            k = next((k for k in known if k["match"] in v["what"]), None)
            (seen if k else fresh).append((v, k))
        for _, k in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
        for old in glob.glob(os.path.join(EVIDENCE, "replays", self.prop + "-*.json")):
            os.unlink(old)
        for n, (v, _) in enumerate(fresh):
            path = os.path.join(EVIDENCE, "replays", "%s-%d.json" % (self.prop, n))
            json.dump(v, open(path, "w"), indent=1)
            v["path"] = path
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes), rule=info["rule"], samples=self.samples[:8], events=dict(sorted(self.events.items())))
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=info["level"], coverage=cov, assumptions=info.get("assumptions", []) + self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        json.dump(ev, open(os.path.join(EVIDENCE, self.prop + ".json"), "w"), indent=1)
        for v, _ in fresh:
            log(v["what"])
            log("case: stage %s, %s" % (v["stage"], v["case"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, v["path"]), flush=True)
        if not fresh:
            if self.evaluations == 0:
                raise HarnessError("nothing was evaluated")
            print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.tier, self.evaluations, len(self.hashes), time.time() - self.t0))
        return 1 if fresh else 0

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=\"(.*?)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), text=m.group(3)))
    return out

def main():
    import checks
    prop = sys.argv[1]
    if prop == "--setup":
        # nothing is kept between runs: each check builds what it needs
        for t in ("clang++", "g++", "valgrind"):
            log(t, shutil.which(t) or "MISSING")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        seed, tier = replay["seed"], replay["tier"]
    info = checks.CHECKS[prop]
    run = Run(prop, tier, seed)
    os.makedirs(EVIDENCE, exist_ok=True)
    def stop(*_):
        run.close()
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    try:
        info["run"](run, replay)
        if replay is not None:
            if not run.violations:
                run.reuse = True
                info["run"](run, replay)
            for v in run.violations:
                print(v["what"]); print(v["output"])
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
            return 1 if run.violations else 0
        return run.finish(info)
    except HarnessError as e:
        log("CHECK ERROR (%s): %s" % (prop, e))
        return 2
    finally:
        run.close()

if __name__ == "__main__":
    sys.exit(main())
