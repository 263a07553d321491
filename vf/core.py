"""Shared machinery: building, running drivers, running TLC, evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
JOBS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """The check itself failed (exit code 2): never a verdict about the code."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building

def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for top in ("CMakeLists.txt", "cmake", "ext", "include", "src", "caliper-config.h.in", "caliper-config.cmake.in",
                "caliper.pc.in", "python/caliper-reader/caliperreader"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if not f.endswith(".pyc"))
        for f in files:
            h.update(os.path.relpath(f, REPO).encode())
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:16]


FLAVOURS = {
    "plain": dict(flags="-O0 -g0", opts=[]),
    "opt": dict(flags="-O1 -g1", opts=[]),
    "asan": dict(flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,alignment -fno-sanitize=vptr,float-cast-overflow,signed-integer-overflow -fno-sanitize-recover=undefined",
                 opts=["-DWITH_GOTCHA=OFF"]),
    "tsan": dict(flags="-O1 -g1 -fsanitize=thread", opts=["-DWITH_GOTCHA=OFF"]),
}


class Lib:
    def __init__(self, flavour="plain"):
        self.flavour = flavour
        f = FLAVOURS[flavour]
        self.flags = f["flags"]
        self.hash = tree_hash(json.dumps(f))
        self.dir = os.path.join(BUILD, "lib-%s-%s" % (flavour, self.hash))
        self.t0 = time.time()

    def configure(self):
        os.makedirs(BUILD, exist_ok=True)
        self._lock = open(os.path.join(BUILD, "lock-" + self.flavour), "w")
        fcntl.flock(self._lock, fcntl.LOCK_EX)
        old = sorted(glob.glob(os.path.join(BUILD, "lib-%s-*" % self.flavour)), key=os.path.getmtime)
        for d in old[:-2]:
            if d != self.dir:
                shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(os.path.join(self.dir, "ok")):
            os.utime(self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                   CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G")
        self.env = env
        cmd = ["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++",
               "-DCMAKE_C_FLAGS=" + self.flags, "-DCMAKE_CXX_FLAGS=" + self.flags,
               "-DBUILD_TESTING=OFF", "-DWITH_TOOLS=ON", "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON"] + FLAVOURS[self.flavour]["opts"]
        if shutil.which("ccache"):
            cmd += ["-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
        r = sh(cmd, env=env)
        if r.returncode:
            raise ToolError("cmake failed:\n" + r.stdout[-3000:])

    def make(self):
        if not os.path.exists(os.path.join(self.dir, "ok")):
            r = sh(["ninja", "-C", self.dir], env=self.env)
            if r.returncode:
                raise ToolError("build failed:\n" + r.stdout[-3000:])
            open(os.path.join(self.dir, "ok"), "w").close()
        fcntl.flock(self._lock, fcntl.LOCK_UN)

    def includes(self):
        return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(self.dir, "include"),
                "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/caliper"),
                "-I" + os.path.join(REPO, "src/common"), "-I" + os.path.join(REPO, "src/reader"),
                "-I" + os.path.join(REPO, "include/caliper"), "-I" + os.path.join(self.dir, "include/caliper"),
                "-I" + DRIVERS]

    def driver_path(self, name):
        return os.path.join(self.dir, "drv-" + name)


def build(drivers, flavour="plain", extra_flags=()):
    """Builds libcaliper from the working tree and the named drivers; returns {name: path}."""
    lib = Lib(flavour)
    lib.configure()
    with cf.ThreadPoolExecutor(8) as ex:
        def compile_driver(d):
            src = os.path.join(DRIVERS, d + ".cpp")
            h = hashlib.sha256(open(src, "rb").read())
            for inc in sorted(glob.glob(os.path.join(DRIVERS, "*.h"))):
                h.update(open(inc, "rb").read())
            h = h.hexdigest()[:12]
            obj = os.path.join(lib.dir, "drv-%s-%s.o" % (d, h))
            if not os.path.exists(obj):
                tmp = obj + ".%d" % os.getpid()
                r = sh(["clang++", "-std=c++17", "-w"] + lib.flags.split() + list(extra_flags) + lib.includes() +
                       ["-c", src, "-o", tmp])
                if r.returncode:
                    raise ToolError("driver %s does not compile:\n%s" % (d, r.stdout[-4000:]))
                os.rename(tmp, obj)
            return d, obj
        futs = [ex.submit(compile_driver, d) for d in drivers]
        err = None
        try:
            lib.make()
        except ToolError as e:
            err = e
        objs = []
        for f in futs:
            objs.append(f.result())
        if err:
            raise err
    out = {}
    for d, obj in objs:
        exe = obj[:-2]
        if not os.path.exists(exe):
            tmp = exe + ".x%d" % os.getpid()
            r = sh(["clang++"] + lib.flags.split() + [obj, "-o", tmp, "-L" + os.path.join(lib.dir, "src"),
                    "-Wl,-rpath," + os.path.join(lib.dir, "src"), "-lcaliper", "-lpthread", "-ldl", "-rdynamic"])
            if r.returncode:
                raise ToolError("driver %s does not link:\n%s" % (d, r.stdout[-4000:]))
            os.rename(tmp, exe)
        out[d] = exe
    out["cali-query"] = os.path.join(lib.dir, "src/tools/cali-query/cali-query")
    out["libdir"] = os.path.join(lib.dir, "src")
    return out


# ---------------------------------------------------------------- running drivers

def esc(s):
    """Escapes a token for scenario files."""
    b = s if isinstance(s, bytes) else s.encode()
    if not b:
        return "%-"
    return "".join(chr(c) if 33 <= c < 127 and c != 37 else "%%%02X" % c for c in b)


class Run:
    """One run of a check: scratch directory, seed, tier, coverage."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.dir)
        self.replay = os.path.join(BUILD, "replay-%s" % prop)
        shutil.rmtree(self.replay, ignore_errors=True)
        os.makedirs(self.replay)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.notes = []
        self.assumptions = []
        self.exhaustive_models = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def say(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    # -- drivers

    def run_driver(self, exe, scenarios, tag, env=None, jobs=JOBS, timeout=600, args=()):
        """scenarios: list of (id, [lines]); returns {id: [event dicts]}."""
        shards = [scenarios[i::jobs] for i in range(jobs)]
        shards = [s for s in shards if s]
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("CALI_"):
                del e[k]
        e["CALI_LOG_VERBOSITY"] = "0"
        e["CALI_CONFIG_FILE"] = "/nonexistent"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
        if env:
            e.update(env)

        def one(i):
            wd = os.path.join(self.dir, "%s-%d" % (tag, i))
            os.makedirs(wd, exist_ok=True)
            fin, fout = os.path.join(wd, "in.txt"), os.path.join(wd, "out.ndjson")
            with open(fin, "w") as f:
                for sid, lines in shards[i]:
                    f.write("S %s\n" % sid)
                    for ln in lines:
                        f.write((ln if isinstance(ln, str) else " ".join(str(x) for x in ln)) + "\n")
            ee = dict(e, VF_SCRATCH=wd)
            try:
                r = subprocess.run([exe, fin, fout] + list(args), cwd=wd, env=ee, timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                raise ToolError("driver %s timed out" % exe)
            if r.returncode:
                raise ToolError("driver %s failed (%d): %s" % (exe, r.returncode, r.stdout[-2000:]))
            res, cur = {}, None
            with open(fout, encoding="latin-1") as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        ev = {"e": "garbled"}
                    if ev["e"] == "scenario":
                        cur = []
                        res[ev["id"]] = cur
                    elif cur is None:
                        raise ToolError("driver output without scenario")
                    elif ev["e"] != "end":
                        cur.append(ev)
            shutil.rmtree(wd, ignore_errors=True)
            return res

        out = {}
        with cf.ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(one, range(len(shards))):
                out.update(r)
        if len(out) != len(scenarios):
            raise ToolError("driver lost scenarios: %d of %d" % (len(out), len(scenarios)))
        return out

    # -- TLC

    def tlc(self, module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=(), tag="", deadlock=False):
        md = os.path.join(self.dir, "tlc-%s-%s" % (module, tag))
        os.makedirs(md, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cp = ":".join([TLAJAR] + [j for j in glob.glob(os.path.join(os.path.dirname(TLAJAR), "*.jar")) if j != TLAJAR])
        cmd = ["java", "-Xss256m", "-Xmx" + heap] + (["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]) + \
            ["-cp", cp, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE"] + \
            ([] if deadlock else ["-deadlock"]) + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            shutil.rmtree(md, ignore_errors=True)
            raise ToolError("TLC timed out on %s" % module)
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return r.returncode, r.stdout, gen, dist

    def model_check(self, module, cfg, tag="", env=None, workers=JOBS, heap="8g", timeout=800, min_states=1, extra=()):
        """Exhaustive design check. A violated property here is an error of the model, not of the code."""
        rc, out, gen, dist = self.tlc(module, cfg, env=env, workers=workers, heap=heap, timeout=timeout,
                                      tag=tag or cfg, extra=extra)
        if rc != 0 or dist < min_states:
            raise ToolError("TLC design check %s/%s failed (rc %d, %d states):\n%s" % (module, cfg, rc, dist, out[-6000:]))
        self.states += dist
        self.transitions += gen
        self.exhaustive_models.append("%s/%s: %d distinct states, %d transitions" % (module, cfg, dist, gen))
        return out

    def validate(self, module, cfg, results, shards=JOBS, env=None, timeout=800, heap="3g", max_reject=3, tag="v"):
        """results: {sid: [events]}. Returns {sid: (index of first unexplained event, tlc output)}."""
        ids = sorted(results, key=lambda s: -len(results[s]))
        groups = [[] for _ in range(min(shards, max(1, len(ids))))]
        loads = [0] * len(groups)
        for s in ids:
            i = loads.index(min(loads))
            groups[i].append(s)
            loads[i] += len(results[s]) + 2

        def one(gi):
            rejected = {}
            todo = list(groups[gi])
            st = tr = ntr = 0
            while todo and len(rejected) < max_reject:
                fn = os.path.join(self.dir, "trace-%s-%s-%d.ndjson" % (module, tag, gi))
                pos = []
                with open(fn, "w") as f:
                    n = 0
                    for s in todo:
                        pos.append((n + 1, s))
                        f.write('{"e":"scenario","id":%s}\n' % json.dumps(s))
                        for ev in results[s]:
                            f.write(json.dumps(ev) + "\n")
                        f.write('{"e":"end"}\n')
                        n += len(results[s]) + 2
                ee = dict(env or {}, TRACE=fn)
                rc, out, gen, dist = self.tlc(module, cfg, env=ee, heap=heap, timeout=timeout, tag="%s%d" % (tag, gi))
                if rc == 0 and dist:
                    st += dist
                    tr += gen
                    ntr += len(todo)
                    break
                m = re.search(r"REJECTED (\d+)", out)
                m2 = re.search(r"Error: Invariant (\w+) is violated", out)
                if m:
                    d = int(m.group(1)) + 1    # 1-based line that was not explained
                elif m2:
                    d = len(re.findall(r"^State \d+:", out, re.M)) - 1
                    d = max(d, 1)
                else:
                    # An evaluation error while explaining a line is reported with the state before it.
                    m3 = re.search(r"/\\ l = (\d+)(?![\s\S]*/\\ l = \d+)", out)
                    if not m3 or "Parsing or semantic analysis failed" in out:
                        raise ToolError("TLC failed on %s:\n%s" % (module, "\n".join(re.findall(r"Error:[\s\S]{0,800}", out)[:3]) + out[-1500:]))
                    if "evaluat" not in out and "Attempted" not in out:
                        raise ToolError("TLC failed on %s:\n%s" % (module, "\n".join(re.findall(r"Error:[\s\S]{0,800}", out)[:3]) + out[-1500:]))
                    d = int(m3.group(1))
                    raise ToolError("TLC evaluation error at line %d: %s\n%s" % (
                        d, open(fn).read().split("\n")[d - 1][:600],
                        "\n".join(x for x in out.split("\n") if not re.match(r"(\d+\. Line|/|\s|State)", x))[-2500:]))
                sid = [s for p, s in pos if p <= d][-1]
                start = [p for p, s in pos if s == sid][0]
                rejected[sid] = (d - start - 1, out)
                i = todo.index(sid)
                ntr += i
                st += d
                tr += d
                # the scenarios before it were accepted
                todo = todo[i + 1:]
            if os.path.exists(os.path.join(self.dir, "trace-%s-%s-%d.ndjson" % (module, tag, gi))):
                os.unlink(os.path.join(self.dir, "trace-%s-%s-%d.ndjson" % (module, tag, gi)))
            return rejected, st, tr, ntr

        rej = {}
        with cf.ThreadPoolExecutor(len(groups)) as ex:
            for r, st, tr, ntr in ex.map(one, range(len(groups))):
                rej.update(r)
                self.states += st
                self.transitions += tr
                self.traces += ntr
        self.steps += sum(len(v) for v in results.values())
        return rej

    def check(self, exe, scenarios, module, cfg, tag="s", env=None, drv_env=None, post=None, timeout=600, tlc_env=None,
              heap="3g", known=None, jobs=JOBS, confirm=2):
        """Runs scenarios, validates the logs, confirms rejections by re-running them. post maps events before validation."""
        if not scenarios:
            return {}
        results = self.run_driver(exe, scenarios, tag, env=drv_env, timeout=timeout, jobs=jobs)
        self.say("%s: ran %d scenarios, %d events" % (tag, len(results), sum(map(len, results.values()))))
        left_out = [s for s, ev in results.items() if ev and ev[0]["e"] == "skipped"]
        for s in left_out:
            del results[s]
        if left_out:
            self.say("%d scenarios were left out after time-outs of others" % len(left_out))
        proc = {s: (post(s, ev) if post else ev) for s, ev in results.items()}
        rej = self.validate(module, cfg, proc, env=tlc_env, heap=heap, tag=tag)
        self.say("%s: validated, %d rejected" % (tag, len(rej)))
        byid = dict(scenarios)
        if not self.samples or len(self.samples) < 3:
            s0 = scenarios[len(self.samples) % len(scenarios)][0]
            self.samples.append({"scenario": [l if isinstance(l, str) else " ".join(map(str, l)) for l in byid[s0]][:40],
                                 "events": proc[s0][:6]})
        for sid, (idx, out) in sorted(rej.items()):
            if len(self.violations) >= 4:
                self.say("further rejections are not reported")
                break
            # confirm: run again alone and validate again
            again = 0
            info = None
            for k in range(1 if left_out else confirm):
                r2 = self.run_driver(exe, [(sid, byid[sid])], tag + "-again", env=drv_env, timeout=timeout, jobs=1)
                p2 = {s: (post(s, ev) if post else ev) for s, ev in r2.items()}
                rj = self.validate(module, cfg, p2, env=tlc_env, heap=heap, shards=1, tag=tag + "again")
                if sid in rj:
                    again += 1
                    info = (p2[sid], rj[sid])
            if confirm and not again:
                # threads may be scheduled differently every time: the recorded execution is the evidence,
                # unless it is only about how long something took
                ev0 = proc[sid][idx] if 0 <= idx < len(proc[sid]) else {}
                if ev0.get("e") == "abnormal" and ev0.get("sig") in (9, 14, 15):
                    raise ToolError("time-out of scenario %s did not repeat" % sid)
                self.say("rejection of scenario %s did not repeat: depends on the schedule" % sid)
            evs, (i2, out2) = info if info else (proc[sid], (idx, out))
            self.violation(sid, byid[sid], evs, i2, out2, known=known, module=module)
            if left_out:
                break
        return proc

    # -- verdicts

    def violation(self, sid, lines, evs, idx, out, known=None, module=""):
        ev = evs[idx] if 0 <= idx < len(evs) else {"e": "end of scenario"}
        if known:
            k = known(sid, lines, evs, idx)
            if k:
                if k not in self.notes:
                    self.notes.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
                return
        path = os.path.join(self.replay, re.sub(r"[^\w.-]", "_", str(sid))[:80])
        with open(path, "w") as f:
            f.write("# property %s, scenario %s, specification %s\n" % (self.prop, sid, module))
            f.write("# first event the specification cannot explain (number %d):\n#   %s\n" % (idx + 1, json.dumps(ev)))
            if idx > 0 and idx - 1 < len(evs):
                f.write("# event before it:\n#   %s\n" % json.dumps(evs[idx - 1]))
            f.write("S %s\n" % sid)
            for ln in lines:
                f.write((ln if isinstance(ln, str) else " ".join(str(x) for x in ln)) + "\n")
            f.write("# --- recorded events\n")
            for e in evs:
                f.write("# " + json.dumps(e) + "\n")
            m = re.search(r"(Error:[\s\S]{0,3000})", out or "")
            if m:
                f.write("# --- TLC\n# " + m.group(1).replace("\n", "\n# ") + "\n")
        self.violations.append(path)
        print("rejected: %s event %d: %s" % (sid, idx + 1, json.dumps(ev)[:600]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def evidence(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   recorded_steps=self.steps, design_checks=self.exhaustive_models, samples=self.samples[:4])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level=level, coverage=cov, assumptions=self.assumptions, wall_s=round(self.elapsed(), 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        self.evidence()
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            self.say("%d violations" % len(self.violations))
            return 1
        self.say("held on everything explored: %d traces, %d steps, %d model states" % (self.traces, self.steps, self.states))
        return 0


def main(prop, fn):
    run = Run(prop)
    try:
        fn(run)
        rc = run.finish()
    except ToolError as e:
        print("CHECK ERROR (no verdict): %s" % e, flush=True)
        if run.violations:
            # a confirmed violation stands even if a later stage of the check failed
            rc = run.finish()
        else:
            shutil.rmtree(run.dir, ignore_errors=True)
            rc = 2
    return rc
