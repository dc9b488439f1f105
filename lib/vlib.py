"""Shared machinery of the checks: building TPIE and the drivers from /repo's working tree, running TLC
(exhaustive checking, simulation for test generation, trace validation), and judging recorded traces."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)

VARIANTS = {
    "plain": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++", flags="-O1 -DNDEBUG"),
    "asan": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++",
                 flags="-O1 -DNDEBUG -g1 -fsanitize=address -fno-omit-frame-pointer"),
}
LIBS = ["-lsnappy", "-llz4", "-lzstd", "-lpthread", "-ldl"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _hash_tree(root, subs):
    h = hashlib.sha256()
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            h.update(s.encode()); h.update(open(p, "rb").read())
        for d, ds, fs in sorted(os.walk(p)):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.islink(q) or not os.path.isfile(q):
                    continue
                h.update(os.path.relpath(q, root).encode())
                h.update(open(q, "rb").read())
    return h.hexdigest()[:16]


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        _tree_hash = _hash_tree(REPO, ["CMakeLists.txt", "cmake", "tpie"])
    return _tree_hash


class BuildError(Exception):
    pass


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_lib(variant="plain"):
    """Configure and build libtpie from /repo's working tree, out of tree. Returns the build directory."""
    v = VARIANTS[variant]
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, tree_hash()))
    lk = _lock("lib-" + variant)
    try:
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        for d in os.listdir(BUILD):
            if d.startswith("lib-%s-" % variant) and os.path.isdir(os.path.join(BUILD, d)):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ, CC=v["cc"], CXX=v["cxx"])
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
            env.pop(k, None)
        cmd = ["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
               "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_CXX_FLAGS_RELEASE=" + v["flags"], "-DTPIE_USE_GIT_COMMIT=OFF",
               "-DTPL_LOGGING=ON", "-DTPIE_PARALLEL_SORT=ON", "-DTPIE_USE_SNAPPY=ON", "-DTPIE_USE_LZ4=ON",
               "-DTPIE_USE_ZSTD=ON", "-DCOMPILE_TEST=OFF", "-Wno-dev"]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cmake failed:\n" + p.stdout[-4000:])
        p = subprocess.run(["ninja", "-C", out, "tpie"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("library build failed:\n" + p.stdout[-6000:])
        open(os.path.join(out, "DONE"), "w").close()
        return out
    finally:
        lk.close()


def build_driver(name, variant="plain", defs=(), extra=(), std="c++17"):
    """Compile /verif/drivers/<name>.cpp against the library. Returns the executable."""
    lib = build_lib(variant)
    v = VARIANTS[variant]
    srcs = [os.path.join(DRIVERS, name + ".cpp")]
    h = hashlib.sha256()
    for f in sorted(os.listdir(DRIVERS)):
        if f.endswith(".h"):
            h.update(f.encode()); h.update(open(os.path.join(DRIVERS, f), "rb").read())
    for s in srcs:
        h.update(open(s, "rb").read())
    h.update(repr((sorted(defs), list(extra), std, variant)).encode())
    exe = os.path.join(lib, "drv-%s-%s" % (name, h.hexdigest()[:12]))
    lk = _lock("drv-%s-%s" % (name, variant))
    try:
        if os.path.exists(exe):
            return exe
        cmd = [v["cxx"], "-std=" + std, "-w"] + v["flags"].split() + \
              ["-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-D_LARGEFILE64_SOURCE"] + ["-D" + d for d in defs] + \
              ["-I", lib, "-I", REPO, "-I", DRIVERS] + srcs + ["-o", exe + ".tmp", os.path.join(lib, "tpie", "libtpie.a")] + \
              list(extra) + LIBS
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("driver %s does not compile:\n%s" % (name, p.stdout[-6000:]))
        os.rename(exe + ".tmp", exe)
        return exe
    finally:
        lk.close()


class TLCResult:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"VDIAM (\d+) (\d+)", out)
        self.diam = int(m.group(1)) if m else None
        self.length = int(m.group(2)) if m else None
        self.errored = "Error:" in out
        self.prefix = max([int(x) for x in re.findall(r"^State (\d+):", out, re.M)] or [0])


def tlc(module, cfg, env=None, workers=1, args=(), timeout=600, heap="1500m", scratch=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch or scratch_dir())
    gc = ["-XX:+UseParallelGC"] if workers != 1 else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]
    cmd = ["timeout", "-k", "5", str(int(timeout)), "java"] + gc + ["-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout, p.returncode, time.time() - t)


_scratch = None


def scratch_dir():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        # drop leftovers of runs that are gone
        for d in os.listdir(base):
            m = re.match(r"run-(\d+)-", d)
            if m and not os.path.exists("/proc/" + m.group(1)):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        _scratch = tempfile.mkdtemp(prefix="run-%d-" % os.getpid(), dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class ToolError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.trace_states = self.traces = self.events = 0
        self.violations, self.known = [], []
        self.samples, self.parts, self.kinds = [], [], {}
        self.assumptions = []
        self.extra = {}
        self.rejected_unrepeated = 0
        self._replay_n = 0
        d = os.path.join(VERIF, "replays")
        for f in os.listdir(d) if os.path.isdir(d) else []:
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(d, f))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- specification side -------------------------------------------------------------------------------------
    def model_check(self, module, cfg, workers=4, timeout=None, heap="6g", expect_states=1, args=()):
        r = tlc(module, cfg, workers=workers, timeout=timeout or self.n(240, 1500), heap=heap, args=args)
        if r.rc != 0 or "No error has been found" not in r.out:
            # The specification does not depend on /repo: a failure here is an error of the check.
            raise ToolError("TLC on %s/%s: rc=%d\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        if r.distinct < expect_states:
            raise ToolError("TLC on %s/%s explored only %d states" % (module, cfg, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append("%s[%s]: %d distinct states, %d transitions, %.1fs" % (module, cfg, r.distinct, r.generated, r.secs))
        return r

    def simulate(self, module, cfg, num, depth, seed=None, timeout=120):
        """Behaviours of the specification: every printed line "VGEN <json>" is one."""
        r = tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed or self.seed)],
                timeout=timeout)
        res = []
        for l in r.out.splitlines():
            m = re.match(r'^"?VGEN (.*?)"?$', l)
            if m:
                s = m.group(1)
                try:
                    res.append(json.loads(s))
                except ValueError:
                    res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
        if not res:
            raise ToolError("simulation of %s/%s produced nothing\n%s" % (module, cfg, r.out[-3000:]))
        self.parts.append("%s[%s]: %d behaviours generated" % (module, cfg, len(res)))
        return res

    # ---- implementation side ------------------------------------------------------------------------------------
    def run_driver(self, exe, frm, to, args=(), out=None, timeout=None, env=None, seed=None):
        sd = tempfile.mkdtemp(prefix="drv-", dir=scratch_dir())
        out = out or os.path.join(sd, "trace.ndjson")
        e = dict(os.environ, TMPDIR=os.path.join(sd, "tmp"),
                 ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0:abort_on_error=0:handle_abort=0",
                 UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
        e.update(env or {})
        os.makedirs(e["TMPDIR"], exist_ok=True)
        cmd = [exe, "--seed", str(self.seed if seed is None else seed), "--from", str(frm), "--to", str(to),
               "--dir", os.path.join(sd, "work"), "--out", out] + [str(a) for a in args]
        errf = open(os.path.join(sd, "stderr"), "wb")
        try:
            p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=errf, stderr=errf,
                               timeout=timeout or self.n(400, 3000))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1000
        errf.close()
        return rc, out, sd, cmd

    def validate(self, module, cfg, trace, timeout=None, heap="1500m"):
        """None if the trace is a behaviour of the specification, else the 1-based index of the first event that is not."""
        n = sum(1 for _ in open(trace, "rb"))
        if n == 0:
            return None, n
        r = tlc(module, cfg, env={"TRACE": trace}, timeout=timeout or self.n(400, 2400), heap=heap)
        self.trace_states += r.distinct
        if r.diam is not None and not r.errored:
            if r.length != n:
                raise ToolError("trace length mismatch %s vs %s\n%s" % (r.length, n, r.out[-2000:]))
            return (None if r.diam > n else r.diam), n
        if r.prefix > 0 and r.rc not in (124, 137):
            # The specification could not even be evaluated on this event, e.g. a field has an impossible value.
            return r.prefix, n
        raise ToolError("TLC on trace %s with %s: rc=%d\n%s" % (trace, module, r.rc, r.out[-3000:]))

    def _segment(self, lines, idx):
        """The trace (from its "new" event) that contains the 1-based event idx; and the trace's number."""
        i = min(idx, len(lines)) - 1
        s = i
        while s > 0 and '"e":"new"' not in lines[s]:
            s -= 1
        e = i + 1
        while e < len(lines) and '"e":"new"' not in lines[e]:
            e += 1
        try:
            t = json.loads(lines[s]).get("t", None)
        except ValueError:
            t = None
        return s, e, t

    def conform(self, exe, module, cfg, count, per_shard, args=(), label="", base=0, env=None, timeout=None,
                seed=None, workers=None, max_events=None, classify=None, keep_sample=True, heap="1500m"):
        """Run traces base..base+count through the driver in shards and validate each shard's log against the trace spec.
        A rejection is confirmed by running the same trace again."""
        shards = []
        i = base
        while i < base + count:
            shards.append((i, min(i + per_shard, base + count)))
            i += per_shard
        stop = [False]

        def work(sh):
            if stop[0]:
                return None
            rc, out, sd, cmd = self.run_driver(exe, sh[0], sh[1], args, env=env, timeout=timeout, seed=seed)
            res = dict(shard=sh, rc=rc, out=out, sd=sd, cmd=cmd, bad=None, n=0)
            if rc not in (0, -1000):
                res["fail"] = "driver exit %d: %s" % (rc, open(os.path.join(sd, "stderr"), errors="replace").read()[-2000:])
            if not os.path.exists(out):
                return res
            res["bad"], res["n"] = self.validate(module, cfg, out, heap=heap)
            if res["bad"]:
                stop[0] = True
            return res

        with cf.ThreadPoolExecutor(workers or NPROC) as ex:
            results = [r for r in ex.map(work, shards) if r]
        tot_ev = 0
        for r in results:
            if r.get("fail"):
                raise ToolError(r["fail"])
            if r["rc"] == -1000:
                raise ToolError("driver shard timed out: %s" % r["cmd"])
            tot_ev += r["n"]
            with open(r["out"], errors="replace") as f:
                lines = f.read().splitlines()
            for l in lines:
                m = re.match(r'\{"e":"([^"]+)"', l)
                if m:
                    self.kinds[m.group(1)] = self.kinds.get(m.group(1), 0) + 1
            self.traces += sum(1 for l in lines if '"e":"new"' in l)
            if keep_sample and len(self.samples) < 4 and lines:
                s, e, t = self._segment(lines, 1)
                self.samples.append({"part": label, "trace": t, "events": lines[s:min(e, s + 12)]})
                keep_sample = False
            if r["bad"] and len(self.violations) < 6:
                self._confirm(exe, module, cfg, r, lines, args, label, env, seed, classify)
            shutil.rmtree(r["sd"], ignore_errors=True)
        self.events += tot_ev
        self.parts.append("%s: %d traces, %d events validated against %s" % (label or os.path.basename(exe), count, tot_ev, module))
        return results

    def _confirm(self, exe, module, cfg, r, lines, args, label, env, seed, classify):
        s, e, t = self._segment(lines, r["bad"])
        if t is None:
            raise ToolError("rejected event outside any trace: %s" % lines[max(0, r["bad"] - 3):r["bad"] + 1])
        for attempt in range(3):
            rc, out, sd, cmd = self.run_driver(exe, t, t + 1, args, env=env, timeout=300, seed=seed)
            bad, n = self.validate(module, cfg, out)
            if bad:
                seg = open(out, errors="replace").read().splitlines()
                self._report(label, module, cmd, t, seg, bad, sd, classify)
                return
        # once more with everything that ran before it in the shard
        rc, out, sd, cmd = self.run_driver(exe, r["shard"][0], r["shard"][1], args, env=env, timeout=900, seed=seed)
        bad, n = self.validate(module, cfg, out)
        if bad:
            allv = open(out, errors="replace").read().splitlines()
            s2, e2, t2 = self._segment(allv, bad)
            self._report(label, module, cmd, t2, allv[s2:e2], bad - s2, sd, classify)
            return
        self.rejected_unrepeated += 1
        log("rejection not repeated (trace %s, %s): %s" % (t, label, lines[s:r["bad"]][-3:]))

    def _report(self, label, module, cmd, t, seg, bad, sd, classify):
        ev = seg[bad - 1] if bad - 1 < len(seg) else "(end of trace)"
        if classify:
            k = classify(seg, bad)
            if k:
                self.known.append(k)
                return
        path = self.replay_path()
        with open(path, "w") as f:
            f.write("property %s, part %s\n" % (self.prop, label))
            f.write("the recorded trace %s is not a behaviour of specs/%s.tla: event %d is rejected\n" % (t, module, bad))
            f.write("rejected: %s\n\ncommand: %s\n\ntrace up to the rejected event:\n" % (ev, " ".join(cmd)))
            for l in seg[max(0, bad - 400):bad]:
                f.write(l + "\n")
            try:
                f.write("\nstderr:\n" + open(os.path.join(sd, "stderr"), errors="replace").read()[-6000:])
            except OSError:
                pass
            for i, a in enumerate(cmd):
                if a == "--script" and i + 1 < len(cmd):
                    try:
                        sc = open(cmd[i + 1]).read().split("trace")
                        f.write("\nscript:\n" + sc[t + 1] if t + 1 < len(sc) else "")
                    except (OSError, IndexError):
                        pass
        self.violation(path, "event %d of trace %s (%s): %s" % (bad, t, label, ev[:300]))

    def replay_path(self):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        self._replay_n += 1
        return os.path.join(d, "%s-%d.txt" % (self.prop, self._replay_n))

    def violation(self, path, what):
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what, flush=True)

    # ---- end ----------------------------------------------------------------------------------------------------
    def finish(self):
        cov = dict(states=self.states + self.trace_states, transitions=self.transitions + self.events,
                   traces_validated_against_impl=self.traces,
                   spec_states=self.states, trace_states=self.trace_states, events=self.events,
                   event_kinds=self.kinds, parts=self.parts, samples=self.samples or [self.parts])
        cov.update(self.extra)
        if self.rejected_unrepeated:
            cov["rejections_not_repeated"] = self.rejected_unrepeated
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        log("%s %s: %d spec states, %d traces, %d events, %d violations, %.1fs" %
            (self.prop, self.tier, self.states, self.traces, self.events, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def write_scripts(path, scripts):
    with open(path, "w") as f:
        for i, ops in enumerate(scripts):
            f.write("trace %d\n" % i)
            for o in ops:
                f.write(o + "\n")
