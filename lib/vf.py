"""Engine shared by all checks.

  * compiles the sources of /repo's working tree together with a harness,
  * runs TLC on the specifications in /verif/spec (exhaustive models and trace specs),
  * turns the transitions TLC prints into scripts that cover every transition of the model,
  * lets a harness execute the scripts against the real code, and
  * lets TLC decide whether the recorded traces are behaviours of the specification.
"""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src/icl_core/src")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

DEFS = ("-DNDEBUG -DBOOST_ALL_NO_LIB -DBOOST_ALL_DYN_LINK -DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ "
        "-D_IC_BUILDER_ENABLE_BASE_TYPES_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_").split()
INCS = ["-I" + SRC, "-I/opt/vp/compat", "-isystem", "/usr/include/eigen3"]
ICS = {"BOOST": 1, "BOOST_DATE_TIME": 1, "BOOST_REGEX": 1, "EIGEN3": 1, "EIGEN": 1, "HAS_TIME_H": 1, "HAS_SYS_TIME_H": 1,
       "ICL_CORE": 1, "ICL_CORE_CONFIG": 1, "ICL_CORE_LOGGING": 1, "ICL_CORE_THREAD": 1, "ICL_CORE_PLUGIN": 1,
       "ICL_CORE_DISPATCH": 1, "ICL_CORE_PERFORMANCE_MONITOR": 1, "TINYXML": 1, "PTHREAD": 1, "BOOST_FILESYSTEM": 1}


class ToolError(Exception):
    pass


class Violated(Exception):
    """Raised after the first violation has been reported: the check ends."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_children = set()


def run_proc(cmd, timeout, stdout=None, stderr=None, env=None, cwd=None, stdin=None):
    """Run in its own process group; kill the whole group on timeout. Returns (rc or None on timeout)."""
    p = subprocess.Popen(cmd, stdout=stdout, stderr=stderr, env=env, cwd=cwd, stdin=stdin or subprocess.DEVNULL,
                         start_new_session=True)
    _children.add(p)
    try:
        p.wait(timeout=timeout)
        return p.returncode
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        _children.discard(p)


LIBS = {}


def lib_sources(lib):
    """The source files of one library of /repo, as its CMakeLists.txt lists them for this platform."""
    if lib in LIBS:
        return LIBS[lib]
    d = os.path.join(SRC, lib)
    out = []
    skip = re.compile(r"(Lxrt|Win32|win32|QNX|Darwin|os_lxrt|test_suite|TestListener|example_usage|/uls/|PeriodicThreadImplEmulate)")
    skip_names = {"icl_core_logging": {"ScopedSemaphore.cpp_x"}, }
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and not skip.search(f) and f not in skip_names.get(lib, ()):
            out.append(os.path.join(d, f))
    LIBS[lib] = out
    return out


def lib_defs(lib):
    """Preprocessor symbols icmaker passes when it builds a library."""
    common = ["-D_IC_BUILDER_" + k + "_" for k in ICS]
    extra = {"icl_core": ["-D_IC_BUILDER_ZLIB_", "-DICL_CORE_EXPORTS_X"],
             "icl_core_logging": ["-D_IC_BUILDER_ZLIB_", "-D_IC_BUILDER_SQLITE3_", "-D_IC_BUILDER_SQLite3_", "-D_IC_BUILDER_SQLITE_"],
             }
    return common + extra.get(lib, ["-D_IC_BUILDER_ZLIB_", "-D_IC_BUILDER_SQLITE3_", "-D_IC_BUILDER_SQLite3_"])


_hash_cache = {}


def tree_hash():
    """Hash of every header in /repo and every header in /verif/harness."""
    if "t" in _hash_cache:
        return _hash_cache["t"]
    h = hashlib.sha256()
    for root in (SRC, HARN, "/opt/vp/compat"):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".ipp")):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    _hash_cache["t"] = h.hexdigest()
    return _hash_cache["t"]


def java_env():
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_validated": 0, "model_transitions_replayed": 0, "tlc_runs": 0}
        self.actions = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.level = "model_checking"
        self.bdir = os.path.join(VERIF, ".build")
        try:
            os.makedirs(self.bdir, exist_ok=True)
            t = os.path.join(self.bdir, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
        except OSError:
            self.bdir = os.path.join(self.scratch, "build")
            os.makedirs(self.bdir, exist_ok=True)
        atexit.register(self.cleanup)
        self.notes = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def left(self, budget):
        """Seconds left of a wall-clock budget measured from the start of the check."""
        return budget - (time.time() - self.t0)

    def cleanup(self):
        for p in list(_children):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def compile(self, name, harness, libs=(), flags=(), link=(), cxx="g++", asan=True, opt="-O1", lib_flags=None, plain=(), shared=False, aside=()):
        """Compile /repo's library sources and the harness files into one executable; returns its path.

        harness: file names in /verif/harness. libs: names of /repo libraries. lib_flags: flags for /repo sources only.
        plain: harness files compiled without `lib_flags`/sanitizer (the scheduler). aside: further libraries that are
        needed but not under test: compiled as fast as possible."""
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if asan else []
        base = [opt, "-g1", "-std=gnu++14", "-w", "-fPIC"] + DEFS + INCS + ["-I" + HARN] + list(flags)
        units = []
        for l in libs:
            for s in lib_sources(l):
                units.append((s, base + san + lib_defs(l) + list(lib_flags or [])))
        for hsrc in harness:
            p = hsrc if hsrc.startswith("/") else os.path.join(HARN, hsrc)
            units.append((p, base + san + lib_defs("all") + list(lib_flags or [])))
        for hsrc in plain:
            p = os.path.join(HARN, hsrc)
            units.append((p, base + lib_defs("all")))
        for l in aside:
            for x in lib_sources(l):
                units.append((x, ["-O0"] + base[1:] + lib_defs(l)))
        odir = os.path.join(self.bdir, "obj")
        os.makedirs(odir, exist_ok=True)
        th = tree_hash()
        objs, jobs = [], []
        for s, fl in units:
            with open(s, "rb") as fh:
                content = fh.read()
            k = hashlib.sha256((th + "\0" + s + "\0" + cxx + "\0" + " ".join(fl)).encode() + b"\0" + content).hexdigest()[:32]
            o = os.path.join(odir, k + ".o")
            objs.append(o)
            if not os.path.exists(o):
                tmp = o + ".%d.tmp.o" % os.getpid()
                jobs.append((o, tmp, [cxx] + fl + ["-c", s, "-o", tmp], b"Regex" not in content and b"regex" not in content))
        jobs.sort(key=lambda j: j[3])          # the slow ones first

        def one(j):
            o, tmp, cmd, _ = j
            r = sh(cmd)
            if r.returncode != 0:
                return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
            os.replace(tmp, o)
            return None
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise ToolError("compilation failed:\n" + errs[0])
        out = os.path.join(self.scratch, name)
        cmd = [cxx] + san + list(flags) + ["-o", out] + objs + list(link) + \
              ["-lboost_date_time", "-lboost_regex", "-lboost_filesystem", "-lboost_system", "-ltinyxml", "-lsqlite3", "-lz", "-lpthread", "-ldl"]
        if shared:
            cmd.insert(1, "-shared")
        r = sh(cmd)
        if r.returncode != 0:
            raise ToolError("link failed:\n%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        return out

    def compile_conc(self, name, harness, libs=(), flags=(), instrument=True, aside=("icl_core_logging", "icl_core_config")):
        """Executable whose threads run under /verif/harness/vsched.cpp; /repo's code is instrumented at loads and stores."""
        rt = subprocess.run(["clang++", "-print-runtime-dir"], capture_output=True, text=True).stdout.strip()
        import glob
        so = sorted(glob.glob(rt + "/libclang_rt.asan*x86_64.so") + glob.glob("/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"))
        if not so:
            raise ToolError("no shared sanitizer runtime")
        san = ["-fsanitize=address", "-shared-libasan", "-fno-omit-frame-pointer", "-fsanitize-address-use-after-return=never"]
        return self.compile(name, harness, libs=libs, aside=aside, flags=list(flags) + ["-DCONC"], cxx="clang++", asan=False, opt="-O1",
                            lib_flags=san + (["-fsanitize-coverage=trace-pc,trace-loads,trace-stores"] if instrument else []),
                            plain=["vsched.cpp"], link=["-fsanitize=address", "-shared-libasan", "-rdynamic", "-Wl,-rpath," + os.path.dirname(so[0])])

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, workers, timeout, env=None, extra=(), mem="4g", dfs=False, gc="-XX:+UseParallelGC"):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        outp = os.path.join(md, "out.txt")
        e = java_env()
        e.update(env or {})
        cmd = ["java", gc, "-XX:TieredStopAtLevel=1" if "Serial" in gc else "-XX:-UsePerfData", "-Xmx" + mem, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % int(timeout + 5)]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(md, "m"),
                "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        with open(outp, "w") as f:
            rc = run_proc(cmd, timeout + 30, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC)
        self.cov["tlc_runs"] += 1
        with open(outp, errors="replace") as f:
            out = f.read()
        return rc, out, outp

    @staticmethod
    def _stats(out):
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out):
            pass
        return (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else (0, 0, 0)

    @staticmethod
    def _edges(outp):
        edges = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    try:
                        d = json.loads(json.loads(line))
                    except ValueError:
                        continue
                    if "E" in d:
                        edges.append(d["E"])
        return edges

    def model(self, module, cfg=None, workers=None, timeout=600, want_edges=False, must=True, extra=(), mem="8g", expect_actions=()):
        """Exhaustive (or -simulate) TLC run over a model. The spec's own invariants must hold."""
        cfg = cfg or module + ".cfg"
        rc, out, outp = self._tlc(module + ".tla", cfg, workers or NCPU, timeout, extra=["-coverage", "60"] + list(extra), mem=mem)
        gen, dist, left = self._stats(out)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        acts = {}
        for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out, re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(4)))
        edges = self._edges(outp) if want_edges else None
        for d in edges or ():
            acts[d["e"]["op"]] = acts.get(d["e"]["op"], 0) + 1
        self.actions.setdefault(cfg, {}).update(acts)
        if rc != 0:
            raise ToolError("TLC on %s/%s: exit %s\n%s" % (module, cfg, rc, out[-3000:]))
        if must and left != 0:
            raise ToolError("TLC on %s/%s did not finish" % (module, cfg))
        for a in expect_actions:
            if acts.get(a, 0) == 0:
                raise ToolError("TLC on %s/%s: action %s never taken (vacuous model)" % (module, cfg, a))
        return {"generated": gen, "distinct": dist, "edges": edges, "out": out}

    # ---------------------------------------------------------------- scripts
    def edge_cover(self, edges, init_op, max_len=400, limit=None):
        """edges: list of {s, t, e} records printed by TLC. Returns episodes (lists of op records), every edge covered."""
        adj, seen = {}, set()
        for d in edges:
            s, t = json.dumps(d["s"], sort_keys=True), json.dumps(d["t"], sort_keys=True)
            k = (s, json.dumps(d["e"], sort_keys=True), t)
            if k in seen:
                continue
            seen.add(k)
            adj.setdefault(s, []).append((d["e"], t))
            adj.setdefault(t, [])
        self.cov["model_transitions_replayed"] += len(seen)
        unc = {s: list(range(len(v))) for s, v in adj.items()}
        total = len(seen)
        inits = init_op(adj)          # {state_key: op record that creates it}
        eps = []
        dist_cache = {}

        def path_to_uncovered(s):
            if unc.get(s):
                return []
            from collections import deque
            q, prev = deque([s]), {s: None}
            while q:
                x = q.popleft()
                for i, (e, t) in enumerate(adj.get(x, ())):
                    if t not in prev:
                        prev[t] = (x, e)
                        if unc.get(t):
                            p, y = [], t
                            while prev[y]:
                                p.append((prev[y][1], y))
                                y = prev[y][0]
                            return p[::-1]
                        q.append(t)
            return None
        covered = 0
        while covered < total:
            progress = False
            for s0, op in inits.items():
                if path_to_uncovered(s0) is None:
                    continue
                ep, s = [op], s0
                while len(ep) < max_len:
                    p = path_to_uncovered(s)
                    if p is None:
                        break
                    for e, t in p:
                        ep.append(e)
                        s = t
                    i = unc[s].pop()
                    e, t = adj[s][i]
                    ep.append(e)
                    s = t
                    covered += 1
                    progress = True
                eps.append(ep)
            if not progress:
                break
        if covered < total:
            raise ToolError("edge cover: %d of %d transitions unreachable" % (total - covered, total))
        return eps

    @staticmethod
    def fmt(op):
        def v(x):
            if isinstance(x, bool):
                return "1" if x else "0"
            if isinstance(x, (list, tuple)):
                return ",".join(v(y) for y in x)
            if isinstance(x, dict):
                return "{}"
            return str(x).replace(" ", "%20")
        return " ".join([op["op"]] + ["%s=%s" % (k, v(x)) for k, x in op.items() if k != "op"])

    def write_script(self, name, episodes):
        p = os.path.join(self.scratch, name)
        with open(p, "w") as f:
            for ep in episodes:
                for op in ep:
                    f.write((op if isinstance(op, str) else self.fmt(op)) + "\n")
        return p

    # ---------------------------------------------------------------- execution
    def execute(self, binary, args, timeout=120, env=None, cwd=None, trace_name=None):
        """Run a harness; its trace goes to a file given as last argument. A crash or hang becomes a trace line."""
        tr = os.path.join(self.scratch, trace_name or ("trace_%d.ndjson" % len(os.listdir(self.scratch))))
        if os.path.exists(tr):
            os.unlink(tr)
        errp = tr + ".err"
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TZ": "UTC", "LC_ALL": "C.UTF-8"})
        e.update(env or {})
        with open(errp, "w") as ef:
            rc = run_proc([binary] + [str(a) for a in args] + [tr], timeout, stdout=ef, stderr=subprocess.STDOUT, env=e, cwd=cwd or self.scratch)
        err = open(errp, errors="replace").read()
        if not os.path.exists(tr):
            open(tr, "w").close()
        if rc == 71:
            raise ToolError("harness failed by itself: " + err[-2000:])
        if rc != 0:
            with open(tr, "rb") as f:
                data = f.read()
            if data and not data.endswith(b"\n"):
                data = data[:data.rfind(b"\n") + 1]
            what = "hang" if rc in (None, -27) else "crash"
            info = "timeout" if rc in (None, -27) else ("exit %d" % rc)
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|terminate called[^\n]*(\n +what[^\n]*)?)", err)
            if m:
                info += ": " + m.group(1)
            with open(tr, "wb") as f:
                f.write(data)
                f.write((json.dumps({"op": what, "info": info[:300]}) + "\n").encode())
        return tr, rc, err

    # ---------------------------------------------------------------- trace validation
    def split(self, trace, parts, is_start=lambda d: d.get("op") == "new"):
        with open(trace, errors="replace") as f:
            lines = f.readlines()
        if not lines:
            return []
        starts = [i for i, l in enumerate(lines) if is_start(json.loads(l))]
        if not starts or starts[0] != 0:
            starts = [0] + starts
        want = max(1, len(lines) // parts)
        cuts, last = [0], 0
        for i in starts[1:]:
            if i - last >= want:
                cuts.append(i)
                last = i
        files = []
        for a, b in zip(cuts, cuts[1:] + [len(lines)]):
            p = "%s.part%d" % (trace, len(files))
            with open(p, "w") as f:
                f.writelines(lines[a:b])
            files.append((p, a, b))
        self.cov["events_validated"] += len(lines)
        self.cov["traces_validated_against_impl"] += len(starts)
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append([l.strip()[:400] for l in lines[:4]])
        return files

    def validate(self, module, trace, cfg=None, timeout=600, parts=None, mem="3g", dfs=False, extra_env=None, register=False, is_start=None):
        """TLC decides whether every line of the trace is a step of the specification.
        Returns None (accepted) or a dict describing the first rejected line."""
        cfg = cfg or module + ".cfg"
        kw = {"is_start": is_start} if is_start else {}
        files = self.split(trace, parts or NCPU, **kw)

        def one(x):
            p, a, b = x
            env = {"TRACE": p}
            env.update(extra_env or {})
            rc, out, _ = self._tlc(module + ".tla", cfg, 1, timeout, env=env, mem=mem, dfs=dfs, gc="-XX:+UseSerialGC")
            m = re.search(r'<<"TRACE-ACCEPTED", (\d+)>>', out)
            if rc == 0 and m and int(m.group(1)) == b - a:
                return ("ok", self._stats(out)[1])
            if self._stats(out)[2] and "Error:" not in out:
                return ("err", p, rc, "out of time: " + out)
            m = re.search(r'<<"TRACE-REJECTED", (\d+)>>', out)
            if m:
                return ("rej", p, a, int(m.group(1)), out)
            # an event TLC cannot even evaluate (a crash line, a value of another type) is not one the specification allows
            m = re.findall(r"^/\\ l = (\d+)$", out, re.M)
            if m and "The error occurred when TLC was evaluating" in out:
                return ("rej", p, a, int(m[-1]), out)
            return ("err", p, rc, out)
        bad = None
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for x in ex.map(one, files):
                if x[0] == "ok":
                    self.cov["states"] += x[1]
                    self.cov["transitions"] += x[1]
                elif x[0] == "err":
                    raise ToolError("TLC failed on trace %s (%s): exit %s\n%s" % (x[1], module, x[2], x[3][-3000:]))
                elif bad is None:
                    _, p, a, n, out = x
                    lines = open(p, errors="replace").read().splitlines()
                    # n = number of accepted lines; the rejected line is n+1 (1-based) of this part
                    st = n
                    while st > 0 and not (is_start or (lambda d: d.get("op") == "new"))(json.loads(lines[st])):
                        st -= 1
                    bad = {"line": a + n + 1, "event": lines[n] if n < len(lines) else "<end of trace>", "history": lines[st:n + 1], "module": module}
        return bad

    # ---------------------------------------------------------------- verdicts
    def known_findings(self):
        """Open findings of this property: {key: description}."""
        p = os.path.join(VERIF, "known_findings.txt")
        out = {}
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def known(self, key):
        d = self.known_findings().get(key)
        if d is None:
            raise ToolError("no known finding %s listed" % key)
        self.known_hits.append("%s (%s)" % (d, key))

    def violation(self, what, payload=None, files=()):
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        d = os.path.join(rd, "%s_%d" % (self.pid, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump({"property": self.pid, "what": what, "payload": payload, "tier": self.tier, "seed": self.seed}, f, indent=1)
        for x in files:
            if os.path.exists(x):
                shutil.copy(x, d)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, d))
        print("  " + what[:1500])
        sys.stdout.flush()

    def conform(self, module, binary, script, cfg=None, timeout=120, tlc_timeout=600, harness_args=(), env=None, parts=None, register=False, label="", mem="3g"):
        """Execute a script on the real code, validate the trace; a rejection is reported only if a re-run repeats it."""
        for attempt in (0, 1):
            tr, rc, err = self.execute(binary, list(harness_args) + [script], timeout=timeout, env=env,
                                       trace_name="%s%s_%d.ndjson" % (os.path.basename(script), label, attempt))
            self.cov["schedules"] = self.cov.get("schedules", 0) + sum(int(x) for x in re.findall(r"^schedules (\d+)$", err, re.M))
            bad = self.validate(module, tr, cfg=cfg, timeout=tlc_timeout, parts=parts, register=register, mem=mem)
            if bad is None:
                if attempt == 1:
                    print("NOTE: a rejection of %s was not repeated on the re-run; not reported" % label)
                return True
        bad["stderr"] = err[-3000:]
        self.violation("%s: the code's behaviour is not one the specification %s allows: %s" % (label or script, module, bad["event"][:700]),
                       bad, [script, tr])
        raise Violated()

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        self.cov["action_coverage"] = self.actions
        self.cov.update(self.notes)
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            return 1
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["events_validated"], time.time() - self.t0))
        return 0
