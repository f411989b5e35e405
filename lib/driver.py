"""Common driver of the checks: builds harnesses from the current tree of the repository, runs them in shards,
collects observations, decides the verdict (0 held, 1 violated, 2 no answer) and writes the evidence file."""
import atexit, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VENV_PY = "/opt/vp/venv/bin/python"
NPROC = max(1, min(8, os.cpu_count() or 1))

SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FLAVOURS = {
    # as users build it
    "rel": ["-O2", "-DNDEBUG"],
    # debug assertions of the code itself + libstdc++ assertions + ASan/UBSan/LSan
    "dbg": SAN + ["-D_GLIBCXX_ASSERTIONS", "-DCFT_ASSERT_FAIL_THROWS"],
    # sanitizers without the code's own assertions (what a release user would hit)
    "asan": SAN + ["-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    # undefined behaviour only: failing allocations throw
    "ubsan": ["-g", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-g", "-O1", "-DNDEBUG", "-fsanitize=thread"],
    # assertions only, fast
    "chk": ["-O2", "-D_GLIBCXX_ASSERTIONS", "-DCFT_ASSERT_FAIL_THROWS"],
    # deterministic work counter: one call per executed basic block
    "bb": ["-O1", "-DNDEBUG", "-DVERIF_BB", "-fsanitize-coverage=trace-pc"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
}


class Harness(Exception):
    pass


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.repo = REPO
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if not self.thorough else 7200)
        base = os.environ.get("VERIF_SCRATCH")
        self.tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=base))
        atexit.register(shutil.rmtree, self.tmp, True)
        self.lock = threading.Lock()
        self.evals = 0
        self.dist = set()
        self.counters, self.maxima, self.samples = {}, {}, []
        self.violations, self.known, self.errors, self.notes = [], [], [], []
        self.stop = threading.Event()
        self.extra = {}
        self._known_list = self._load_known()
        self.procs = set()
        self.unbuilt = set()
        self.vals = {}

    # ------------------------------------------------------------------ known findings
    def _load_known(self):
        f, out = VERIF / "KNOWN_FINDINGS.txt", []
        if f.exists():
            for line in f.read_text().splitlines():
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else quick

    # ------------------------------------------------------------------ building
    def build(self, *specs):
        """specs: (name, source, flavour or list of flags, extra flags). All are compiled in parallel."""
        def one(spec):
            name, src, fl = spec[0], spec[1], spec[2]
            extra = list(spec[3]) if len(spec) > 3 else []
            cc = "g++"
            if extra and extra[0] in ("g++", "clang++", "clang++-18"):
                cc = extra.pop(0)
            flags = FLAVOURS[fl] if isinstance(fl, str) else list(fl)
            libs = [x for x in extra if x.startswith("-l")] or ["-lfmt"]
            extra = [x for x in extra if not x.startswith("-l")]
            std = [] if any(x.startswith("-std=") for x in extra) else ["-std=c++11"]
            cmd = [cc] + std + flags + ["-w", f"-I{REPO}/src", f"-I{VERIF}/lib"] + extra + \
                  [str(src if str(src).startswith("/") else VERIF / "harness" / src), "-o", str(self.tmp / name)] + libs + ["-pthread"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0 and not str(src).startswith("/") and "VT_NO_LOCAL" in (VERIF / "harness" / src).read_text():
                # internal classes are observed directly only while they are there
                r = subprocess.run(cmd[:1] + ["-DVT_NO_LOCAL"] + cmd[1:], capture_output=True, text=True)
                if r.returncode == 0:
                    self.count("internal_classes_not_observed")
            return name, r, cmd
        with ThreadPoolExecutor(NPROC) as ex:
            for name, r, cmd in ex.map(one, specs):
                if r.returncode != 0 and any(x.startswith("-DVT_") for x in cmd):
                    self.unbuilt.add(name)  # another choice of types: the main one decides
                    self.count("type_choices_not_compiling")
                    self.notes.append(f"{name} does not compile: {r.stderr[:300]}")
                    continue
                if r.returncode != 0:
                    print(f"build of {name} failed: {' '.join(cmd)}\n{r.stderr[-6000:]}", file=sys.stderr)
                    raise Harness("build failed: " + name)

    def build_cli(self, name="accft", flavour="rel"):
        self.build((name, f"{REPO}/src/main.cpp", flavour))
        return self.tmp / name

    def py_harness(self, name, source, env):
        """An executable of that name that runs a Python harness with the given environment."""
        f = self.tmp / name
        f.write_text("#!/bin/sh\n" + "".join(f"export {k}='{v}'\n" for k, v in env.items()) + f"export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH='{VERIF}/lib:{env.get('PYCFT', '')}'\nexec {VENV_PY} '{VERIF}/harness/{source}' \"$@\"\n")
        f.chmod(0o755)

    def build_pycft(self, flags=()):
        d = self.tmp / "py" / "pycft"
        d.mkdir(parents=True, exist_ok=True)
        for f in (REPO / "src" / "pycft").glob("*.py"):
            shutil.copy(f, d / f.name)
        pyinc = subprocess.run([VENV_PY, "-c", "import sysconfig,pybind11;print(sysconfig.get_paths()['include']);print(pybind11.get_include())"],
                               capture_output=True, text=True)
        if pyinc.returncode != 0:
            raise Harness("no pybind11: " + pyinc.stderr)
        inc, pb = pyinc.stdout.split()
        cmd = ["g++", "-std=c++11", "-O2", "-DNDEBUG", "-w", "-DFMT_SHARED", "-DPYBIND11_DETAILED_ERROR_MESSAGES", "-fPIC", "-fvisibility=hidden", "-shared",
               f"-I{REPO}/src", "-isystem", pb, "-isystem", inc, f"{REPO}/src/pycft/_bindings.cpp", "-o", str(d / "_bindings.so"), "-lfmt", "-pthread"] + list(flags)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stderr[-6000:], file=sys.stderr)
            raise Harness("build of the Python module failed")
        return self.tmp / "py"

    # ------------------------------------------------------------------ observations
    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def maxi(self, k, v):
        with self.lock:
            self.maxima[k] = max(self.maxima.get(k, v), v)

    def ev(self, n=1, distinct=None, sample=None):
        with self.lock:
            self.evals += n
            if distinct is not None:
                self.dist.add(distinct)
            if sample is not None and len(self.samples) < 8:
                self.samples.append(sample)

    def viol(self, kind, msg, context="", replay=None, label=""):
        key = f"{label or self.pid}/{kind}/{hashlib.sha1((context or msg).encode()).hexdigest()[:12]}"
        with self.lock:
            for k, what in self._known_list:
                if k == key:
                    self.known.append((key, what))
                    return
            self.violations.append({"property": self.pid, "key": key, "kind": kind, "message": msg, "context": context,
                                    "replay": replay, "tier": self.tier, "seed": self.seed})
            if len(self.violations) == 1:
                self.deadline = min(self.deadline, time.time() + 45)

    def error(self, msg):
        with self.lock:
            self.errors.append(msg)

    # ------------------------------------------------------------------ running sharded harnesses
    @staticmethod
    def _limits(mem):
        def f():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return f

    def _run1(self, cmd, env, log, mem):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=lf, stdin=subprocess.DEVNULL, env=e, cwd=self.tmp,
                                 preexec_fn=self._limits(mem))
            with self.lock:
                self.procs.add(p)
            try:
                while True:
                    try:
                        rc = p.wait(timeout=0.25)
                        return 75 if rc == -signal.SIGPROF else rc
                    except subprocess.TimeoutExpired:
                        if time.time() > self.deadline or self.stop.is_set():
                            p.kill()
                            p.wait()
                            return "deadline"
            finally:
                with self.lock:
                    self.procs.discard(p)

    @staticmethod
    def _status(path):
        try:
            s = Path(path).read_text()
            return s[:1], int(re.sub(r"\D", "", s[1:]) or 0)
        except Exception:
            return "?", 0

    @staticmethod
    def _summary(log):
        try:
            t = Path(log).read_text(errors="replace")
        except Exception:
            return "", ""
        for pat in (r"SUMMARY: [^\n]*", r"[^\n]*runtime error:[^\n]*", r"[^\n]*Assertion[^\n]*", r"terminate called[^\n]*\n[^\n]*", r"[^\n]*hard rss limit[^\n]*"):
            m = re.search(pat, t)
            if m:
                return m.group(0).strip()[:400], t[:4000]
        return t.strip()[:300], t[:4000]

    def shards(self, binary, mode, n, label=None, extra=(), env=None, cpu=20, mem=None, nshards=None, wrapper=(), retry=6):
        """Runs cases 0..n-1 of one harness mode over all cores."""
        if str(binary) in self.unbuilt:
            return
        label = label or f"{binary}:{mode}"
        nshards = nshards or NPROC
        base = self.tmp / f"run-{re.sub(r'[^A-Za-z0-9]+', '_', label)}"
        base.mkdir(exist_ok=True)
        per = {"evals": 0}

        def replay_cmd(k):
            src = {"binary": str(binary), "mode": mode, "only": k, "seed": self.seed, "tier": self.tier, "extra": list(extra), "env": env or {}}
            return src

        def work(sh):
            start, crashes, tries = 0, 0, 0
            while not self.stop.is_set():
                tries += 1
                out, st, log = base / f"o{sh}.{tries}", base / f"s{sh}.{tries}", base / f"l{sh}.{tries}"
                cmd = list(wrapper) + [str(self.tmp / binary), "--mode", mode, "--seed", str(self.seed), "--n", str(n), "--from", str(start), "--shard", str(sh),
                       "--nshards", str(nshards), "--out", str(out), "--status", str(st), "--cpu", str(cpu), "--tier", self.tier, "--dir", str(base)] + list(extra)
                rc = self._run1(cmd, env, log, mem)
                self._collect(out, label, replay_cmd, per)
                if rc == "deadline":
                    with self.lock:
                        late = not self.violations
                    if late:
                        self.error(f"{label}: shard {sh} did not finish in time")
                    return
                c, k = self._status(st)
                if rc == 0 and c == "E":
                    return
                if c == "E" and rc != 0:
                    s, full = self._summary(log)
                    self.viol("at-exit", f"{label}: {s or f'exit status {rc}'}", full, {"binary": str(binary), "mode": mode, "shard": sh, "nshards": nshards, "n": n, "seed": self.seed, "extra": list(extra)}, label)
                    return
                if rc == 3 or c == "?":
                    self.error(f"{label}: harness error rc={rc}: {self._summary(log)[1][-500:]}")
                    return
                # crash, hang or kill in case k: confirm it alone
                out2, st2, log2 = base / f"o{sh}.{tries}r", base / f"s{sh}.{tries}r", base / f"l{sh}.{tries}r"
                cmd2 = list(wrapper) + [str(self.tmp / binary), "--mode", mode, "--seed", str(self.seed), "--n", str(n), "--only", str(k), "--out", str(out2),
                        "--status", str(st2), "--cpu", str(cpu * retry), "--tier", self.tier, "--dir", str(base)] + list(extra)
                rc2 = self._run1(cmd2, env, log2, mem)
                self._collect(out2, label, replay_cmd, per)
                if rc2 == "deadline":
                    with self.lock:
                        late = not self.violations
                    if late:
                        self.error(f"{label}: case {k} did not finish in time")
                    return
                if rc2 == 75:
                    self.viol("hang", f"{label}: case {k} did not finish within {cpu * retry:g} s of CPU time", f"{label} case {k}", replay_cmd(k), label)
                    return
                if rc2 != 0:
                    s, full = self._summary(log2)
                    self.viol("crash", f"{label}: case {k}: {s or f'exit status {rc2}'}", full or f"{label} case {k}", replay_cmd(k), label)
                    crashes += 1
                elif rc != 75:
                    # only fails in company: state carried over from earlier cases; report it with the whole shard
                    s, full = self._summary(log)
                    if rc == -9:
                        self.count("killed_processes_not_reproduced")
                    else:
                        self.viol("crash-in-sequence", f"{label}: case {k} after others: {s or f'exit status {rc}'}", full or f"{label} case {k}",
                                  {"binary": str(binary), "mode": mode, "shard": sh, "nshards": nshards, "n": n, "seed": self.seed, "extra": list(extra)}, label)
                        crashes += 1
                else:
                    self.count("slow_cases_repeated")
                if crashes >= 2 or tries > 12:
                    return
                start = k + 1

        with ThreadPoolExecutor(nshards) as ex:
            for f in [ex.submit(work, s) for s in range(nshards)]:
                f.result()
        self.extra.setdefault("workloads", []).append({"label": label, "cases": n, "evaluations": per["evals"]})

    def benchmarks(self, binary, mode, pieces, cpu=60):
        """The benchmark instances shipped with the repository (quick: each once; thorough: five times each), then pieces of them."""
        d = REPO / "instances"
        if self.over() or not d.is_dir():
            return
        whole = sum(1 for k in ("scp", "rail", "cvrp", "mps") if (d / k).is_dir() for f in (d / k).iterdir() if not f.name.startswith(".") and "best_results" not in f.name)
        if whole:
            self.shards(binary, mode, whole * self.n(1, 5) + pieces, label=f"benchmarks:{mode}", cpu=self.n(cpu, 15 * cpu), extra=("--real", str(d)))

    def _collect(self, out, label, replay_cmd, per):
        if not out.exists():
            return
        for line in out.read_text(errors="replace").splitlines():
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d["t"] == "viol":
                self.viol(d["kind"], f"{label}: case {d['k']}: {d['msg']}", d["context"], replay_cmd(d["k"]), label)
            elif d["t"] == "val":
                self.vals.setdefault(label, {})[(d["k"], d["n"])] = d["h"]
            elif d["t"] == "sample":
                with self.lock:
                    if len(self.samples) < 8:
                        self.samples.append(f"{label} case {d['k']}: {d['s']}")
            elif d["t"] == "end":
                with self.lock:
                    self.evals += d["evals"]
                    per["evals"] += d["evals"]
                    self.dist.update(label.split(":")[-1] + h if False else h for h in d["dist"])
                    for k, v in d["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for k, v in d["maxima"].items():
                        self.maxima[k] = max(self.maxima.get(k, v), v)

    def compare(self, a, b, kind, mode, binary=None, extra=(), env=None):
        """Values recorded under labels a and b must agree on the cases both have."""
        va, vb = self.vals.get(a, {}), self.vals.get(b, {})
        both = [x for x in va if x in vb]
        if binary in self.unbuilt or (self.unbuilt and not va):
            return
        if not both:
            self.error(f"{a} and {b} have no case in common")
            return
        self.ev(len(both))
        self.count("compared_values", len(both))
        bad = sorted(x for x in both if va[x] != vb[x])
        for k, n in bad[:3]:
            self.viol(kind, f"case {k}: {n} differs between {a} and {b} ({len(bad)} of {len(both)} values differ)", f"{a}|{b}|{n}|{k}",
                      {"binary": binary, "mode": mode, "only": k, "seed": self.seed, "tier": self.tier, "extra": list(extra), "env": env or {}} if binary else None, f"{a}|{b}")

    def over(self):
        """True when there is no point in going on (violation found, or out of time)."""
        return bool(self.violations) or time.time() > self.deadline

    # ------------------------------------------------------------------ verdict
    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": len(self.dist), "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "counters": self.counters, "maxima": self.maxima, **self.extra,
            },
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        seen = set()
        for key, what in self.known:
            if key not in seen:
                seen.add(key)
                print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            rd = VERIF / "replays"
            rd.mkdir(exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                p = rd / f"{self.pid}-{self.seed}-{i}.json"
                p.write_text(json.dumps(v, indent=1) + "\n")
                print(f"{v['kind']}: {v['message'][:600]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("ERROR: " + e, file=sys.stderr)
            return 2
        if self.evals == 0 or len(self.dist) < 2:
            print("ERROR: the run observed nothing", file=sys.stderr)
            return 2
        print(f"OK property={self.pid} tier={self.tier} evaluations={self.evals} distinct={len(self.dist)} wall={wall:.1f}s")
        return 0
