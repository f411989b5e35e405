"""Cases on the command line program and on the Python module: C11 (exit status and solution files), C18 (solver object
over histories), C19 (agreement of the interfaces), C20 (unit costs)."""
import ctypes, gc, inspect, json, math, os, random, re, resource, shutil, signal, subprocess, sys
import pymain
from pymain import *

ACCFT = os.environ.get("ACCFT", "")
LIBSOLVE = os.environ.get("LIBSOLVE", "")
FMTS = ["RAIL", "SCP", "CVRP", "MPS"]


def workdir(rec):
    d = os.path.join(rec.dir, f"{rec.mode}-{os.getpid()}-{rec.k}")
    os.makedirs(d)
    return d


def cli(args, cwd, fsize=None, timeout=120):
    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    try:
        p = subprocess.run([ACCFT] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def read_sol(path):
    """Independent reader: (cost, columns) or an error text."""
    try:
        t = open(path).read().split()
    except (OSError, UnicodeDecodeError) as e:
        return f"cannot read the file: {e}"
    if not t:
        return "the file is empty"
    try:
        return float(t[0]), [int(x) for x in t[1:]]
    except ValueError as e:
        return f"not a solution: {e}"


def sol_error(p, path):
    s = read_sol(path)
    if isinstance(s, str):
        return s
    e = cover_error(p, s[1])
    if e:
        return e
    if not (math.isfinite(s[0]) and cost_ok_file(p, s[1], s[0])):
        return f"cost {s[0]} instead of {cost_of(p, s[1])}"
    return ""


def cost_ok_file(p, idx, c):
    return cost_ok(p, idx, c) or abs(c - cost_of(p, idx)) <= 1e-6 * abs(c)


OPTS = {"seed": ("-s", "--seed"), "epsilon": ("-e", "--epsilon"), "heur_iters": ("-g", "--heur-iters"), "beta": ("-b", "--beta"),
        "abs_subg_exit": ("-a", "--abs-subg-exit"), "rel_subg_exit": ("-r", "--rel-subg-exit")}


def gen_params(r, cli_only=True):
    q = {}
    if r.random() < 0.85:
        q["seed"] = r.choice([0, r.randrange(1000), r.getrandbits(64)])
    if r.random() < 0.85:
        q["heur_iters"] = r.choice([0, 1, 5, 20, 50])
    if r.random() < 0.4:
        q["epsilon"] = r.choice([0.0, 1e-6, 0.5, 1.0, 10.0])
    if r.random() < 0.3:
        q["beta"] = r.choice([0.0, 0.99, 1.1, 2.0])
    if r.random() < 0.3:
        q["abs_subg_exit"] = r.choice([0.0, 0.1, 10.0])
    if r.random() < 0.3:
        q["rel_subg_exit"] = r.choice([0.0, 0.01, 0.5])
    if not cli_only:
        if r.random() < 0.4:
            q["alpha"] = r.choice([1.05, 1.3, 2.0])
        if r.random() < 0.4:
            q["min_fixing"] = r.choice([0.05, 0.5, 1.0])
    return q


def opt_args(q, r):
    a = []
    for k in q:
        if k in OPTS:
            a.append([r.choice(OPTS[k]), str(q[k])])
    r.shuffle(a)
    return [x for y in a for x in y]


# ------------------------------------------------------------------------------------------------ C11
def c11(k, rec):
    r = random.Random(f"{rec.seed}-c11-{k}")
    d = workdir(rec)
    try:
        p = gen(r, big=r.random() < 0.1)
        fmt = r.choice(FMTS)
        stem = "".join(r.choice("abcXYZ019_- ") for _ in range(r.randint(1, 8))).strip(" -") or "i"
        name = stem + r.choice([".txt", "", ".tar.gz", ".scp", ".sol", ".sol.txt"])
        if name == stem + ".sol":  # would overwrite the instance; legal but pointless
            name = stem + ".inst"
        sub = r.choice(["", "", "in", "a.b/c d"])
        if sub:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        warm = some_cover(p, r)
        inst = os.path.join(sub, name)
        text = write(p, fmt, warm if r.random() < 0.5 else ())
        open(os.path.join(d, inst), "w").write(text)
        where = inst if r.random() < 0.5 else os.path.join(d, inst)
        args = [r.choice(["-i", "--inst"]), where, r.choice(["-p", "--parser"]), fmt] + opt_args(gen_params(r), r)
        unit = r.random() < 0.2
        if unit:
            args.append(r.choice(["-u", "--unit-costs"]))
        if r.random() < 0.5:
            args += ["-v", str(r.randint(0, 5))]
        if r.random() < 0.2:
            args += ["-t", r.choice(["0", "0.001", "100"])]
        if r.random() < 0.3:
            open(os.path.join(d, "warm file"), "w").write(r.choice(["1.5 ", "0 ", num(cost_of(p, warm)) + " "]) + " ".join(map(str, warm)) + "\n")
            args += [r.choice(["-w", "--init-sol"]), "warm file"]
        stems = stem + name[len(stem):]
        default = (stems[:stems.rfind(".")] if "." in stems else stems) + ".sol"
        out = default
        if r.random() < 0.6:
            out = r.choice(["out.sol", "o ut", "in2/x.sol", "./y", os.path.join(d, "abs.sol")])
            os.makedirs(os.path.join(d, "in2"), exist_ok=True)
            args += [r.choice(["-o", "--out-sol"]), out]
        target = os.path.join(d, out)
        if r.random() < 0.4:
            open(target, "w").write(r.choice(["garbage", "9 " * 5000, "0"]))
        fault = r.choice(["none"] * 8 + ["missing-inst", "malformed", "infeasible", "parser", "arg", "no-inst", "out-missing-dir", "out-dir", "full", "quota", "bad-warm", "missing-warm", "truncated", "wrong-format"])
        if rec.o.get("faults") == "none":
            fault = "none"
        fsize = None
        pu = p.unit() if unit else p
        if fault == "missing-inst":
            os.remove(os.path.join(d, inst))
        elif fault == "malformed":
            t = text.split("\n")
            t[r.randrange(min(len(t), 2)) if fmt != "MPS" else 1] = r.choice(["x", "", "1", "-3 -3"])
            open(os.path.join(d, inst), "w").write("\n".join(t))
        elif fault == "infeasible":
            hole = Inst(p.nrows + 1, p.cols, p.costs)
            open(os.path.join(d, inst), "w").write(write(hole, fmt))
        elif fault == "parser":
            args += ["-p", r.choice(["rail", "XYZ", "", "RAILX"])]
        elif fault == "arg":
            a = r.choice(["-s", "-g", "-v", "-t", "-e", "-b", "-a", "-r"])
            args += [a, r.choice(["abc", "", "-1"] if a in ("-s", "-g", "-v") else ["abc", "", "1e999", "nan"])]
        elif fault == "no-inst":
            args = args[2:]
        elif fault == "out-missing-dir":
            target = os.path.join(d, "nowhere", "x.sol")
            args += ["-o", target]
        elif fault == "out-dir":
            target = os.path.join(d, "in3")
            os.makedirs(target)
            args += ["-o", target]
        elif fault == "full":
            if not os.path.exists("/dev/full"):
                fault = "none"
            else:
                target = "/dev/full"
                args += ["-o", "/dev/full"]
        elif fault == "quota":
            fsize = r.choice([0, 1, 2, 3])
        elif fault == "bad-warm":
            open(os.path.join(d, "bw"), "w").write(r.choice([f"1 {len(p.cols)}", "1 -1", f"1 {' '.join(map(str, warm))} {warm[0]}", "x 1", "1 0 x", "1 99999999999"]))
            args += ["-w", "bw"]
        elif fault == "missing-warm":
            args += ["-w", "nothing.here"]
        elif fault == "truncated":
            cut = text[:r.randrange(max(1, int(len(text) * 0.9)))]
            open(os.path.join(d, inst), "w").write(cut)
        elif fault == "wrong-format":
            others = [f for f in FMTS if f != fmt]
            args += ["-p", r.choice(others)]
        rec.context = f"fault {fault} accft {args} format {fmt} {p.brief()}\n{text[:1500]}"
        rc, so, se = cli(args, d, fsize)
        rec.eval()
        rec.count("fault." + fault)
        rec.count("format." + fmt)
        for x in ("Assertion failed", "Sanitizer", "runtime error:"):
            if x in so or x in se:
                rec.viol("sanitizer", f"{x}: {(so if x in so else se)[-1500:]}")
                return
        if rc is None:
            rec.viol("hang", "the program did not end within 120 s")
        elif rc < 0:
            rec.viol("crash", f"the program died of signal {-rc}: {se[-300:]}")
        elif fault == "none":
            if rc != 0:
                rec.viol("status", f"exit status {rc} for a valid instance: {se[-300:]}")
            else:
                e = sol_error(pu, target)
                if e:
                    rec.viol("solution", f"exit status zero but {out}: {e}")
            rec.count("valid_runs")
        elif fault in ("truncated", "wrong-format", "malformed"):
            # may by chance be a valid file of some instance: then the result cannot be judged here (C09 does it)
            if rc != 0 and not se.strip():
                rec.viol("silent", f"exit status {rc} without a message on stderr")
            elif rc == 0 and isinstance(read_sol(target), str):
                rec.viol("solution", f"exit status zero but {read_sol(target)}")
            rec.count("status_zero_after_" + fault if rc == 0 else "refused")
        elif fault == "quota":
            e = sol_error(pu, target)
            if rc == 0 and e:
                rec.viol("truth", f"exit status zero although only {fsize} bytes could be written: {e}")
            if rc != 0 and not se.strip():
                rec.viol("silent", f"exit status {rc} without a message on stderr")
            rec.count("short_writes" if e else "complete_short_writes")
        else:
            if rc == 0:
                rec.viol("truth", f"exit status zero in spite of the fault {fault}")
            elif not se.strip():
                rec.viol("silent", f"exit status {rc} without a message on stderr")
            rec.count("refused")
        if rc == 0 and fault == "none" and len(p.cols) > 1:
            rec.distinct(k, args)
        rec.sample(f"{fault}: {args} -> {rc}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C18
class Model:
    """One SetCoverSolver and what it must report."""

    def __init__(self, S):
        self.s = S()
        self.sets, self.costs, self.nel = [], [], 0
        self.raw = []  # the sets as given, None once a file was loaded
        self.res = None  # (solution, cost, lower bound, multipliers)
        self.kept = None  # cover still valid as a start of the next solve
        self.min_el = 0

    def inst(self):
        return Inst(self.nel, self.sets, self.costs)

    def getters(self):
        s = self.s
        return (s.get_solution(), s.get_cost(), s.get_lower_bound(), s.get_dual_multipliers())

    def coverable(self):
        seen = set()
        for c in self.sets:
            seen.update(c)
        return len(seen) == self.nel


def fresh_result(m, q, pc):
    """What a new instance of the same sets gives with these parameters, starting from the same cover."""
    from pycft import _bindings as B
    inst, env, start = B.Instance(), B.Environment(), B.Solution()
    for el, c in zip(m.raw, pc.costs):
        inst.add(el, c)
    inst.prepare()
    for key, x in q.items():
        if key != "use_unit_costs":
            setattr(env, key, x)
    env.verbose = 0
    if m.kept is not None:
        start.idxs = list(m.kept)
        start.cost = cost_of(pc, m.kept)
    x = B.run(env, inst, start)
    return list(x.sol.idxs), x.sol.cost, x.dual.lb, list(x.dual.mults)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def c18(k, rec):
    from pycft import SetCoverSolver
    r = random.Random(f"{rec.seed}-c18-{k}")
    d = workdir(rec)
    log = []

    def check_getters(m, what):
        g = m.getters()
        if m.res is None:
            if g[0] is not None or g[1] is not None or g[3] is not None:
                rec.viol("stale", f"{what}: reports {g[:2]} although nothing has been solved since the last change of the elements")
        elif not same(g, m.res):
            rec.viol("report", f"{what}: reports {g} instead of {m.res}")
        if g[0] is not None:  # what is handed out is a copy
            g[0].append(7)
            if g[3] is not None:
                g[3].append(1.0)
            if not same(m.getters(), m.res):
                rec.viol("alias", f"{what}: changing the returned list changes the solver")
        rec.eval()

    def add(m):
        top = m.nel
        x = r.random()
        if m.sets and x < 0.3:
            el = r.sample(range(max(top, 1)), r.randint(1, min(max(top, 1), 4)))
        elif x < 0.4:
            el = list(range(top + r.randint(1, 3)))
        else:
            hi = max(1, min(top + r.choice([0, 0, 1, 2]), 12))
            el = r.sample(range(hi), r.randint(1, min(hi, 5)))
        if r.random() < 0.2:
            el = el + [r.choice(el) for _ in range(r.randint(1, 3))]  # repeated elements are one element
        r.shuffle(el)
        c = r.choice([float(r.randint(0, 20)), fl(r.random() * 10), 1.0, float(r.randint(0, 3000))])
        if r.random() < 0.1:
            c = int(c)
        log.append(f"add_set({el}, {c})")
        i = m.s.add_set(el, cost=c) if r.random() < 0.5 else m.s.add_set(el, c)
        if i != len(m.sets):
            rec.viol("index", f"add_set returns {i} instead of {len(m.sets)}")
        m.sets.append(sorted(set(el)))
        if m.raw is not None:
            m.raw.append(list(el))
        m.costs.append(float(c))
        if max(el) >= m.nel:
            m.nel = max(el) + 1
            m.res = m.kept = None
        rec.count("sets_added")

    def bad_add(m):
        el, c = r.choice([([0, -1], 1.0), ([0], -1.0), ([0], -1e-30), ([0], float("nan")), ([0], float("inf")), ([40000], 1.0), ([0, 10 ** 12], 1.0), ([], 1.0), (["a"], 1.0), ([0], "x"), ([0], None),
                          (None, 1.0), ([0], 1e39), ([0.5], 1.0), ([0, 32768], 2.0), ([m.nel + 3, -5], 1.0), ([m.nel, 70000], 1.0), ([m.nel + 1], float("inf"))])
        log.append(f"add_set({el}, {c}) must be refused")
        try:
            m.s.add_set(el, c)
        except Exception:
            rec.count("refused_sets")
            return
        rec.viol("accepted", f"add_set({el}, {c}) is accepted")

    def load(m, good):
        p = gen(r, max_rows=10)
        fmt = r.choice(FMTS)
        warm = some_cover(p, r) if fmt == "CVRP" and r.random() < 0.6 else []
        path = os.path.join(d, f"f{r.randrange(10 ** 9)}")
        if good:
            open(path, "w").write(write(p, fmt, warm))
            log.append(f"from_file({fmt}, {p.brief()}, initial {warm})")
            m.s.from_file(path, fmt)
            m.sets, m.costs, m.nel = [sorted(set(c)) for c in p.cols], list(p.costs), p.nrows
            m.res = m.kept = m.raw = None
            if warm:
                m.kept = list(warm)
                g = m.getters()
                if g[0] != warm or not cost_ok(p, warm, g[1]):
                    rec.viol("initial", f"after a file with the initial solution {warm} of cost {cost_of(p, warm)}: {g[:2]}")
                if not lb_ok(p, g[2], optimum(p)):
                    rec.viol("initial", f"after a file with an initial solution: lower bound {g[2]}")
                m.res = g
                rec.count("initial_solutions")
            rec.count("files_loaded")
            return
        how = r.randrange(4)
        if how == 0:
            path += "-missing"
        elif how == 1:
            open(path, "w").write("nonsense\n")
        elif how == 2:
            open(path, "w").write(write(Inst(p.nrows + 1, p.cols, p.costs), fmt))
        else:
            open(path, "w").write(write(p, fmt))
            fmt = "NOPE"
        log.append(f"from_file({fmt}) must fail ({how})")
        try:
            m.s.from_file(path, fmt)
        except Exception:
            rec.count("refused_files")
            return
        rec.viol("accepted", f"from_file accepts a bad file ({how}, {fmt})")

    def solve(m):
        q = {}
        for key, vals in (("seed", [0, 1, r.randrange(10 ** 6), 2 ** 64 - 1]), ("heur_iters", [0, 1, 5, 20, 40]), ("epsilon", [0.0, 0.5, 0.999, 5.0]), ("alpha", [1.1, 1.5, 2.0]), ("beta", [0.5, 1.0, 1.2]), ("abs_subgrad_exit", [0.0, 1.0]),
                          ("rel_subgrad_exit", [0.001, 0.1]), ("min_fixing", [0.1, 0.3, 1.0]), ("time_limit", [0, 5.0, float("inf")])):
            if r.random() < 0.3:
                q[key] = r.choice(vals)
        q.setdefault("heur_iters", 20)
        q["verbose"] = r.choice([0, 0, 0, 2])
        unit = r.random() < 0.3
        if unit or r.random() < 0.3:
            q["use_unit_costs"] = unit
        log.append(f"solve({q})")
        if not m.coverable() or not m.sets:
            if not m.sets:
                log.pop()
                return
            try:
                m.s.solve(**q)
            except Exception:
                rec.count("infeasible_solves_refused")
                return
            rec.viol("accepted", "an element is in no set, but solve succeeds")
            return
        m.s.solve(**q)
        p = m.inst()
        pc = p.unit() if unit else p
        g = m.getters()
        sol, cost, lb, mult = g
        if sol is None or cost is None:
            rec.viol("nothing", f"after a solve: {g}")
            return
        e = cover_error(p, sol)
        if e:
            rec.viol("cover", f"solution {sol}: {e}")
            m.res = g
            return
        if not cost_ok(pc, sol, cost):
            rec.viol("cost", f"solution {sol} costs {cost_of(pc, sol)}, {cost} reported (unit costs: {unit})")
        ref = min(optimum(pc), cost_of(pc, sol))
        if not lb_ok(pc, lb, ref):
            rec.viol("bound", f"lower bound {lb} above the cost {ref} of a cover")
        if mult is None or len(mult) != m.nel or any(not math.isfinite(x) or x < 0 for x in mult):
            rec.viol("multipliers", f"multipliers {mult} for {m.nel} elements")
        if m.kept is not None:
            before = cost_of(pc, m.kept)
            if cost > before + 1e-6 * abs(before) + 1e-9:
                rec.viol("worse", f"cost {cost} although the previous solution {m.kept} costs {before} (unit costs: {unit})")
            rec.count("re_solves")
        if m.raw is not None and whole(p) and q.get("time_limit", 9e9) > 1e9:
            want = fresh_result(m, q, pc)
            if not same((sol, cost, lb, mult), want):
                rec.viol("fresh", f"result {g}, but the same sets, newly entered, give {want} from the same start")
            rec.count("compared_with_fresh_instance")
        m.res, m.kept = g, list(sol)
        rec.count("solves")
        rec.count("unit_cost_solves", 1 if unit else 0)
        if len(sol) > 1:
            rec.distinct(rec.k, len(log))

    def bad_solve(m):
        q = r.choice([{"seed": -1}, {"seed": 2 ** 64}, {"seed": 1.5}, {"epsilon": "x"}, {"heur_iters": -1}, {"time_limit": "now"}, {"verbose": -2}, {"alpha": None}, {"nothing": 1}])
        if r.random() < 0.5 and "nothing" not in q:
            q["use_unit_costs"] = r.random() < 0.5
        log.append(f"solve({q}) must fail")
        try:
            m.s.solve(**q)
        except Exception:
            rec.count("refused_solves")
            return
        rec.viol("accepted", f"solve({q}) is accepted")

    try:
        ms = [Model(SetCoverSolver) for _ in range(r.choice([1, 1, 2]))]
        for _ in range(r.randint(4, 24)):
            m = r.choice(ms)
            x = r.random()
            rec.context = "\n".join(log)
            if x < 0.45:
                add(m)
            elif x < 0.55:
                bad_add(m)
            elif x < 0.60:
                load(m, True)
            elif x < 0.64:
                load(m, False)
            elif x < 0.92:
                solve(m)
            else:
                bad_solve(m)
            rec.context = "\n".join(log)
            for y in ms:
                check_getters(y, "after the last call")
        rec.maxi("calls", len(log))
        if len(log) < 9:
            rec.sample(" ; ".join(log))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C19
def libsolve(p, q, warm, unit=False):
    names = {"abs_subg_exit": "abs", "rel_subg_exit": "rel"}
    inp = [str(p.nrows), str(len(p.cols))]
    for c, x in zip(p.costs, p.cols):
        inp += [float(c).hex(), str(len(x))] + [str(i) for i in x]
    inp.append(str(len(warm)))
    inp += map(str, warm)
    for kk, x in q.items():
        inp += [names.get(kk, kk), str(x) if isinstance(x, int) else float(x).hex()]
    t = subprocess.run([LIBSOLVE], input=" ".join(inp), capture_output=True, text=True, timeout=120)
    if t.returncode != 0:
        raise RuntimeError("libsolve: " + t.stderr)
    x = json.loads(t.stdout)
    return {"idxs": x["idxs"], "cost": float(x["cost"]), "lb": float(x["lb"]), "mults": [float(u) for u in x["mults"]]}


def whole(p):
    return all(c == int(c) for c in p.costs) and sum(p.costs) < 2 ** 24


def py_result(s):
    return {"idxs": s.get_solution(), "cost": s.get_cost(), "lb": s.get_lower_bound(), "mults": s.get_dual_multipliers()}


def py_args(q):
    ren = {"abs_subg_exit": "abs_subgrad_exit", "rel_subg_exit": "rel_subgrad_exit"}
    return {ren.get(a, a): b for a, b in q.items()}


def differs(a, b, keys=("idxs", "cost", "lb", "mults")):
    for key in keys:
        if not same(a[key], b[key]):
            return f"{key}: {str(a[key])[:150]} and {str(b[key])[:150]}"
    return ""


# Documented in cft.hpp, by the program's --help and in the docstring of the module.
DEFAULTS = {"seed": 0, "epsilon": 0.999, "heur_iters": 250, "alpha": 1.1, "beta": 1.0, "abs_subgrad_exit": 1.0, "rel_subgrad_exit": 0.001, "min_fixing": 0.3, "use_unit_costs": False}


def c19(k, rec):
    from pycft import SetCoverSolver
    r = random.Random(f"{rec.seed}-c19-{k}")
    if k % 64 == 0:
        for a, x in inspect.signature(SetCoverSolver.solve).parameters.items():
            if a in DEFAULTS and isinstance(x.default, (int, float)) and x.default != DEFAULTS[a]:
                rec.viol("module", f"the default of {a} is {x.default} in the module, {DEFAULTS[a]} in the other interfaces")
        rec.count("default_values_compared", len(DEFAULTS))
    d = workdir(rec)
    try:
        p = gen(r, big=r.random() < 0.3)
        fmt = r.choice(FMTS)
        if fmt in ("SCP",):
            p.cols = [sorted(c) for c in p.cols]  # the order within a column is not in the file
        q = gen_params(r, cli_only=True)
        warm = some_cover(p, r) if r.random() < 0.35 else []
        in_file = bool(warm) and fmt == "CVRP"
        path = os.path.join(d, "inst")
        open(path, "w").write(write(p, fmt, warm if in_file else ()))
        rec.context = f"{fmt} {q} initial {warm} {p.brief()}"
        base = libsolve(p, q, warm)
        exact = not warm or whole(p)  # the cost of a start is a sum in an unspecified order and precision

        def same_result(a, keys):
            if exact:
                return differs(a, base, keys)
            e = cover_error(p, a["idxs"])
            if e:
                return e
            if not cost_ok(p, a["idxs"], fl(a["cost"])):
                return f"cost {a['cost']} of a cover of cost {cost_of(p, a['idxs'])}"
            if a["cost"] > cost_of(p, warm) * (1 + 1e-5) + 1e-6:
                return f"cost {a['cost']} from a start of cost {cost_of(p, warm)}"
            return ""
        # the program
        args = ["-i", "inst", "-p", fmt, "-o", "o.sol", "-v", str(r.choice([0, 0, 1, 4, 5]))] + opt_args(q, r)
        if warm and not in_file:
            open(os.path.join(d, "w"), "w").write("1 " + " ".join(map(str, warm)))
            args += ["-w", "w"]
        rc, so, se = cli(args, d)
        if rc != 0:
            rec.viol("program", f"exit status {rc}: {se[-200:]}")
            return
        s = read_sol(os.path.join(d, "o.sol"))
        if isinstance(s, str):
            rec.viol("program", s)
            return
        x = same_result({"idxs": s[1], "cost": fl(s[0])}, ("idxs", "cost"))
        if x:
            rec.viol("program", f"the program gives {s}, the library {base['cost']} {base['idxs']}: {x}")
        rec.eval()
        rec.count("program_runs")
        # the module, from the file
        if not warm or in_file:
            a = SetCoverSolver()
            a.from_file(path, fmt)
            a.solve(verbose=0, **py_args(q))
            x = same_result(py_result(a), ("idxs", "cost", "lb", "mults"))
            if x:
                rec.viol("module", "module (from a file) and library: " + x)
            rec.eval()
            rec.count("module_file_runs")
        # the module, set by set, with the parameters only it has
        if not warm:
            q2 = dict(q)
            if r.random() < 0.6:
                q2.update({a: b for a, b in gen_params(r, cli_only=False).items() if a in ("alpha", "min_fixing")})
            b = SetCoverSolver()
            for c, x in zip(p.costs, p.cols):
                b.add_set(x, c)
            b.solve(verbose=r.choice([0, 0, 3]), **py_args(q2))
            ref = base if q2 == q else libsolve(p, q2, [])
            x = differs(py_result(b), ref)
            if x:
                rec.viol("module", f"module (set by set, {q2}) and library: {x}")
            # a second solve starts from the result of the first
            q3 = gen_params(r, cli_only=False)
            prev = py_result(b)
            b.solve(verbose=0, **py_args(q3))
            ref = libsolve(p, q3, prev["idxs"])
            # the cost of the start is a sum in an order (and a precision) that is not specified: exact for whole costs only
            x = differs(py_result(b), ref) if whole(p) else cover_error(p, py_result(b)["idxs"])
            if not x and py_result(b)["cost"] > prev["cost"] * (1 + 1e-5) + 1e-6:
                x = f"cost {py_result(b)['cost']} after {prev['cost']}"
            rec.count("exact_second_solves", 1 if whole(p) else 0)
            if x:
                rec.viol("module", f"second solve of the module ({q3}) and the library from the same start: {x}")
            rec.eval(2)
            rec.count("module_set_runs")
            rec.count("module_second_solves")
        rec.count("format." + fmt)
        if len(base["idxs"]) > 1:
            rec.distinct(k, p.brief(), q)
        if p.nrows < 8:
            rec.sample(f"{fmt} {q} {p.nrows}x{len(p.cols)} -> {base['cost']} {base['idxs']}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C20
def c20(k, rec):
    from pycft import SetCoverSolver
    r = random.Random(f"{rec.seed}-c20-{k}")
    d = workdir(rec)
    try:
        p = gen(r, big=r.random() < 0.25)
        u = p.unit()
        fmt = r.choice(FMTS)
        if fmt == "SCP":
            p.cols = [sorted(c) for c in p.cols]
            u = p.unit()
        q = gen_params(r)
        warm = some_cover(p, r) if r.random() < 0.4 else []
        in_file = bool(warm) and fmt == "CVRP" and r.random() < 0.7
        open(os.path.join(d, "p"), "w").write(write(p, fmt, warm if in_file else ()))
        open(os.path.join(d, "u"), "w").write(write(u, fmt, warm if in_file else ()))
        rec.context = f"{fmt} {q} initial {warm} {p.brief()}"
        common = ["-p", fmt, "-v", "0"] + opt_args(q, r)
        if warm and not in_file:
            open(os.path.join(d, "w"), "w").write(num(cost_of(p, warm)) + " " + " ".join(map(str, warm)))
            common += ["-w", "w"]
        got = {}
        for name, extra in (("p", [r.choice(["-u", "--unit-costs"])]), ("u", [])):
            a = ["-i", name, "-o", name + ".sol"] + common
            a = extra + a if r.random() < 0.5 else a + extra
            rc, so, se = cli(a, d)
            if rc != 0:
                rec.viol("program", f"exit status {rc} {a}: {se[-200:]}")
                return
            got[name] = read_sol(os.path.join(d, name + ".sol"))
            if isinstance(got[name], str):
                rec.viol("program", got[name])
                return
        rec.eval()
        if got["p"] != got["u"]:
            rec.viol("program", f"unit costs requested: {got['p']}; all costs one: {got['u']}")
        c, s = got["p"]
        if c != len(s):
            rec.viol("cost", f"{len(s)} columns at cost {c} in unit cost mode")
        if cover_error(p, s):
            rec.viol("cover", cover_error(p, s))
        if warm and c > len(warm):
            rec.viol("worse", f"cost {c} above the {len(warm)} columns of the initial solution")
        rec.count("program_runs")
        # the module: unit, then normal, then unit again
        S = SetCoverSolver
        if r.random() < 0.5 and (not warm or in_file):
            m, n = S(), S()
            m.from_file(os.path.join(d, "p"), fmt)
            n.from_file(os.path.join(d, "u"), fmt)
            first = list(warm) if in_file else []
            rec.count("module_file_runs")
        else:
            m, n = S(), S()
            for cst, x in zip(p.costs, p.cols):
                m.add_set(x, cst)
                n.add_set(x, 1.0)
            first = []
            rec.count("module_set_runs")
        m.solve(verbose=0, use_unit_costs=True, **py_args(q))
        n.solve(verbose=0, **py_args(q))
        x = differs(py_result(m), py_result(n))
        if x:
            rec.viol("module", "unit costs requested and all costs one: " + x)
        a = py_result(m)
        if a["cost"] != len(a["idxs"]):
            rec.viol("cost", f"module: {len(a['idxs'])} sets at cost {a['cost']} in unit cost mode")
        if first and a["cost"] > len(first):
            rec.viol("worse", "module: worse than the initial solution")
        # later in normal mode: as a solve of the original instance from that cover
        prev = a["idxs"]
        q2 = gen_params(r)
        m.solve(verbose=0, **py_args(q2))
        if whole(p):  # else the cost of the start is only known up to rounding
            x = differs(py_result(m), libsolve(p, q2, prev))
            rec.count("exact_normal_solves")
        else:
            y = py_result(m)
            x = cover_error(p, y["idxs"])
            if not x and y["cost"] > cost_of(p, prev) * (1 + 1e-5) + 1e-6:
                x = f"cost {y['cost']} from a start of cost {cost_of(p, prev)}"
            if not x and not lb_ok(p, y["lb"], min(optimum(p), cost_of(p, y["idxs"]))):
                x = f"lower bound {y['lb']}"
        if x:
            rec.viol("normal", f"normal mode after unit cost mode, and the library from the same start: {x}")
        b = py_result(m)
        if not cost_ok(p, b["idxs"], b["cost"]):
            rec.viol("normal", f"normal mode after unit cost mode: cost {b['cost']}, the sets cost {cost_of(p, b['idxs'])}")
        m.solve(verbose=0, use_unit_costs=True, **py_args(q))
        e = py_result(m)
        if e["cost"] != len(e["idxs"]) or e["cost"] > len(b["idxs"]):
            rec.viol("cost", f"module: unit cost mode after normal mode: {len(e['idxs'])} sets at cost {e['cost']}, started from {len(b['idxs'])}")
        rec.eval(4)
        if len(s) > 1:
            rec.distinct(k, p.brief(), q)
        if p.nrows < 8:
            rec.sample(f"{fmt} {q} {p.nrows}x{len(p.cols)} -> {c} {s}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C30
class _Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Mallinfo


def held():
    """Python blocks, bytes held by the C and C++ side, open descriptors."""
    gc.collect()
    m = _libc.mallinfo2()
    return sys.getallocatedblocks(), m.uordblks + m.hblkhd, len(os.listdir("/proc/self/fd"))


def c30(k, rec):
    from pycft import SetCoverSolver
    r = random.Random(f"{rec.seed}-c30-{k}")
    d = workdir(rec)
    try:
        p = gen(r, max_rows=12)
        fmt = r.choice(FMTS)
        warm = some_cover(p, r)
        path = os.path.join(d, "i")
        open(path, "w").write(write(p, fmt, warm))
        bad = os.path.join(d, "b")
        open(bad, "w").write(r.choice(["", "3", "2 2\n1 x 1\n", "5 1\n1 1 1\n", "1 1\n1 1 9\n"]))
        q = py_args(gen_params(r, cli_only=False))
        q["heur_iters"] = 5
        sets, costs = [list(map(int, c)) for c in p.cols], list(map(float, p.costs))
        kept = SetCoverSolver()
        for c, x in zip(sets, costs):
            kept.add_set(c, x)

        def fresh():
            m = SetCoverSolver()
            for c, x in zip(sets, costs):
                m.add_set(c, x)
            m.solve(verbose=0, **q)
            m.get_solution(), m.get_cost(), m.get_lower_bound(), m.get_dual_multipliers()

        def again():
            kept.solve(verbose=0, **q)
            kept.get_solution(), kept.get_cost(), kept.get_lower_bound(), kept.get_dual_multipliers()

        def refused():
            for a in (([0, -1], 1.0), ([0], -1.0), (["a"], 1.0), ([0], "x"), (None, 1.0), ([10 ** 12], 1.0), ([0], float("nan"))):
                try:
                    kept.add_set(*a)
                except Exception:
                    continue
                rec.count("accepted")

        def loaded():
            kept.from_file(path, fmt)
            kept.get_solution(), kept.get_cost(), kept.get_dual_multipliers()

        def unreadable():
            for x in (bad, os.path.join(d, "none"), d):
                try:
                    kept.from_file(x, fmt)
                except Exception:
                    rec.count("unreadable_files_refused")

        def unsolvable():
            m = SetCoverSolver()
            m.add_set([1, 3], 1.0)
            try:
                m.solve(verbose=0)
            except Exception:
                rec.count("unsolvable_refused")

        def getters():
            for _ in range(20):
                kept.get_solution(), kept.get_cost(), kept.get_lower_bound(), kept.get_dual_multipliers()

        name, f = r.choice([("fresh", fresh), ("again", again), ("refused", refused), ("loaded", loaded), ("unreadable", unreadable), ("unsolvable", unsolvable), ("getters", getters)])
        rec.context = f"{name}, {fmt} {p.brief()} {q}"
        n = 40
        for _ in range(n):
            f()
        x = held()
        for _ in range(n):
            f()
        y = held()
        if any(b - a > n * c for a, b, c in zip(x, y, (0.5, 16, 0.5))):  # once more: a cache may have been filled
            x = y
            for _ in range(n):
                f()
            y = held()
        for what, a, b, c in zip(("Python objects", "bytes of memory", "descriptors"), x, y, (0.5, 16, 0.5)):
            if b - a > n * c:
                rec.viol("python-" + what.split()[0], f"{name}: {b - a} more {what} held after {n} repetitions")
        rec.eval(2 * n)
        rec.count("python_" + name)
        rec.distinct(k, name, p.brief())
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C31
_ranges = []


def own_functions():
    """Addresses of the functions of this code in the module (not those of pybind11)."""
    if _ranges:
        return
    from pycft import _bindings as B
    base = min(int(l.split("-")[0], 16) for l in open("/proc/self/maps") if l.rstrip().endswith(B.__file__))
    out = subprocess.run(["nm", "-C", "-S", "--defined-only", B.__file__], capture_output=True, text=True).stdout
    own = []
    for l in out.splitlines():
        f = l.split(" ", 3)
        if len(f) == 4 and f[2] in "tTwWuV" and re.match(r"(?:[a-z][\w ]* )?cft::|local::|pybind11_init__bindings\(.*lambda", f[3]):
            own.append((base + int(f[0], 16), base + int(f[0], 16) + int(f[1], 16)))
    own.sort()
    if len(own) < 20:
        raise RuntimeError("the module has no symbols")
    a = (ctypes.c_size_t * (2 * len(own)))(*[x for y in own for x in y])
    _ranges.append(a)
    lib = ctypes.CDLL(None)
    lib.vf_ranges.argtypes = [ctypes.c_void_p, ctypes.c_long]
    lib.vf_ranges(ctypes.addressof(a), len(own))


def c31(k, rec):
    """Histories of calls, now and then one in which an allocation fails: MemoryError, and nothing has happened."""
    from pycft import SetCoverSolver
    r = random.Random(f"{rec.seed}-c31-{k}")
    d = workdir(rec)
    log = []
    lib = ctypes.CDLL(None)
    lib.vf_arm.argtypes = [ctypes.c_long, ctypes.c_int]
    lib.vf_disarm.restype = lib.vf_hits.restype = ctypes.c_long
    own_functions()
    try:
        m = Model(SetCoverSolver)

        def faulty(name, f):
            """f fails at the allocations 1, 2, ...; finally it runs undisturbed. True if it did so already before."""
            n, at = 0, 0
            while n < 40:
                n += 1
                at = n if n < 15 else at + r.choice([1, 3, 10, 50, 300])
                on = r.random() < 0.3
                before = m.getters()
                lib.vf_arm(at, on)
                try:
                    x = f()
                    lib.vf_disarm()
                    hit = lib.vf_hits()
                except MemoryError:
                    lib.vf_disarm()
                    rec.count("reported_" + name)
                    rec.eval()
                    if not same(m.getters(), before):
                        rec.viol("changed", f"{name} fails for lack of memory (allocation {at}), and the solver changes from {before} to {m.getters()}")
                        return None
                    log.append(f"{name} fails at allocation {at}")
                    continue
                except BaseException as e:
                    lib.vf_disarm()
                    rec.viol("misreported", f"{name}, allocation {at} fails: {type(e).__name__}: {e}")
                    return None
                if hit:
                    rec.count("survived_" + name)
                rec.count("calls_" + name)
                return [x]
            x = [f()]
            rec.count("calls_" + name)
            return x

        for _ in range(r.randint(2, 6)):
            for _ in range(r.randint(1, 4)):
                el = r.sample(range(m.nel + 2), r.randint(1, min(m.nel + 2, 4))) if m.sets else [0, 1, 2]
                el = sorted(el) if max(el) <= m.nel else [x for x in el if x <= m.nel] + [m.nel]
                c = float(r.randint(1, 30))
                log.append(f"add_set({el}, {c})")
                rec.context = "\n".join(log)
                i = faulty("add_set", lambda: m.s.add_set(el, c)) if r.random() < 0.7 else [m.s.add_set(el, c)]
                if i is None:
                    return
                if i[0] != len(m.sets):
                    rec.viol("index", f"add_set returns {i[0]} instead of {len(m.sets)}")
                    return
                m.sets.append(sorted(set(el)))
                m.raw.append(el) if m.raw is not None else None
                m.costs.append(c)
                if max(el) >= m.nel:
                    m.nel = max(el) + 1
                    m.kept = None
            if r.random() < 0.25:
                p = gen(r, max_rows=6)
                fmt = r.choice(FMTS)
                warm = some_cover(p, r) if fmt == "CVRP" else []
                path = os.path.join(d, "f")
                open(path, "w").write(write(p, fmt, warm))
                log.append(f"from_file({fmt}, {p.brief()}, initial {warm})")
                rec.context = "\n".join(log)
                if faulty("from_file", lambda: m.s.from_file(path, fmt)) is None:
                    return
                m.sets, m.costs, m.nel, m.raw, m.kept = [sorted(set(c)) for c in p.cols], list(p.costs), p.nrows, None, list(warm) or None
                if warm and m.s.get_solution() != warm:
                    rec.viol("initial", f"the initial solution {warm} of the file is not there: {m.getters()}")
                    return
            unit = r.random() < 0.3
            q = {"verbose": 0, "heur_iters": 5, "seed": r.randrange(5), "use_unit_costs": unit}
            log.append(f"solve({q})")
            rec.context = "\n".join(log)
            if r.random() < 0.3:  # a failed solve in the other mode
                o = dict(q, use_unit_costs=not unit)
                before = m.getters()
                lib.vf_arm(r.randint(1, 60), 1)
                try:
                    m.s.solve(**o)
                    done = True
                except MemoryError:
                    done = False
                lib.vf_disarm()
                if done:  # it needed less
                    m.kept = m.s.get_solution()
                elif not same(m.getters(), before):
                    rec.viol("changed", f"solve fails for lack of memory, and the solver changes from {before} to {m.getters()}")
                    return
                rec.count("failed_solves_in_the_other_mode")
            if faulty("solve", lambda: m.s.solve(**q)) is None:
                return
            p = m.inst()
            pc = p.unit() if unit else p
            sol, cost, lb, mult = m.getters()
            e = cover_error(p, sol) if sol is not None else "no solution"
            if e:
                rec.viol("cover", f"solution {sol}: {e}")
                return
            if not cost_ok(pc, sol, cost):
                rec.viol("cost", f"solution {sol} costs {cost_of(pc, sol)}, {cost} reported (unit costs: {unit})")
                return
            if m.raw is not None and whole(p):
                want = fresh_result(m, q, pc)
                if not same((sol, cost, lb, mult), want):
                    rec.viol("afterwards", f"result {m.getters()}, but the same sets, newly entered, give {want} from the same start")
                    return
                rec.count("compared_with_fresh_instance")
            m.kept = list(sol)
            if faulty("getters", m.getters) is None:
                return
        rec.distinct(k, len(log))
        if len(log) < 12:
            rec.sample(" ; ".join(log))
    finally:
        shutil.rmtree(d, ignore_errors=True)


pymain.main(lambda k, rec: {"c11": c11, "c18": c18, "c19": c19, "c20": c20, "c30": c30, "c31": c31}[rec.mode](k, rec))
