"""Main loop of the Python harnesses (same protocol as lib/hmain.hpp), instance generator, writers and oracles."""
import hashlib, json, math, os, random, signal, struct, sys

class TooMany(Exception):
    pass


class Rec:
    def __init__(self, argv):
        o = {"seed": "1", "n": "1", "from": "0", "shard": "0", "nshards": "1", "only": "-1", "cpu": "20", "tier": "quick", "dir": ".", "out": "", "status": "", "mode": "", "verbose": "0"}
        for a in range(1, len(argv) - 1, 2):
            o[argv[a][2:]] = argv[a + 1]
        self.o = o
        self.mode, self.dir, self.thorough, self.seed = o["mode"], o["dir"], o["tier"] == "thorough", int(o["seed"])
        self.only = int(o["only"])
        self.verbose = o["verbose"] == "1"
        self.out = open(o["out"], "a") if o["out"] else os.fdopen(os.dup(1), "w")
        self.sfd = os.open(o["status"], os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600) if o["status"] else -1
        self.k = 0
        self.context = ""
        self.evals, self.nviol, self.nsamples = 0, 0, 0
        self.dist, self.counters, self.maxima = set(), {}, {}

    def _put(self, d):
        self.out.write(json.dumps(d) + "\n")
        self.out.flush()

    # With --oracle off (C08) only sanitizer reports and failures of the code's own checks count.
    def viol(self, kind, msg):
        if self.o.get("oracle") == "off" and not any(x in msg for x in ("Assertion failed", "Sanitizer", "runtime error:")):
            self.count("ignored_reports_of_other_properties")
            return
        self.nviol += 1
        self._put({"t": "viol", "k": self.k, "kind": kind, "msg": msg, "context": self.context[:6000]})
        if self.verbose:
            print(f"VIOL case {self.k} {kind}: {msg}\n{self.context}", file=sys.stderr)
        if self.nviol >= 5 and self.only < 0:
            raise TooMany()

    def eval(self, n=1):
        self.evals += n

    def distinct(self, *x):
        self.dist.add(hashlib.sha1(repr(x).encode()).hexdigest()[:16])

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def maxi(self, k, v):
        self.maxima[k] = max(self.maxima.get(k, v), v)

    def sample(self, s):
        if self.nsamples < 3:
            self.nsamples += 1
            self._put({"t": "sample", "k": self.k, "s": s})


def main(fn):
    r = Rec(sys.argv)
    o = r.o
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    try:
        for k in range(int(o["from"]), int(o["n"])):
            if (k != r.only) if r.only >= 0 else (k % int(o["nshards"]) != int(o["shard"])):
                continue
            r.k, r.context = k, ""
            if r.sfd >= 0:
                os.pwrite(r.sfd, b"R%-30d\n" % k, 0)
            signal.setitimer(signal.ITIMER_PROF, float(o["cpu"]))
            try:
                fn(k, r)
            except TooMany:
                raise
            except Exception as e:
                import traceback
                r.context += "\n" + traceback.format_exc()
                r.viol("exception", f"unexpected {type(e).__name__}: {e}")
    except TooMany:
        pass
    signal.setitimer(signal.ITIMER_PROF, 0)
    r._put({"t": "end", "evals": r.evals, "counters": r.counters, "maxima": r.maxima, "dist": sorted(r.dist)})
    if r.sfd >= 0:
        os.pwrite(r.sfd, b"E", 0)
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------------------------------------- instances
def fl(x):
    return struct.unpack("f", struct.pack("f", x))[0]


class Inst:
    def __init__(self, nrows, cols, costs):
        self.nrows, self.cols, self.costs = nrows, cols, costs

    def brief(self):
        s = f"{self.nrows}x{len(self.cols)}"
        if sum(map(len, self.cols)) < 150:
            s += " " + repr(list(zip(self.costs, self.cols)))
        return s

    def unit(self):
        return Inst(self.nrows, self.cols, [1.0] * len(self.cols))


def gen_costs(r, n):
    m = r.randrange(7)
    if m == 0:
        return [1.0] * n
    if m == 1:
        return [float(r.randint(1, 2)) for _ in range(n)]
    if m == 2:
        return [float(r.randint(1, 100)) for _ in range(n)]
    if m == 3:
        return [fl(r.random() * 10 + 0.01) for _ in range(n)]
    if m == 4:
        return [0.0 if r.random() < 0.15 else float(r.randint(1, 20)) for _ in range(n)]
    if m == 5:
        return [fl(r.randint(1, 1000) / 100) for _ in range(n)]
    return [float(r.randint(100, 3000)) for _ in range(n)]


def gen(r, big=False, max_rows=None):
    nr = r.randint(1, 10) if not big else r.randint(10, 60)
    if max_rows:
        nr = min(nr, max_rows)
    nc = r.randint(1, 20) if not big else r.randint(20, 200)
    st = r.randrange(5)
    cols = []
    for j in range(nc):
        if st == 0:
            c = r.sample(range(nr), r.randint(1, min(nr, 6)))
        elif st == 1:
            b = r.randrange(nr)
            c = list(range(b, min(nr, b + r.randint(1, nr // 4 + 1))))
        elif st == 2:
            c = [i for i in range(nr) if r.random() < 0.3] or [r.randrange(nr)]
        elif st == 3 and cols and r.random() < 0.4:
            c = list(r.choice(cols))
        else:
            c = r.sample(range(nr), r.randint(1, min(nr, 3)))
        cols.append(c)
    miss = [i for i in range(nr) if not any(i in c for c in cols)]
    r.shuffle(miss)
    while miss:
        k = min(len(miss), r.randint(1, 4))
        cols.append(miss[:k])
        miss = miss[k:]
    if r.random() < 0.5:
        r.shuffle(cols)
    return Inst(nr, cols, gen_costs(r, len(cols)))


def num(x):
    return str(int(x)) if x == int(x) and abs(x) < 1e15 else "%.9g" % x


def write(p, fmt, warm=()):
    if fmt == "RAIL":
        return f"{p.nrows} {len(p.cols)}\n" + "".join(f"{num(c)} {len(x)} {' '.join(str(i + 1) for i in x)}\n" for c, x in zip(p.costs, p.cols))
    if fmt == "SCP":
        out = f" {p.nrows} {len(p.cols)} \n"
        w = [num(c) for c in p.costs]
        for a in range(0, len(w), 12):
            out += " " + " ".join(w[a:a + 12]) + " \n"
        for i in range(p.nrows):
            x = [str(j + 1) for j, c in enumerate(p.cols) if i in c]
            out += f" {len(x)} \n"
            for a in range(0, len(x), 12):
                out += " " + " ".join(x[a:a + 12]) + " \n"
        return out
    if fmt == "CVRP":
        return f"{p.nrows} {len(p.cols)}\n" + "".join(f"{num(c)} {num(c + 1000) if c < 1e6 else num(c)} {' '.join(map(str, x))}\n" for c, x in zip(p.costs, p.cols)) + " ".join(map(str, warm)) + "\n"
    out = "NAME          TEST\nROWS\n N  OBJ\n" + "".join(f" G  R{i}\n" for i in range(p.nrows)) + "COLUMNS\n"
    for j, (c, x) in enumerate(zip(p.costs, p.cols)):
        out += f"    C{j}  OBJ  {num(c)}\n" + "".join(f"    C{j}  R{i}  1\n" for i in x)
    return out + "RHS\n" + "".join(f"    RHS  R{i}  1\n" for i in range(p.nrows)) + "ENDATA\n"


def some_cover(p, r):
    o = list(range(len(p.cols)))
    r.shuffle(o)
    left, s = set(range(p.nrows)), []
    for j in o:
        if left & set(p.cols[j]) or r.random() < 0.05:
            s.append(j)
            left -= set(p.cols[j])
    return s


def cover_error(p, s):
    if len(set(s)) != len(s):
        return "a set is selected twice"
    for j in s:
        if not (isinstance(j, int) and 0 <= j < len(p.cols)):
            return f"set {j} does not exist"
    miss = set(range(p.nrows)) - {i for j in s for i in p.cols[j]}
    return f"elements {sorted(miss)[:5]} are not covered" if miss else ""


def cost_of(p, s):
    return math.fsum(p.costs[j] for j in s)


def cost_ok(p, s, c):
    w = cost_of(p, s)
    if all(x == int(x) for x in p.costs) and w < 2 ** 23:
        return c == w
    return abs(c - w) <= 4 * 2.0 ** -23 * (len(s) + 4) * (abs(w) + 1e-30)


def optimum(p):
    """Exact for few rows, otherwise the cost of a greedy cover."""
    if p.nrows <= 11:
        full = (1 << p.nrows) - 1
        d = [math.inf] * (full + 1)
        d[0] = 0.0
        m = [sum(1 << i for i in set(c)) for c in p.cols]
        by = [[j for j in range(len(p.cols)) if m[j] >> i & 1] for i in range(p.nrows)]
        for s in range(full):
            if d[s] == math.inf:
                continue
            i = 0
            while s >> i & 1:
                i += 1
            for j in by[i]:
                t, x = s | m[j], d[s] + p.costs[j]
                if x < d[t]:
                    d[t] = x
        return d[full]
    left, s = set(range(p.nrows)), []
    sets = [set(c) for c in p.cols]
    while left:
        j = min((j for j in range(len(sets)) if sets[j] & left), key=lambda j: p.costs[j] / len(sets[j] & left))
        s.append(j)
        left -= sets[j]
    return cost_of(p, s)


def lb_ok(p, lb, ref):
    return lb <= ref + 1e-4 + 2e-5 * abs(ref) + 1e-6 * p.nrows * (max(p.costs) if p.costs else 0)
