from driver import Check
from c21 import T as TYPES

RULE = ("the workloads of the behavioural checks (instances of 12 families, every public stage, 3-phase, refinement, containers, the four readers on valid files, time limits) repeated with Address-, UndefinedBehaviour- and LeakSanitizer, "
        "libstdc++ assertions and the code's own debug assertions, for several index and real types, plus a part under valgrind memcheck for uninitialised reads; their behavioural oracles are switched off; "
        "non-trivial and distinct as in the check the workload belongs to")

SETS = [  # harness, mode, cases quick, cases thorough, types
    ("solve", "c01", 500, 20000, None),
    ("solve", "c02", 300, 10000, None),
    ("solve", "c03", 150, 10000, None),
    ("solve", "c04", 32, 4000, None),
    ("greedy", "c13", 3000, 60000, None),
    ("greedy", "c14", 3000, 60000, None),
    ("fixing", "c15", 3000, 60000, None),
    ("pricing", "c16", 3000, 60000, None),
    ("cont", "c25", 3000, 60000, None),
    ("files", "c10", 1000, 60000, None),
    ("clock", "c05", 48, 3000, None),
    ("repro", "c06", 56, 2000, None),
]
TY = ["f_u8_u8", "f_wi16_wi16", "d_u64_u32", "l_u64_i64", "d_w16_w64", "f_i64_i64", "l_wi32_w16"]
MEMCHECK = ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=96", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=30"]


def make():
    return Check("C08", RULE)


def builds(ck):
    srcs = sorted({x[0] for x in SETS})
    specs = [(f"{s}_dbg", s + ".cpp", "dbg") for s in srcs]
    for k in TY:
        c, r, f, w = TYPES[k]
        specs.append((f"ty_{k}_dbg", "repro.cpp", "dbg", [f"-DVT_C={c}", f"-DVT_R={r}", f"-DVT_F={f}"] + (["-DVT_WRAP=1"] if w else [])))
    specs += [(f"{s}_mc", s + ".cpp", ["-g", "-O1", "-DNDEBUG"]) for s in ("solve", "greedy", "fixing", "pricing", "files", "cont")]
    specs.append(("accft_dbg", f"{ck.repo}/src/main.cpp", "dbg"))
    ck.build(*specs)
    ck.py_harness("cli_dbg", "pycases.py", {"ACCFT": ck.tmp / "accft_dbg"})


def run(ck):
    builds(ck)
    off = ("--oracle", "off") + (() if ck.thorough else ("--light", "1"))
    for s, mode, q, t, _ in SETS:
        if not ck.over():
            ck.shards(f"{s}_dbg", mode, ck.n(q, t), label=f"dbg:{mode}", cpu=120, extra=off)
    if not ck.over():
        ck.shards("cli_dbg", "c11", ck.n(400, 8000), label="dbg:cli", cpu=240, extra=off + ("--faults", "none"))
    for k in TY:
        if not ck.over():
            ck.shards(f"ty_{k}_dbg", "c21", ck.n(120, 2400), label=f"dbg:{k}", cpu=240, extra=off)
    for s, mode, q, t in (("solve", "c01", 96, 1600), ("solve", "c02", 48, 800), ("greedy", "c13", 200, 4000), ("greedy", "c14", 200, 4000), ("fixing", "c15", 200, 4000), ("pricing", "c16", 200, 4000), ("files", "c10", 100, 2000), ("cont", "c25", 200, 4000)):
        if not ck.over():
            ck.shards(f"{s}_mc", mode, ck.n(q, t), label=f"memcheck:{mode}", cpu=400, extra=off, wrapper=MEMCHECK)
