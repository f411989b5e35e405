from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large, with default and wild parameters, cold or from a "
        "warm start, solved by cft::run and cft::ThreePhase; non-trivial: the solution has at least two columns; distinct: by instance and parameters")


def make():
    return Check("C01", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"), ("solve_chk", "solve.cpp", "chk"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c01", ck.n(9000, 90000), cpu=30)
    if not ck.over():
        ck.shards("solve_chk", "c01", ck.n(1500, 20000), label="chk:c01", cpu=40)
    ck.benchmarks("solve", "c01", ck.n(300, 6000))
