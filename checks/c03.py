from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large; bounds of run, ThreePhase, Pricer and Subgradient compared with the exact optimum (exhaustive up to 13 rows, or certified by construction) or with the best cover found; non-trivial: at least two columns in the solution; distinct: by instance and parameters")


def make():
    return Check("C03", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c03", ck.n(9000, 100000), cpu=30)
    ck.benchmarks("solve", "c03", ck.n(300, 6000))
