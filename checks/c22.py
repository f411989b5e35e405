from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large; the complete algorithm and a separate 3-phase run from the same generator state, compared in cost, dual information and (when the stop criterion is met) solution and generator state; non-trivial: at least two columns; distinct: by instance and parameters")


def make():
    return Check("C22", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c22", ck.n(9000, 100000), cpu=30)
    ck.benchmarks("solve", "c22", ck.n(300, 6000))
