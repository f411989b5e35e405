from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large; chains of warm-started solves with fresh parameters at each step, starting from random, redundant, complete, greedy and near-optimal covers; non-trivial: at least two columns in the solution; distinct: by instance and parameters")


def make():
    return Check("C04", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c04", ck.n(6000, 80000), cpu=40)
    ck.benchmarks("solve", "c04", ck.n(300, 4000))
