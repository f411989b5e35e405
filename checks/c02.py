from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large, with default and wild parameters, cold or from a warm start; the costs reported by run, ThreePhase and Greedy (complete, from partial selections, under cutoffs) are compared with the sum of the returned columns in exact arithmetic; non-trivial: at least two columns in the solution; distinct: by instance and parameters")


def make():
    return Check("C02", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c02", ck.n(9000, 100000), cpu=30)
    ck.benchmarks("solve", "c02", ck.n(300, 6000))
