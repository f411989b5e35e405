from driver import Check

RULE = ("sequences of subgradient, heuristic and pricing steps with reused or fresh stage objects on generated instances (all families, cost scales, parameters, cutoffs), as the 3-phase loop runs them; results compared with the step's own trace "
        "(verbosity 5), the core's Lagrangian bound, and the greedy solution at the initial multipliers; non-trivial: at least two rows; distinct: by instance, parameters and position in the sequence")


def make():
    return Check("C27", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"), ("solve_d", "solve.cpp", "rel", ["-DVT_F=double"]))


def run(ck):
    builds(ck)
    ck.shards("solve", "c27", ck.n(60000, 1200000), cpu=30)
    if not ck.over():
        ck.shards("solve_d", "c27", ck.n(20000, 400000), label="double:c27", cpu=30)
    ck.benchmarks("solve", "c27", ck.n(500, 10000))
