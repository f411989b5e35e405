from driver import Check

RULE = ("histories of bounds fed to the step size, exit and pricing rules, compared iteration by iteration with a model; the first multiplier update of the subgradient and heuristic steps compared with the formula in double precision; pricing iterations "
        "and step sizes in the log of complete subgradient steps; non-trivial: at least one update; distinct: by history or instance")


def make():
    return Check("C29", RULE)


def builds(ck):
    ck.build(("stages", "stages.cpp", "rel"), ("stages_d", "stages.cpp", "rel", ["-DVT_F=double"]))


def run(ck):
    builds(ck)
    ck.shards("stages", "c29", ck.n(120000, 2400000), cpu=30)
    if not ck.over():
        ck.shards("stages_d", "c29", ck.n(24000, 480000), label="double:c29", cpu=30)
