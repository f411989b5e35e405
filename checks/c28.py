from driver import Check

RULE = ("sequences of refinement rounds (incumbents, improving or not, arbitrary multipliers, min_fixing and alpha over their domains) and of 3-phase fixing steps on generated instances; the columns chosen compared with the rule computed in double "
        "precision; non-trivial: at least two rows and two columns in the incumbent; distinct: by instance, parameters and position in the sequence")


def make():
    return Check("C28", RULE)


def builds(ck):
    ck.build(("stages", "stages.cpp", "rel"), ("stages_d", "stages.cpp", "rel", ["-DVT_F=double"]))


def run(ck):
    builds(ck)
    ck.shards("stages", "c28", ck.n(200000, 4000000), cpu=30)
    if not ck.over():
        ck.shards("stages_d", "c28", ck.n(40000, 800000), label="double:c28", cpu=30)
