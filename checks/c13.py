from driver import Check

RULE = ("generated instances (with and without score ties), multipliers (zero, at, above and far above the cheapest cost per row), partial selections, caps and cutoffs; additions compared with a reference scoring, results with the exhaustive best removal; non-trivial: at least two columns selected; distinct: by instance, multipliers and partial selection")


def make():
    return Check("C13", RULE)


def builds(ck):
    ck.build(("greedy", "greedy.cpp", "rel"), ("greedy_chk", "greedy.cpp", "chk"))


def run(ck):
    builds(ck)
    ck.shards("greedy", "c13", ck.n(60000, 600000), cpu=20)
    if not ck.over():
        ck.shards("greedy_chk", "c13", ck.n(10000, 100000), label="chk:c13", cpu=40)
