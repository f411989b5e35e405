from driver import Check

RULE = ("generated instances and parameters under a virtual clock: limit expiring at each clock reading of the run (all readings of short runs, sampled ones of long runs), zero limit, limit already past, limit not reached; "
        "result judged by the cover, cost and bound oracles and the basic blocks executed after expiry by a size-based bound; non-trivial: the clock really jumped inside the run; distinct: by instance and expiry point")


def make():
    return Check("C05", RULE, level="fault_enumeration", assumptions=["the solver reads time through std::chrono::steady_clock::now"])


def builds(ck):
    ck.build(("clock", "clock.cpp", "rel"), ("clock_bb", "clock.cpp", "bb"))


def run(ck):
    builds(ck)
    ck.shards("clock_bb", "c05", ck.n(800, 16000), label="bb:c05", cpu=60)
    if not ck.over():
        ck.shards("clock", "c05", ck.n(1200, 24000), label="rel:c05", cpu=60)
