from driver import Check

RULE = ("random operation sequences on SortedArray (capacities 1,2,5,17, plain and custom keys, ties), CoverCounters, SparseBinMat, spans, instance helpers, sorting/selection/filter/min/max/clamp helpers and "
        "timers under a virtual clock, each operation compared with a plain model; non-trivial: at least one operation; distinct: by the operation trace")


def make():
    return Check("C25", RULE)


def builds(ck):
    ck.build(("cont", "cont.cpp", "rel"), ("cont_asan", "cont.cpp", "asan"), ("cont_dbg", "cont.cpp", "dbg"))


def run(ck):
    builds(ck)
    ck.shards("cont", "c25", ck.n(60000, 1500000), cpu=20)
    if not ck.over():
        ck.shards("cont_asan", "c25", ck.n(4000, 60000), label="asan:c25", cpu=40)
    if not ck.over():
        ck.shards("cont_dbg", "c25", ck.n(4000, 60000), label="dbg:c25", cpu=40)
