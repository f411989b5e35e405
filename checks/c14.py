from driver import Check

RULE = ("generated covers with 0 to 30 added columns, with and without cutoff; coverage bookkeeping recomputed after each step, result compared with all subsets of the at most ten redundant columns; non-trivial: some column is redundant; distinct: by instance, cover and cutoff")


def make():
    return Check("C14", RULE)


def builds(ck):
    ck.build(("greedy", "greedy.cpp", "rel"), ("greedy_chk", "greedy.cpp", "chk"))


def run(ck):
    builds(ck)
    ck.shards("greedy", "c14", ck.n(80000, 800000), cpu=20)
    if not ck.over():
        ck.shards("greedy_chk", "c14", ck.n(13333, 133333), label="chk:c14", cpu=40)
