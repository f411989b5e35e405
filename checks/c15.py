from driver import Check

RULE = ("sequences of random fixings and of 3-phase fixing steps until no row is left; after every step residual instance, maps, fixed columns and cost compared with a reference model, and a random residual cover translated back; non-trivial: more than one step; distinct: by instance and number of steps")


def make():
    return Check("C15", RULE)


def builds(ck):
    ck.build(("fixing", "fixing.cpp", "rel"), ("fixing_chk", "fixing.cpp", "chk"))


def run(ck):
    builds(ck)
    ck.shards("fixing", "c15", ck.n(60000, 600000), cpu=20)
    if not ck.over():
        ck.shards("fixing_chk", "c15", ck.n(10000, 100000), label="chk:c15", cpu=40)
