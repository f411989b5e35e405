from driver import Check

RULE = ("generated instances and multipliers (zero, at, above and far above the cheapest cost per row), fresh and reused pricer and core; core compared with a reference selection; non-trivial: the core is a proper part of the instance; distinct: by instance and multipliers")


def make():
    return Check("C16", RULE)


def builds(ck):
    ck.build(("pricing", "pricing.cpp", "rel"), ("pricing_chk", "pricing.cpp", "chk"))


def run(ck):
    builds(ck)
    ck.shards("pricing", "c16", ck.n(60000, 600000), cpu=20)
    if not ck.over():
        ck.shards("pricing_chk", "c16", ck.n(10000, 100000), label="chk:c16", cpu=40)
