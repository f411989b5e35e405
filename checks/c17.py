from driver import Check

RULE = ("ranges and coin probabilities of every real and integer type with generators stubbed to enumerated extreme words (0, 1, max, max-1, half, carries) and with real xoshiro/std generators, "
        "xoshiro sequences and jumps compared with an independent implementation; non-trivial: min < max; distinct: by generator words and range")


def make():
    return Check("C17", RULE)


def builds(ck):
    ck.build(("rng", "rng.cpp", "rel"), ("rng_asan", "rng.cpp", "asan"))


def run(ck):
    builds(ck)
    ck.shards("rng", "c17", ck.n(60000, 1500000), cpu=20)
    if not ck.over():
        ck.shards("rng_asan", "c17", ck.n(3000, 60000), label="asan:c17", cpu=40)
