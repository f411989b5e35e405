from driver import Check

RULE = ("generated instances, parameters, seeds and warm starts, each solved repeatedly in one process (other verbosity, other heap and stack fill patterns, other solves in between, reused stage objects, passing time) and in "
        "several processes and builds (other order of cases, one process per case, automatic variables pre-filled), all results and generator states compared bit for bit; non-trivial: at least two columns selected; distinct: by instance and parameters")


def make():
    return Check("C06", RULE)


def builds(ck):
    ck.build(("repro", "repro.cpp", "rel"), ("repro_pat", "repro.cpp", "rel", ["-ftrivial-auto-var-init=pattern"]), ("repro_zero", "repro.cpp", "rel", ["-ftrivial-auto-var-init=zero"]))


def run(ck):
    builds(ck)
    n = ck.n(1600, 24000)
    ck.shards("repro", "c06", n, label="rel", cpu=90)
    if not ck.over():
        ck.shards("repro", "c06", n // 4, label="other-order", cpu=90, nshards=7)
        ck.compare("rel", "other-order", "order", "c06", "repro")
    if not ck.over():
        ck.shards("repro", "c06", 64, label="fresh-process", cpu=90, nshards=64)
        ck.compare("rel", "fresh-process", "fresh", "c06", "repro")
    for b in ("repro_pat", "repro_zero"):
        if not ck.over():
            ck.shards(b, "c06", n // 4, label=b, cpu=90)
            ck.compare("rel", b, "uninitialised", "c06", b)
