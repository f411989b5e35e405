from driver import Check

RULE = ("generated sets of two to eight threads with one to three activities each (solves and stages on one shared constant instance, private solves, loads of every format, result files, argument parsing, fixing, random numbers), "
        "started together with random delays, every result compared with the one obtained alone, data races watched by ThreadSanitizer; non-trivial: at least two activities were seen running at once; distinct: by activities and instances")


def make():
    return Check("C07", RULE)


def builds(ck):
    ck.build(("threads_tsan", "threads.cpp", "tsan"), ("threads", "threads.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("threads_tsan", "c07", ck.n(240, 6000), label="tsan", extra=("--slow", "1"), cpu=240, nshards=4)
    if not ck.over():
        ck.shards("threads", "c07", ck.n(1000, 30000), label="rel", cpu=120, nshards=4)
