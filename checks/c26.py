from driver import Check

RULE = ("generated instances in all formats, options, initial solutions, unit costs and time limits; the real main() at verbosity 0 to 5 (and beyond): nothing at 0, each level contains the lines of the level below (times masked), same solution file; "
        "the level 5 log is checked event by event against a trace specification (parameters, sizes, incumbents, bounds, fixed costs, remaining rows, round numbers) and against the column fixing observed in the same run (columns fixed, rows and columns left, cost); non-trivial: more than 30 log events; distinct: by command line and instance")


def make():
    return Check("C26", RULE)


def builds(ck):
    ck.build(("logs", "logs.cpp", "rel"))


def run(ck):
    builds(ck)
    ck.shards("logs", "c26", ck.n(5000, 60000), cpu=60)
