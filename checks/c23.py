from driver import Check

RULE = ("instances of 12 structural families x 11 cost models plus certified-optimum instances, tiny to large, half of them with a stop criterion that cannot be met; every solve runs under a CPU watchdog, its round log is checked against the budget implied by alpha and the minimum fixing fraction, and the basic blocks executed against a bound in the size of the input; non-trivial: at least two columns; distinct: by instance and parameters")


def make():
    return Check("C23", RULE)


def builds(ck):
    ck.build(("solve", "solve.cpp", "rel"), ("solve_bb", "solve.cpp", "bb"))


def run(ck):
    builds(ck)
    ck.shards("solve", "c23", ck.n(6000, 60000), cpu=30)
    if not ck.over():
        ck.shards("solve_bb", "c23", ck.n(1500, 20000), label="bb:c23", cpu=60)
    ck.benchmarks("solve", "c23", ck.n(200, 3000))
