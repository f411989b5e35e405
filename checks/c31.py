from driver import Check

RULE = ("solves, 3-phase runs on a reused object, loads of all formats, solution writing, the whole program, and histories of calls on the Python object; in each, chosen allocations, reads, writes or closes fail (one, or all from then on), or reads and writes are "
        "short or interrupted: normal result or exception, nothing leaked or changed, normal result afterwards; all allocations of small operations are tried, others sampled; non-trivial: at least two rows; distinct: by instance, operation and format")


def make():
    return Check("C31", RULE)


def builds(ck):
    ck.build(("faults", "faults.cpp", "rel", ["-lfmt", "-ldl"]), ("memfault.so", "memfault.cpp", ["-O1", "-shared", "-fPIC"], ["-ldl"]))
    ck.py_harness("pycases", "pycases.py", {"PYCFT": ck.build_pycft(["-O0", "-fno-inline"]), "LD_PRELOAD": ck.tmp / "memfault.so"})


def run(ck):
    builds(ck)
    ck.shards("faults", "c31", ck.n(2400, 40000), cpu=60)
    if not ck.over():
        ck.shards("pycases", "c31", ck.n(1200, 30000), label="python:c31", cpu=60)
