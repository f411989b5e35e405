from driver import Check

RULE = ("operations (solves, warm starts, 3-phase runs, loading good, damaged and missing files of every format, writing solutions, command lines; on the Python module also getters, refused sets and repeated solves on one object) repeated identically "
        "with every allocation counted: memory held, peak and descriptors after each repetition; peaks compared with the size of the instance; non-trivial: at least two rows; distinct: by instance and operation")


def make():
    return Check("C30", RULE)


def builds(ck):
    ck.build(("resources", "resources.cpp", "rel"))
    ck.py_harness("pycases", "pycases.py", {"PYCFT": ck.build_pycft()})


def run(ck):
    builds(ck)
    ck.shards("resources", "c30", ck.n(12000, 240000), cpu=60)
    if not ck.over():
        ck.shards("pycases", "c30", ck.n(1600, 30000), label="python:c30", cpu=60)
