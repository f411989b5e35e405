from driver import Check

RULE = ("generated instances, parameters, seeds and initial solutions solved by the real command line program (any format), by the C++ library on an instance built without its parsers, and by the Python module (from a file and set by set, first and "
        "second solve), results compared exactly; non-trivial: at least two columns selected; distinct: by instance and parameters")


def make():
    return Check("C19", RULE)


def builds(ck):
    ck.build(("accft", f"{ck.repo}/src/main.cpp", "rel"), ("libsolve", "libsolve.cpp", "rel"))
    ck.py_harness("pycases", "pycases.py", {"PYCFT": ck.build_pycft(), "ACCFT": ck.tmp / "accft", "LIBSOLVE": ck.tmp / "libsolve"})


def run(ck):
    builds(ck)
    ck.shards("pycases", "c19", ck.n(2400, 40000), cpu=60)
