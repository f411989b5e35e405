from driver import Check

RULE = ("generated instances of every format with and without initial solutions, loaded and solved with unit costs requested (loader, command line program, Python module from files and sets, alternating with normal mode) and compared exactly with the "
        "instance whose costs are all one; non-trivial: at least two columns selected; distinct: by instance and parameters")


def make():
    return Check("C20", RULE)


def builds(ck):
    ck.build(("files", "files.cpp", "rel"), ("accft", f"{ck.repo}/src/main.cpp", "rel"), ("libsolve", "libsolve.cpp", "rel"))
    ck.py_harness("pycases", "pycases.py", {"PYCFT": ck.build_pycft(), "ACCFT": ck.tmp / "accft", "LIBSOLVE": ck.tmp / "libsolve"})


def run(ck):
    builds(ck)
    ck.shards("files", "c20", ck.n(8000, 100000), label="library", cpu=60)
    if not ck.over():
        ck.shards("pycases", "c20", ck.n(2000, 30000), label="program-and-module", cpu=60)
