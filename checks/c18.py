from driver import Check

RULE = ("generated histories of 4 to 24 calls (adding valid and invalid sets, loading good and bad files of every format, solving with any parameters in either cost mode, getters after every call, sometimes two solvers interleaved) on the real Python "
        "module, compared with a model of what must be reported; non-trivial: a solve that selected at least two sets; distinct: by history position")


def make():
    return Check("C18", RULE)


def builds(ck):
    ck.py_harness("pycases", "pycases.py", {"PYCFT": ck.build_pycft()})


def run(ck):
    builds(ck)
    ck.shards("pycases", "c18", ck.n(6000, 120000), cpu=60)
