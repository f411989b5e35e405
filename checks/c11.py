from driver import Check

RULE = ("(a) solutions of up to 20000 columns and every magnitude of cost written over empty, shorter and longer files, read back by the library and by an independent reader, and writes that must fail (full device, missing directory, directory); "
        "(b) runs of the real command line program on generated instances of every format, with and without faults (missing, truncated, malformed, infeasible or wrong-format instance, bad arguments, bad initial solution, unwritable, full or size-limited output), "
        "exit status, stderr and output file checked; non-trivial: more than one column written; distinct: by content and arguments")


def make():
    return Check("C11", RULE)


def builds(ck):
    ck.build(("files", "files.cpp", "rel"), ("files_w", "files.cpp", "rel", ["-DVT_C=uint64_t", "-DVT_R=int32_t", "-DVT_F=double"]), ("accft", f"{ck.repo}/src/main.cpp", "rel"), ("accft_asan", f"{ck.repo}/src/main.cpp", "asan"))
    ck.py_harness("pycases", "pycases.py", {"ACCFT": ck.tmp / "accft"})
    ck.py_harness("pycases_asan", "pycases.py", {"ACCFT": ck.tmp / "accft_asan"})


def run(ck):
    builds(ck)
    ck.shards("files", "c11", ck.n(40000, 1000000), label="write-read", cpu=30)
    if not ck.over():
        ck.shards("files_w", "c11", ck.n(10000, 200000), label="write-read-double", cpu=30)
    if not ck.over():
        ck.shards("pycases", "c11", ck.n(2400, 40000), label="program", cpu=60)
    if not ck.over():
        ck.shards("pycases_asan", "c11", ck.n(320, 6000), label="program-asan", cpu=120)
