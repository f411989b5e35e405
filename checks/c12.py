from driver import Check

RULE = ("generated argument lists (all options in both forms, any order and number, repeated, missing values, unknown words, numbers in many notations, malformed and out of range values, paths with directories, dots and blanks) parsed by the real "
        "parser and compared with an independent reference; non-trivial: more than one option; distinct: by argument list")


def make():
    return Check("C12", RULE)


def builds(ck):
    ck.build(("files", "files.cpp", "rel"), ("files_asan", "files.cpp", "asan"), ("files_d", "files.cpp", "rel", ["-DVT_C=int64_t", "-DVT_R=int32_t", "-DVT_F=double"]))


def run(ck):
    builds(ck)
    ck.shards("files", "c12", ck.n(400000, 6000000), label="rel", cpu=20)
    if not ck.over():
        ck.shards("files_asan", "c12", ck.n(20000, 300000), label="asan", cpu=30)
    if not ck.over():
        ck.shards("files_d", "c12", ck.n(40000, 600000), label="double", cpu=20)
