from driver import Check

RULE = ("generated instances (all families, fractional and extreme costs) written by independent writers in the four formats with random legal layout (blanks, tabs, line ends and breaks, order of entries, number notation, sections, "
        "comments, initial solutions), loaded, and compared coefficient by coefficient with the original and between formats, for several index types; non-trivial: more than one column; distinct: by instance and layout")
T = {"": [], "_u32": ["-DVT_C=uint32_t", "-DVT_R=uint16_t"], "_d": ["-DVT_C=int64_t", "-DVT_R=int32_t", "-DVT_F=double"], "_w": ["-DVT_WRAP=1"]}


def make():
    return Check("C10", RULE)


def builds(ck):
    ck.build(*[("files" + k, "files.cpp", "rel", f) for k, f in T.items()])


def run(ck):
    builds(ck)
    for k in T:
        if not ck.over():
            ck.shards("files" + k, "c10", ck.n(60000 if not k else 10000, 1200000), label="types" + k, cpu=20)
    ck.benchmarks("files", "c10real", 0)
