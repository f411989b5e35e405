from driver import Check

RULE = ("valid files of every format (and random bytes and token soup) damaged by up to twelve mutations (cuts, byte and token changes with boundary numbers, line edits, splices), with damaged initial solution files, given to every parser under "
        "AddressSanitizer and UndefinedBehaviorSanitizer, for several index types; what is accepted is checked for soundness; non-trivial: the file was damaged; distinct: by content and parser")
T = {"": [], "_u8": ["-DVT_C=uint8_t", "-DVT_R=uint8_t"], "_u32": ["-DVT_C=uint32_t", "-DVT_R=uint16_t"], "_i64": ["-DVT_C=int64_t", "-DVT_R=int16_t", "-DVT_F=double"]}
WIDE = {"_r32": ["-DVT_C=int32_t", "-DVT_R=int32_t"], "_r64": ["-DVT_C=int64_t", "-DVT_R=int64_t", "-DVT_F=double"]}


def make():
    return Check("C09", RULE)


def builds(ck):
    ck.build(("files", "files.cpp", "rel"), *[("files_asan" + k, "files.cpp", "asan", f) for k, f in T.items()], *[("files_ub" + k, "files.cpp", "ubsan", f) for k, f in WIDE.items()])


def run(ck):
    builds(ck)
    ck.shards("files", "c09", ck.n(200000, 6000000), label="rel", cpu=20)
    for k in T:
        if not ck.over():
            ck.shards("files_asan" + k, "c09", ck.n(24000 if not k else 6000, 600000), label="asan" + k, cpu=30)
    for k in WIDE:
        if not ck.over():
            ck.shards("files_ub" + k, "c09", ck.n(12000, 600000), label="ubsan" + k, cpu=30, mem=4000)
