from driver import Check

RULE = ("generated instances in width classes (8 bit rows and columns, 8 bit rows, ordinary, 6000 to 32767 rows), parameters and warm starts solved by builds with different index types and real types; "
        "results compared bit for bit within a real type, and judged by the cover, cost and bound oracles; non-trivial: at least two columns selected; distinct: by instance and parameters")

T = {  # name: column type, row type, real type, wrapper
    "f_i32_i16": ("int32_t", "int16_t", "float", 0),
    "f_u32_u32": ("uint32_t", "uint32_t", "float", 0),
    "f_i64_i64": ("int64_t", "int64_t", "float", 0),
    "f_u64_u16": ("uint64_t", "uint16_t", "float", 0),
    "f_u8_u8": ("uint8_t", "uint8_t", "float", 0),
    "f_i16_u8": ("int16_t", "uint8_t", "float", 0),
    "f_i16_i16": ("int16_t", "int16_t", "float", 0),
    "f_u16_i32": ("uint16_t", "int32_t", "float", 0),
    "f_w32_w16": ("int32_t", "int16_t", "float", 1),
    "f_w8_w8": ("uint8_t", "uint8_t", "float", 1),
    "f_wi16_wi16": ("int16_t", "int16_t", "float", 1),
    "d_i32_i16": ("int32_t", "int16_t", "double", 0),
    "d_u64_u32": ("uint64_t", "uint32_t", "double", 0),
    "d_w16_w64": ("uint16_t", "int64_t", "double", 1),
    "l_u64_i64": ("uint64_t", "int64_t", "long double", 0),
    "l_wi32_w16": ("int32_t", "uint16_t", "long double", 1),
}


def make():
    return Check("C21", RULE)


def builds(ck):
    ck.build(*[("ty_" + k, "repro.cpp", "rel", [f"-DVT_C={c}", f"-DVT_R={r}", f"-DVT_F={f}"] + (["-DVT_WRAP=1"] if w else [])) for k, (c, r, f, w) in T.items()])


def run(ck):
    builds(ck)
    base = {}
    for k in T:
        if ck.over():
            return
        n = ck.n(600, 9000) if k[0] == "f" else ck.n(300, 4500)
        ck.shards("ty_" + k, "c21", n, label=k, cpu=120)
        b = base.setdefault(k[0], k)
        if b != k and not ck.over():
            ck.compare(b, k, "types", "c21", "ty_" + k)
