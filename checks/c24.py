from driver import Check

RULE = ("numbers of every integer and real type rendered around limits, halves and exponents plus random byte strings, compared with an independent strtold/strtoimax reference; text view operations compared with "
        "std::string operations; lines read from files with all line-end mixtures; non-trivial: non-empty text; distinct: by text and operation")


def make():
    return Check("C24", RULE)


def builds(ck):
    ck.build(("text", "text.cpp", "rel"), ("text_asan", "text.cpp", "asan"))


def run(ck):
    builds(ck)
    ck.shards("text", "c24", ck.n(40000, 1000000), cpu=20)
    if not ck.over():
        ck.shards("text_asan", "c24", ck.n(4000, 80000), label="asan:c24", cpu=40)
