"""Which jobs decide which property.  A job is ("gen", ...): histories of the real library, recorded and judged, or
("model", ...): an exhaustive model whose behaviours are replayed into the library and judged."""

ASSUME = ["time zone UTC, 64-bit int",
          "documents and inputs within the driver's generators (spec/ and DESIGN.md name the excluded margins)",
          "TLC and the driver's recording of arguments and results are trusted"]


def g(mode, chunks, length, batches=1, thorough=6, **kw):
    return ("gen", mode, chunks, length, batches, thorough, kw)


def expand(items):
    def f(tier):
        out = []
        for it in items:
            _, mode, chunks, length, batches, thorough, kw = it
            n = batches if tier == "quick" else batches * thorough
            for b in range(n):
                out.append(("gen", dict(mode=mode, chunks=chunks, length=length, off=b, **kw)))
        return out
    return f


def enum(mode, chunks, quick_len, thorough_len):
    return ("enum", mode, chunks, quick_len, thorough_len)


def m(module, quick, thorough):
    """a model with its parameters per tier: DEPTH, THIN (keep one step in THIN), PARTS (replay one history in PARTS)"""
    return ("model", dict(module=module), quick, thorough)


def jobs(*items):
    def f(tier):
        out = []
        for it in items:
            if it[0] == "model":
                out.append(("model", dict(it[1], **(it[2] if tier == "quick" else it[3]))))
            elif it[0] == "enum":
                _, mode, chunks, q, t = it
                out.append(("gen", dict(mode=mode, chunks=chunks, length=q if tier == "quick" else t)))
            else:
                out += expand([it])(tier)
        return out
    return f


JOBS = {
    "C01": jobs(m("MCWide", dict(DEPTH=1, PARTS=2), dict(DEPTH=2, PARTS=40)), m("MCLazy", dict(DEPTH=1), dict(DEPTH=2, PARTS=4)), m("MCHist", dict(DEPTH=1, PARTS=3), dict(DEPTH=2, PARTS=60)), m("MCHist", dict(DEPTH=4, THIN=60, PARTS=10), dict(DEPTH=6, THIN=60, PARTS=40)), g("hist", 150, 40, 3), g("const", 60, 30), g("pool", 60, 30)),
    "C02": jobs(m("MCLazy", dict(DEPTH=1, PARTS=2), dict(DEPTH=1)), m("MCRead", dict(), dict()), g("reads", 150, 30, 3), g("readonly", 60, 30)),
    "C03": jobs(m("MCWide", dict(DEPTH=3, THIN=10, PARTS=20), dict(DEPTH=4, THIN=20, PARTS=40)), m("MCHist", dict(DEPTH=4, THIN=60, PARTS=12), dict(DEPTH=6, THIN=60, PARTS=45)), g("copy", 150, 30, 3), g("merge", 60, 25)),
    "C04": jobs(m("MCWide", dict(DEPTH=1, PARTS=7), dict(DEPTH=3, THIN=10, PARTS=5)), m("MCMerge", dict(THIN=13, PARTS=5), dict(THIN=1, PARTS=20)), g("merge", 150, 25, 3)),
    "C05": jobs(m("MCWide", dict(DEPTH=1, PARTS=5), dict(DEPTH=3, THIN=10, PARTS=5)), m("MCLazy", dict(DEPTH=1, PARTS=1), dict(DEPTH=2, PARTS=4)), m("MCEq", dict(), dict()), g("eq", 150, 30, 3), g("readonly", 60, 30)),
    "C06": jobs(m("MCLazy", dict(DEPTH=1, PARTS=1), dict(DEPTH=2, PARTS=4)), m("MCJson", dict(PARTS=24), dict(PARTS=5)), g("jsondec", 120, 20, 4)),
    "C07": jobs(m("MCCodec", dict(PARTS=6), dict()), m("MCJson", dict(PARTS=24), dict(PARTS=5)), g("jsonenc", 80, 20, 3)),
    "C08": jobs(m("MCJson", dict(PARTS=24), dict(PARTS=5)), m("MCLoad", dict(PARTS=8), dict(PARTS=1)), g("jsonbad", 120, 20, 3), enum("jsonenum", 40, 4, 4), g("load", 60, 30)),
    "C09": jobs(m("MCCodec", dict(PARTS=4), dict()), g("mpenc", 100, 20, 3), enum("mphuge", 10, 5, 5)),
    "C10": jobs(m("MCLoad", dict(PARTS=8), dict(PARTS=1)), m("MCCodec", dict(PARTS=4), dict()), g("mpdec", 100, 20, 3), enum("mpenum", 40, 4, 4)),
    "C11": jobs(m("MCCodec", dict(PARTS=6), dict()), g("bsonenc", 120, 20, 3)),
    "C12": jobs(m("MCLoad", dict(PARTS=8), dict(PARTS=1)), m("MCCodec", dict(PARTS=4), dict()), g("bsondec", 120, 20, 3), enum("bsonenum", 40, 4, 4)),
    "C13": jobs(m("MCYaml", dict(DEPTH=3, PARTS=2), dict(DEPTH=4, PARTS=8)), m("MCYaml", dict(DEPTH=6, THIN=5, PARTS=10), dict(DEPTH=7, THIN=4, PARTS=40)), g("yaml", 150, 20, 4)),
    "C14": jobs(m("MCLoad", dict(PARTS=5), dict(PARTS=1)), m("MCYaml", dict(DEPTH=6, THIN=6, PARTS=10), dict(DEPTH=7, THIN=4, PARTS=50)), g("fresh", 60, 8, 3), g("jsonbad", 50, 15), g("mpdec", 40, 15), g("bsondec", 50, 15), g("yaml", 60, 15), g("load", 50, 20)),
    "C15": jobs(m("MCWide", dict(DEPTH=1, PARTS=5), dict(DEPTH=3, THIN=10, PARTS=5)), m("MCPool", dict(DEPTH=4, PARTS=4), dict(DEPTH=5, PARTS=20)), m("MCPool", dict(DEPTH=10, THIN=4, PARTS=50), dict(DEPTH=12, THIN=3, PARTS=400)), m("MCHist", dict(DEPTH=4, THIN=60, PARTS=15), dict(DEPTH=6, THIN=60, PARTS=45)), g("pool", 150, 30, 3), g("conc", 120, 20, 1, race=True), g("copy", 60, 30)),
    "C16": jobs(m("MCConst", dict(DEPTH=1, PARTS=4), dict(DEPTH=1, PARTS=1)), m("MCConst", dict(DEPTH=3, THIN=100, PARTS=10), dict(DEPTH=4, THIN=100, PARTS=20)), m("MCHist", dict(DEPTH=4, THIN=60, PARTS=12), dict(DEPTH=6, THIN=60, PARTS=45)), g("const", 150, 30, 3), g("hist", 60, 40)),
    "C17": jobs(m("MCLoad", dict(PARTS=2), dict(PARTS=1)), g("load", 150, 30, 3)),
    "C18": jobs(m("MCHist", dict(DEPTH=4, THIN=60, PARTS=12), dict(DEPTH=6, THIN=60, PARTS=45)), g("alias", 120, 30, 3)),
    "C19": jobs(m("MCGo", dict(DEPTH=2, PARTS=3), dict(DEPTH=2, PARTS=1)), g("setgo", 150, 30, 4)),
    "C20": jobs(m("MCGo", dict(DEPTH=2, PARTS=3), dict(DEPTH=2, PARTS=1)), g("togo", 100, 25, 3)),
    "C21": jobs(m("MCLazy", dict(DEPTH=2, THIN=2, PARTS=12), dict(DEPTH=3, THIN=10, PARTS=40)), g("readonly", 150, 30, 3), g("jsonenc", 40, 15)),
    "C22": jobs(m("MCWide", dict(DEPTH=1, PARTS=4), dict(DEPTH=2, PARTS=40)), m("MCCodec", dict(PARTS=4), dict()), g("chain", 120, 20, 3)),
    "C23": jobs(m("MCFile", dict(DEPTH=2, PARTS=60), dict(DEPTH=2, PARTS=4)), m("MCFile", dict(DEPTH=4, THIN=20, PARTS=10), dict(DEPTH=5, THIN=20, PARTS=20)), g("fs", 60, 20), g("file", 100, 15, 3)),
    "C24": jobs(m("MCWide", dict(DEPTH=1, PARTS=7), dict(DEPTH=2, PARTS=60)), m("MCLazy", dict(DEPTH=2, THIN=3, PARTS=20), dict(DEPTH=2, PARTS=3)), m("MCHist", dict(DEPTH=4, THIN=60, PARTS=12), dict(DEPTH=6, THIN=60, PARTS=45)), g("hist", 120, 40, 1, ic=True), g("merge", 100, 25, 1, ic=True), g("reads", 100, 30, 1, ic=True), g("copy", 80, 30, 1, ic=True), g("hist", 60, 40)),
}
