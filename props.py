"""Which harness runs decide which property."""


def R(src, harness, kind, quick, thorough, **kw):
    return dict(src=src, harness=harness, kind=kind, quick=quick, thorough=thorough, **kw)


PROPS = {}


def prop(pid, *runs, assumptions=()):
    PROPS[pid] = {"runs": list(runs), "assumptions": list(assumptions)}


prop("G01", R("forest.cpp", "G01", "asan", 400000, 12000000))
prop("G02", R("forest.cpp", "G02", "asan", 400000, 12000000))
prop("G03", R("forest.cpp", "G03", "asan", 400000, 12000000))
prop("G04", R("forest.cpp", "G04", "asan", 400000, 12000000))
prop("G05", R("forest.cpp", "G05", "asan", 400000, 12000000))

for f in ("F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F12"):
    more = [R("conccomb.cpp", f + "x", "det", 20000, 3000000)] if f in ("F07", "F08") else []
    prop(f, R("fut", f, "asan", 80000, 6000000), R("concfut.cpp", f + "t", "det", 30000, 4000000), R("concfutm.cpp", f + "m", "det", 20000, 3000000), *more)
prop("F09", R("fut", "F09", "asan", 120000, 6000000))
for f in ("F10", "F11"):
    prop(f, R("concfut.cpp", f + "t", "det", 100000, 10000000), R("concfutm.cpp", f + "m", "det", 60000, 6000000))
prop("T01", R("task.cpp", "T01", "asan", 400000, 12000000))
prop("U01", R("rev.cpp", "U01", "asan", 600000, 12000000))
prop("U02", R("tuple.cpp", "U02", "asan", 600000, 12000000))
prop("U03", R("scope.cpp", "U03", "asan", 100000, 2000000))
prop("U04", R("progress.cpp", "U04", "asan", 400000, 12000000))
MORE = {"C01": [R("chanx.cpp", "C01x", "asan", 40000, 3000000)], "C02": [R("chanx.cpp", "C02x", "asan", 40000, 3000000)], "C03": [R("chanx.cpp", "C03x", "asan", 40000, 3000000)],
        "C06": [R("concerr.cpp", "C06c", "det", 20000, 3000000)]}
for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    prop(c, R("chan", c, "asan", 100000, 6000000), *MORE.get(c, []))
prop("C08", R("chan", "C08", "asan", 80000, 6000000), R("concchan.cpp", "C08T", "det", 25000, 4000000))
prop("C09", R("concchan.cpp", "C09", "det", 40000, 6000000), R("concerr.cpp", "C06c", "det", 15000, 2000000))

prop("E01", R("pool.cpp", "E01", "det", 80000, 8000000), R("pool.cpp", "E01L", "det", 60000, 6000000))
prop("E02", R("pool.cpp", "E02", "det", 100000, 10000000))
prop("E03", R("queue.cpp", "E03", "det", 60000, 6000000))
prop("E04", R("timer.cpp", "E04", "det", 60000, 6000000))
prop("E05", R("pool.cpp", "E05", "det", 100000, 10000000))
prop("E06", R("pool.cpp", "E06", "det", 80000, 10000000), R("pool.cpp", "E06R", "det", 20000, 3000000), R("pool.cpp", "E06F", "det", 15000, 2000000))

MEM = dict(args=["--memory-only"])
prop("R01",
     R("concfut.cpp", "F11t", "det", 40000, 4000000, **MEM), R("concfutm.cpp", "F10m", "det", 20000, 3000000, **MEM),
     R("concchan.cpp", "C08T", "det", 15000, 3000000, **MEM), R("pool.cpp", "E01", "det", 20000, 3000000, **MEM), R("pool.cpp", "E06", "det", 20000, 3000000, **MEM),
     R("conccomb.cpp", "F07x", "det", 10000, 2000000, **MEM), R("queue.cpp", "E03", "det", 20000, 3000000, **MEM), R("timer.cpp", "E04", "det", 15000, 3000000, **MEM))
