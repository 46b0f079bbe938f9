"""What each check consists of.  n / n_thorough: recorded runs per tier."""


def trace(name, rec, spec, what=None, n=3000, nt=None, **kw):
    return dict(name=name, do="trace", rec=rec, spec=spec, what=what, n=n, n_thorough=nt or 20 * n, **kw)


def near(name, rec, spec, what, n):
    """nearly degenerate inputs, interpreted over two-scale coordinates"""
    return trace(name, rec + ["--mode", "eps"], spec, what, n=n, batch=20000, cfg=spec + "Eps.cfg")


def scope(name, rec, spec, what, args, stride=1, chunks=1, **kw):
    """every input of a small scope; the quick tier takes every stride-th of them"""
    return dict(name="all-" + name, do="exhaustive", rec=rec + ["--mode", "exh"] + args.split(), spec=spec, what=what,
                stride=stride, chunks=chunks, **kw)


def few(rec, spec, what):
    """every multiset of a few segments and points on a small grid"""
    return [
        scope("3", rec, spec, what, "--w 3 --k 3"),
        scope("5", rec, spec, what, "--w 2 --k 5"),
        scope("4", rec, spec, what, "--w 3 --k 4", chunks=10, only="thorough"),
        scope("7", rec, spec, what, "--w 2 --k 7", only="thorough"),
    ]


def pairs(what, tri=1, quad=20, cells=16, wild=0):
    """every pair of operands of small families"""
    b = ["bops"]
    if wild:
        return [
            scope("any3", b, "BoolOpsTrace", what, "--family any --k 3", stride=8, chunks=1),
            scope("any4", b, "BoolOpsTrace", what, "--family any --k 4", stride=1000, chunks=200),
            scope("any5", b, "BoolOpsTrace", what, "--family any --k 5 --w 2 --h 2", stride=40, chunks=8),
        ]
    return [
        scope("triangles", b, "BoolOpsTrace", what, "--k 3", stride=tri),
        scope("quads", b, "BoolOpsTrace", what, "--k 4", stride=quad, chunks=4),
        scope("cells", b, "BoolOpsTrace", what, "--family cells --w 2 --h 2", stride=cells, chunks=4),
    ]


def simple(rec, what):
    """every simple polygon on a small grid"""
    m = ["mono", "--what", rec]
    return [
        scope("3x3", m, "MonotoneTrace", what, "--w 3 --h 3"),
        scope("4x3", m, "MonotoneTrace", what, "--w 4 --h 3 --k 7"),
        scope("4x3+", m, "MonotoneTrace", what, "--w 4 --h 3 --k 12", only="thorough"),
        scope("4x4", m, "MonotoneTrace", what, "--w 4 --h 4 --k 8", chunks=10, only="thorough"),
    ]


def cross(what, rand, rnd, deep):
    ev = ["cross", "--what", "ev"]
    return [
        trace("random", ev, "CrossingsTrace", what, n=rand),
        trace("round", ev + ["--mode", "round"], "CrossingsTrace", what, n=rnd),
        trace("deep", ev + ["--lo", "15", "--hi", "45"], "CrossingsTrace", what, n=deep, batch=400),
        trace("deep-round", ev + ["--mode", "round", "--hi", "60"], "CrossingsTrace", what, n=deep // 2, batch=400),
        trace("large", ev + ["--lo", "100", "--hi", "250"], "CrossingsTrace", what, n=deep // 5, batch=40),
        trace("large-round", ev + ["--mode", "round", "--hi", "300"], "CrossingsTrace", what, n=deep // 10, batch=40),
        near("near", ev, "CrossingsTrace", what, rand // 2),
    ] + few(ev, "CrossingsTrace", what)


def bops(mode, what, n, extra=(), tag="", **kw):
    return trace(mode + tag + "-" + what, ["bops", "--mode", mode] + list(extra), "BoolOpsTrace", what, n=n, batch=3000,
                 **kw)


def fan(mode, what, n, size=12):
    """operands with one vertex of high degree"""
    return bops(mode, what, n, extra=["--fan", str(size)], tag="-fan")


def large(mode, what, n, size=20):
    """operands of dozens of rings and hundreds of vertices"""
    return bops(mode, what, n, extra=["--g", str(size)], tag="-large")


def nest(mode, what, n, size=9):
    """operands nested several levels deep"""
    return bops(mode, what, n, extra=["--nest", str(size)], tag="-nest")


def mono(rec, what, n):
    return trace(what, ["mono", "--what", rec], "MonotoneTrace", what, n=n)


def mono_large(rec, what, n):
    """polygons of up to 120 vertices and a dozen holes"""
    return trace(what + "-large", ["mono", "--what", rec, "--minstyle", "5", "--maxstyle", "6"], "MonotoneTrace", what, n=n)


def mono_near(rec, what, n):
    return near(what + "-near", ["mono", "--what", rec], "MonotoneTrace", what, n)


def scan(what, n):
    return trace(what, ["scan", "--what", what], "ScannerTrace", what, n=n)


def scan_round(what, n):
    return trace(what + "-round", ["scan", "--what", what, "--mode", "round"], "ScannerTrace", what, n=n, batch=20000)


def scan_mixed(what, n, mode="exact"):
    """all queries on one walker, in between plain moves, the raster changing"""
    return trace("%s-mixed-%s" % (what, mode), ["scan", "--what", "mixed", "--mode", mode], "ScannerTrace", what, n=n)


def scan_all(what):
    """every monotone polygon on a small grid, in some histories each"""
    rec = ["scan", "--what", "hist" if what == "hist" else "mixed"]
    return [
        scope("3x3-" + what, rec, "ScannerTrace", what, "--w 2 --h 2 --reps 8"),
        scope("4x3-" + what, rec, "ScannerTrace", what, "--w 3 --h 2"),
        scope("3x4-" + what, rec, "ScannerTrace", what, "--w 2 --h 3"),
        scope("4x3-%s-more" % what, rec, "ScannerTrace", what, "--w 3 --h 2 --reps 8", chunks=4, only="thorough"),
        scope("3x4-%s-more" % what, rec, "ScannerTrace", what, "--w 2 --h 3 --reps 8", chunks=4, only="thorough"),
    ]


def long(kind, what, extra=(), n=500, size=300):
    """long histories over many keys"""
    return trace("%s-long%d-%s" % (kind, size, what), ["splay", "--mode", kind, "--len", str(size)] + list(extra),
                 "OrderedMapTrace", what, n=n)


def longs(kind, what, extra=()):
    return [long(kind, what, extra), long(kind, what, extra, 30, 1500)]


def design(spec, scopes, thorough, flaws):
    """the design of an algorithm, model-checked against what the algorithm promises"""
    return dict(name="design", do="design", spec=spec, scopes=scopes, scopes_thorough=thorough, flaws=flaws)


def one(**kw):
    return dict(kw, Single="TRUE", Ops='{"or"}')


def two(**kw):
    return dict(kw, Single="FALSE")


fan4 = one(Diag=3)


def grid(w, h, diag):
    return dict(W=w, H=h, Diag=diag)


def amount(what, n, thorough):
    """how much work the real code does"""
    return dict(name="work-%s-%d" % (what, n), do="amount", spec="WorkTrace", what=what, n=n, n_thorough=thorough)


CHECKS = {
    "C01": cross("points", 20000, 6000, 200) + [
        design("SweepAlgorithm", [dict(W=2, H=2, K=4), dict(W=3, H=3, K=3)],
               [dict(W=3, H=2, K=4), dict(W=2, H=2, K=5), dict(W=4, H=2, K=4), dict(W=4, H=3, K=3)],
               [(f, dict(W=3, H=3, K=3)) for f in ("no-early-end", "no-test-on-removal", "followers-end-too",
                                                   "no-copies", "never-wait", "any-kind-first")]),
    ],
    "C02": cross("pieces", 20000, 6000, 200) + [
        trace("steep", ["cross", "--what", "ev", "--mode", "steep"], "CrossingsTrace", "partition", n=1500),
    ],
    "C03": cross("flags", 20000, 6000, 200) + [
        design("SweepAlgorithm", [dict(W=3, H=2, K=3)], [dict(W=3, H=1, K=4), dict(W=2, H=2, K=5)], [("no-copies", dict(W=3, H=2, K=3))])],
    "C04": [
        trace("random", ["cross", "--what", "prs"], "IntersectionsTrace", n=30000),
        trace("round", ["cross", "--what", "prs", "--mode", "round"], "IntersectionsTrace", n=9000),
        trace("deep", ["cross", "--what", "prs", "--lo", "15", "--hi", "45"], "IntersectionsTrace", n=300),
        trace("large", ["cross", "--what", "prs", "--lo", "100", "--hi", "150"], "IntersectionsTrace", n=24),
        near("near", ["cross", "--what", "prs"], "IntersectionsTrace", None, 12000),
    ] + few(["cross", "--what", "prs"], "IntersectionsTrace", None) + [
        design("SweepAlgorithm", [dict(W=2, H=2, K=4)], [dict(W=3, H=1, K=5), dict(W=3, H=3, K=3)], [("any-kind-first", dict(W=3, H=2, K=3))])],
    "C05": [
        trace("cmp", ["order", "--what", "cmp", "--w", "4"], "SegmentOrderTrace", "cmp", n=15000, batch=20000),
        near("near", ["order", "--what", "cmp"], "SegmentOrderTrace", "cmp", 60000),
        design("SegmentOrderLaws", [dict(W=3, H=2)], [dict(W=3, H=3), dict(W=4, H=2), dict(W=4, H=3)],
               [("crossing", dict(W=2, H=2)), ("unmet", dict(W=2, H=2))]),
    ],
    "C06": [
        trace("meet", ["order", "--what", "meet", "--w", "4"], "SegmentOrderTrace", "meet", n=15000, batch=20000),
        near("near", ["order", "--what", "meet"], "SegmentOrderTrace", "meets", 60000),
        trace("steep", ["order", "--what", "meet", "--mode", "steep"], "SegmentOrderTrace", "meet", n=20000, batch=20000),
    ],
    "B01": [bops("pair", "region", 6000), large("pair", "region", 80), bops("round", "region", 800), fan("pair", "region", 500),
            bops("steep", "region", 300), nest("pair", "region", 250), near("near-region", ["bops"], "BoolOpsTrace", "region", 1000)] + pairs("region") + [
        design("BoolOpAlgorithm", [fan4, two(W=2, H=1, Diag=1), two(W=3, H=2, Diag=0)],
               [two(W=2, H=1, Diag=2), two(W=2, H=2, Diag=1), two(Diag=3)],
               [("ends-unoriented", fan4), ("no-holes", one(W=3, H=3, Diag=0))])],
    "B02": [bops("pair", "valid", 3000), large("pair", "valid", 40, 14), bops("round", "valid", 250), bops("hist", "valid", 200), fan("pair", "valid", 100, 8),
            bops("steep", "valid", 60), nest("pair", "valid", 150, 6), near("near-valid", ["bops"], "BoolOpsTrace", "valid", 600)] + pairs("valid", tri=3, quad=40, cells=32) + [
        design("BoolOpAlgorithm", [one(Diag=3), one(W=3, H=2, Diag=1), one(W=3, H=3, Diag=0)],
               [one(W=2, H=2, Diag=2), one(W=4, H=4, Diag=0), one(W=3, H=3, Diag=1)],
               [("never-split", one(Diag=3)), ("no-holes", one(W=3, H=3, Diag=0))])],
    "B03": [bops("hist", "region", 4000), large("hist", "region", 15, 14), fan("hist", "region", 150), nest("hist", "region", 250)],
    "B04": [bops("wild", "region", 6000), large("wild", "region", 60), fan("wild", "region", 400), nest("wild", "region", 100),
            bops("steepwild", "region", 150)] + pairs("region", wild=1),
    "M01": [mono_large("chains", "pieces", 400), mono_near("chains", "pieces", 20000), mono("chains", "pieces", 40000)] + simple("chains", "pieces") + [
        design("MonotoneAlgorithm", [grid(3, 2, 1)], [grid(4, 2, 1)], [("no-merge-mark", grid(4, 3, 0))])],
    "M02": [mono_large("chains", "tiling", 300), mono_near("chains", "tiling", 20000), mono("chains", "tiling", 40000)] + simple("chains", "tiling") + [
        design("MonotoneAlgorithm", [grid(2, 2, 2), grid(3, 2, 1)], [grid(4, 3, 0), grid(3, 3, 1), grid(5, 2, 1), grid(4, 4, 0)],
               [("keep-helper", grid(4, 3, 0)), ("split-either", grid(3, 3, 1)), ("forget-merge-at-end", grid(4, 3, 0))])],
    "M03": [mono_large("sweep", "sweep", 400), mono_near("sweep", "sweep", 20000), mono("sweep", "sweep", 40000)] + simple("sweep", "sweep") + [
        design("MonotoneAlgorithm", [grid(3, 2, 1)], [grid(4, 2, 1)], [("forget-merge-at-end", grid(4, 3, 0))])],
    "M08": [mono_large("sweep", "links", 250), mono_near("sweep", "links", 8000), mono("sweep", "links", 20000)] + simple("sweep", "links") + [
        design("MonotoneAlgorithm", [grid(4, 3, 0), grid(4, 2, 1)], [grid(2, 2, 2), grid(3, 3, 1), grid(4, 4, 0)],
               [("no-merge-mark", grid(4, 3, 0)), ("keep-merge", grid(4, 3, 0)), ("forget-merge-at-end", grid(4, 3, 0)),
                ("keep-helper", grid(4, 3, 0))])],
    "M04": [scan("hist", 15000), scan_round("hist", 8000), *scan_all("hist"),
            design("ScannerAlgorithm", [dict(W=2, H=2)], [dict(W=3, H=2), dict(W=2, H=3)],
                   [(f, dict(W=2, H=2)) for f in ("farther", "overshoot", "both-move")])],
    "M05": [scan("area", 15000), scan_round("area", 60000), scan_mixed("area", 10000),
            scan_mixed("area", 6000, "round"), *scan_all("area"),
            design("ScannerAlgorithm", [dict(W=2, H=2)], [dict(W=2, H=3)], [("upright", dict(W=2, H=2))])],
    "M06": [scan("bounds", 12000), scan("ubounds", 12000), scan_round("bounds", 6000), scan_round("ubounds", 6000),
            *[scan_mixed(w, 6000, k) for w in ("bounds", "ubounds") for k in ("exact", "round")],
            *scan_all("bounds"), *scan_all("ubounds")],
    "M07": [trace("conv", ["scan", "--what", "conv"], "MonoPolyTrace", n=15000)],
    "S01": [
        trace("random", ["splay", "--mode", "map"], "OrderedMapTrace", "answers", n=24000),
        dict(name="model", do="splay_replay", spec="SplayTree", cfg="SplayTree6.cfg", cfg_thorough="SplayTree7.cfg",
             kind="map", what="answers", workers="1"),
        *longs("map", "answers"),
    ],
    "S02": [
        trace("random", ["splay", "--mode", "set"], "OrderedMapTrace", "answers", n=24000),
        dict(name="model", do="splay_replay", spec="SplayTree", cfg="SplayTree6.cfg", cfg_thorough="SplayTree7.cfg",
             kind="set", what="answers", workers="1"),
        *longs("set", "answers"),
    ],
    "S03": [
        trace("map", ["splay", "--mode", "map", "--iters", "1"], "OrderedMapTrace", "iter", n=16000),
        trace("set", ["splay", "--mode", "set", "--iters", "1"], "OrderedMapTrace", "iter", n=16000),
        *longs("map", "iter", ["--iters", "2"]),
        *longs("set", "iter", ["--iters", "2"]),
    ],
    "S04": [
        trace("map-refs", ["splay", "--mode", "map", "--refs", "1"], "OrderedMapTrace", "refs", n=15000),
        trace("set-refs", ["splay", "--mode", "set", "--refs", "1"], "OrderedMapTrace", "refs", n=15000),
        trace("map-live", ["splay", "--mode", "map"], "OrderedMapTrace", "live", n=12000),
        trace("set-live", ["splay", "--mode", "set"], "OrderedMapTrace", "live", n=12000),
        *longs("map", "refs", ["--refs", "2"]),
        *longs("set", "refs", ["--refs", "2"]),
        *longs("map", "live"),
        *longs("set", "live"),
    ],
    "S06": [
        trace("map", ["splay", "--mode", "map", "--panics", "3", "--refs", "1"], "OrderedMapTrace", "panics", n=12000),
        trace("set", ["splay", "--mode", "set", "--panics", "3", "--refs", "1"], "OrderedMapTrace", "panics", n=12000),
        dict(name="model-map", do="splay_replay", spec="SplayPanics", cfg="SplayPanics.cfg", cfg_thorough="SplayPanics6.cfg",
             kind="map", what="panics", workers="1"),
        dict(name="model-set", do="splay_replay", spec="SplayPanics", cfg="SplayPanics.cfg", cfg_thorough="SplayPanics6.cfg",
             kind="set", what="panics", workers="1"),
        *longs("map", "panics", ["--panics", "9", "--refs", "2"]),
        *longs("set", "panics", ["--panics", "9", "--refs", "2"]),
        design("SplayPanics", [], [], [("detached", dict(N=3)), ("one-side", dict(N=3)), ("child", dict(N=3))])],
    "C07": [amount("sweep", 10000, 60000), amount("pairs", 10000, 60000), amount("sweep", 3000, 8000)],
    "S07": [*[amount(w, n, t) for w in ("map", "set") for n, t in ((1000, 4000), (300, 700), (2500, 10000))],
            design("SplayWork", [dict(N=5, Long="FALSE"), dict(N=124, Long="TRUE")],
                   [dict(N=6, Long="FALSE"), dict(N=7, Long="FALSE"), dict(N=250, Long="TRUE")],
                   [(f, dict(N=124, Long="TRUE")) for f in ("walk", "no-rotate", "at-rest")])],
    "S05": [dict(name="big", do="big", spec="BigCollectionTrace", n=300000, n_thorough=2000000)],
}
