"""C12: gettime"""
from . import lib as L
from . import scen as S
from . import nav as N
from .c22 import event2, event3, nav_junk, slip

BOUNDS = ("OBS 2 with 1 to 26 types and 1 to 37 satellites per epoch, OBS 3, NAV 2/3 of all kinds; 1 to 5 epochs or records, up to two of them with every "
          "time component symbolic; event and cycle slip records; trailing blanks trimmed or not; CRLF line ends, blanks beyond column 80, no final line end; header comments that look like epochs or records; event and comment records between epochs; lines between the NAV records that are no records")
OUTSIDE = "more epochs; files with malformed records (see C22)"


def check_times(P, got, exp, res, what=""):
    """exp: datetimes in the expected order"""
    got = [L.us(x) for x in got]
    P.check(what + "number of times", len(got) == len(exp))
    for k, (g, e) in enumerate(zip(got, exp)):
        P.expect_time(f"{what}time {k}", g, e, res)


def sorted_unique(P, ts):
    L.order_times(P, ts)
    out = {}
    for t in ts:
        out.setdefault(L.plain_us(t), t)
    return [out[k] for k in sorted(out)]


def h_obs(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    src = f.file()
    got, err = P.run(gr.gettime, src)
    P.check("gettime" + ("" if err is None else ": " + type(err).__name__), err is None)
    ts = [t for t, _ in f.exp]
    if err is None:
        check_times(P, got, ts, 1 if ver == 2 else 1000)
    if cfg.get("load", True):
        ds, err = P.run(gr.load, f.file(), **(dict(fast=False) if ver == 2 else {}))
        P.check("loads", err is None)
        if err is None:
            L.order_times(P, ts)
            got = ds["time"].values
            if cfg.get("unordered"):
                # the order of the loaded times is not stated
                got, ts = sorted(got), sorted_unique(P, ts)
            check_times(P, got, ts, 1, "loaded ")


def h_nav(P, gr, cfg):
    if cfg.get("junk"):
        cfg = dict(cfg, raw={i: [nav_junk(P, f"jk{i}.{j}", n, (0, 2, 5, 11, 30), ver=cfg["ver"]) for j, n in enumerate(ns)] for i, ns in cfg["junk"].items()})
    f = N.build(P, cfg)
    got, err = P.run(gr.gettime, f.file())
    P.check("gettime" + ("" if err is None else ": " + type(err).__name__), err is None)
    ts = sorted_unique(P, [t for t, _ in f.exp])
    if err is None:
        check_times(P, got, ts, 1000)
    ds, err = P.run(gr.load, f.file())
    P.check("loads", err is None)
    if err is None:
        check_times(P, ds["time"].values, ts, 1, "loaded ")


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    sat = {1: "G1", 11: "G1-11", 12: "G1-12", 13: "G1-13", 24: "G1-24", 25: "G1-25", 36: "G1-32,R1-4", 37: "G1-32,R1-5"}
    for n, s in sat.items():
        add(f"obs2sats{n}", h_obs, 3, ver=2, nobs=3 if n % 2 else 6, epochs=[s, "G1", s], symt={1: "Sf"}, trim="sym")
    for k in (1, 4, 5, 6, 9, 10, 11, 15, 16, 20, 26):
        add(f"obs2types{k}", h_obs, 3, ver=2, nobs=k, epochs=["G1-3", "G1,R2", "G5"], symt={0: "HM", 2: "S"}, trim="sym", fixed={(0, 2, k - 1): "blank", (1, 1, 0): "blank"})
    add("obs2ymd", h_obs, 3, ver=2, nobs=2, epochs=["G1", "G1"], symt={0: "ymd", 1: "ymdHMS"}, pad="0")
    add("obs2blank", h_obs, 3, ver=2, nobs=6, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "Sf"}, trim="sym", fixed={(e, 1, k): "blank" for e in (0, 1) for k in range(6)})
    for n in (0, 1, 2, 3):
        add(f"obs2ev{n}", h_obs, 3, ver=2, nobs=2, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "S"}, events={1: event2(4, n), 2: event2(2 + n % 2, n, True), 3: event2(3, n)})
        add(f"obs3ev{n}", h_obs, 3, ver=3, codes={"G": 2, "R": 1}, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "S"}, events={1: event3(4, n), 2: event3(2 + n % 2, n, True), 3: event3(3, n)})
    for k in (1, 2, 3):
        add(f"obs2slip{k}", h_obs, 3, ver=2, nobs=6, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "S"}, events={k: slip("G1,G2"), 3 - k: event2(5, k - 1)})
        add(f"obs3slip{k}", h_obs, 3, ver=3, codes={"G": 2, "R": 1}, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "S"}, events={k: slip("G1,R2"), 3 - k: event3(5, k - 1)})
    add("obs2flag", h_obs, 2, ver=2, nobs=2, epochs=["G1,G2", "G1,R3", "G1"], symt={1: "S"}, flags={1: 1, 2: 1})
    add("obs3", h_obs, 3, ver=3, codes={"G": 3, "R": 1}, epochs=["G1,R2", "G1", "R2"], symt={0: "S", 1: "f", 2: "HM"}, trim="sym")
    add("obs3many", h_obs, 3, ver=3, codes={"G": 1, "R": 1}, epochs=["G1-32,R1-24", "G1", "R2"], symt={0: "S", 1: "ymd"}, trim="sym", pad="0")
    add("obs3ymd", h_obs, 3, ver=3, codes={"G": 2}, epochs=["G1", "G1"], symt={0: "ymd", 1: "ymdHMSf"}, pad="0")
    for v, kw in ((2, dict(nobs=6)), (3, dict(codes={"G": 2, "R": 2}))):
        add(f"obs{v}joined", h_obs, 3, ver=v, epochs=["G1,R2", "G1", "R2", "G1-14"], offsets=[60, 0, 30, 90], symt={1: "S", 3: "M"}, increasing="distinct", unordered=True, **kw)
        add(f"obs{v}reversed", h_obs, 3, ver=v, epochs=["G1,R2", "G1", "R2"], offsets=[60, 30, 0], symt={1: "S"}, increasing="distinct", unordered=True, **kw)
    add("nav2", h_nav, 3, ver=2, kind="N", recs=[("G01", 0), ("G02", 0), ("G01", 7200), ("G03", 3600)], symt={2: "HM", 3: "H"}, pad="0", trim="sym")
    add("nav2glo", h_nav, 3, ver=2, kind="G", recs=[("R01", 1800), ("R02", 0), ("R01", 0), ("R03", 900)], symt={2: "M"}, pad="0", trim="sym")
    add("nav2gal", h_nav, 3, ver=2, kind="E", recs=[("E01", 1800), ("E02", 0), ("E11", 0)], symt={1: "ymd"}, pad="0")
    add("nav2sec", h_nav, 3, ver=2, kind="N", recs=[("G01", 0), ("G02", 30), ("G01", 7200), ("G03", 3600)], symt={1: "Sf", 3: "f"}, pad="0")
    add("nav2sec0", h_nav, 3, ver=2, kind="N", recs=[("G01", 0), ("G02", 30)], symt={0: "Sf"})
    add("nav2glosec", h_nav, 3, ver=2, kind="G", recs=[("R01", 1800), ("R02", 0), ("R01", 0)], symt={1: "Sf"})
    add("nav2galsec", h_nav, 3, ver=2, kind="E", recs=[("E01", 1800), ("E02", 0), ("E01", 0)], symt={1: "Sf", 2: "S"})
    add("nav3", h_nav, 3, ver=3, recs=[("G01", 0), ("R02", 0), ("G01", 7200), ("S03", 3600)], symt={2: "HM", 3: "H"}, trim="sym")
    add("nav3all", h_nav, 3, ver=3, recs=[("R05", 0), ("C01", 60), ("S20", 120), ("J01", 30), ("E05", 0), ("I02", 90), ("G07", 15)], symt={3: "S"})
    add("nav3one", h_nav, 3, ver=3, recs=[("E01", 600), ("E02", 0), ("E03", 600)], symt={1: "ymdHMS"})
    for i in range(5):
        add(f"nav2junk{i}", h_nav, 2, ver=2, kind="N", recs=[("G01", 0), ("G02", 0), ("G01", 7200), ("G03", 3600)], symt={2: "H"}, pad="0", junk={i: (60, 0, 22), 4: (60,)})
        add(f"nav3junk{i}", h_nav, 2, ver=3, recs=[("G01", 0), ("R02", 0), ("G01", 7200), ("S03", 3600)], symt={2: "H"}, junk={i: (60, 0, 22), 4: (60,)})
    add("obs2layout", h_obs, 3, ver=2, nobs=6, epochs=["G1,R2", "G1-13", "R2"], symt={1: "S"}, layout="sym", trim="sym")
    add("obs3layout", h_obs, 3, ver=3, codes={"G": 3, "R": 1}, epochs=["G1,R2", "G1", "R2"], symt={1: "S"}, layout="sym", trim="sym")
    add("nav2layout", h_nav, 3, ver=2, kind="N", recs=[("G01", 0), ("G02", 0), ("G01", 7200)], symt={1: "M"}, layout="sym", trim="sym")
    add("nav3layout", h_nav, 3, ver=3, recs=[("G01", 0), ("R02", 0), ("G01", 7200)], symt={1: "M"}, layout="sym", trim="sym")
    # header comments that look like an epoch or a record
    c2 = [f"{x:<60}COMMENT             \n" for x in (" 18  5 13  1 29 30.0000000  0  2G01G02", "18  5 13  1 29 30.0000000  0  1G01")]
    c3 = [f"{x:<60}COMMENT             \n" for x in ("> 2018 05 13 01 29 30.0000000  0  1", "> 2018 05 13 01 31 30.0000000  4  1", "> END")]
    n2 = [f"{x:<60}COMMENT             \n" for x in (" 1 18  5 13  1 29 30.0 1.000000000000D+00", "18  5 13  1 29 30.0")]
    n3 = [f"{x:<60}COMMENT             \n" for x in ("G01 2018 05 13 01 29 30 1.000000000000E+00", "R01 2018 05 13 01 29 30")]
    add("obs2comment", h_obs, 2, ver=2, nobs=6, epochs=["G1,R2", "G1-13", "R2"], symt={1: "S"}, extra=c2)
    add("obs3comment", h_obs, 2, ver=3, codes={"G": 3, "R": 1}, epochs=["G1,R2", "G1", "R2"], symt={1: "S"}, extra=c3)
    add("nav2comment", h_nav, 2, ver=2, kind="N", recs=[("G01", 0), ("G02", 0), ("G01", 7200)], symt={1: "M"}, extra=n2)
    add("nav3comment", h_nav, 2, ver=3, recs=[("G01", 0), ("R02", 0), ("G01", 7200)], symt={1: "M"}, extra=n3)
    for s in "GRECJIS":
        add(f"nav3{s}", h_nav, 2, ver=3, recs=[(s + "01", 60), (s + "02", 0), (s + "01", 0)], symt={1: "S"})
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
