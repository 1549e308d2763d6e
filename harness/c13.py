"""C13: fast and strict reading of RINEX 2 OBS"""
from datetime import timedelta

from . import lib as L
from . import scen as S
from .c07 import bound
from .c08 import interval
from .c11 import ind_of
from .c22 import event2, junk2, slip

BOUNDS = ("0 to 5 epochs of 1 to 13 satellites, 1 to 11 types; every combination of use (absent, one, two or an absent system), tlim (bounds symbolic), interval "
          "(symbolic seconds), meas (absent, one, two, an absent code) and useindicators; layouts for which the speculative estimate is used, refused, or too "
          "small; event and cycle slip records, junk lines, gaps, trimmed lines; every digit of values and indicators symbolic")
OUTSIDE = "more epochs; files above 100 MB"
B = S.BASE


def h(P, gr, cfg):
    cfg = dict(cfg)
    opts = {}
    use = P.choice("use", cfg.get("use", [None]), cfg.get("use", [None])[0])
    if use is not None:
        opts["use"] = {"one": {"G"}, "two": ["R", "G"], "str": "R", "absent": {"J"}}[use]
    meas = P.choice("meas", cfg.get("meas", [None]), cfg.get("meas", [None])[0])
    if meas is not None:
        k = cfg["codes"]
        opts["meas"] = {"one": [k[-1]], "str": k[0], "two": [k[-1], k[0]], "prefix": [k[0][0]], "absent": ["X9"], "part": ["X9", k[len(k) // 2]]}[meas]
    if P.choice("ind", cfg.get("inds", [False]), cfg.get("inds", [False])[0]):
        opts["useindicators"] = True
        cfg["ind"] = True
    old = S.indicator
    S.indicator = (lambda P, c, e, i: ind_of(P, c, e, i) if c.get("ind") else None)
    try:
        f = S.build2(P, cfg)
    finally:
        S.indicator = old
    inside = [True] * len(f.exp)
    if P.choice("win", cfg.get("win", [False]), cfg.get("win", [False])[0]):
        a, ta = bound(P, "wa", B + timedelta(seconds=cfg.get("wlo", 25)), cfg.get("asym", "S"), "dt")
        b, tb = bound(P, "wb", B + timedelta(seconds=cfg.get("whi", 70)), cfg.get("bsym", ""), "dt")
        P.assume(ta <= tb)
        opts["tlim"] = (a, b)
        inside = [bool(ta <= t) and bool(t <= tb) for t, _ in f.exp]
    n = None
    if P.choice("dec", cfg.get("dec", [False]), cfg.get("dec", [False])[0]):
        arg, n = interval(P, cfg.get("form", "int"))
        opts["interval"] = arg
    keep, mark = [], None
    for (t, _), k in zip(f.exp, inside):
        if k and n is not None:
            if mark is None:
                mark = t
            elif t - mark < n:
                k = False
            else:
                mark = n + mark
        keep.append(k)
    exp = S.expect(P, f, opts, 2, keep=lambda i: keep[i])
    S.load2(P, gr, f, dict(cfg, modes=[True, False]), exp, opts)


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    c2, c5, c6, c7 = ["C1", "L1"], ["C1", "L1", "P2", "S1", "L2"], ["C1", "L1", "P2", "S1", "L2", "D1"], ["C1", "L1", "P2", "S1", "L2", "D1", "C2"]
    N, A = [None], [False, True]
    few = ["G1,R2", "G1", "G2,R1", "G3"]
    many = ["G1-6,R2", "G1-6", "G2-7,R1", "G3-9"]
    four = dict(offsets=[0, 30, 60, 120], base=B, pad="0")
    for nm, codes, eps in (("few", c2, few), ("many", c5, many), ("two", c7, many), ("six", c6, few), ("twofew", c7, few)):
        q = "quick" if nm in ("few", "many", "two") else "thorough"
        add(f"win-dec-{nm}", 4, q, codes=codes, epochs=eps, win=A, dec=A, **four)
        add(f"use-meas-ind-{nm}", 4, q, codes=codes, epochs=eps, use=[None, "one", "str"], meas=[None, "two"], inds=A, **four)
        add(f"use-win-{nm}", 4, "thorough", codes=codes, epochs=eps, use=[None, "one", "two", "str", "absent"], win=[True], dec=A, **four)
        add(f"meas-win-{nm}", 4, "thorough", codes=codes, epochs=eps, meas=["one", "str", "two", "prefix", "absent", "part"], win=A, inds=A, **four)
        add(f"ind-win-dec-{nm}", 4, "thorough" if nm != "many" else "quick", codes=codes, epochs=eps, inds=[True], win=A, dec=[True], **four)
        add(f"all-{nm}", 8, "thorough", codes=codes, epochs=eps, use=[None, "one", "two"], meas=[None, "one", "prefix"], win=A, dec=A, inds=A, **four)
    for nm, codes, eps in (("few", c2, few), ("many", c5, many)):
        add(f"stop-{nm}", 4, codes=codes, epochs=eps, win=[True], asym="", bsym="S", wlo=0, whi=60, dec=A, **four)
        add(f"bounds-{nm}", 4, codes=codes, epochs=eps, win=[True], asym="M", bsym="M", wlo=0, whi=60, use=[None, "str"], **four)
    add("times", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", symt={1: "S"}, win=[True], asym="", dec=A)
    add("timesf", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", symt={1: "Sf"}, win=[True], asym="")
    add("short", 2, codes=c5, epochs=["G1", "G1", "G1", "G1"], win=A, meas=[None, "one"], **four)
    add("trim", 4, codes=c6, epochs=["G1-7", "G1-6,R1", "G1-7"], trim="sym", fixed={(0, 0, 5): "blank", (1, 2, 5): "blank", (2, 0, 4): "blank"}, inds=A, dec=A,
        offsets=[0, 30, 60], base=B, pad="0")
    add("firstshort", 4, codes=c6, epochs=["G1-7", "G1-6,R1", "G1-7"], trim=True, fixed={(0, 0, k): "blank" for k in range(6)}, win=A, offsets=[0, 30, 60], base=B, pad="0")
    add("cont", 4, codes=c2, epochs=["G1-13", "G1-12,R1", "G2-14"], use=[None, "str"], win=A, offsets=[0, 30, 60], base=B, pad="0")
    add("cont5", 4, codes=c5, epochs=["G1-13", "G1-12,R1", "G2-14"], use=[None, "str"], win=A, dec=[True], offsets=[0, 30, 60], base=B, pad="0")
    for n, s in (("G1-24", 24), ("G1-25", 25), ("G1-32,R1-5", 37)):
        add(f"cont{s}", 4, codes=c5, epochs=[n, "G1", "R1-13,G3"], use=[None, "str"], win=A, offsets=[0, 30, 60], base=B, pad="0")
    add("gap", 4, codes=c5, epochs=many, offsets=[0, 30, 3600, 3630], base=B, pad="0", dec=[True], win=A, whi=3620)
    add("event", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", events={1: event2(4, 2), 2: event2(3, 1, True)}, win=A, dec=A)
    add("eventfirst", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", events={0: event2(4, 1, True), 3: event2(2, 2)}, win=A, dec=A)
    add("slips", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", events={1: slip("G1,G2"), 2: slip("R2")}, win=A, dec=A)
    add("junk", 4, codes=c2, epochs=few[:3], offsets=[0, 30, 60], base=B, pad="0", events={0: junk2(40, (3, 4, 9, 30)), 2: junk2(20, (3, 4, 9))}, win=A, dec=A)
    add("free", 4, codes=c5, epochs=many[:3], offsets=[0, 30, 60], base=B, pad="0", free=(1,), symt={1: "HM"}, increasing=True)
    add("none", 1, codes=c2, epochs=[], win=A, inds=A, meas=[None, "one"])
    add("one", 1, codes=c2, epochs=["G1"], win=A, dec=A, base=B, pad="0", wlo=0)
    add("sbas", 2, codes=c5, epochs=["S20-26,C40", "S21,E36", "J1"], use=[None], offsets=[0, 30, 60], base=B, pad="0", win=A)
    add("single", 2, codes=c5, system="G", epochs=["G1-6", "G1-7", "G3"], use=[None, "one", "str", "absent"], offsets=[0, 30, 60], base=B, pad="0", win=A)
    for k in (1, 4, 9, 10, 11):
        add(f"types{k}", 2, "quick" if k in (1, 10) else "thorough", codes=S.CODES2[:k], epochs=["G1-6", "G1-5,R1", "G3"], offsets=[0, 30, 60], base=B, pad="0", win=A, inds=A)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
