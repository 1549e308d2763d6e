"""C11: indicators"""
from . import lib as L
from . import scen as S

BOUNDS = ("1 to 14 types, 1 to 14 satellites, 1 to 3 epochs, OBS 2 fast and strict, OBS 3 with up to 4 systems; every indicator digit symbolic, chosen ones "
          "present or blank, the observation itself full-width, blank, zero or negative; trailing blanks kept or trimmed")
OUTSIDE = "non-digit characters in the indicator columns"


def ind_of(P, cfg, e, i):
    varyi = cfg.get("varyind", ())
    m = cfg.get("indpat", 0)

    def ind(k):
        a = P.char(f"lli{e}.{i}.{k}", "01234567", "1")
        b = P.char(f"ssi{e}.{i}.{k}", "0123456789", "5")
        if (e, i, k) in varyi:
            w = P.choice(f"ind{e}.{i}.{k}", ["both", "lli", "ssi", "none"], "both")
            return (a if w in ("both", "lli") else " "), (b if w in ("both", "ssi") else " ")
        s = (k + 2 * i + 3 * e + m) % 4
        return (a if s in (0, 1, 3) else " "), (b if s in (0, 2, 3) else " ")

    return ind


def h(P, gr, cfg):
    ver = cfg["ver"]
    old = S.indicator
    S.indicator = ind_of
    try:
        f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    finally:
        S.indicator = old
    opts = dict(cfg.get("opts", {}), useindicators=True)
    exp = S.expect(P, f, opts, ver)
    (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, exp, opts)
    if cfg.get("without"):
        opts = dict(cfg.get("opts", {}))
        (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, S.expect(P, f, opts, ver), opts, what="without ")


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    codes = ["C1", "L1", "P2", "S1", "L2", "D1", "C2", "S2", "L5", "D2", "L6", "L7", "C8", "L8"]
    for m in (True, False):
        n = "fast" if m else "strict"
        o = dict(fast=m)
        add(f"obs2-{n}", 4, ver=2, codes=codes[:7], epochs=["G1-6,R2", "G1,R2,R5"], opts=o, varyind=[(0, 0, 1), (0, 1, 3), (1, 2, 6)], without=True)
        add(f"obs2vary-{n}", 4, "quick" if m else "thorough", ver=2, codes=codes[:6], epochs=["G1-7", "G1,R2"], opts=o, vary=[(0, 0, 1), (1, 1, 4)], styles=["full", "blank", "neg"],
            varyind=[(0, 0, 1), (1, 1, 4)])
        add(f"obs2trim-{n}", 4, ver=2, codes=codes[:6], epochs=["G1,G2", "G2"], opts=o, trim="sym", varyind=[(0, 0, 4), (0, 1, 5), (1, 0, 5)],
            vary=[(0, 1, 5)], styles=["full", "blank"])
        for k in (1, 2, 5, 10, 11, 14):
            add(f"obs2types{k}-{n}", 2, "quick" if k in (1, 5, 11) else "thorough", ver=2, codes=codes[:k], epochs=["G1-13", "G1,R2", "E5"], opts=o, varyind=[(0, 12, k - 1), (1, 0, 0)])
        add(f"obs2meas-{n}", 2, ver=2, codes=codes[:9], epochs=["G1-7", "G1,R2"], opts=dict(o, meas=["L2", "S", "C"]), varyind=[(0, 0, 4), (1, 1, 6)])
        add(f"obs2use-{n}", 2, ver=2, codes=codes[:9], epochs=["G1-7,R1", "R1,R2"], opts=dict(o, use={"R"}), varyind=[(0, 7, 4), (1, 1, 6)])
    c3 = {"G": ["C1C", "L1C", "S1C", "C2W", "L2W"], "R": ["L1C", "C1P", "C2W"], "E": ["C1X", "L7X", "S1C", "D8X", "C5Q", "L1C", "C1C"], "C": ["S2I", "L2I"]}
    add("obs3", 4, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1,C5"], varyind=[(0, 0, 1), (0, 2, 2), (1, 2, 1)], without=True)
    add("obs3vary", 4, ver=3, codes=c3, epochs=["G1,R2,E3", "E3"], vary=[(0, 0, 1), (1, 0, 5)], styles=["full", "blank", "neg", "zero"], varyind=[(0, 0, 1), (1, 0, 5)])
    add("obs3trim", 4, ver=3, codes=c3, epochs=["G1,R2", "E2"], trim="sym", varyind=[(0, 0, 4), (0, 1, 2), (1, 0, 6)], vary=[(0, 1, 2)], styles=["full", "blank"])
    add("obs3one", 2, ver=3, codes={"G": ["C1C", "L1C", "S1C"]}, epochs=["G1,G2", "G2", "G5"], varyind=[(0, 0, 1), (1, 0, 2), (2, 0, 0)])
    add("obs3meas", 2, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1"], opts=dict(meas=["L", "S1C"]), varyind=[(0, 0, 1), (0, 2, 2), (1, 0, 0)])
    add("obs3use", 2, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1"], opts=dict(use={"E", "R"}), varyind=[(0, 2, 1), (0, 1, 2), (1, 0, 0)])
    for k in (13, 14, 27):
        add(f"obs3types{k}", 2, "quick" if k == 14 else "thorough", ver=3, codes={"G": k, "R": 3}, epochs=["G1,R2", "R2,G1"], varyind=[(0, 0, k - 1), (1, 1, 1)])
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
