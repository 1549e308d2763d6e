"""C10: measurement selection"""
from . import lib as L
from . import scen as S

BOUNDS = ("headers of 1 to 14 types (OBS 2 fast and strict, OBS 3 with up to 3 systems of different lists), the selected codes chosen symbolically: up to two "
          "codes or prefixes in any order, or as one string, also names that do not exist; with and without indicators; every digit symbolic")
OUTSIDE = "selections of more than two names (a few fixed ones of three and four); empty strings in a selection"


def meas_arg(P, cfg, names):
    pool = names
    a = P.choice("m1", pool, pool[0])
    two = P.choice("m2", ["-str", "-list", "-tuple"] + pool, "-list")
    if two == "-str":
        return a, [a]
    if two == "-list":
        return [a], [a]
    if two == "-tuple":
        return (a,), [a]
    return [a, two], [a, two]


def h(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    opts = dict(cfg.get("opts", {}))
    if "meas" in cfg:
        arg = P.choice("arg", cfg["meas"], cfg["meas"][0])
        sel = [arg] if isinstance(arg, str) else list(arg)
        if isinstance(arg, tuple):
            arg = list(arg)
    else:
        arg, sel = meas_arg(P, cfg, cfg["pool"])
    if cfg.get("symind"):
        opts["useindicators"] = P.flag("useind", False)
    exp = S.expect(P, f, dict(opts, meas=sel), ver)
    keep = list(arg) if isinstance(arg, list) else arg
    ds = (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, exp, dict(opts, meas=arg))
    P.check("meas= argument untouched", arg == keep)
    if ds is not None:
        codes = f.codes if ver == 2 else sorted({c for k, l in f.codes.items() if opts.get("use") is None or k in opts["use"] for c in l})
        ok = {c for c in codes if any(c.startswith(m) for m in sel)}
        for v in ds.data_vars:
            base = str(v)[:-3] if str(v)[-3:] in ("lli", "ssi") else str(v)
            P.check(f"variable {v} is selected", base in ok)


def prefixes(codes):
    return list(dict.fromkeys(c[:k] for k in (1, 2, 3) for c in codes if len(c) >= k))


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    codes = ["C1", "L1", "P2", "S1", "L2", "D1", "C2"]
    pool = ["L1", "C", "C1", "P2", "S1", "C2", "L", "D1", "X9", "D2"]
    for m in (True, False):
        n = "fast" if m else "strict"
        o = dict(fast=m)
        add(f"obs2-{n}", 4, "quick" if m else "thorough", ver=2, codes=codes, epochs=["G1-6,R2", "G1,R2,R5"], pool=pool, opts=o)
        add(f"obs2ind-{n}", 6, "quick" if not m else "thorough", ver=2, codes=codes, epochs=["G1-6,R2", "G1,R2"], pool=["S1", "L", "C2", "P2", "D1"], opts=dict(o, useindicators=True), ind=True)
        add(f"obs2trim-{n}", 4, ver=2, codes=codes, epochs=["G1,G2", "G1"], meas=[("L1", "C2"), ("C2", "L1"), ("D1", "P2", "C1"), "S1"], opts=o, trim="sym",
            vary=[(0, 0, 6), (0, 1, 1), (1, 0, 4)], styles=["full", "blank"])
        add(f"obs2long-{n}", 3, ver=2, nobs=17, epochs=["G1-13", "R1,G1"], meas=[("S2", "L1"), ("C6", "D5", "S1", "L8"), ("C", "L"), "P", ("D7", "D6")], opts=o, symind=True, ind=True)
    add("obs2use", 3, ver=2, codes=codes, epochs=["G1,R2", "R2,G5"], pool=["L2", "C", "P2"], opts=dict(use={"R"}, fast=False))
    add("obs2dup", 3, ver=2, codes=["L1", "L2", "C1", "L5"], epochs=["G1,R2", "R2,G5"], meas=[("L", "L1"), ("L5", "L"), ("L1", "L1"), ("C1", "L", "C")], opts=dict(fast=False), symind=True, ind=True)
    c3 = {"G": ["C1C", "L1C", "S1C", "C2W", "L2W"], "R": ["L1C", "C1P", "C2W"], "E": ["C1X", "L7X", "S1C", "D8X", "C5Q", "L1C", "C1C"]}
    pool = ["L1C", "C", "C1", "S1C", "D8X", "L", "C2W", "X9X", "C5Q"]
    add("obs3", 6, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1", "E3,G5"], pool=pool)
    add("obs3ind", 6, ver=3, codes=c3, epochs=["G1,R2,E3", "E2"], pool=["S1C", "L", "C2W", "C1C", "D8X"], opts=dict(useindicators=True), ind=True)
    # every prefix of every code
    cp = {"G": ["C1C", "C5Q", "C5X", "L1C"], "R": ["L1P", "C1C", "S1C"]}
    add("obs3prefix", 6, ver=3, codes=cp, epochs=["G1,R2", "R2,G1"], pool=prefixes(cp["G"] + cp["R"])[:11] + ["C5Y", "1C"])
    add("obs3prefix2", 6, "thorough", ver=3, codes=cp, epochs=["G1,R2", "R2,G1"], pool=prefixes(cp["G"] + cp["R"])[::-1] + ["C1CC", "c1"], symind=True, ind=True)
    add("obs2prefix", 6, ver=2, codes=["C1", "CA", "P1", "C2", "L1"], epochs=["G1,R2", "R2"], pool=prefixes(["C1", "CA", "P1", "C2", "L1"]) + ["A", "C1C"], opts=dict(fast=False))
    add("obs3three", 4, ver=3, codes=cp, epochs=["G1,R2", "R2,G1"], meas=[("C5X", "C", "L1C"), ("C", "C5X", "C5"), ("S1C", "C5Q", "L1P"), ("L", "C1C", "C5X", "S"), ("C5", "C5Q"), ("L1C", "C5X", "C5Q", "C1C"), ("X", "Y", "C1")], symind=True, ind=True)
    add("obs3trim", 4, ver=3, codes=c3, epochs=["G1,R2,E3", "R2"], meas=[("L1C", "C2W"), ("C2W", "L1C"), ("C1C", "C1P"), "S1C"], trim="sym",
        vary=[(0, 0, 4), (0, 1, 2), (0, 2, 6)], styles=["full", "blank"])
    add("obs3one", 3, ver=3, codes={"G": ["C1C", "L1C", "S1C", "C2W", "L2W"]}, epochs=["G1,G2", "G2", "G5"], pool=["L", "C2", "S1C", "L1C", "Z"])
    add("obs3use", 4, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1", "E3,G5"], pool=["L", "C1", "C2W", "D8X"], opts=dict(use={"E", "R"}))
    add("obs3long", 4, ver=3, codes={"G": 27, "R": 3, "E": 14}, epochs=["G1,R2,E3", "R2,G1"], meas=[("S8X", "C1C"), ("D7X", "L5Q"), ("L", "D"), ("C1C", "D1C", "C5Q", "L7X")], symind=True, ind=True)
    add("obs3dup", 3, ver=3, codes=c3, epochs=["G1,R2,E3", "R2,G1"], meas=[("L", "L1C"), ("L1C", "L1C"), ("C2W", "C", "L"), ("C5Q", "C1")], symind=True, ind=True)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
