"""C09: constellation selection"""
from . import lib as L
from . import scen as S
from . import nav as N

BOUNDS = ("files mixing up to 4 systems (7 for the headers), the system of every satellite of an epoch chosen symbolically, every subset of up to 3 systems as "
          "letter, list, tuple or set; OBS 2 fast and strict, OBS 3, NAV 3; every digit symbolic")
OUTSIDE = "selections of only systems that the RINEX 3 OBS header does not declare (KeyError); a string of several letters"
SUB = {"G": ("G",), "R": ("R",), "E": ("E",), "C": ("C",), "S": ("S",), "J": ("J",), "GR": ("G", "R"), "RG": ("R", "G"), "GE": ("G", "E"), "ERG": ("E", "R", "G"), "GX": ("G", "X"),
       "GREC": ("G", "R", "E", "C")}


def use_arg(P, cfg):
    sub = SUB[P.choice("use", cfg["subs"], cfg["subs"][0])]
    forms = ["set", "list", "tuple"] + (["str"] if len(sub) == 1 else [])
    forms = cfg.get("forms") or forms
    form = P.choice(f"form{len(forms)}", forms, forms[0])
    return sub, {"set": set, "list": list, "tuple": tuple, "str": lambda s: s[0]}[form](sub)


def sats(P, cfg):
    """the system of chosen satellites is symbolic"""
    out = []
    for e, spec in enumerate(cfg["epochs"]):
        names = S.sats_of(spec)
        for i, s in enumerate(names):
            if (e, i) in cfg.get("symsys", ()):
                names[i] = P.choice(f"sys{e}.{i}", cfg["systems"], s[0]) + s[1:]
        out.append(names)
    return out


def h_obs(P, gr, cfg):
    ver = cfg["ver"]
    cfg = dict(cfg, epochs=sats(P, cfg))
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    sub, arg = use_arg(P, cfg)
    opts = dict(cfg.get("opts", {}))
    if ver == 2 and cfg.get("system", "M") != "M":
        pass
    exp = S.expect(P, f, dict(opts, use=sub), ver)
    keep = type(arg)(arg) if not isinstance(arg, str) else arg
    (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, exp, dict(opts, use=arg))
    P.check("use= argument untouched", arg == keep)


def h_nav(P, gr, cfg):
    recs = [list(r) for r in cfg["recs"]]
    for i in cfg.get("symsys", ()):
        recs[i][0] = P.choice(f"sys{i}", cfg["systems"], recs[i][0][0]) + recs[i][0][1:]
    f = N.build(P, dict(cfg, recs=[tuple(r) for r in recs]))
    sub, arg = use_arg(P, cfg)
    opts = dict(cfg.get("opts", {}))
    ds, err = P.run(getattr(gr, cfg.get("via", "load")), f.file(), use=arg, **opts)
    P.check("loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        exp = [(t, {s: d for s, d in dd.items() if s[0] in sub}) for t, dd in f.exp]
        exp = [(t, dd) for t, dd in exp if dd]
        L.compare(P, ds, exp)
        P.check("svtype attribute", set(ds.attrs.get("svtype", ())) == {s[0] for _, dd in exp for s in dd})


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    subs = ["G", "R", "E", "GR", "ERG", "GX"]
    for m in (True, False):
        n = "fast" if m else "strict"
        add(f"obs2-{n}", h_obs, 4, ver=2, nobs=6, epochs=["G1,R2,E3", "R2,G1", "E3,E5"], symsys={(0, 0), (1, 1)}, systems="GRE", subs=subs, opts=dict(fast=m), forms=["set"])
        add(f"obs2forms-{n}", h_obs, 4, ver=2, nobs=3, epochs=["G1,R2,E3", "R2,G1"], subs=["G", "RG", "S", "GREC"], opts=dict(fast=m))
        add(f"obs2cont-{n}", h_obs, 4, ver=2, nobs=11, epochs=["G1-9,R1-5,E1-3", "R1-13", "G1,R1,E1"], subs=["G", "R", "GE"], opts=dict(fast=m), forms=["set"])
        add(f"obs2trim-{n}", h_obs, 4, ver=2, nobs=7, epochs=["G1,R2,C3", "R2,G1,G3"], subs=["G", "C", "GR"], opts=dict(fast=m), forms=["set"], trim="sym",
            vary=[(0, 1, 6), (0, 1, 4), (1, 0, 0)], styles=["full", "blank"])
        add(f"obs2ind-{n}", h_obs, 4, ver=2, nobs=5, epochs=["G1,R2,E3", "R2,G1"], subs=["G", "RG"], opts=dict(fast=m, useindicators=True), ind=True, forms=["set"])
    add("obs2one", h_obs, 2, ver=2, nobs=4, epochs=["R1,R2", "R2"], system="R", subs=["G", "R", "RG"], forms=["set", "list"])
    add("obs2blank", h_obs, 2, ver=2, nobs=4, epochs=["G1,G2", "G2"], system=" ", blanksat=True, subs=["G", "R", "RG"], forms=["set"])
    add("obs2mblank", h_obs, 2, ver=2, nobs=4, epochs=["G1,R2", "G2,R5"], blanksat=True, subs=["G", "R", "RG"], forms=["set"])
    codes = {"G": 5, "R": 3, "E": 7, "C": 2}
    add("obs3", h_obs, 4, ver=3, codes=codes, epochs=["G1,R2,E3", "R2,G1", "E3,C5"], symsys={(0, 0), (1, 1)}, systems="GREC", subs=subs, forms=["set"])
    add("obs3forms", h_obs, 4, ver=3, codes=codes, epochs=["G1,R2,E3", "R2,G1"], subs=["G", "RG", "C", "GREC", "GX"])
    add("obs3order", h_obs, 4, ver=3, codes=dict(reversed(list(codes.items()))), epochs=["R1,G2,R3,C5", "G2", "E1"], subs=subs, forms=["set", "list"])
    add("obs3many", h_obs, 4, ver=3, codes={"G": 14, "R": 27, "E": 2}, epochs=["G1-9,R1-5,E1-3", "R1-13"], subs=["G", "R", "GE"], forms=["set"])
    add("obs3trim", h_obs, 4, ver=3, codes={"G": 2, "R": 4, "E": 2}, epochs=["G1,R2,E3", "R2,G1,G3"], subs=["G", "E", "GR"], forms=["set"], trim="sym",
        vary=[(0, 1, 3), (0, 0, 1), (1, 0, 0)], styles=["full", "blank"])
    add("obs3ind", h_obs, 4, ver=3, codes=codes, epochs=["G1,R2,E3", "R2,G1"], subs=["G", "RG", "E"], opts=dict(useindicators=True), ind=True, forms=["set"])
    add("obs3one", h_obs, 2, ver=3, codes={"R": 3}, epochs=["R1,R2", "R2"], system="R", subs=["R", "GR"], forms=["set", "list"])
    add("obs3space", h_obs, 2, ver=3, codes=codes, epochs=["G1,R2,E3", "R2,G1"], subs=["G", "RG"], spacesat=True, forms=["set"])
    R = [("G01", 0), ("R02", 0), ("E03", 600), ("G01", 7200)]
    add("nav3", h_nav, 4, ver=3, recs=R, symsys=(1, 2), systems="GREC", subs=subs, forms=["set"])
    add("nav3forms", h_nav, 4, ver=3, recs=R, subs=["G", "RG", "C", "GREC"])
    add("nav3all", h_nav, 4, ver=3, recs=[("S20", 0), ("G01", 0), ("C02", 0), ("R05", 0), ("J01", 0), ("E09", 0), ("I03", 0), ("S20", 60)],
        subs=["S", "J", "C", "R", "GE"], forms=["set"])
    add("nav3same", h_nav, 2, ver=3, recs=[("E01", 0), ("E01", 0), ("R01", 0), ("G01", 0)], subs=["E", "G", "RG"], forms=["set"])
    add("nav3space", h_nav, 2, ver=3, recs=R, subs=["E", "G", "RG"], forms=["list"], spacesat=True)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
