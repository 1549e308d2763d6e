"""C06: epoch times"""
from datetime import datetime

from .scen import h_obs2, h_obs3
from .nav import h_nav, h_sp3

BOUNDS = ("every digit of year, month, day, hour, minute, second and fraction symbolic (years 1980-2079; RINEX 3 and SP3 likewise), one epoch at a time "
          "symbolic next to one or two fixed ones; also digit combinations that are no valid date or time, and components that are blank or no number; files of up to 3 epochs")
OUTSIDE = "seventh decimal exactly 5 (a tie between microseconds); characters other than digits in seconds that have a fraction; RINEX 3 years outside 1980-2079"


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    inc = dict(increasing=True)
    b = datetime(2003, 10, 20, 11, 17, 28, 123456)
    sets = ["y", "md", "HM", "S", "f", "Sf", "ymd", "HMS", "ymdHMSf"]
    for s in sets:
        tier = "quick" if s in ("md", "S", "Sf", "ymd", "HMS", "ymdHMSf", "f") else "thorough"
        for pad in " 0":
            nm = s + ("z" if pad == "0" else "")
            if pad == "0" or s in ("md", "HM", "S", "HMS", "ymdHMSf"):
                t2 = tier if pad == "0" or s in ("HMS", "md") else "thorough"
                add("obs2-" + nm, h_obs2, 2, t2, nobs=3, epochs=["G1,R2"], symt={0: s}, base=b, pad=pad, **inc)
                add("nav2-" + nm, h_nav, 2, t2, ver=2, kind="N", recs=[("G01", 0)], symt={0: s}, base=b, pad=pad, **inc)
                add("obs3-" + nm, h_obs3, 2, t2, codes={"G": 3, "R": 2}, epochs=["G1,R2"], symt={0: s}, base=b, pad=pad, **inc)
                add("sp3-" + nm, h_sp3, 2, t2, svs="G1,G2", nep=1, symt={0: s}, base=b, pad=pad, **inc)
        if "f" not in s:
            add("nav3-" + s, h_nav, 2, tier, ver=3, recs=[("E01", 0)], symt={0: s}, base=b.replace(microsecond=0), **inc)
    for k, s in ((0, "dH"), (1, "HMSf"), (1, "ymd"), (0, "ymdHMSf")):
        tier = "quick" if k else "thorough"
        add(f"obs2-two{k}{s}", h_obs2, 4, tier, nobs=3, epochs=["G1,R2", "G1,R3"], symt={k: s}, base=b, pad="0", **inc)
        add(f"obs3-two{k}{s}", h_obs3, 4, tier, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G1,R3"], symt={k: s}, base=b, pad="0", **inc)
        add(f"sp3-two{k}{s}", h_sp3, 4, tier, svs="G1,G2", nep=2, symt={k: s}, base=b, pad="0", **inc)
        s = s.replace("f", "")
        add(f"nav2-two{k}{s}", h_nav, 4, tier, ver=2, kind="G", recs=[("R01", 0), ("R02", 900)], symt={k: s}, base=b, pad="0", **inc)
        add(f"nav3-two{k}{s}", h_nav, 4, tier, ver=3, recs=[("G01", 0), ("G02", 900)], symt={k: s}, base=b.replace(microsecond=0), **inc)
    # any digits, also of no valid date
    for s in ("md", "HMS", "ymdHMS"):
        fr = dict(free=(1,), symt={1: s}, base=b, pad="0", **inc)
        add(f"obs2-free-{s}", h_obs2, 4, nobs=3, epochs=["G1,R2", "G5,R3", "G1,E2"], **fr)
        add(f"obs2-free6-{s}", h_obs2, 4, "thorough", nobs=6, epochs=["G1,R2", "G5,R3", "G1,E2"], **fr)
        add(f"obs3-free-{s}", h_obs3, 4, codes={"G": 3, "R": 2, "E": 1}, epochs=["G1,R2", "G5,R3", "G1,E2"], **fr)
        fr = dict(free=(1,), symt={1: s}, base=b.replace(microsecond=0), pad="0", increasing=False)
        add(f"nav2-free-{s}", h_nav, 4, ver=2, kind="N", recs=[("G01", 0), ("G02", 60), ("G03", 0)], **fr)
        add(f"nav3-free-{s}", h_nav, 4, ver=3, recs=[("G01", 0), ("R02", 60), ("E03", 0)], **fr)
        add(f"sp3-free-{s}", h_sp3, 2, svs="G1,G2", nep=1, shi=60, free=(0,), symt={0: s}, base=b, pad="0", increasing=False)
    # components that are no number
    fr = dict(base=b, pad="0", increasing=False)
    add("obs2-bad", h_obs2, 4, nobs=3, epochs=["G1,R2", "G5,R3", "G1,E2"], bad={1: "ymdHM"}, **fr)
    add("obs3-bad", h_obs3, 4, codes={"G": 3, "R": 2, "E": 1}, epochs=["G1,R2", "G5,R3", "G1,E2"], bad={1: "ymdHM"}, **fr)
    fr = dict(base=b.replace(microsecond=0), pad="0", increasing=False)
    add("nav2-bad", h_nav, 4, ver=2, kind="N", recs=[("G01", 0), ("G02", 60), ("G03", 0)], bad={1: "ymdHM"}, **fr)
    add("nav2-bad0", h_nav, 4, ver=2, kind="G", recs=[("R01", 0), ("R02", 60)], bad={0: "ymdHM"}, **fr)
    add("nav3-bad", h_nav, 4, ver=3, recs=[("G01", 0), ("R02", 60), ("E03", 0)], bad={1: "ymdHMS"}, **fr)
    add("nav3-bad0", h_nav, 4, ver=3, recs=[("R02", 60), ("E03", 0)], bad={0: "ymdHMS"}, **fr)
    add("sp3-roll", h_sp3, 3, svs="G1,G2", nep=1, symt={0: "HMS"}, base=b, shi=60, pad="0")
    add("sp3-rollall", h_sp3, 3, "thorough", svs="G1,G2", nep=2, symt={1: "mdHMSf"}, base=b, shi=60, pad="0")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
