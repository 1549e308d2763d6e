"""C04: RINEX 3 NAV records"""
from .nav import h_nav, F3, PRINTED3

BOUNDS = ("1 to 9 records of up to 7 satellites of G R E C J S I, every digit symbolic, with the optional and spare fields printed, blank or left "
          "out, trailing blanks kept or trimmed, several records of a satellite at one time, times in any order")
OUTSIDE = "more records; malformed fields; the value of blank fields"


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        cfg.setdefault("ver", 3)
        out.append(dict(name=name, fn=h_nav, cfg=cfg, weight=weight, tier=tier))

    for s in "GECJIRS":
        n = len(F3[s])
        m = PRINTED3[s]
        a, b = f"{s}01", f"{s}22"
        add(f"{s}full", 2, recs=[(a, 0), (b, 0), (a, 3600)], vary=[(0, 0), (2, m - 1)], trim="sym", system=s)
        add(f"{s}spares", 1, recs=[(a, 0, n), (b, 0, n), (a, 3600, n)], vary=[(0, n - 1), (1, min(22, n - 1))], trim="sym", styles=["full", "blank", "sign"])
        add(f"{s}blank", 1, recs=[(a, 0), (b, 60), (a, 120)], vary=[(0, 2), (1, 6), (2, 10)], trim="sym", styles=["full", "blank"])
        if n > 15:
            for c in (27, 28, 29, 30):
                if c != m:
                    add(f"{s}n{c}", 1, recs=[(a, 0, c), (a, 7200, c)], vary=[(0, 22), (0, 20)], styles=["full", "blank"], trim="sym")
            add(f"{s}mixn", 1, recs=[(a, 0, 28), (a, 7200, n), (b, 0, 29), (b, 100, 28)], trim="sym", vary=[(0, 22)], styles=["full", "blank"])
            add(f"{s}mixn2", 1, recs=[(a, 0, n), (a, 7200, 28), (b, 0, 28), (b, 100, 30)], trim="sym", vary=[(1, 22), (3, 20)], styles=["full", "blank"])
    add("all", 4, recs=[("G01", 0), ("R01", 900), ("E01", 600), ("C01", 0), ("J01", 0), ("S20", 16), ("I01", 0)], vary=[(1, 3), (5, 11)], trim="sym", styles=["full", "sign"])
    add("allrev", 4, recs=[("I01", 7200), ("S20", 16), ("J01", 0), ("C01", 0), ("E01", 600), ("R01", 900), ("G01", 0), ("R01", 2700), ("S20", 300)],
        vary=[(1, 3)], trim="sym", styles=["full", "sign"])
    add("interleaved", 2, recs=[("G01", 0), ("R01", 900), ("G02", 0), ("R02", 900), ("G01", 7200), ("R01", 0)], vary=[(3, 4)], trim="sym")
    add("dup", 2, recs=[("E01", 0), ("E01", 0), ("E01", 600)], vary=[(1, 3)], trim="sym")
    add("dup3", 2, recs=[("G01", 7200), ("E01", 0), ("E01", 600), ("E01", 0), ("E01", 600), ("E01", 0), ("G01", 0)], trim="sym")
    add("dupR", 2, recs=[("R01", 900), ("R01", 900), ("R01", 0), ("S20", 0), ("S20", 0)], vary=[(1, 3)], trim="sym")
    add("unordered", 2, recs=[("G09", 7200), ("G09", 0), ("E03", 3600), ("G03", 7200), ("G09", 3600)], vary=[(2, 4)], trim="sym")
    add("space", 1, recs=[("G01", 0), ("E09", 0), ("G12", 0)], spacesat=True, vary=[(1, 2)])
    add("exp", 1, recs=[("G01", 0), ("R09", 0)], exp="E", vary=[(0, 1), (1, 3)])
    add("blankline", 1, recs=[("G01", 0), ("R09", 0), ("G02", 3600)], raw={1: ["\n"], 2: ["     \n"], 3: ["\n", "\n"]}, vary=[(1, 3)])
    add("v301", 1, recs=[("G01", 0), ("R09", 0)], verstr="3.01")
    add("layout", 3, recs=[("G01", 0), ("R02", 0), ("G01", 7200)], vary=[(2, 28)], styles=["full", "blank"], layout="sym", trim="sym")
    add("layoutR", 3, recs=[("G01", 0), ("E02", 0), ("R01", 7200)], vary=[(2, 14)], styles=["full", "blank"], layout="sym", trim="sym")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
