"""C03: RINEX 2 NAV records"""
from .nav import h_nav

BOUNDS = "1 to 8 records of up to 4 satellites, GPS, GLONASS and Galileo, every digit symbolic, fields positive, negative, zero or blank, trailing blanks kept or trimmed, times in any order"
OUTSIDE = "several records of one satellite at one time; more records; malformed fields"


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        cfg.setdefault("ver", 2)
        out.append(dict(name=name, fn=h_nav, cfg=cfg, weight=weight, tier=tier))

    add("gps", 2, kind="N", recs=[("G01", 0), ("G02", 0), ("G32", 7200), ("G01", 7200)], vary=[(0, 0), (1, 28)], trim="sym")
    add("gpsblank", 2, kind="N", recs=[("G01", 0), ("G05", 16)], vary=[(0, 2), (0, 14), (1, 22)], styles=["full", "blank", "sign"], trim="sym")
    add("gpsmid", 2, kind="N", recs=[("G11", 0), ("G11", 60)], vary=[(0, 6), (1, 3), (1, 26)], styles=["full", "blank", "lead0"], trim="sym")
    add("gpsshort", 1, kind="N", recs=[("G01", 0, 28), ("G02", 0), ("G03", 0, 28), ("G01", 900)], vary=[(1, 28)], trim="sym")
    add("gpsE", 1, kind="N", recs=[("G01", 0), ("G10", 3600)], exp="E", vary=[(0, 5), (1, 9)], trim="sym")
    add("gpsunordered", 1, kind="N", recs=[("G09", 7200), ("G09", 0), ("G03", 3600), ("G03", 7200), ("G09", 3600)], vary=[(2, 4)], trim="sym")
    add("gps8", 2, "thorough", kind="N", recs=[(f"G{i + 1:02d}", 7200 * (i % 3)) for i in range(8)], vary=[(7, 28)], trim="sym")
    add("glo", 2, kind="G", recs=[("R01", 0), ("R24", 0), ("R01", 1800)], vary=[(0, 3), (1, 9), (2, 13)], trim="sym", styles=["full", "blank", "sign"])
    add("glo2", 1, kind="G", recs=[("R05", 1800), ("R05", 0), ("R06", 900)], vary=[(0, 0), (1, 6), (2, 14)], trim="sym", styles=["full", "blank", "zero"])
    add("gal", 2, kind="E", recs=[("E01", 0), ("E30", 600), ("E01", 600)], vary=[(0, 22), (1, 22), (2, 25)], trim="sym", styles=["full", "blank", "sign"], verstr="2.12")
    add("gal2", 1, kind="E", recs=[("E01", 0), ("E02", 0)], vary=[(0, 26), (1, 21), (1, 3)], trim="sym", styles=["full", "blank"], verstr="2.12",
        fixed={(0, 22): "blank", (1, 22): "blank"})
    add("one", 1, kind="N", recs=[("G07", 0)], vary=[(0, 1), (0, 28)], trim="sym")
    add("hdr", 1, kind="N", recs=[("G07", 0), ("G08", 0)], verstr="2", vary=[(0, 1)])
    for k, r in (("N", "G"), ("G", "R"), ("E", "E")):
        add(f"layout{k}", 3, kind=k, recs=[(r + "01", 0), (r + "02", 0), (r + "01", 7200)], vary=[(2, 10)], styles=["full", "blank", "sign"], layout="sym", trim="sym")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
