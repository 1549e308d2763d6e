"""C02: RINEX 3 OBS values"""
from .scen import h_obs3

BOUNDS = ("1 to 30 and 102 (thorough: 99, 102, 130) codes per system, different lists per system, 1 to 120 satellites per epoch of G R E S C J I, 1 to 4 epochs, every digit "
          "of every number symbolic; fields full-width, short, negative, without leading zero, zero or blank, with 1 to 10 integer digits, filling the 14 columns; trailing blanks kept or trimmed; receiver clock offsets on some or all epoch lines")
OUTSIDE = "more epochs, satellites or codes than listed; files with malformed fields"


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h_obs3, cfg=cfg, weight=weight, tier=tier))

    for n in (1, 2, 12, 13, 14, 25, 26, 27, 30):
        add(f"codes{n}", 1 + n / 8, "quick" if n in (1, 13, 14, 26, 27) else "thorough",
            codes={"G": n}, epochs=["G1,G3,G32", "G1,G3"], vary=[(0, 0, n - 1), (0, 1, min(4, n - 1))], trim="sym")
        add(f"mix{n}", 1 + n / 8, "quick" if n in (13, 14, 27) else "thorough",
            codes={"G": n, "R": 3, "E": max(1, 17 - n)}, epochs=["G1,R3,E32", "G1,R3"], vary=[(0, 0, n - 1), (0, 1, 2)], trim="sym")
    for n in (1, 9, 10, 11, 36, 64, 99, 100, 101, 120):
        spec = "G1-%d" % min(n, 32) + (",R1-%d" % min(n - 32, 24) if n > 32 else "") + (",E1-%d" % min(n - 56, 36) if n > 56 else "") + \
            (",C1-%d" % (n - 92) if n > 92 else "")
        add(f"sats{n}", 2 + n / 8, "quick" if n in (10, 36, 100) else "thorough", codes={"G": 2, "R": 1, "E": 3, "C": 2},
            epochs=[spec, "G1,G5", spec][: 2 if n > 60 else 3], vary=[(0, n - 1, 0)], trim="sym")
    add("codes99", 12, "thorough", codes={"G": 99, "R": 1}, epochs=["G1,R1", "G1"], vary=[(0, 0, 98)])
    add("codes102", 12, codes={"G": 102, "R": 1}, epochs=["G1,R1", "G1"], vary=[(0, 0, 101)])
    add("codes130", 12, "thorough", codes={"G": 3, "E": 130}, epochs=["G1,E1", "E1"], vary=[(0, 1, 129)])
    allsys = {"G": 3, "R": 2, "E": 4, "S": 1, "C": 3, "J": 2, "I": 5}
    add("all", 3, codes=allsys, epochs=["G1,R1,E1,S20,C1,J1,I1", "I1,J1,C1,S20,E1,R1,G1"], vary=[(0, 2, 3), (1, 0, 4)], trim="sym")
    add("allrev", 3, codes=dict(reversed(list(allsys.items()))), epochs=["G1,R1,G2,E1,S20,G3,C1,J1,I1", "C5,C63,S58"], vary=[(0, 2, 2)], trim="sym")
    add("forms", 4, codes={"G": 5, "R": 5}, epochs=["G1,R3", "R3,G1"], vary=[(0, 0, 1), (0, 1, 4), (1, 1, 0)])
    add("digits", 4, codes={"G": 2, "R": 2}, epochs=["G1,R3", "G1"], vary=[(0, 1, 1)], styles=["full"] + [f"{x}{n}" for x in ("pos", "neg") for n in range(1, 11 if x == "pos" else 10)])
    add("formstrim", 4, codes={"G": 7, "E": 6}, epochs=["G1,E3"], vary=[(0, 0, 4), (0, 0, 6), (0, 1, 5)], trim=True)
    add("blankline", 1, codes={"G": 2, "R": 3}, epochs=["G1,G2,R1", "G1,G2,R1"], trim="sym",
        fixed={(0, 0, 0): "blank", (0, 0, 1): "blank", (1, 2, 0): "blank", (1, 2, 1): "blank", (1, 2, 2): "blank"}, vary=[(0, 1, 1)])
    # epochs with nothing but blanks
    add("blankepoch", 1, system="sym", codes={"G": 2}, epochs=["G1,G2"] * 3, trim="sym", fixed={(1, i, k): "blank" for i in range(2) for k in range(2)}, vary=[(2, 0, 0)])
    add("blankmix", 1, codes={"G": 1, "R": 2}, epochs=["G1,R2"] * 3, trim="sym", fixed={(e, i, k): "blank" for e in (0, 2) for i in range(2) for k in range(2)}, vary=[(1, 1, 0)])
    add("blanklast", 1, codes={"G": 2}, epochs=["G1,G2", "G1,G2"], trim="sym",
        fixed={(1, 1, 0): "blank", (1, 1, 1): "blank"}, vary=[(0, 1, 1)])
    for s in "GRESCJI":
        add(f"sys{s}", 1, codes={s: 4}, epochs=[f"{s}1-7", f"{s}2-7"], system=s, vary=[(0, 0, 3)])
    add("spacesat", 2, codes={"G": 3, "E": 2}, epochs=["G1,G12,E3", "G1,E3"], spacesat=True, vary=[(0, 0, 2)])
    add("comego", 2, codes={"G": 2, "R": 3, "E": 1}, epochs=["G1,R1", "R1,R2", "E5", "G1"], vary=[(0, 1, 2)])
    add("comego1", 2, system="sym", codes={"G": 2}, epochs=["G1,G2", "G3", "G2,G5", "G1"], vary=[(0, 1, 1)])
    add("swap", 2, system="sym", codes={"G": 2}, epochs=["G1,G2", "G1,G3", "G3,G4", "G1,G2"], vary=[(0, 1, 1), (1, 1, 0)])
    add("swap1", 2, codes={"E": 1}, epochs=["E1", "E2", "E3", "E1"], vary=[(1, 0, 0)])
    add("swapmix", 2, codes={"G": 2, "R": 2}, epochs=["G1,R1", "R2,G1", "G3,R2", "G1,R1"], vary=[(1, 1, 1)])
    add("grow", 2, system="sym", codes={"G": 3}, epochs=["G1", "G1,G2", "G1-3", "G1-4", "G2-3"], vary=[(1, 1, 1)])
    add("anyorder", 4, codes={"G": 1}, epochs=["G3-6", "G3-4,G1", "G2-3"], perm=(0, 1))
    add("anyordermix", 4, codes={"G": 1, "R": 2}, epochs=["G1,R1,G2,R2", "G1-2,R1"], perm=(0, 1))
    add("anysub", 4, codes={"G": 2}, epochs=["G1-3", "G2-4", "G1"], sub=(0, 1))
    add("anysubmix", 4, codes={"G": 1, "R": 1}, epochs=["G1-2,R1", "G2,R1-2", "G1,R1"], sub=(0, 1))
    add("anysubdeep", 4, "thorough", codes={"G": 1, "R": 1}, epochs=["G1-3,R1", "G2-3,R1-2", "G1,R1"], sub=(0, 1, 2))
    add("anyorder5", 4, "thorough", codes={"G": 1, "R": 2}, epochs=["G1,R1,G2,R2,G4", "G1-2,R1"], perm=(0, 1))
    add("unknown", 2, codes={"G": 2, "R": 2}, epochs=["G1,R1,G2", "R1,G2"], vary=[(0, 1, 1)], hint=f"{'30.000':>10}")
    add("clock", 1, codes={"G": 3, "R": 1}, epochs=["G1,G2", "R3", "G1"], vary=[(0, 1, 1)], clk={0: "  .123456789012", 2: "-0.000000000001"})
    add("flag1", 1, codes={"G": 3, "R": 1}, epochs=["G1,G2,R1", "G1,G2"], flags={1: 1}, vary=[(0, 1, 1)])
    add("manyepochs", 2, codes={"G": 6, "R": 4}, epochs=["G1-5,R2"] * 8, vary=[(3, 5, 3)])
    for v in ("3", "3.00", "3.05"):
        add(f"ver{v}", 1, codes={"G": 3, "R": 4}, epochs=["G1-3,R2"] * 2, ver=v, vary=[(1, 3, 3)])
    add("layout", 3, codes={"G": 3, "R": 2}, epochs=["G1,R3,G32", "G1,R3"], vary=[(1, 1, 1)], layout="sym", trim="sym")
    add("layout14", 3, codes={"G": 14, "E": 1}, epochs=["G1,E3", "E3,G1"], vary=[(1, 1, 13)], layout="sym", trim="sym")
    add("clocksym", 2, codes={"G": 3, "R": 1}, epochs=["G1,G2", "R3", "G1"], clk="sym")
    add("clockuse", 2, codes={"G": 3, "R": 1}, epochs=["G1,G2", "R3", "G1"], clk={0: "sym", 1: "sym", 2: "sym"}, opts=dict(use={"G"}))
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
