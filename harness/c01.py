"""C01: RINEX 2 OBS values"""
from .scen import h_obs2, CODES2

BOUNDS = ("1 to 30 observation types, 1 to 40 satellites per epoch of G R E S C J, 1 to 4 epochs, every digit of every number symbolic; "
          "fields full-width, short, negative, without leading zero, zero or blank; trailing blanks kept or trimmed")
OUTSIDE = "more epochs, satellites or types than listed; RINEX 1; files with malformed fields"
SYS = "G,R,E,S,C,J"


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h_obs2, cfg=cfg, weight=weight, tier=tier))

    # number of observation types: data and header continuation lines
    for n in (1, 2, 4, 5, 6, 9, 10, 11, 15, 18, 19, 26, 27, 28, 30):
        add(f"types{n}", 1 + n / 8, "quick" if n in (1, 5, 6, 9, 10, 18, 19, 27) else "thorough",
            nobs=n, epochs=["G1,R3,G32", "G1,R3"], vary=[(0, 0, n - 1), (0, 1, min(4, n - 1))], trim="sym")
    # number of satellites: satellite list continuation
    for n in (1, 11, 12, 13, 23, 24, 25, 36, 37, 48):
        g, r = min(n, 32), n - min(n, 32)
        spec = f"G1-{g}" + (f",R1-{r}" if r else "")
        add(f"sats{n}", 2 + n / 10, "quick" if n in (12, 13, 24, 25, 37) else "thorough", nobs=2, epochs=[spec, "G1,G5", spec], vary=[(0, n - 1, 1)], trim="sym")
    add("mixedlist", 3, nobs=6, epochs=["G1-5,R1-4,E1-4,S20,C30", "E1-4,G1-9,R24"], vary=[(0, 3, 5), (1, 0, 0)], trim="sym")
    # every form of the fields
    add("forms", 4, nobs=5, epochs=["G1,R3", "R3,G1"], vary=[(0, 0, 1), (0, 1, 4), (1, 1, 0)])
    add("digits", 4, nobs=2, epochs=["G1,R3", "G1"], vary=[(0, 1, 1)], styles=["full"] + [f"{x}{n}" for x in ("pos", "neg") for n in range(1, 11 if x == "pos" else 10)])
    add("formstrim", 4, nobs=7, epochs=["G1,E3"], vary=[(0, 0, 4), (0, 0, 6), (0, 1, 5)], trim=True)
    add("formslast", 2, nobs=6, epochs=["G1,G2", "G1,G2"], fixed={(0, 0, 5): "blank", (0, 1, 4): "blank", (0, 1, 5): "blank"}, vary=[(1, 1, 5)], trim="sym")
    # blank means GPS; blanks for leading zeros; system field
    add("blanksat", 2, nobs=3, epochs=["G1,G12,R3", "G1,R3"], blanksat=True, vary=[(0, 2, 1)])
    add("blanksatspace", 2, nobs=3, epochs=["G1,G12,R3", "G1,R3"], blanksat=True, spacesat=True, vary=[(1, 0, 2)])
    add("spacesat", 2, nobs=3, epochs=["G1,G12,E3", "G1,E3"], spacesat=True, vary=[(1, 0, 2)])
    for s in ("G", "R", "E", "S", " ", "M", "C", "J"):
        spec = f"{'G' if s in ' M' else s}1-7"
        add(f"sys{s.strip() or 'blank'}", 1, nobs=4, epochs=[spec, spec], system=s, vary=[(1, 6, 3)], blanksat=True if s == " " else None)
    # satellite numbers to the end of each system
    add("numbers", 2, nobs=1, epochs=["S20,S38,S58,C1,C37,C62,C63,E36,R27,J1,J10,G32"], vary=[(0, 2, 0), (0, 6, 0)])
    # constellations that come and go
    add("comego", 2, nobs=3, epochs=["G1,R1", "R1,R2", "E5", "G1"], vary=[(1, 1, 1)])
    add("order", 2, nobs=3, epochs=["R2,G9,G1,E3", "G1,E3,R2,G9"], vary=[(1, 1, 1)])
    add("anyorder", 4, nobs=1, epochs=["G3-6", "G3-4,R2", "R1-2,G2"], perm=(0, 1))
    add("anyorder2", 4, nobs=6, epochs=["G1,R1,G2,R2", "G1-3,R1-2"], perm=(0,))
    add("anyorder5", 4, "thorough", nobs=2, epochs=["G3-7", "G1,G3-4,R2-3", "R1-2,G2"], perm=(0, 1))
    add("anysub", 4, nobs=1, epochs=["G1-2,R1", "G2,R1-2", "G1,R1"], sub=(0, 1))
    add("anysub13", 4, nobs=1, epochs=["G1-12,R1,R3", "G1,R1"], sub=(1,), perm=(1,))
    add("anysubdeep", 4, "thorough", nobs=6, epochs=["G1-3,R1", "G2-3,R1-2", "G1,R1"], sub=(0, 1, 2))
    add("empty", 1, nobs=3, epochs=["G1,G2", "G3", "G1"], vary=[(1, 0, 2)], clk={0: "  .123456789", 2: "-0.000000001"})
    add("clock13", 2, nobs=1, epochs=["G1-13", "G1-12"], vary=[(0, 12, 0)], clk={0: " -.123456789", 1: "  .000000001"})
    add("flag6", 1, nobs=3, epochs=["G1,G2", "G1,G2"], flags={1: 1}, vary=[(1, 1, 2)])
    add("manyepochs", 2, nobs=6, epochs=["G1-6"] * 12, vary=[(7, 5, 5)])
    add("oldver", 1, nobs=4, epochs=["G1-7", "G1-7"], ver="2", vary=[(0, 6, 3)])
    add("ver210", 1, nobs=4, epochs=["G1-7", "G1-7"], ver="2.10", vary=[(0, 6, 3)])
    add("layout", 3, nobs=6, epochs=["G1,R3,G32", "G1,R3"], vary=[(1, 1, 5)], layout="sym", trim="sym")
    add("layout5", 3, nobs=5, epochs=["G1,R3", "G1-13"], vary=[(1, 12, 4)], layout="sym")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
