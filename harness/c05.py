"""C05: SP3"""
from .nav import h_sp3

BOUNDS = "1 to 100 satellites, 1 to 3 epochs, with and without velocity records (per satellite and epoch), SP3-a, c and d, accuracy columns and flags after the numbers, EP and EV correlation records, comments and blank lines between the records, every digit symbolic"
OUTSIDE = "more satellites or epochs; the content of EP and EV records; satellites without a position record; malformed lines"


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h_sp3, cfg=cfg, weight=weight, tier=tier))

    for n in (1, 2, 16, 17, 18, 33, 34, 35, 51, 52):
        add(f"svs{n}", 1 + n / 10, "quick" if n in (1, 16, 17, 18, 34, 35) else "thorough",
            svs="G1-%d" % min(n, 32) + (f",R1-{n - 32}" if n > 32 else ""), nep=2, vary=[(0, 0, 1), (1, n - 1, 3)])
    add("svs100", 8, svs="G1-32,R1-24,E1-36,C1-8", nep=1, ver="d", lines=7)
    add("svs85", 8, "thorough", svs="G1-32,R1-24,E1-29", nep=2, ver="c")
    for v in "acd":
        add(f"ver{v}", 1, svs="G1,G5,R3", nep=3, ver=v, vary=[(0, 0, 0), (1, 2, 2)])
        add(f"vel{v}", 1, svs="G1,R5,E3", nep=2, ver=v, vel=True, vary=[(1, 1, 1)])
    add("velsome", 2, svs="G1,G2,G3", nep=2, vel="sym")
    add("velfirst", 1, svs="G1,G2", nep=3, vel={(0, 0), (0, 1), (1, 1)})
    add("velnotfirst", 1, svs="G1,G2", nep=3, vel={(1, 0), (2, 1)})
    add("mixed", 1, svs="R2,G9,E3,C14,J1", nep=2, vary=[(1, 4, 2)])
    add("nocomments", 1, svs="G1,G2", nep=2, comments=0)
    add("manycomments", 1, svs="G1,G2", nep=2, comments=12, ver="d")
    add("noeof", 1, svs="G1,G2", nep=2, eof=False)
    add("cov", 2, svs="G1,R2", nep=2, after=[(0, 0, "P"), (0, 1, "P"), (1, 0, "P")], between=["EP", "blank"])
    add("between", 2, svs="G1,R2", nep=2, after=[(0, 0, "P"), (0, 1, "P")])
    add("covvel", 3, svs="G1,R2", nep=2, vel={(0, 0), (0, 1), (1, 1)}, after=[(0, 0, "P"), (0, 0, "V"), (1, 1, "V")], between=["EP", "EV", "star"])
    add("betweenvel", 3, svs="G1,R2", nep=2, vel="sym", after=[(0, 1, "V")], tier="quick")
    add("flags", 1, svs="G1,R2", nep=2, tail="  9  9  9  66       E   P\n", vary=[(0, 0, 3), (1, 1, 0)], ver="c")
    add("flagsvel", 1, svs="G1,R2", nep=2, tail=" 99 99 99 999 EP  MP    \n", vel="sym", ver="d", end="  \n")
    add("aftereof", 1, svs="G1,R2", nep=2, junk=("\n", "junk\n", "PG01 1\n"))
    add("digits", 2, svs="G1,G2", nep=2, vary=[(0, 0, 1), (1, 1, 3)], styles=["full", "zero"] + [f"{x}{n}" for x in ("pos", "neg") for n in range(1, 8 if x == "pos" else 7)])
    wide = ["full", "zero"] + [f"{x}{n}" for x in ("pos", "neg") for n in range(1, 8 if x == "pos" else 7)]
    for a in range(4):
        add(f"digitsvel{a}", 2, svs="G1,G2", nep=2, vel=True, vvary=[(1, 0, a)], vstyles=wide)
        add(f"digitspos{a}", 2, svs="G1,G2", nep=2, vel=a % 2 == 0, vary=[(1, 1, a)], styles=wide)
    add("velvary", 2, svs="G1,G2", nep=2, vel=True, vvary=[(0, 0, 0), (1, 1, 3)])
    z = [(0, 0, k) for k in range(4)]
    add("zeros", 2, svs="G1,G2", nep=2, vary=z, styles=["full", "zero"])
    add("zerosvel", 2, svs="G1,G2", nep=2, vel=True, vary=z, styles=["full", "zero"])
    add("epochs", 2, svs="G1-3", nep=8)
    for v in (False, True):
        add("layout" + "vel" * v, 2, svs="G1,R2", nep=2, vel=v, vary=[(1, 1, 3)], layout="sym", eof=False)
        add("layouteof" + "vel" * v, 2, svs="G1,R2", nep=2, vel=v, vary=[(1, 1, 3)], layout="sym")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
