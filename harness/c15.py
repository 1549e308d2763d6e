"""C15: the first line decides"""
from datetime import datetime

from . import lib as L
from . import nav as N
from . import scen as S
from .lib import hl

BOUNDS = ("RINEX 2/3 OBS, RINEX 2 NAV (three kinds), RINEX 3 NAV, SP3 a, c, d and CRINEX first lines; version digits, the version's integer part, every position of the version field, the type letter, "
          "the system letter, the SP3 version letter and the 20 label columns symbolic; 0 to 12 leading blank lines of three forms; first lines of 0 to 20 characters; "
          "one data record with symbolic values behind it")
OUTSIDE = "first lines of 21 to 79 characters (label cut off) and version numbers in exponent or signed notation; RINEX 1; nine leading blank lines"

PRINT = "".join(chr(c) for c in range(32, 127))
LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LABEL = "RINEX VERSION / TYPE"
TYPE = {"obs2": "OBSERVATION DATA", "obs3": "OBSERVATION DATA", "nav2N": "N: GPS NAV DATA", "nav2G": "G: GLONASS NAV DATA", "nav2E": "E: Galileo NAV DATA", "nav3": "N: GNSS NAV DATA"}


def body(P, kind, system="G"):
    """(parts after the first line, check(ds), times)"""
    if kind == "obs2":
        f = S.build2(P, dict(codes=["C1", "L1"], epochs=["G1,G2", "G1"], system=system, pad="0"))
        exp = S.expect(P, f, {}, 2)
    elif kind == "obs3":
        f = S.build3(P, dict(codes={"G" if system == "M" else system: ["C1C", "L1C"]}, epochs=["G1,G2".replace("G", "G" if system == "M" else system)], system=system))
        exp = S.expect(P, f, {}, 3)
    elif kind == "sp3":
        f = N.build_sp3(P, dict(svs="G1-2", nep=1))
        return f.parts[0], f.parts[1:], (lambda ds: N.cmp_sp3(P, ds, f)), None
    else:
        ver = int(kind[3])
        kd = kind[4:] or "N"
        f = N.build(P, dict(ver=ver, kind=kd, recs=[({"N": "G01", "G": "R01", "E": "E01"}[kd], 0)], system=system))
        exp = f.exp
    return f.parts[0], f.parts[1:], (lambda ds: L.compare(P, ds, exp)), [t for t, _ in exp]


def nodata(P, gr, src, what, which=("rinexinfo", "load", "gettime", "rinexheader")):
    for fn in which:
        r, err = P.run(getattr(gr, fn), src())
        P.check(f"{what}: {fn} refuses", err is not None)


def alldata(P, gr, src, kind, ver, system, cmp, times, what=""):
    """every reading call works and agrees with the first line"""
    info, err = P.run(gr.rinexinfo, src())
    P.check(what + "rinexinfo" + ("" if err is None else ": " + type(err).__name__), err is None)
    kd = kind[:3]
    if err is None:
        P.check(what + "info kind", info["rinextype"] == kd)
        if isinstance(ver, float):
            P.expect_float(what + "info version", info["version"], ver)
        else:
            P.check(what + "info version", info["version"] == ver)
        if system is not None:
            P.check(what + "info system", info["systems"] == system)
    ds, err = P.run(gr.load, src())
    P.check(what + "load" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        if kd != "sp3":
            P.check(what + "data kind", ds.attrs.get("rinextype") == kd)
        cmp(ds)
    ts, err = P.run(gr.gettime, src())
    if kd == "sp3":
        P.check(what + "no times of SP3", err is not None)
        hdr, err = P.run(gr.rinexheader, src())
        P.check(what + "no header of SP3", err is not None)
        return
    P.check(what + "gettime" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        import numpy as np

        L.order_times(P, times)
        got = [L.us(x) for x in np.atleast_1d(ts)]
        P.check(what + "number of times", len(got) == len(times))
        for k, (g, t) in enumerate(zip(got, times)):
            P.expect_time(f"{what}time {k}", g, t)
    hdr, err = P.run(gr.rinexheader, src())
    P.check(what + "rinexheader" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        P.check(what + "header kind", hdr.get("rinextype") == kd)
        if isinstance(ver, float):
            P.expect_float(what + "header version", hdr.get("version"), ver)


def sysof(kind, letter):
    return {"nav2N": "G", "nav2G": "R", "nav2E": "E"}.get(kind, letter)


def first(P, vfield, typ, system, label=LABEL):
    return P.join([L.lj(P, P.join([L.rj(P, vfield, 9) if len(vfield) < 9 else vfield, " " * 11, typ.ljust(20) if isinstance(typ, str) and type(typ) is str else L.lj(P, typ, 20), system]), 60), label, "\n"])


def h_valid(P, gr, cfg):
    kind = cfg["kind"]
    v = kind[3:4]
    if kind == "sp3":
        ch = P.choice("ver", ["a", "c", "d"], "c")
        f0, rest, cmp, times = body(P, kind)
        parts = [P.join(["#", ch, f0[2:]])] + rest
        alldata(P, gr, lambda: P.file(parts), kind, ch, None, cmp, None)
        return
    system = "G"
    if kind in ("obs2", "obs3"):
        system = P.choice("system", list(cfg.get("systems", "GMREJCS")), "G")
    elif kind == "nav3":
        system = P.char("system", "GMREJCSI", "G")
    sysb = system if kind.startswith("obs") else "M"
    f0, rest, cmp, times = body(P, kind, sysb)
    vs = P.join([v, ".", L.digits(P, "v", cfg.get("nd", 2))]) if cfg.get("nd", 2) else v
    if cfg.get("left"):
        vs = L.lj(P, P.join(["  ", vs]), 9)
    kd = kind
    parts = [first(P, vs, TYPE[kind], "" if kind.startswith("nav2") else system)] + rest
    ver = P.tofloat(L.rj(P, vs, 9) if not cfg.get("left") else vs)
    if kind == "obs2" and system in ("R", "E", "J", "C", "S"):
        # the satellites of the body are GPS: only the reading calls are of interest
        cmp = lambda ds: None  # noqa: E731
    alldata(P, gr, lambda: P.file(parts), kd, ver, sysof(kind, system), cmp, times)


def h_blank(P, gr, cfg):
    kind = cfg["kind"]
    f0, rest, cmp, times = body(P, kind, "G")
    n = P.choice("blanks", cfg["ns"], cfg["ns"][0])
    form = ["\n", "   \n", " " * 80 + "\n"]
    lead = [form[P.choice(f"form{i}", [0, 1, 2], (i + n) % 3)] if i < 1 else form[(i + n) % 3] for i in range(n)]
    parts = lead + [f0] + rest
    if n >= 10:
        nodata(P, gr, lambda: P.file(parts), f"{n} blank lines")
    elif n <= 8:
        ver = "c" if kind == "sp3" else 2.11 if kind[3] == "2" else 3.04 if kind == "nav3" else 3.03
        alldata(P, gr, lambda: P.file(parts), kind, ver, None if kind == "sp3" else sysof(kind, "G"), cmp, times)
    else:
        P.check("unspecified", True)


def h_version(P, gr, cfg):
    """integer part of the version"""
    kind = cfg["kind"]
    f0, rest, cmp, times = body(P, kind, "G")
    d = P.char("d", "023456789", kind[3])
    vs = P.join([cfg.get("pre", ""), d, cfg.get("post", ".11")])
    vs = L.rj(P, vs, 9)
    parts = [first(P, vs, TYPE[kind], "" if kind.startswith("nav2") else "G")] + rest
    src = lambda: P.file(parts)  # noqa: E731
    if cfg.get("pre"):
        nodata(P, gr, src, "version", ("load", "gettime", "rinexheader"))
    elif bool(d == kind[3]):
        alldata(P, gr, src, kind, P.tofloat(vs), sysof(kind, "G"), cmp, times)
    elif bool(d == "2") or bool(d == "3"):
        P.check("unspecified", True)
    else:
        nodata(P, gr, src, "version", ("load", "gettime", "rinexheader"))


def h_verchar(P, gr, cfg):
    """one position of the version field"""
    kind, p = cfg["kind"], cfg["pos"]
    f0, rest, cmp, times = body(P, kind, "G")
    base = "     " + kind[3] + ".11"
    bad = "".join(c for c in PRINT if c not in "0123456789. +-eE_")
    cls = P.choice("class", ["digit", "blank", "dot", "bad", "minus"], "digit")
    c = {"digit": lambda: P.char("cd", L.DIGITS, "3"), "blank": lambda: " ", "dot": lambda: ".", "bad": lambda: P.char("cb", bad, "x"), "minus": lambda: "-"}[cls]()
    vs = P.join([base[:p], c, base[p + 1:]])
    shape = base[:p] + {"digit": "7", "blank": " ", "dot": ".", "bad": "x", "minus": "-"}[cls] + base[p + 1:]
    parts = [first(P, vs, TYPE[kind], "" if kind.startswith("nav2") else "G")] + rest
    src = lambda: P.file(parts)  # noqa: E731
    import re

    if re.fullmatch(r" *\d*\.?\d* *", shape) and re.search(r"\d", shape):
        v = P.tofloat(vs)
        k = int(kind[3])
        if bool(v >= k) and bool(v < k + 1):
            alldata(P, gr, src, kind, v, sysof(kind, "G"), cmp, times)
        elif bool(v >= 1) and bool(v < 4):
            P.check("unspecified", True)
        else:
            nodata(P, gr, src, "version", ("load", "gettime", "rinexheader"))
    elif re.fullmatch(r" *-\d*\.?\d* *", shape):
        nodata(P, gr, src, "negative version", ("load", "gettime", "rinexheader"))
    else:
        nodata(P, gr, src, "version field")


def h_label(P, gr, cfg):
    kind = cfg["kind"]
    f0, rest, cmp, times = body(P, kind, "G")
    pos = cfg["pos"]
    lb = [P.char(f"l{i}", PRINT, LABEL[i]) if i in pos else LABEL[i] for i in range(20)]
    parts = [first(P, "     " + kind[3] + ".11", TYPE[kind], "" if kind.startswith("nav2") else "G", P.join(lb))] + rest
    src = lambda: P.file(parts)  # noqa: E731
    ls = P.join(lb)
    if bool(ls == LABEL):
        alldata(P, gr, src, kind, float(kind[3] + ".11"), sysof(kind, "G"), cmp, times)
    else:
        other = "CRINEX VERS   / TYPE"
        if bool(ls == other):
            P.check("unspecified", True)
            return
        nodata(P, gr, src, "label")


def h_type(P, gr, cfg):
    """type letter and text"""
    kind = cfg["kind"]
    f0, rest, cmp, times = body(P, kind, "G")
    c = P.char("type", LET, TYPE[kind][0])
    tail = cfg["tail"]
    parts = [first(P, "     " + kind[3] + ".11", P.join([c, tail]), "G")] + rest
    src = lambda: P.file(parts)  # noqa: E731
    if bool(c == "C"):
        P.check("unspecified", True)
        return
    v = float(kind[3] + ".11")
    if bool(c == "O") or bool(c == "N") or "NAV" in tail:
        k = "obs" if bool(c == "O") else "nav"
        info, err = P.run(gr.rinexinfo, src())
        P.check("rinexinfo", err is None)
        if err is None:
            P.check("kind", info["rinextype"] == k)
            P.check("file type", info["filetype"] == c)
            P.check("version", info["version"] == v)
            s = "G"
            if v < 3 and k == "nav":
                s = "R" if bool(c == "G") else "E" if bool(c == "E") else "G"
            P.check("system", info["systems"] == s)
        if k == kind[:3] and bool(c == TYPE[kind][0]):
            alldata(P, gr, src, kind, v, sysof(kind, "G"), cmp, times)
    else:
        nodata(P, gr, src, "type", ("load", "gettime", "rinexheader"))


def h_sp3(P, gr, cfg):
    f0, rest, cmp, times = body(P, "sp3")
    c = P.char("c", PRINT, "c")
    parts = [P.join(["#", c, f0[2:]])] + rest
    src = lambda: P.file(parts)  # noqa: E731
    if bool(c == "a") or bool(c == "c") or bool(c == "d"):
        alldata(P, gr, src, "sp3", c, None, cmp, None)
    else:
        nodata(P, gr, src, "SP3 version")


def h_first(P, gr, cfg):
    """the first character of the file"""
    kind = cfg["kind"]
    f0, rest, cmp, times = body(P, kind, "G") if kind != "sp3" else body(P, kind)
    bad = "".join(c for c in PRINT if c not in "0123456789. +-eE_#")
    c = P.char("c", bad, "x")
    if cfg.get("len"):
        n = P.choice("len", cfg["len"], cfg["len"][0])
        line = P.join([f0[:n], "\n"])
        nodata(P, gr, lambda: P.file([line] + rest), f"{n} characters")
        return
    parts = [P.join([c, f0[1:]])] + rest
    nodata(P, gr, lambda: P.file(parts), "first character")


def h_crinex(P, gr, cfg):
    d = L.digits(P, "v", 1)
    a = P.choice("maj", ["1", "3"], "3")
    parts = [P.join([L.rj(P, P.join([a, ".", d]), 9).ljust(20) if False else L.lj(P, P.join([a, ".", d]), 20) if cfg["left"] else L.lj(P, L.rj(P, P.join([a, ".", d]), 9), 20),
                     L.lj(P, "COMPACT RINEX FORMAT", 40), "CRINEX VERS   / TYPE\n"]), hl(P, "pgm", "CRINEX PROG / DATE"),
             hl(P, "     2.11           OBSERVATION DATA    G", LABEL), hl(P, "", "END OF HEADER")]
    info, err = P.run(gr.rinexinfo, P.file(parts))
    P.check("rinexinfo", err is None)
    if err is None:
        P.check("kind", info["rinextype"] == "obs")
        P.check("file type", info["filetype"] == "C")
        P.expect_float("version", info["version"], P.tofloat(P.join([a, ".", d])))


def h_empty(P, gr, cfg):
    n = P.choice("n", list(range(0, 13)), 0)
    nodata(P, gr, lambda: P.file([" \n" if i % 2 else "\n" for i in range(n)] or [""]), f"{n} blank lines and nothing else")


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    kinds = ["obs2", "obs3", "nav2N", "nav2G", "nav2E", "nav3", "sp3"]
    for k in kinds:
        add(f"valid-{k}", h_valid, 3, kind=k)
        if k != "sp3":
            add(f"valid0-{k}", h_valid, 3, kind=k, nd=0)
            add(f"valid1-{k}", h_valid, 3, kind=k, nd=1)
            add(f"valid3-{k}", h_valid, 3, kind=k, nd=3)
            add(f"left-{k}", h_valid, 3, kind=k, left=True)
        add(f"blank-{k}", h_blank, 4, kind=k, ns=[0, 1, 3, 8, 10, 12])
        add(f"blankall-{k}", h_blank, 4, "thorough", kind=k, ns=list(range(0, 15)))
        if k != "sp3":
            add(f"version-{k}", h_version, 3, kind=k)
            add(f"version1-{k}", h_version, 3, kind=k, post="")
            add(f"versionx-{k}", h_version, 3, kind=k, pre="1")
            for p in range(9):
                add(f"verchar-{k}.{p}", h_verchar, 3, "quick" if k in ("obs2", "nav3") or p in (4, 5, 6) else "thorough", kind=k, pos=p)
            add(f"label-{k}", h_label, 2, kind=k, pos=tuple(range(20)))
            for p in range(20):
                add(f"label-{k}.{p}", h_label, 1, "quick" if p in (0, 4, 9, 14, 19) and k in ("obs2", "nav3") else "thorough", kind=k, pos=(p,))
        add(f"first-{k}", h_first, 1, kind=k)
        add(f"short-{k}", h_first, 1, kind=k, len=list(range(0, 21)) if k != "sp3" else [0, 1])
    for k in ("obs2", "obs3"):
        add(f"type-{k}", h_type, 3, kind=k, tail="BSERVATION DATA")
        add(f"typemet-{k}", h_type, 3, kind=k, tail=" METEO DATA")
    for k, t in (("nav2N", ": GPS NAV DATA"), ("nav2G", ": GLONASS NAV DATA"), ("nav2E", ": Galileo NAV DATA"), ("nav3", ": GNSS NAV DATA")):
        add(f"type-{k}", h_type, 3, kind=k, tail=t)
    add("typebare-nav2N", h_type, 3, kind="nav2N", tail="")
    add("sp3ver", h_sp3, 2)
    add("crinex", h_crinex, 1, left=False)
    add("crinexl", h_crinex, 1, left=True)
    add("empty", h_empty, 1)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
