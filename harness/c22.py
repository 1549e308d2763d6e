"""C22: event records, junk, truncated files"""
from datetime import datetime

from . import lib as L
from . import nav as N
from . import scen as S

BOUNDS = ("OBS 2 (fast and strict), OBS 3, NAV 2 and NAV 3 files of 1 to 4 epochs or records; event records with flags 2 to 5 and 0 to 12 lines, cycle slip records (flag 6) of 1 to 14 satellites, with and without "
          "a time, at the start, between epochs and at the end; junk lines of up to 81 symbolic printable characters (16 of them quick) and date-like lines of symbolic digits with one "
          "non-digit, with and without line end; a cut at every character position of the last epoch or record (thorough), at about 60 of them (quick)")
OUTSIDE = "event lines that look like an epoch line; header changes announced by flag 4; what a partial epoch yields; junk inside an epoch"

PRINT = "".join(chr(c) for c in range(32, 127))
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def text(P, name, n, sym=(), base="SITE 4.2 x 17 / 2018-05-13 01:30"):
    s = (base * 4)[:n]
    return P.join([P.char(f"{name}.{i}", PRINT, s[i]) if i in sym else s[i] for i in range(n)])


def free2(P, name, n=60, sym=(4, 7, 10, 13, 28, 31, 40)):
    """a line that is no OBS 2 epoch (a letter where the year stands), other columns any printable character"""
    b = text(P, name, n, sym)
    return P.join([b[:1], P.char(name + ".y", ALPHA, "Q"), b[2:]])


def event2(flag, nlines, blank_time=False, label="COMMENT", sym=(4, 7, 28, 40)):
    def fn(P, f, t):
        k = len(f.parts)
        stamp = " " * 26 if blank_time or t is None else t.obs2()
        out = [P.join([stamp, "  ", str(flag), f"{nlines:3d}", "\n"])]
        for i in range(nlines):
            out.append(L.hl(P, free2(P, f"ev{k}.{i}", 60, sym), label))
        return out

    return fn


def event3(flag, nlines, blank_time=False, label="COMMENT", sym=(0, 4, 7, 31, 40)):
    def fn(P, f, t):
        k = len(f.parts)
        stamp = "> " + " " * 27 if blank_time or t is None else t.obs3()
        out = [P.join([stamp, "  ", str(flag), f"{nlines:3d}", "\n"])]
        for i in range(nlines):
            b = text(P, f"ev{k}.{i}", 60, sym)
            out.append(L.hl(P, P.join([P.char(f"ev{k}.{i}.h", ALPHA + "0123456789 ", "M"), b[1:]]), label))
        return out

    return fn


def slip(sats, style="short"):
    """cycle slip records (flag 6): in the form of observations, at the time of the next epoch"""
    def fn(P, f, t):
        k = len(f.parts)
        t = t or L.T(P, f"sl{k}", datetime(2018, 5, 13, 3, 30, 10), "S", pad="0")
        names = S.sats_of(sats)
        v2 = isinstance(f, L.Obs2)
        out = f.satlines(t.obs2(), 6, names) if v2 else [P.join([t.obs3(), "  6", f"{len(names):3d}", "\n"])]
        for i, nm in enumerate(names):
            n = len(f.codes) if v2 else len(f.codes[nm[0]])
            r = [P.join([L.number(P, f"sl{k}.{i}.{j}", 14, 3, 5, style if (i + j) % 2 else "blank")[0], "  "]) for j in range(n)]
            if v2:
                out += [P.join([*r[j:j + 5], "\n"]) for j in range(0, n, 5)]
            else:
                out.append(P.join([nm, *r, "\n"]))
        return out

    return fn


def junk2(n=60, sym=(4, 7, 10, 13, 28, 31, 40), end="\n"):
    def fn(P, f, t):
        return [P.join([free2(P, f"jk{len(f.parts)}", n, sym), end])]

    return fn


def datelike2(bad, end="\n"):
    """an OBS 2 epoch line with a letter at one column of the date"""
    def fn(P, f, t):
        k = len(f.parts)
        T = L.T(P, f"dl{k}", datetime(2018, 5, 13, 1, 30, 10), "dHS", pad="0")
        ln = P.join([T.obs2(), "  0  1G01"])
        c = P.char(f"dl{k}.c", ALPHA + "/:,", "X")
        return [P.join([ln[:bad], c, ln[bad + 1:], end])]

    return fn


def junk3(n=60, sym=(1, 4, 7, 13, 31, 40), end="\n"):
    def fn(P, f, t):
        nm = f"jk{len(f.parts)}"
        b = text(P, nm, n, sym)
        if not n:
            return [end]
        return [P.join([P.char(nm + ".h", PRINT.replace(">", ""), "x"), b[1:], end])]

    return fn


def datelike3(bad, end="\n"):
    def fn(P, f, t):
        k = len(f.parts)
        T = L.T(P, f"dl{k}", datetime(2018, 5, 13, 1, 30, 10), "dHS", pad="0")
        ln = P.join([T.obs3(), "  0  1"])
        c = P.char(f"dl{k}.c", ALPHA + "/:,", "X")
        return [P.join([ln[:bad], c, ln[bad + 1:], end])]

    return fn


def several(*fs):
    def fn(P, f, t):
        out = []
        for g in fs:
            o = g(P, f, t)
            f.parts += o  # distinct names for the next one
        return []

    return fn


# ------------------------------------------------------------------ truncated files
def without(ds, us):
    import numpy as np

    if "time" not in ds.coords:
        return ds
    return ds.isel(time=[i for i, x in enumerate(np.atleast_1d(ds["time"].values)) if L.us(x) != us])


def h_cut(P, gr, cfg):
    """the last epoch is cut off somewhere"""
    ver = cfg["ver"]
    nav = "recs" in cfg
    f = N.build(P, cfg) if nav else (S.build2 if ver == 2 else S.build3)(P, cfg)
    full = f.text()
    last = cfg["last_lines"]
    start = len(P.join(f.parts[:-last]))
    n = len(full) - start
    step = cfg.get("cutstep", 1)
    cuts = sorted(set(range(1, n - 1, step)) | set(range(1, min(n - 1, cfg.get("cuthead", 0)))))
    cut = P.choice("cut", cuts, cuts[len(cuts) // 2])
    src = P.file([full[:start + cut]])
    t_last = f.exp[-1][0] if not nav else f.ts[-1].t
    exp = L.obs_expect(P, f.exp[:-1], ind=cfg.get("opts", {}).get("useindicators", False), ver=ver) if not nav else f.exp[:-1]
    tu = L.plain_us(t_last)
    P.order_time(t_last)
    for m in cfg.get("modes", [True, False]) if ver == 2 and not nav else [None]:
        o = dict(cfg.get("opts", {}))
        if m is not None:
            o["fast"] = m
        ds, err = P.run(gr.load, src, **o)
        if m and isinstance(err, IndexError) and "fast=False" in str(err):
            continue
        w = f"cut ({m}) "
        P.check(w + "loads" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is None:
            L.compare(P, without(ds, tu), exp, what=w, full=False)
    if cfg.get("times", True) and ver == 2 or nav:
        got, err = P.run(gr.gettime, src)
        P.check("gettime" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is None:
            got = [L.us(x) for x in got]
            res = 1 if not nav else 1000
            want = sorted({L.plain_us(t) // res * res for t, _ in exp}) if nav else [L.plain_us(t) for t, _ in exp]
            P.check("times of the complete epochs", [g for g in got if g != tu] == want)


def h_end(P, gr, cfg):
    """NAV: junk between records and after the last"""
    N.h_nav(P, gr, cfg)


def nav_junk(P, name, n=60, sym=(0, 1, 2, 5, 8, 11, 14, 17, 30), end="\n", ver=2):
    b = text(P, name, n, sym)
    # a letter in the year: no record starts like this
    k = 3 if ver == 2 else 5
    if n > k:
        b = P.join([b[:k], P.char(name + ".y", ALPHA, "Q"), b[k + 1:]])
    return P.join([b, end])


def h_navjunk(P, gr, cfg):
    ver = cfg["ver"]
    raw = {}
    for i, spec in cfg["junk"].items():
        raw[i] = [nav_junk(P, f"jk{i}.{j}", n, cfg.get("jsym", (0, 1, 2, 5, 8, 11, 14, 17, 30)), "\n", ver) for j, n in enumerate(spec)]
    N.h_nav(P, gr, dict(cfg, raw=raw))


# ------------------------------------------------------------------
def h_events(P, gr, cfg):
    ver = cfg["ver"]
    (S.h_obs2 if ver == 2 else S.h_obs3)(P, gr, cfg)


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    b2 = dict(ver=2, modes=[True, False])
    # %% events
    for fl in (2, 3, 4, 5):
        for n in (0, 1, 2, 3, 12):
            tier = "quick" if n in (0, 2) and fl != 3 or fl == 4 else "thorough"
            for e in range(4):
                if e not in (0, 1, 3) and n != 2:
                    continue
                tr = tier if e in (0, 1, 3) and (e == 1 or fl == 4) else "thorough"
                add(f"obs2ev{fl}.{n}.{e}", h_events, 2, tr, nobs=3, epochs=["G1,R2", "G2", "G1"], events={e: event2(fl, n, n % 2 == 1)}, **b2)
                add(f"obs3ev{fl}.{n}.{e}", h_events, 2, tr, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2", "R2"], events={e: event3(fl, n, n % 2 == 1)})
    add("obs2evmany", h_events, 3, nobs=6, epochs=["G1-13", "G2", "G1,R1"], events={0: event2(4, 2), 1: several(event2(2, 1), event2(3, 0, True)), 2: event2(4, 3), 3: event2(2, 0)}, **b2)
    add("obs3evmany", h_events, 3, ver=3, codes={"G": 3, "R": 2}, epochs=["G1-3", "G2,R1", "G1,R1"],
        events={0: event3(4, 2), 1: several(event3(2, 1), event3(3, 0, True)), 2: event3(4, 3), 3: event3(2, 0)})
    for e in range(3):
        for st in ("short", "full", "neg"):
            for n, sl in enumerate(("G1", "G2,R2", "G1-13,R1")):
                q = "quick" if (st == "short" and e == 1 or n == 1) and (st, e) != ("full", 0) else "thorough"
                add(f"obs2slip{st}{n}.{e}", h_events, 2, q, nobs=(3, 6, 2)[n], epochs=["G1,R2", "G2"], events={e: slip(sl, st)}, **b2)
                add(f"obs3slip{st}{n}.{e}", h_events, 2, q, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2"], events={e: slip(sl, st)})
    add("obs2slips", h_events, 2, nobs=2, epochs=["G1,R2", "G1,R2"], events={0: slip("G1,R2"), 1: several(slip("G1"), event2(5, 0), slip("R2"))}, ind=True, opts=dict(useindicators=True), **b2)
    add("obs3slips", h_events, 2, ver=3, codes={"G": 2, "R": 2}, epochs=["G1,R2", "G1,R2"], events={0: slip("G1,R2"), 1: several(slip("G1"), event3(5, 0), slip("R2"))}, ind=True, opts=dict(useindicators=True))
    add("obs3slipone", h_events, 2, ver=3, codes={"G": 2}, epochs=["G1,G2", "G1,G2"], events={0: slip("G1"), 1: slip("G2,G1")})
    add("obs2evmarker", h_events, 2, nobs=3, epochs=["G1,R2", "G2"], events={1: event2(3, 2, label="MARKER NAME")}, **b2)
    add("obs3evmarker", h_events, 2, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2"], events={1: event3(3, 2, label="MARKER NAME")})
    add("obs2evind", h_events, 2, nobs=6, epochs=["G1,R2", "G2"], events={1: event2(4, 2)}, ind=True, opts=dict(useindicators=True), **b2)
    add("obs3evind", h_events, 2, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2"], events={1: event3(4, 2)}, ind=True, opts=dict(useindicators=True))
    # %% junk
    for n in (0, 1, 2, 3, 20, 26, 28, 29, 32, 60, 80, 81):
        for e in (0, 1, 2):
            tr = "quick" if e == 1 and n in (0, 1, 26, 29, 80) or e == 0 and n in (0, 80) or e == 2 and n in (3, 32) else "thorough"
            sy = tuple(range(2, n)) if n <= 32 else (0, 4, 5, 7, 8, 10, 13, 16, 26, 28, 29, 31, 33, 40, 60, 79)
            if n >= 2:
                add(f"obs2junk{n}.{e}", h_events, 2, tr, nobs=3, epochs=["G1,R2", "G2"], events={e: junk2(n, sy)}, **b2)
            sy = tuple(range(1, n)) if n <= 32 else (1, 2, 4, 5, 7, 8, 10, 13, 16, 19, 26, 31, 33, 34, 40, 60, 79)
            add(f"obs3junk{n}.{e}", h_events, 2, tr, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2"], events={e: junk3(n, sy)})
    for bad in (1, 2, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 28):
        add(f"obs2date{bad}", h_events, 2, "quick" if bad in (2, 5, 8, 11, 14, 16, 28) else "thorough", nobs=3, epochs=["G1,R2", "G2"], events={1: datelike2(bad)}, **b2)
    for bad in (0, 2, 5, 7, 8, 10, 11, 13, 14, 16, 17, 19, 20, 21, 34):
        add(f"obs3date{bad}", h_events, 2, "quick" if bad in (0, 5, 8, 11, 14, 17, 20, 34) else "thorough", ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G2"], events={1: datelike3(bad)})
    # %% NAV junk
    for n in (0, 1, 2, 5, 10, 20, 22, 60, 80):
        for e in (0, 1, 2):
            tr = "quick" if n in (0, 10, 80) and e == 1 or n in (2, 60) and e != 1 else "thorough"
            sy = tuple(range(n)) if n <= 22 else (0, 1, 2, 3, 5, 8, 11, 14, 17, 30)
            add(f"nav2junk{n}.{e}", h_navjunk, 2, tr, ver=2, kind="N", recs=[("G01", 0), ("G02", 0)], junk={e: [n]}, jsym=sy)
            add(f"nav3junk{n}.{e}", h_navjunk, 2, tr, ver=3, recs=[("G01", 0), ("R02", 0)], junk={e: [n]}, jsym=sy)
    add("nav2glojunk", h_navjunk, 2, ver=2, kind="G", recs=[("R01", 0), ("R02", 0)], junk={1: [30, 60], 2: [80]})
    add("nav3alljunk", h_navjunk, 2, ver=3, recs=[("G01", 0), ("S02", 0), ("E03", 60)], junk={1: [30, 60], 2: [80], 3: [4]})
    # %% truncated
    th = "thorough"
    add("obs2cut", h_cut, 4, nobs=3, ver=2, epochs=["G1,R2", "G1,G3"], last_lines=3, cutstep=5, cuthead=0)
    add("obs2cutall", h_cut, 4, th, nobs=3, ver=2, epochs=["G1,R2", "G1,G3"], last_lines=3)
    add("obs2cut7", h_cut, 4, nobs=7, ver=2, epochs=["G1,R2", "G1,G3"], last_lines=5, cutstep=17)
    add("obs2cut7all", h_cut, 4, th, nobs=7, ver=2, epochs=["G1,R2", "G1,G3"], last_lines=5)
    add("obs2cut13", h_cut, 4, nobs=1, ver=2, epochs=["G1,R2", "G1-13"], last_lines=15, cutstep=7)
    add("obs2cut13all", h_cut, 4, th, nobs=1, ver=2, epochs=["G1,R2", "G1-13"], last_lines=15)
    add("obs2cutind", h_cut, 4, nobs=6, ver=2, epochs=["G1,R2", "G1,G3"], last_lines=5, cutstep=19, ind=True, opts=dict(useindicators=True))
    add("obs3cut", h_cut, 4, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G1,R3"], last_lines=3, cutstep=4)
    add("obs3cutall", h_cut, 4, th, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G1,R3"], last_lines=3)
    add("obs3cutone", h_cut, 4, ver=3, codes={"G": 4}, epochs=["G1,G2", "G1,G3"], last_lines=3, cutstep=9)
    add("nav2cut", h_cut, 4, ver=2, kind="G", recs=[("R01", 0), ("R02", 900)], last_lines=4, cutstep=9)
    add("nav2cutall", h_cut, 4, th, ver=2, kind="G", recs=[("R01", 0), ("R02", 900)], last_lines=4)
    add("nav2gpscut", h_cut, 4, th, ver=2, kind="N", recs=[("G01", 0), ("G02", 900)], last_lines=8, cutstep=3)
    add("nav3cut", h_cut, 4, ver=3, recs=[("G01", 0), ("R02", 900)], last_lines=4, cutstep=9)
    add("nav3cutall", h_cut, 4, th, ver=3, recs=[("G01", 0), ("R02", 900)], last_lines=4)
    add("nav3gpscut", h_cut, 4, th, ver=3, recs=[("R01", 0), ("G02", 900)], last_lines=8, cutstep=3)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
