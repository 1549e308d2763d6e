"""C24: plots show the data"""
import atexit
import contextlib
import importlib
import os
import shutil
import tempfile
import warnings
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np

_cfg = tempfile.mkdtemp(prefix="symx-mpl-")
os.environ["MPLCONFIGDIR"] = _cfg
os.environ["MPLBACKEND"] = "Agg"
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_cfg, ignore_errors=True))

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.dates  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402

try:
    import cartopy.crs  # noqa: F401,E402
    import cartopy.feature  # noqa: F401,E402
except ImportError:
    pass

from . import lib as L  # noqa: E402
from . import nav as N  # noqa: E402
from . import scen as S  # noqa: E402
from .c19 import field  # noqa: E402
from .c20 import source  # noqa: E402
from .c26 import command, program  # noqa: E402,F401

BOUNDS = ("time series of OBS 2/3 data sets of up to 3 epochs and 4 satellites with any values missing, with and without the L1 and L1C types; maps of NAV 2/3 data sets of up to 5 records of GPS, "
          "Galileo, GLONASS, SBAS and other satellites at the same or different times; maps of up to 3 receivers, every digit of their positions and intervals, with and without interval; "
          "georinex.plot for up to 3 satellites, measurements and windows; georinex.loc and georinex.read -p for directories and files of these; every digit of the values symbolic")
OUTSIDE = "what matplotlib and cartopy draw of the lines, markers and images they are given; the background of the maps; the order in which things are drawn"
ASSUMPTIONS = ["matplotlib keeps the numbers it is given in its artists", "pymap3d.ecef2geodetic is a function of its arguments"]
B = S.BASE


@contextlib.contextmanager
def canvas():
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            plt.close("all")


def axes():
    return [a for n in plt.get_fignums() for a in plt.figure(n).axes]


def module(gr, name):
    return importlib.import_module(f"{gr.__name__}.{name}")


def times(x):
    x = np.atleast_1d(x)
    if x.dtype.kind != "M":
        x = np.array([np.datetime64(matplotlib.dates.num2date(v).replace(tzinfo=None)) if isinstance(v, float) else np.datetime64(v) for v in x.tolist()])
    return [L.us(v) for v in x]


def expect_series(P, what, x, y, want):
    """want: [(time, value)] in order of time; only numbers are seen"""
    got = [(a, b) for a, b in zip(times(x), np.asarray(y, dtype=float).tolist()) if b == b]
    P.check(f"{what}: {len(got)} points of {len(want)}", len(got) == len(want))
    if len(got) == len(want):
        for k, ((a, b), (t, v)) in enumerate(zip(got, want)):
            P.expect_time(f"{what} time {k}", a, t)
            P.expect_float(f"{what} value {k}", b, v)


def values(f, code, sv, keep=lambda t: True):
    """recorded values of one satellite in order of time"""
    return [(t, d[sv][code][0]) for t, d in f.exp if sv in d and code in d[sv] and d[sv][code][0] == d[sv][code][0] and keep(t)]


def build(P, cfg):
    if cfg["ver"] == 2:
        return S.build2(P, cfg)
    return S.build3(P, cfg)


def h_obs(P, gr, cfg):
    f = build(P, cfg)
    with tempfile.TemporaryDirectory(prefix="symx-") as d, canvas():
        src = Path(d) / "a.18o"
        src.write_bytes(P.carry(P.join(f.parts)).encode("ascii"))
        opts = cfg.get("opts", {})
        via = P.choice("via", cfg.get("vias", ["obstimeseries", "timeseries", "read"]), "obstimeseries")
        ds, err = P.run(gr.load, src, **opts)
        P.check("loads", err is None)
        if err is not None:
            return
        before = ds.copy(deep=True)
        text = via != "read" and P.flag("stream", False)
        ds, err = P.run(gr.load, P.file(f.parts) if text else src, **opts)
        P.check("loads", err is None)
        if err is not None:
            return
        before = ds.copy(deep=True)
        if via == "read":
            _, _, err = program(P, gr, "read", [str(src), "-p"] + sum([["-u", *v] if k == "use" else ["-useindicators"] for k, v in opts.items()], []))
        else:
            _, err = P.run(getattr(module(gr, "plots"), via), ds)
        P.check("draws" + ("" if err is None else f": {type(err).__name__} {str(err)[:50]}"), err is None)
        if err is not None:
            return
        P.check("the data set is as it was", before.identical(ds))
        want = {}
        for p in ("L1", "L1C"):
            w = {s: values(f, p, s) for s in {s for _, r in f.exp for s in r} if "use" not in opts or s[0] in opts["use"]}
            w = {s: v for s, v in w.items() if v}
            if w and p in ds:
                want[p] = w
        got = {a.get_ylabel(): a for a in axes()}
        P.check(f"one diagram for each of {sorted(want)}", len(axes()) == len(want) and set(got) == set(want))
        for p, w in want.items():
            if p not in got:
                continue
            a = got[p]
            P.check("titled by the file", text or a.get_title() == src.name)
            leg = a.get_legend()
            names = [t.get_text() for t in leg.get_texts()] if leg else [x.get_label() for x in a.lines]
            P.check(f"{p}: a line for each name", len(names) == len(a.lines) and len(set(names)) == len(names))
            P.check(f"{p}: satellites {sorted(w)}", set(w) <= set(names))
            for nm, ln in zip(names, a.lines):
                expect_series(P, f"{p} {nm}", ln.get_xdata(), ln.get_ydata(), w.get(nm, []))


def drawing():
    """what is drawn, by diagram"""
    return [(a.get_ylabel(), a.get_title(), [(x.get_label(), times(x.get_xdata()) if a.get_ylabel() else np.asarray(x.get_xdata(), dtype=float).tolist(), np.asarray(x.get_ydata(), dtype=float)) for x in a.lines]) for a in axes()]


@contextlib.contextmanager
def plainly(P):
    """geodetic coordinates of the numbers themselves"""
    import pymap3d

    real = pymap3d.ecef2geodetic
    if P.concrete:
        yield
        return
    from symx.rewrite import RT

    RT.stubs[real] = lambda x, y, z, *a, **k: real(*[np.asarray(v, dtype=float) for v in (x, y, z)])
    try:
        yield
    finally:
        RT.stubs.pop(real, None)


def h_both(P, gr, cfg):
    """observations and navigation data together: of a NetCDF file with both, and as a pair"""
    f = build(P, cfg)
    g = navfile(P, dict(ver=cfg["ver"], recs=cfg["recs"]))
    pl, pg = module(gr, "plots"), module(gr, "plots_geo")
    with tempfile.TemporaryDirectory(prefix="symx-") as d, canvas(), plainly(P):
        d = Path(d)
        nc = d / "a.nc"
        srcs = []
        for nm, w in (("a.18o", f), ("a.18n", g)):
            srcs.append(d / nm)
            srcs[-1].write_bytes(P.carry(P.join(w.parts)).encode("ascii"))
        order = P.choice("order", [(0, 1), (1, 0)], (0, 1))
        ds = {}
        for k in order:
            ds[k], err = P.run(gr.load, srcs[k], nc)
            P.check("converts", err is None)
            if err is not None:
                return
        for draw, k in ((pl.obstimeseries, 0), (pg.navtimeseries, 1)):
            _, err = P.run(draw, ds[k])
            P.check("draws one", err is None)
            if err is not None:
                return
        want = drawing()
        plt.close("all")
        via = P.choice("via", ["dict", "pair", "read"], "dict")
        if via == "read":
            _, _, err = program(P, gr, "read", [str(nc), "-p"])
        else:
            both, err = P.run(gr.load, nc) if via == "dict" else ((ds[0], ds[1]), None)
            P.check("loads both", err is None)
            if err is not None:
                return
            _, err = P.run(pl.timeseries, both)
        P.check("draws" + ("" if err is None else f": {type(err).__name__} {str(err)[:60]}"), err is None)
        if err is not None:
            return
        got = drawing()
        P.check(f"{len(got)} diagrams of {len(want)}", len(got) == len(want) and sorted(x[0] for x in got) == sorted(x[0] for x in want))
        if len(got) != len(want):
            return
        for (nm, _, a), (_, _, b) in zip(sorted(got, key=lambda x: x[0]), sorted(want, key=lambda x: x[0])):
            P.check(f"{nm or 'map'} lines", len(a) == len(b) and (not nm or [x[1] for x in a] == [x[1] for x in b]))
            for (_, x, y), (_, x2, y2) in zip(a, b):
                P.check(f"{nm or 'map'} the same line", x == x2 and y.shape == y2.shape and bool(((y == y2) | (y != y) & (y2 != y2)).all()))
        for a in axes():
            if a.get_ylabel() in ("L1", "L1C"):
                leg = a.get_legend()
                for t, ln in zip(leg.get_texts(), a.lines):
                    expect_series(P, t.get_text(), ln.get_xdata(), ln.get_ydata(), values(f, a.get_ylabel(), t.get_text()))


GEO = ("S", "R", "G", "E")


def navfile(P, cfg, only=None):
    f = N.Nav(P, cfg["ver"], cfg.get("kind", "N"), "M")
    ints = {}
    for k, (svs, dt) in enumerate(cfg["recs"]):
        sv = svs if isinstance(svs, str) else P.choice(f"sv{k}", svs, svs[0])
        t = L.T(P, f"t{k}", B.replace(second=0) + timedelta(seconds=dt), "", pad="0", nfrac=1)
        if sv == "no" or only is not None and sv != only:
            continue
        names = f.names(sv)
        if sv[0] in "RS":
            v = N.vals(P, f"r{k}", len(names), lambda i: cfg.get("style", {}).get((k, names[i]), "full"))
        else:
            v = [field(P, f"f{k}.{i}", nm or "x", "D", False, k % 2, ints) for i, nm in enumerate(names)]
        f.record(sv, t, v)
    return f


def named(f):
    """records of each satellite in order of time; the further ones of the same time are those of G05_1, G05_2, ..."""
    out, seen = {}, {}
    for t, d in sorted(((L.plain_us(t), d) for t, d in f.exp), key=lambda x: x[0]):
        for s in d:
            if s[0] in GEO:
                n = seen[t, s] = seen.get((t, s), -1) + 1
                out.setdefault(s + (f"_{n}" if n else ""), []).append(d[s])
    return out


def h_nav(P, gr, cfg):
    import pymap3d

    f = navfile(P, cfg)
    real = pymap3d.ecef2geodetic
    seen = {}

    def convert(x, y, z, *a, **k):
        r = real(*[np.asarray(v, dtype=float) for v in (x, y, z)])
        for i, (la, lo) in enumerate(zip(np.atleast_1d(r[0]).tolist(), np.atleast_1d(r[1]).tolist())):
            seen.setdefault((lo, la), tuple(np.atleast_1d(np.asarray(v, dtype=float))[i] for v in (x, y, z)))
        return r

    ds, err = P.run(gr.load, P.file(f.parts))
    P.check("loads", err is None)
    if err is not None:
        return
    before = ds.copy(deep=True)
    via = P.choice("via", ["navtimeseries", "timeseries"], "navtimeseries")
    with canvas():
        if not P.concrete:
            from symx.rewrite import RT

            RT.stubs[real] = convert
        try:
            _, err = P.run(getattr(module(gr, "plots_geo" if via == "navtimeseries" else "plots"), via), ds)
        finally:
            if not P.concrete:
                RT.stubs.pop(real, None)
        P.check("draws" + ("" if err is None else f": {type(err).__name__} {str(err)[:60]}"), err is None)
        if err is not None:
            return
        P.check("the data set is as it was", before.identical(ds))
        P.check("one map", len(axes()) == 1)
        lines = {x.get_label(): (x.get_xdata(), x.get_ydata()) for a in axes() for x in a.lines if x.get_label()[:1] in "GERSCJI"}
        n = len([x for a in axes() for x in a.lines])
        want = named(f)
        P.check(f"tracks of {sorted(want)}", set(lines) == set(want) and n == len(want))
    for s in want:
        if s not in lines:
            continue
        pts = [(x, y) for x, y in zip(np.atleast_1d(np.asarray(lines[s][0], dtype=float)).tolist(), np.atleast_1d(np.asarray(lines[s][1], dtype=float)).tolist()) if x == x and y == y]
        recs = want[s]
        P.check(f"{s}: {len(pts)} points of {len(recs)}", len(pts) == len(recs))
        if len(pts) != len(recs):
            continue
        if s[0] in "RS":
            for k, (p, r) in enumerate(zip(pts, recs)):
                if P.concrete:
                    q = real(*[float(r[c]) for c in "XYZ"])
                    P.check(f"{s} point {k}", close(p, (q[1], q[0])))
                elif p in seen:
                    for c, v in zip("XYZ", seen[p]):
                        P.expect_float(f"{s} point {k} {c}", v, r[c])
                else:
                    P.check(f"{s} point {k} is a converted one", False)
        else:
            one, err = P.run(gr.load, P.file(navfile(P, cfg, s[:3]).parts))
            P.check(f"{s} alone loads", err is None)
            if err is None:
                q, err = P.run(gr.keplerian2ecef, one.sel(sv=s).dropna(dim="time", how="all"))
                P.check(f"{s} alone has positions", err is None)
                if err is None:
                    q = real(*[np.atleast_1d(np.asarray(getattr(v, "values", v), dtype=float)) for v in q])
                    P.check(f"{s} points", all(close(p, (lo, la)) for p, lo, la in zip(pts, q[1].tolist(), q[0].tolist())))


def close(p, q):
    d = (p[0] - q[0] + 180) % 360 - 180
    return abs(d) < 1e-6 and abs(p[1] - q[1]) < 1e-6


CLASSES = ((0, 5), (5, 15), (15, 30))


def h_map(P, gr, cfg):
    from .c14 import geodetic

    with tempfile.TemporaryDirectory(prefix="symx-") as d, canvas():
        d = Path(d)
        rows = []
        files = []
        for k, kinds in enumerate(cfg["slots"]):
            kind = P.choice(f"kind{k}", kinds, kinds[0])
            if kind == "none":
                continue
            ints = cfg.get("ints", ["any", None])
            iv = P.choice(f"int{k}", ints, ints[0])
            if iv is None or isinstance(iv, str):
                parts, xyz, iv = source(P, kind, f"s{k}{kind}-", True, iv is not None, "full", {"any": 4, "any2": 2, "any1": 1}.get(iv))
            else:
                parts, xyz, _ = source(P, kind, f"s{k}{kind}-", True, False, "full")
                parts = parts[:3] + [L.hl(P, f"{iv:10.3f}", "INTERVAL")] + parts[3:]
            nm = f"f{k}.18o"
            if cfg.get("same"):
                nm = "a.18o"
                (d / str(k)).mkdir()
                (d / str(k) / nm).write_bytes(P.carry(P.join(parts)).encode("ascii"))
                files.append(d / str(k) / nm)
            elif cfg.get("loc"):
                (d / nm).write_bytes(P.carry(P.join(parts)).encode("ascii"))
                files.append(d / nm)
            else:
                files.append(P.file(parts))
                nm = str(len(files) - 1)
            rows.append((nm, xyz, iv))
        if cfg.get("loc"):
            _, _, err = program(P, gr, "loc", [str(d)] + P.choice("glob", [[], ["-glob", "*.18o"], ["-glob", "f0*", "f[1-9]*"]], []))
        else:
            locs, err = P.run(module(gr, "geo").get_locations, files)
            P.check("locations", err is None)
            if err is not None:
                return
            _, err = P.run(module(gr, "plots_geo").receiver_locations, locs)
        P.check("draws" + ("" if err is None else f": {type(err).__name__} {str(err)[:60]}"), err is None)
        if err is not None:
            return
        P.check("one map", len(axes()) == 1)
        marks = [c for a in axes() for c in a.collections if hasattr(c, "get_sizes") and len(c.get_offsets())]
        P.check(f"{len(marks)} markers of {len(rows)}", sorted(m.get_label() for m in marks) == sorted(r[0] for r in rows))
        got = {}
        for m in marks:
            got.setdefault(m.get_label(), []).append(m)
        colours = {}
        for nm, xyz, iv in rows:
            if not got.get(nm):
                continue
            m = got[nm].pop(0)
            o = np.ma.filled(m.get_offsets(), np.nan)
            P.check(f"{nm} one marker", o.shape == (1, 2))
            if o.shape != (1, 2):
                continue
            lat, lon, _ = geodetic(P, xyz)
            P.expect_float(f"{nm} longitude", o[0, 0], lon)
            P.expect_float(f"{nm} latitude", o[0, 1], lat)
            s = m.get_sizes()
            P.check(f"{nm} a size", len(s) == 1 and 0 < float(s[0]) < float("inf"))
            c = None
            if iv is not None:
                for k, (a, b) in enumerate(CLASSES):
                    if bool(iv > 0) and bool(iv >= a) and bool(iv < b):
                        c = k
                if bool(iv > 0):
                    P.expect_float(f"{nm} size", s[0], 1000 / iv)
            colours.setdefault(c, set()).add(tuple(np.atleast_2d(m.get_facecolor())[0].tolist()))
        P.check("a colour for each class of intervals", all(len(v) == 1 for v in colours.values()) and len(set().union(*colours.values())) == len(colours))


def h_plot(P, gr, cfg):
    """python -m georinex.plot"""
    f = build(P, cfg)
    with tempfile.TemporaryDirectory(prefix="symx-") as d, canvas():
        src = Path(d) / "a.18o"
        src.write_bytes(P.carry(P.join(f.parts)).encode("ascii"))
        svs = P.choice("svs", cfg["svs"], cfg["svs"][0])
        what = P.choice("what", cfg["what"], cfg["what"][0])
        win = P.choice("win", cfg["wins"], cfg["wins"][0])
        argv = [str(src), *svs]
        keep = lambda t: True  # noqa: E731
        if what is not None:
            argv += [cfg.get("w", "-w"), *what]
        if win is not None:
            lo, hi = [B + timedelta(seconds=x) for x in win]
            argv += ["-t", lo.isoformat(), hi.isoformat()]
            keep = lambda t: bool(lo <= t) and bool(t <= hi)  # noqa: E731
        want = {}
        there = {s for _, r in f.exp for s in r}
        for w in what or ["L1C", "P1"]:
            want[w] = {s: values(f, w, s, keep) for s in svs}
        _, _, err = program(P, gr, "plot", argv)
        if not set(svs) <= there:
            P.check("a satellite that is not there is an error", err is not None or not any(any(v.values()) for v in want.values()))
            return
        P.check("draws" + ("" if err is None else f": {type(err).__name__} {str(err)[:60]}"), err is None)
        if err is not None:
            return
        ax = {a.get_title(): a for a in axes() if a.get_title()}
        for w, ser in want.items():
            n = sum(map(len, ser.values()))
            if not n:
                P.check(f"no {w}", w not in ax or not any(np.isfinite(np.asarray(x.get_ydata(), dtype=float)).any() for x in ax[w].lines))
                continue
            P.check(f"{w} is drawn", w in ax)
            if w not in ax:
                continue
            a = ax[w]
            if len(svs) == 1:
                P.check(f"{w} one line", len(a.lines) == 1)
                for ln in a.lines:
                    expect_series(P, f"{w} {svs[0]}", ln.get_xdata(), ln.get_ydata(), ser[svs[0]])
                continue
            if a.lines and len({L.plain_us(t) for v in ser.values() for t, _ in v}) == 1:
                # one time: its values over the satellites
                P.check(f"{w} one line", len(a.lines) == 1 and len(a.lines[0].get_ydata()) == len(svs))
                for s, y in zip(svs, np.asarray(a.lines[0].get_ydata(), dtype=float).tolist()):
                    P.expect_float(f"{w} {s}", y, ser[s][0][1] if ser[s] else None)
                continue
            if a.lines:
                leg = a.get_legend()
                nm = [t.get_text() for t in leg.get_texts()] if leg else [x.get_label() for x in a.lines]
                P.check(f"{w} a line for each satellite", sorted(nm) == sorted(svs))
                for s, ln in zip(nm, a.lines):
                    expect_series(P, f"{w} {s}", ln.get_xdata(), ln.get_ydata(), ser.get(s, []))
                continue
            m = [c for c in a.collections if hasattr(c, "get_coordinates")]
            P.check(f"{w} one image", len(m) == 1)
            if len(m) != 1:
                continue
            z = np.ma.filled(m[0].get_array().astype(float), np.nan)
            ts = sorted({L.plain_us(t) for v in ser.values() for t, _ in v})
            P.check(f"{w} shape", z.shape == (len(ts), len(svs)) or z.size == len(ts) * len(svs))
            if z.size != len(ts) * len(svs):
                continue
            z = z.reshape(len(ts), len(svs))
            for j, s in enumerate(svs):
                have = {L.plain_us(t): v for t, v in ser[s]}
                for i, t in enumerate(ts):
                    P.expect_float(f"{w} {s} {i}", z[i, j], have.get(t))
        P.check("nothing else", set(ax) <= set(want))


def cfgs():
    out = []

    def add(name, fn, weight=3, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    hole = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0)]
    st = ["full", "blank"]
    inc = dict(increasing=True, pad="0", base=B)
    add("obs2", h_obs, ver=2, codes=["L1", "C1"], epochs=["G1,R2", "G3,G1", "E5"], vary=hole, styles=st, symt={0: "S", 2: "S"}, **inc)
    add("obs2all", h_obs, ver=2, codes=["C1", "L2", "L1", "S1", "P2", "L5"], epochs=["G1-3,R2", "R2,G1"], vary=[(0, 0, 2), (0, 1, 2), (1, 0, 2)], styles=["full", "blank", "neg"], symt={}, vias=["obstimeseries", "read"], **inc)
    add("obs2no", h_obs, ver=2, codes=["C1", "L2"], epochs=["G1,R2", "G1"], symt={}, **inc)
    add("obs2use", h_obs, ver=2, codes=["L1"], epochs=["G1,R2", "R2", "G2"], symt={1: "MS"}, vary=[(0, 0, 0), (2, 0, 0)], styles=st, opts=dict(use={"G"}), **inc)
    add("obs2ind", h_obs, ver=2, codes=["L1", "C1"], epochs=["G1,R2", "G1"], symt={}, ind="sym", opts=dict(useindicators=True), **inc)
    add("obs3", h_obs, ver=3, codes={"G": ["C1C", "L1C"], "R": ["L1C", "C1C"], "E": ["C1C"]}, epochs=["G1,R2", "G3,E1", "R2,G1"], vary=[(0, 0, 1), (0, 1, 0), (2, 0, 0)], styles=st, symt={0: "S", 2: "S"}, **inc)
    add("obs3both", h_obs, ver=3, codes={"G": ["L1", "L1C"], "R": ["L1C", "C1C"]}, epochs=["G1,R2", "G1"], vary=[(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 1)], styles=st, symt={}, **inc)
    add("obs3clk", h_obs, ver=3, codes={"G": ["L1C"]}, epochs=["G1,G2", "G1"], clk={0: "  .123456789012"}, symt={0: "f"}, **inc)
    add("obs3order", h_obs, ver=3, codes={"G": ["L1C"]}, epochs=["G2,G1", "G4,G3", "G1"], perm=(0, 1), symt={}, **inc)

    any2 = ["G05", "G06", "no"]
    add("nav2", h_nav, ver=2, recs=[("G05", 0), (any2[1:], 0), (any2, 7200), ("G05", 14400)])
    add("nav2R", h_nav, ver=2, kind="G", recs=[("R05", 0), (["R06", "R05"], 900), (["R07", "no"], 900), ("R07", 1800)])
    add("nav2E", h_nav, ver=2, kind="E", recs=[("E05", 0), (["E06", "no"], 600), (["E05", "E06"], 1200)])
    add("nav3", h_nav, ver=3, recs=[("G05", 0), (["R05", "S20", "E03", "G06"], 0), (["R05", "S20", "E03", "G05"], 7200), (["C01", "J01", "I02", "R05"], 60)])
    add("nav3same", h_nav, ver=3, recs=[("R05", 0), (["R05", "R06"], 900), (["S20", "S21"], 900), (["S20", "R05", "no"], 1800)])
    add("nav3dup", h_nav, ver=3, recs=[("R05", 0), (["R05", "S20"], 0), (["S20", "R05"], 0), (["R05", "R06"], 900)])
    add("nav3dupG", h_nav, ver=3, recs=[("G05", 0), (["G05", "E05"], 0), (["E05", "G05"], 0), (["G05", "G06"], 7200)])
    add("nav3E", h_nav, ver=3, recs=[("E05", 0), (["E05", "E06"], 600), (["G05", "E07"], 600)])
    add("nav3X", h_nav, ver=3, recs=[(["C01", "J01", "I02"], 0), (["C02", "J01"], 60)])

    add("both2", h_both, ver=2, codes=["L1", "C1"], epochs=["G1,R2", "G1"], vary=[(0, 0, 0)], styles=st, symt={}, recs=[("G05", 0), (["G06", "no"], 7200)], **inc)
    add("both3", h_both, ver=3, codes={"G": ["L1C", "C1C"], "R": ["C1C"]}, epochs=["G1,R2", "G2"], vary=[(1, 0, 0)], styles=st, symt={}, recs=[("R05", 0), (["R06", "R05"], 900)], **inc)
    add("both3no", h_both, ver=3, codes={"G": ["C1C"]}, epochs=["G1", "G2"], symt={}, recs=[("E05", 0), (["S20", "R05"], 900)], **inc)

    ob = ["obs2", "obs3"]
    add("map1", h_map, slots=[ob], ints=["any", "any2", "any1", None])
    add("map2", h_map, slots=[["obs3"], ["obs2"]], ints=["any2", "any1", "any", None])
    add("map2c", h_map, slots=[["obs2"], ["obs2"]], ints=["any2", 15.0, 10.0, 20.0, 2.0, 5.0])
    add("map3", h_map, slots=[["obs3"], ["obs2"], ["obs2"]], ints=[1.0, 10.0, 20.0, 30.0, None])
    add("mapzero", h_map, slots=[ob, ["obs2", "none"]], ints=[0.0, None, 30.0, "any"])
    # files of one name in different directories
    add("mapsame", h_map, slots=[["obs2", "obs3"], ["obs2", "none"], ["obs3"]], ints=[30.0], same=True)
    add("mapnone", h_map, slots=[["none"]])
    add("locnone", h_map, slots=[["none"]], loc=True)
    add("loc", h_map, slots=[ob, ["obs3", "none"]], ints=["any", None], loc=True)

    w = [None, (0, 30), (30, 45), (90, 120)]
    add("plot2", h_plot, ver=2, codes=["L1", "P1", "C1"], epochs=["G1,G2", "G2", "G1,R2"], vary=[(0, 0, 1), (1, 0, 1)], styles=st, svs=[["G01"], ["G02"]], what=[None, ["L1", "C1"]], wins=w[:3], symt={1: "S"}, **inc)
    add("plot3", h_plot, ver=3, codes={"G": ["L1C", "C1C"], "R": ["C1C"]}, epochs=["G1,R2", "G2,G1", "G1"], vary=[(0, 0, 0), (1, 1, 0)], styles=st, svs=[["G01"], ["G02", "G01"], ["G01", "G02"]], what=[None, ["C1C", "L1C"], ["X1"]], wins=w[:2],
        symt={1: "S"}, **inc)
    add("plot3sys", h_plot, ver=3, codes={"G": ["L1C"], "R": ["L1C"]}, epochs=["G1,R2", "R2,G1"], svs=[["R02"], ["G01", "R02"], ["E01"]], what=[None, ["L1C"]], wins=w[:1], symt={}, **inc)
    add("plot2many", h_plot, ver=2, codes=["L1", "L2", "P1", "P2", "C1"], epochs=["G1", "G1"], svs=[["G01"]], what=[["L1", "L2", "P1", "P2"], ["C1", "L1", "P2", "L2", "P1"], ["P2", "C1", "L1"], ["L2"]], wins=w[:2], symt={}, **inc)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
