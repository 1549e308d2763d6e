"""C07: time windows"""
from datetime import datetime, timedelta

from . import lib as L
from . import scen as S
from . import nav as N

BOUNDS = ("2 to 4 epochs (OBS 2 in fast and strict mode, OBS 3) or 2 to 4 records (NAV 2/3, any order), hour, minute, second and fraction of up to "
          "two epochs and of both bounds symbolic; bounds as datetimes or ISO strings (with and without fraction, seconds left out, date only), also equal to an epoch; windows that end at or cross midnight; OBS 3 also with receiver clock offsets")
OUTSIDE = "more epochs; date strings that are not ISO 8601; OBS files that are not in chronological order"
B = S.BASE.replace(hour=1, minute=30, second=0)


def bound(P, name, base, sym, form):
    """a bound as (argument, datetime)"""
    t = L.T(P, name, base, sym, pad="0", nfrac=6)
    if form == "dt":
        return t.t, t.t
    date = P.join([t.yyyy, "-", t.mo, "-", t.dd])
    if form == "min":
        t0 = L.T(P, name, base.replace(second=0, microsecond=0), sym, pad="0", nfrac=6)
        return P.join([date, P.choice(name + "sep", ["T", " "], "T"), t0.hh, ":", t0.mi]), t0.t
    if form == "iso":
        return P.join([date, "T", t.hh, ":", t.mi, ":", t.ss, ".", t.ff]), t.t
    if form == "space":
        t0 = L.T(P, name, base.replace(microsecond=0), sym.replace("f", ""), pad="0", nfrac=6)
        return P.join([date, " ", t0.hh, ":", t0.mi, ":", t0.ss]), t0.t
    assert form == "day"
    t0 = L.T(P, name, datetime(base.year, base.month, base.day), sym, pad="0", nfrac=6)
    return P.join([t0.yyyy, "-", t0.mo, "-", t0.dd]), t0.t


def window(P, cfg):
    form = cfg.get("form", "dt")
    a, ta = bound(P, "wa", cfg.get("lo", B + timedelta(seconds=20)), cfg.get("asym", "HMSf"), form)
    b, tb = bound(P, "wb", cfg.get("hi", B + timedelta(seconds=70)), cfg.get("bsym", "HMSf"), form)
    tl = [a, b] if cfg.get("aslist") else (a, b)
    return tl, ta, tb


def reject(P, gr, f, tl, opts):
    ds, err = P.run(gr.load, f.file(), tlim=tl, **opts)
    P.check("a stop before the start is rejected", isinstance(err, ValueError))


def h_obs(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    tl, ta, tb = window(P, cfg)
    opts = dict(cfg.get("opts", {}))
    if "via" in cfg:
        P.assume(ta <= tb)
    if tb < ta:
        return reject(P, gr, f, tl, opts)
    exp = S.expect(P, f, opts, ver, keep=lambda i: bool(ta <= f.exp[i][0]) and bool(f.exp[i][0] <= tb))
    keep = list(tl)
    (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, exp, dict(opts, tlim=tl))
    P.check("arguments untouched", len(tl) == 2 and all(x is y for x, y in zip(tl, keep)))


def h_nav(P, gr, cfg):
    f = N.build(P, cfg)
    tl, ta, tb = window(P, cfg)
    if "via" in cfg:
        P.assume(ta <= tb)
    if tb < ta:
        return reject(P, gr, f, tl, {})
    inside = [bool(ta <= t) and bool(t <= tb) for t, _ in f.exp]
    exp = [x for x, k in zip(f.exp, inside) if k]
    ds, err = P.run(getattr(gr, cfg.get("via", "load")), f.file(), tlim=tl)
    P.check("loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is not None:
        return
    if cfg["ver"] == 2:
        # known: reading stops at the first record after the window
        part = []
        for (t, d), k in zip(f.exp, inside):
            if t > tb:
                break
            if k:
                part.append((t, d))
        if len(part) != len(exp):
            got = set()
            for nm in list(ds.data_vars)[:1]:
                a = ds[nm].transpose("time", "sv").values
                got = {(L.us(ds.time.values[i]), str(ds.sv.values[j])) for i in range(a.shape[0]) for j in range(a.shape[1]) if a[i, j] == a[i, j]}
            for t, _ in exp:
                if not P.concrete:
                    P.order_time(t)
            if got == {(L.plain_us(t), s) for t, d in part for s in d}:
                P.check("[KF:nav2-tlim] records of the window that follow the first record after the window are lost", False)
                return
    L.compare(P, ds, exp)


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    b = B.replace(microsecond=0)
    for form in ("dt", "iso", "space", "day"):
        q = "quick" if form in ("dt", "iso") else "thorough"
        kw = dict(form=form)
        if form == "day":
            kw.update(asym="d", bsym="md", offsets=[0, 86400, 2 * 86400])
        else:
            kw.update(symt={1: "MSf"} if form == "dt" else {1: "S"}, offsets=[0, 60, 7200])
            if form != "dt":
                kw.update(asym="MS", bsym="MS")
            else:
                for ver in (2, 3):
                    add(f"obs{ver}-dtfull", h_obs, 5, "thorough", ver=ver, codes={"G": 3, "R": 2} if ver == 3 else S.CODES2[:5], epochs=["G1,R2", "G1,R3", "G2"],
                        base=b, **kw)
                kw.update(asym="Sf", bsym="Sf", symt={1: "Sf"}, offsets=[0, 30, 60], lo=B + timedelta(seconds=20), hi=B + timedelta(seconds=40))
        for m in (True, False):
            add(f"obs2-{form}-{'fast' if m else 'strict'}", h_obs, 5, q, ver=2, nobs=5, epochs=["G1-7,R2", "G1-7", "G2-8,E3"], base=b, pad="0",
                opts=dict(fast=m), **kw)
        add(f"obs3-{form}", h_obs, 5, q, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G1,R3", "G2"], base=b, **kw)
        add(f"obs3one-{form}", h_obs, 5, "thorough", ver=3, codes={"G": 3}, epochs=["G1,G2", "G1", "G2"], base=b, **kw)
    for m in (True, False):
        add(f"obs2-two-{m}", h_obs, 8, "quick" if not m else "thorough", ver=2, nobs=2, epochs=["G1,R2", "G1", "G2,E3", "G1"], base=b, pad="0", opts=dict(fast=m),
            symt={0: "S", 2: "S"}, offsets=[0, 60, 120, 180], asym="MS", bsym="MS", aslist=True, hi=B + timedelta(seconds=150))
        add(f"obs2-cont-{m}", h_obs, 5, ver=2, nobs=7, epochs=["G1-13,R1-3", "G1-13", "G1-25"], base=b, pad="0", opts=dict(fast=m),
            symt={}, offsets=[0, 60, 120], asym="MS", bsym="MS")
        add(f"obs2-ind-{m}", h_obs, 5, "quick", ver=2, nobs=5, epochs=["G1-7,R2", "R2", "G2"], base=b, pad="0", opts=dict(fast=m, use={"G"}),
            symt={}, offsets=[0, 60, 120], asym="MS", bsym="MS")
    add("obs3-two", h_obs, 8, "quick", ver=3, codes={"G": 2, "R": 2}, epochs=["G1,R2", "G1", "G2,R3", "R1"], base=b,
        symt={0: "S", 2: "S"}, offsets=[0, 60, 120, 180], asym="MS", bsym="MS", aslist=True, hi=B + timedelta(seconds=150))
    add("obs3-day", h_obs, 5, ver=3, codes={"G": 2, "R": 2}, epochs=["G1,R2", "G1", "G2"], form="day", asym="d", bsym="d", base=datetime(2018, 5, 13),
        offsets=[0, 86400, 2 * 86400], lo=datetime(2018, 5, 13), hi=datetime(2018, 5, 14))
    day = datetime(2018, 5, 13, 23, 30)
    early = datetime(2018, 5, 6, 22, 30)
    for form in ("iso", "min", "day", "space"):
        kw = dict(form=form, asym="d" if form == "day" else "H", bsym="d" if form == "day" else "H", base=early, offsets=[0, 1800, 5400], lo=early, hi=datetime(2018, 5, 7))
        add(f"obs2-early-{form}", h_obs, 3, ver=2, nobs=2, epochs=["G1,R2", "G1", "G2"], pad="0", opts=dict(fast=False), **kw)
        add(f"obs3-early-{form}", h_obs, 3, ver=3, codes={"G": 2, "R": 2}, epochs=["G1,R2", "G1", "G2"], **kw)
        add(f"nav3-early-{form}", h_nav, 3, ver=3, recs=[("G01", 0), ("R02", 1800), ("G01", 5400)], **kw)
    for form in ("iso", "min", "day"):
        kw = dict(form=form, asym="d" if form == "day" else "H", bsym="d" if form == "day" else "dH", base=day, offsets=[0, 1800, 5400], lo=day, hi=datetime(2018, 5, 14))
        add(f"obs2-midnight-{form}", h_obs, 4, ver=2, nobs=2, epochs=["G1,R2", "G1", "G2"], pad="0", opts=dict(fast=False), **kw)
        add(f"obs3-midnight-{form}", h_obs, 4, ver=3, codes={"G": 2, "R": 2}, epochs=["G1,R2", "G1", "G2"], **kw)
        add(f"nav3-midnight-{form}", h_nav, 4, ver=3, recs=[("G01", 0), ("R02", 1800), ("G01", 5400)], **kw)
        add(f"nav2-midnight-{form}", h_nav, 4, ver=2, kind="N", recs=[("G01", 0), ("G02", 1800), ("G01", 5400)], pad="0", **kw)
    add("obs2-via", h_obs, 5, ver=2, nobs=5, epochs=["G1-7,R2", "G1-7", "G2-8,E3"], base=b, pad="0", offsets=[0, 60, 120], form="iso", asym="S", bsym="S",
        via="rinexobs", hi=B + timedelta(seconds=65))
    add("obs3-via", h_obs, 5, ver=3, codes={"G": 3, "R": 2}, epochs=["G1,R2", "G1,R3", "G2"], base=b, offsets=[0, 60, 120], form="iso", asym="S", bsym="S",
        via="rinexobs", hi=B + timedelta(seconds=65))
    add("nav2-via", h_nav, 5, ver=2, kind="N", recs=[("G01", 0), ("G02", 60), ("G01", 120)], form="iso", pad="0", base=B, asym="S", bsym="S",
        lo=B, hi=B + timedelta(seconds=65), via="rinexnav")
    add("nav3-via", h_nav, 5, ver=3, recs=[("G01", 0), ("R02", 60), ("G01", 120)], form="dt", base=B, asym="S", bsym="S",
        lo=B, hi=B + timedelta(seconds=65), via="rinexnav")
    kw = dict(base=B, asym="HMS", bsym="HMS", lo=B, hi=B + timedelta(seconds=7200))
    add("nav2", h_nav, 5, ver=2, kind="N", recs=[("G01", 0), ("G02", 0), ("G01", 7200), ("G02", 14400)], symt={2: "HM"}, pad="0", **kw)
    add("nav2iso", h_nav, 5, ver=2, kind="N", recs=[("G01", 0), ("G02", 3600), ("G01", 7200)], form="iso", pad="0", **kw)
    add("nav2glo", h_nav, 5, ver=2, kind="G", recs=[("R01", 0), ("R02", 900), ("R01", 1800)], symt={1: "M"}, pad="0", **dict(kw, hi=B + timedelta(seconds=1800)))
    add("nav2order", h_nav, 5, ver=2, kind="E", recs=[("E01", 7200), ("E02", 0), ("E01", 3600)], symt={2: "HM"}, pad="0", **kw)
    add("nav3", h_nav, 5, ver=3, recs=[("G01", 0), ("R02", 0), ("G01", 7200), ("E02", 14400)], symt={2: "HM"}, **kw)
    add("nav3iso", h_nav, 5, ver=3, recs=[("C01", 0), ("S20", 3600), ("C01", 7200)], form="iso", **kw)
    add("nav3order", h_nav, 5, ver=3, recs=[("E01", 7200), ("R02", 0), ("E01", 3600), ("J01", 7200)], symt={2: "HM"}, **kw)
    for m in ("sym", "M"):
        add(f"nav3one{m}", h_nav, 4, ver=3, system=m, recs=[("G01", 0), ("G01", 7200), ("G02", 0), ("G02", 3600)], symt={1: "HM"}, **kw)
    add("nav3oneE", h_nav, 4, "thorough", ver=3, system="sym", recs=[("E01", 7200), ("E02", 3600), ("E01", 0)], symt={2: "H"}, **kw)
    add("nav3order2", h_nav, 5, "thorough", ver=3, recs=[("I01", 7200), ("R02", 0), ("G01", 3600), ("J01", 7200)], symt={2: "HM", 0: "H"}, **kw)
    add("obs3-clock", h_obs, 4, ver=3, codes={"G": 2, "R": 1}, epochs=["G1,R2", "G1,R3", "G2"], base=b, asym="S", bsym="S", symt={1: "S"}, offsets=[0, 30, 60],
        lo=B + timedelta(seconds=20), hi=B + timedelta(seconds=40), clk={0: "sym", 1: "sym", 2: "sym"})
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
