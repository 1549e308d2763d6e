"""
Scenarios: a file described by its structure, its expected content, and the options it is loaded with.
Each kind of file has one scenario function that builds the model from a configuration; the properties use them with
different options and expectations.
"""
from __future__ import annotations
from datetime import datetime, timedelta

import numpy as np

from . import lib as L

CODES2 = ["L1", "L2", "C1", "P2", "D1", "S1", "P1", "S2", "C2", "D2", "L5", "C5", "D5", "S5", "L6", "C6", "L7", "C7", "L8", "C8", "S6",
          "S7", "D6", "D7", "S8", "D8", "C3", "L3", "D3", "S3"]
CODES3 = ["C1C", "L1C", "D1C", "S1C", "C2W", "L2W", "D2W", "S2W", "C5Q", "L5Q", "D5Q", "S5Q", "C1W", "S1W", "C2L", "L2L", "D2L", "S2L",
          "C1X", "L1X", "D1X", "S1X", "C7X", "L7X", "D7X", "S7X", "C8X", "L8X", "D8X", "S8X"]
MORE3 = CODES3 + [f"{k}{b}{a}" for b in "123456789" for a in "IPYMNZABE" for k in "CLDS"]
STYLES = ["full", "blank", "neg", "short", "zero", "nolead"]
BASE = datetime(2018, 5, 13, 1, 30, 0)


def sats_of(spec):
    """'G1-5,R3' -> names"""
    out = []
    for p in spec.split(","):
        s, r = p[0], p[1:]
        a, _, b = r.partition("-")
        out += [f"{s}{i:02d}" for i in range(int(a), int(b or a) + 1)]
    return out


def permuted(P, cfg, e, sats):
    """the satellites of chosen epochs in every order, any of them"""
    if e in cfg.get("sub", ()):
        sats = [s for i, s in enumerate(sats) if P.flag(f"in{e}.{i}", True)] or sats[:1]
    if e not in cfg.get("perm", ()):
        return sats
    left, out = list(sats), []
    while left:
        s = P.choice(f"perm{e}.{len(out)}." + "".join(out), left, left[0]) if len(left) > 1 else left[0]
        out.append(s)
        left.remove(s)
    return out


def times_of(P, cfg, n, nfrac=7):
    """n increasing epochs. cfg: base, step (s) or offsets, sym: {index: components}, frac: list of fraction texts"""
    base = cfg.get("base", BASE)
    step = cfg.get("step", 30)
    off = cfg.get("offsets")
    sym = cfg.get("symt", {})
    ts = []
    for e in range(n):
        b = base + timedelta(seconds=off[e] if off else step * e)
        ts.append(L.T(P, f"t{e}", b, sym.get(e, ""), pad=cfg.get("pad", " "), nfrac=nfrac, ylo=cfg.get("ylo", 1980), yhi=cfg.get("yhi", 2079),
                      free=e in cfg.get("free", ()), bad=cfg.get("bad", {}).get(e, "")))
    ts_ok = [t for t in ts if t.ok]
    if sym and cfg.get("increasing", True):
        for a, b in zip(ts_ok, ts_ok[1:]):
            if cfg.get("increasing", True) == "distinct":
                continue
            P.assume(a.t < b.t)
        if cfg.get("increasing", True) == "distinct":
            for i, a in enumerate(ts_ok):
                for b in ts_ok[:i]:
                    P.assume(a.t != b.t)
    return ts


def styler(P, cfg, e, i):
    """form of each field: most are full-width numbers; chosen positions take every form"""
    every = cfg.get("every", 0)
    styles = cfg.get("styles", STYLES)
    fixed = cfg.get("fixed", {})  # (e, i, k) -> style
    vary = cfg.get("vary", ())  # positions that take every form

    def style(k):
        if (e, i, k) in vary:
            return P.choice(f"st{e}.{i}.{k}", styles, "full")
        if (e, i, k) in fixed:
            return fixed[e, i, k]
        if every and (k + 3 * i + 5 * e) % every == 0 and k + i + e:
            return P.choice(f"st{e}.{i}.{k}", styles, "full")
        return "full"

    return style


def indicator(P, cfg, e, i):
    m = cfg.get("ind")
    if not m:
        return None

    def ind(k):
        a = P.char(f"lli{e}.{i}.{k}", "01234567", "1") if (k + i) % 3 != 1 else " "
        b = P.char(f"ssi{e}.{i}.{k}", "123456789", "5") if (k + i + e) % 4 != 3 else " "
        if m == "sym" and (k + i + e) % 5 == 0:
            if P.flag(f"noind{e}.{i}.{k}", False):
                a = b = " "
        return a, b

    return ind


def build2(P, cfg):
    """cfg: nobs | codes, epochs: [satspec...], system, events, junk, crlf, ..."""
    codes = cfg.get("codes") or CODES2[:cfg["nobs"]]
    eps = cfg["epochs"]
    f = L.Obs2(P, codes, system=cfg.get("system", "M"), ver=cfg.get("ver", "2.11"), extra=cfg.get("extra", ()), interval=cfg.get("hint"), tsys=cfg.get("tsys", "GPS"))
    f.layout = cfg.get("layout")
    f.trimmed = P.flag("trim", False) if cfg.get("trim") == "sym" else bool(cfg.get("trim"))
    ts = times_of(P, cfg, len(eps))
    ev = cfg.get("events", {})
    flags = cfg.get("flags", {})
    for e, spec in enumerate(eps):
        if e in ev:
            f.raw(*ev[e](P, f, ts[e]))
        sats = permuted(P, cfg, e, sats_of(spec) if isinstance(spec, str) else list(spec))
        names = None
        if cfg.get("blanksat") is not None:
            # blank satellite letter means GPS; blank instead of a leading zero
            names = [(" " + s[1:] if s[0] == "G" and cfg["blanksat"] else s) for s in sats]
        if cfg.get("spacesat"):
            names = [n[0] + n[1:].replace("0", " ", 1) if n[1] == "0" else n for n in (names or sats)]
        rec = {}
        for i, s in enumerate(sats):
            rec[s] = L.obsrec(P, f"e{e}s{i}", len(codes), styler(P, cfg, e, i), indicator(P, cfg, e, i))
        f.epoch(ts[e], sats, rec, flag=flags.get(e, 0), satnames=names, keep=ts[e].ok, clk=cfg.get("clk", {}).get(e, ""))
    if len(eps) in ev:
        f.raw(*ev[len(eps)](P, f, None))
    return f


def offset3(P, cfg, e):
    """receiver clock offset of an epoch: (text, value or None). cfg: clk: {epoch: text | "sym"}, or "sym" for all epochs"""
    c = cfg.get("clk", {})
    c = c if isinstance(c, str) else c.get(e, "")
    if c == "sym":
        st = P.choice(f"clkst{e}", ["full", "blank", "neg", "zero"], "full")
        if st == "blank":
            return "", None
        return L.number(P, f"clk{e}", 15, 12, 1, st)
    return c, (float(c) if c.strip() else None)


def build3(P, cfg):
    """cfg: codes: {sys: n or list}, epochs, ..."""
    codes = {}
    for k, v in cfg["codes"].items():
        codes[k] = MORE3[:v] if isinstance(v, int) else list(v)
    eps = cfg["epochs"]
    # the header of a file of one system names it (a symbolic choice if asked for)
    system = cfg.get("system", next(iter(codes)) if len(codes) == 1 else "M")
    if system == "sym":
        system = P.choice("system", ["M", *codes] if len(codes) == 1 else ["M"], "M")
    f = L.Obs3(P, codes, system=system, ver=cfg.get("ver", "3.03"), extra=cfg.get("extra", ()), interval=cfg.get("hint"), tsys=cfg.get("tsys", "GPS"))
    f.layout = cfg.get("layout")
    f.trimmed = P.flag("trim", False) if cfg.get("trim") == "sym" else bool(cfg.get("trim"))
    f.clk = {}
    ts = times_of(P, dict(dict(pad="0"), **cfg), len(eps))
    ev = cfg.get("events", {})
    flags = cfg.get("flags", {})
    for e, spec in enumerate(eps):
        if e in ev:
            f.raw(*ev[e](P, f, ts[e]))
        sats = permuted(P, cfg, e, sats_of(spec) if isinstance(spec, str) else list(spec))
        names = None
        if cfg.get("spacesat"):
            names = [n[0] + n[1:].replace("0", " ", 1) if n[1] == "0" else n for n in sats]
        rec = {}
        for i, s in enumerate(sats):
            n = len(codes.get(s[0], ()))
            if s[0] not in codes:
                continue
            rec[s] = L.obsrec(P, f"e{e}s{i}", n, styler(P, cfg, e, i), indicator(P, cfg, e, i))
        clk, off = offset3(P, cfg, e)
        f.epoch(ts[e], sats, rec, flag=flags.get(e, 0), satnames=names, keep=ts[e].ok, clk=clk)
        if ts[e].ok:
            f.clk[id(f.exp[-1][0])] = off
    if len(eps) in ev:
        f.raw(*ev[len(eps)](P, f, None))
    return f


def expect(P, f, opts, ver, keep=None):
    """what loading with these options has to give. keep: predicate on the epoch index (time window, decimation)"""
    use = opts.get("use")
    meas = opts.get("meas")
    if isinstance(meas, str):
        meas = [meas]
    if not meas or not meas[0].strip():
        meas = None
    if use is not None:
        use = [u for u in use]
    exp = [x for i, x in enumerate(f.exp) if keep is None or keep(i)]
    return L.obs_expect(P, exp, use=use, meas=meas, ind=opts.get("useindicators", False), ver=ver)


def h_obs2(P, gr, cfg):
    f = build2(P, cfg)
    opts = cfg.get("opts", {})
    load2(P, gr, f, cfg, expect(P, f, opts, 2), opts)


def load2(P, gr, f, cfg, exp, opts, what="", **kw):
    """load and compare; the documented failure of the fast mode is followed by the strict mode"""
    modes = [opts["fast"]] if "fast" in opts else cfg.get("modes", [True])
    out = None
    i = 0
    while i < len(modes):
        fast = modes[i]
        i += 1
        ds, err = P.run(getattr(gr, cfg.get("via", "load")), f.file(), **dict(opts, fast=fast))
        if fast and isinstance(err, IndexError) and "fast=False" in str(err):
            P.check(what + "documented fast mode failure", True)
            if False not in modes:
                modes = [True, False]
            continue
        P.check(f"{what}loads (fast={fast}){'' if err is None else ': ' + type(err).__name__}", err is None)
        if err is None:
            L.compare(P, ds, exp, what=f"{what}{'fast' if fast else 'strict'} ", **kw)
            out = ds
    return out


def h_obs3(P, gr, cfg):
    f = build3(P, cfg)
    opts = cfg.get("opts", {})
    load3(P, gr, f, cfg, expect(P, f, opts, 3), opts)


def load3(P, gr, f, cfg, exp, opts, what="", **kw):
    ds, err = P.run(getattr(gr, cfg.get("via", "load")), f.file(), **opts)
    P.check(what + "loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        L.compare(P, ds, exp, what=what, **dict(dict(blanks=True), **kw))
        if getattr(f, "clk", None) and not opts.get("meas"):
            check_offsets(P, f, ds, exp, what)
    return ds


def check_offsets(P, f, ds, exp, what=""):
    """the receiver clock offsets printed on the lines of the epochs returned"""
    if not hasattr(ds, "attrs"):
        return
    want = [f.clk[id(t)] for t, d in exp if d and f.clk.get(id(t)) is not None]
    got = list(np.atleast_1d(ds.attrs.get("time_offset", [])))
    P.check(f"{what}number of clock offsets", len(got) == len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        P.expect_float(f"{what}clock offset {k}", g, w)
