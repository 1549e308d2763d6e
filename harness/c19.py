"""C19: Keplerian elements to ECEF"""
import math
from datetime import datetime, timedelta

import numpy as np
import xarray

from . import lib as L
from . import nav as N

BOUNDS = ("1 to 3 records of one satellite, elements given per record or once, taken from a loaded file or from a data set of the caller's; every element, week, reference time and "
          "epoch symbolic: all elements as real numbers on a decimal grid (e up to 0.25), reference times in whole seconds, epochs within a week of the reference time to the "
          "microsecond; the formula decided as an identity in the elements with sin, cos, arctan2 and square root uninterpreted, the eccentric anomaly by the residual "
          "|E - e sin E - M| <= 1e-12 from |sin x - sin y| <= |x - y|")
OUTSIDE = "floating-point rounding (the positions of each run are compared to 1 mm); data sets of several satellites or with missing elements; fractions of a second in Toe"
ASSUMPTIONS = ["|sin x - sin y| <= |x - y|"]

GM = 3.986004418e14
WE = 7.2921151467e-5
T0 = datetime(1980, 1, 6)
# name: (lowest, highest) in units of 1/scale
ELEMENTS = {"sqrtA": (5000 * 10**6, 6500 * 10**6, 10**6), "Eccentricity": (0, 25 * 10**8, 10**10), "DeltaN": (-10**6, 10**6, 10**14), "M0": (-314159265, 314159265, 10**8),
            "omega": (-314159265, 314159265, 10**8), "Omega0": (-314159265, 314159265, 10**8), "Io": (0, 314159265, 10**8), "OmegaDot": (-10**7, 10**7, 10**15),
            "IDOT": (-10**7, 10**7, 10**15), "Cuc": (-10**7, 10**7, 10**11), "Cus": (-10**7, 10**7, 10**11), "Cic": (-10**7, 10**7, 10**11), "Cis": (-10**7, 10**7, 10**11),
            "Crc": (-10**6, 10**6, 1000), "Crs": (-10**6, 10**6, 1000)}


def ideal(P, x):
    if P.concrete:
        return float(x)
    from symx.ideal import Ideal

    return Ideal.of(x)


def real(P, name, lo, hi, den):
    i = P.ivar(name, lo, hi, None)
    return i / den if P.concrete else ideal(P, i) / ideal(P, den)


def fn(P, f, *a):
    if P.concrete:
        return getattr(math, {"arctan2": "atan2"}.get(f, f))(*a)
    return getattr(ideal(P, a[0]), f)(*a[1:])


def position(P, el, tk, toe, E):
    """satellite position in the orbital plane, turned by the inclination and the longitude of the node"""
    e = el["Eccentricity"]
    phi = fn(P, "arctan2", fn(P, "sqrt", 1 - e * e) * fn(P, "sin", E), fn(P, "cos", E) - e) + el["omega"]
    s2, c2 = fn(P, "sin", 2 * phi), fn(P, "cos", 2 * phi)
    u = phi + el["Cus"] * s2 + el["Cuc"] * c2
    r = el["sqrtA"] * el["sqrtA"] * (1 - e * fn(P, "cos", E)) + el["Crs"] * s2 + el["Crc"] * c2
    i = el["Io"] + el["Cis"] * s2 + el["Cic"] * c2 + el["IDOT"] * tk
    om = el["Omega0"] + (el["OmegaDot"] - WE) * tk - WE * toe
    x, y = r * fn(P, "cos", u), r * fn(P, "sin", u)
    ci, si = fn(P, "cos", i), fn(P, "sin", i)
    co, so = fn(P, "cos", om), fn(P, "sin", om)
    return x * co - y * ci * so, x * so + y * ci * co, y * si


def anomaly(P, el, tk):
    a = el["sqrtA"]
    n = fn(P, "sqrt", GM / (a * a * (a * a) * (a * a))) + el["DeltaN"]
    return el["M0"] + n * tk


def eccentric(el, M):
    E = M
    for _ in range(200):
        E = M + el["Eccentricity"] * math.sin(E)
    return E


def subterms(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out


def decide(P, what, got, el, tk, toe):
    """got: the three coordinates; the position of the exact solution of Kepler's equation is expected"""
    M = anomaly(P, el, tk)
    if P.concrete:
        exp = position(P, el, tk, toe, eccentric(el, M))
        for c, g, x in zip("XYZ", got, exp):
            P.check(f"{what}{c}: {g!r}, expected {x!r}", abs(g - x) <= 1e-3)
        return
    import z3

    from symx.core import SymBool
    from symx.ideal import Ideal, Names, norm, ufn, zero

    P.ex.qtimeout = 4000
    pc = {k: float(v) for k, v in el.items()}
    tc = float(tk)
    exact = eccentric(pc, float(M))
    conc = position_plain(pc, tc, float(toe), exact)
    ok = [abs(float(g) - x) <= 1e-3 for g, x in zip(got, conc)]
    if not all(ok) or not all(isinstance(g, Ideal) for g in got):
        for c, g, x, k in zip("XYZ", got, conc, ok):
            P.check(f"{what}{c}: {float(g)!r}, expected {x!r}", k if not k else SymBool(z3.Bool("undecided!" + what + c), True))
        return
    cos, sin = ufn("cos", 1), ufn("sin", 1)
    terms = subterms(got[0].t)
    names = Names()
    cands = {}
    for x in terms:
        if z3.is_app(x) and x.decl().eq(cos):
            cands.setdefault(names.term(x).get_id(), x.arg(0))
    best = None
    gt = [names.term(g.t) for g in got]
    for E in cands.values():
        exp = position(P, el, tk, toe, Ideal(exact, E))
        d = [norm(g - names.term(x.t)) for g, x in zip(gt, exp)]
        z = [zero(x) for x in d]
        if best is None or sum(z) > sum(best[2]):
            best = (E, d, z)
        if all(z):
            break
    if best is None:
        P.check(what + "depends on an eccentric anomaly", SymBool(z3.Bool("undecided!" + what), True))
        return
    E, d, z = best
    for c, x in zip("XYZ", d):
        P.check(what + c, SymBool(x == 0, True))
    P.check(what + "E solves Kepler's equation", True if kepler(P, names, el, M, E) else SymBool(z3.Bool("undecided!" + what + "E"), True))


def kepler(P, names, el, M, E):
    """the residual of Kepler's equation, from the Lipschitz bound of the sine, one step of the iteration after the other"""
    import z3

    from symx.ideal import norm, ufn

    sin = ufn("sin", 1)
    e = names.term(el["Eccentricity"].t)
    chain = {}
    for x in subterms(E):
        if z3.is_app(x) and x.decl().eq(sin):
            chain.setdefault(names.term(x).get_id(), x.arg(0))
    depth = {}

    def nest(t):
        k = t.get_id()
        if k not in depth:
            depth[k] = 0
            depth[k] = 1 + max([nest(x.arg(0)) for x in subterms(t) if z3.is_app(x) and x.decl().eq(sin)], default=0)
        return depth[k]

    args = sorted(chain.values(), key=nest) + [E]
    s = [names.term(sin(a)) for a in args]
    x = [names.term(a) for a in args]
    dom = [e >= 0, e <= z3.RealVal("3/10")]
    # |x1 - x0| <= lim
    lim = z3.RealVal(1)
    for k in range(len(args)):
        last = k == len(args) - 1
        d = norm(x[k] - e * s[k] - names.term(M.t)) if last else norm(x[k + 1] - x[k])
        cons = dom + [v >= -1 for v in s] + [v <= 1 for v in s] if k == 0 else dom + [s[k - 1] - s[k] <= lim, s[k] - s[k - 1] <= lim]
        lim = z3.RealVal("1/1000000000000") if last else z3.simplify(lim * (z3.RealVal("3/10") if k else 1))
        if decide_query(P, cons + [z3.Or(d > lim, d < -lim)]) != "unsat":
            return False
    return True


def decide_query(P, cons):
    st, _, _ = P.ex.solve(cons, want_model=False)
    return st


def position_plain(el, tk, toe, E):
    class C:
        concrete = True

    return position(C, el, tk, toe, E)


def column(P, vals, dtype=None):
    if P.concrete:
        return np.array([float(v) for v in vals])
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return a


def reals(P, on):
    if not P.concrete:
        from symx.rewrite import RT

        RT.reals = P.frozen = on


def plain_time(P, t):
    if P.concrete:
        return t
    from symx.rewrite import plain

    return plain(t, False)


def h(P, gr, cfg):
    n = cfg["n"]
    sysl = cfg["sys"]
    wname = "GPSWeek" if sysl == "G" else "GALWeek"
    shared = P.choice("shared", cfg.get("shared", ["no"]), cfg.get("shared", ["no"])[0])
    els, toes, weeks, times = [], [], [], []
    for k in range(n):
        if k and shared == "all":
            els.append(els[0])
            weeks.append(weeks[0])
            toes.append(toes[0])
        else:
            els.append({m: real(P, f"{m}{k}", *r) for m, r in ELEMENTS.items()})
            weeks.append(P.ivar(f"week{k}", 1, 3500, 2012 + k))
            toes.append(P.ivar(f"toe{k}", 0, 604799, 388800 + 1000 * k))
        # epochs of one satellite differ; the time relative to the reference time is unrestricted within a week
        d = P.ivar(f"dt{k}", -604800 * 10**6, 604800 * 10**6, [7200 * 10**6 + 250000, -3600 * 10**6, 86400 * 10**6 + 1][k])
        times.append(P.timedelta(weeks=weeks[k], seconds=toes[k], microseconds=d) + T0)
    for a, b in zip(times, times[1:]):
        P.assume(a < b)
    num = (lambda v: float(v)) if P.concrete else (lambda v: ideal(P, v))
    cols = {m: [el[m] for el in els] for m in ELEMENTS}
    cols[wname] = [num(w) for w in weeks]
    cols["Toe"] = [num(t) for t in toes]
    coords = {"time": [np.datetime64(plain_time(P, t), "ns") for t in times]}
    scalar = shared == "all" and P.flag("scalar", True)
    form = P.choice("form", cfg.get("forms", ["sv", "attr"]), cfg.get("forms", ["sv", "attr"])[0])
    attrs = {}
    if form == "sv":
        coords["sv"] = f"{sysl}{P.choice('prn', ['05', '36'], '05')}"
    else:
        attrs["svtype"] = sysl
    ds = xarray.Dataset({m: ((), column(P, v)[0]) if scalar else ("time", column(P, v)) for m, v in cols.items()}, coords=coords, attrs=attrs)
    if scalar and not P.concrete:
        for m, v in cols.items():
            z = np.empty((), dtype=object)
            z[()] = v[0]
            ds[m] = ((), z)
    reals(P, True)
    try:
        r, err = P.run(gr.keplerian2ecef, ds)
        P.check("computes" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is not None:
            return
        P.check("three coordinates", len(r) == 3)
        xyz = [np.atleast_1d(np.asarray(getattr(q, "values", q))) for q in r]
        P.check("one position per epoch", all(q.shape == (n,) for q in xyz))
        for k in range(n):
            if P.concrete:
                tk = (times[k] - T0 - timedelta(weeks=weeks[k], seconds=toes[k])).total_seconds()
            else:
                tk = ideal(P, P.ivar(f"dt{k}", -604800 * 10**6, 604800 * 10**6)) / ideal(P, 10**6)
            decide(P, f"{k} ", [q[k] for q in xyz], els[k], tk, num(toes[k]))
    finally:
        reals(P, False)


EXP = {"sqrtA": ("5", 3), "Eccentricity": ("012", -1), "DeltaN": ("0123456789", -9), "OmegaDot": ("0123456789", -9), "IDOT": ("0123456789", -10), "M0": ("0123", 0),
       "omega": ("0123", 0), "Omega0": ("0123", 0), "Io": ("0123", 0), "Crc": ("0123456789", 2), "Crs": ("0123456789", 2)}


def field(P, name, nm, exp, sign, k, ints):
    """D19.12 field of the size the element has"""
    if nm in ("GPSWeek", "GALWeek"):
        w = P.char(name + ".w", L.DIGITS, str(1 + k))
        m, ex, ints[nm, k] = P.join(["2.00", w, "0" * 9]), 3, P.toint(w) + 2000
    elif nm == "Toe":
        d = [P.char(name + "lead", "12345", "3"), L.digits(P, name, 5)]
        m, ex, ints[nm, k] = P.join([d[0], ".", d[1], "0" * 7]), 5, P.toint(P.join(d))
    else:
        dom, ex = EXP.get(nm, (L.DIGITS, -6))
        m = P.join([P.char(name + "lead", dom), ".", L.digits(P, name, 4), "12345678" if nm == "sqrtA" else L.digits(P, name + "b", 8)])
    sg = " -"[bool(sign)] if nm not in ("sqrtA", "Eccentricity", "Toe", "GPSWeek", "GALWeek") else " "
    es = f"{'-' if ex < 0 else '+'}{abs(ex):02d}"
    return P.join([sg, m, exp, es]), P.tofloat(P.join([sg, m, "E", es]))


def h_file(P, gr, cfg):
    """elements read from a file"""
    ver, sv, n = cfg["ver"], cfg["sv"], cfg["n"]
    f = N.Nav(P, ver, cfg.get("kind", "N"), "M", exp=cfg.get("exp", "D"))
    base = cfg.get("base", datetime(2018, 5, 13, 2, 0, 0))
    ints = {}
    for k in range(n):
        t = L.T(P, f"t{k}", base + timedelta(seconds=7200 * k), cfg.get("symt", {}).get(k, ""), pad="0", nfrac=1)
        for other in cfg.get("others", []):
            names = f.names(other)
            f.record(other, t, [field(P, f"o{other}{k}.{i}", nm or "x", cfg.get("exp", "D"), i % 2, k, {}) for i, nm in enumerate(names)])
        names = f.names(sv)
        f.record(sv, t, [field(P, f"f{k}.{i}", nm or "x", cfg.get("exp", "D"), i % 3 == 1, k, ints) for i, nm in enumerate(names)])
    ds, err = P.run(gr.load, P.file(f.parts), **cfg.get("opts", {}))
    P.check("loads", err is None)
    if err is not None:
        return
    one = ds.sel(sv=sv)
    if cfg.get("drop"):
        one = one.dropna(dim="time", how="all")
    recs = [(t, d[sv]) for t, d in f.exp if sv in d]
    for (t, _), (u, _) in zip(recs, recs[1:]):
        P.assume(t < u)
    P.check("records", one.time.size == len(recs))
    if one.time.size != len(recs):
        return
    if sv[0] in "RS":
        before = one.copy(deep=True)
        r, err = P.run(gr.keplerian2ecef, one)
        P.check("returns" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is None:
            for c, q in zip("XYZ", r):
                v = np.atleast_1d(q.values)
                P.check("positions", v.size == len(recs))
                for k, (t, d) in enumerate(recs):
                    P.expect_float(f"{c} {k}", v[k], d[c])
            P.check("input unchanged", before.identical(one))
        return
    if not P.concrete:
        # the numbers of the data set by what they stand for: a real variable each, whatever its digits are
        import z3
        from symx.ideal import Ideal

        var = {}

        def name(v):
            if v.t.get_id() not in var:
                var[v.t.get_id()] = (v.t, Ideal(float.__float__(v), z3.Real(f"element!{len(var)}")))
            return var[v.t.get_id()][1]

        for m in list(one.data_vars):
            a = np.empty(one[m].shape, dtype=object)
            for k, (t, d) in enumerate(recs):
                v = float(one[m].values[k])
                c = P.freg.get(v)
                a[k] = ideal(P, ints[m, k]) if (m, k) in ints and v == float(d[m]) else name(list(c.values())[0]) if c and len(c) == 1 else v
            one[m] = (one[m].dims, a)
    reals(P, True)
    try:
        r, err = P.run(gr.keplerian2ecef, one)
        P.check("computes" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is not None:
            return
        w = "GPSWeek" if sv[0] == "G" else "GALWeek"
        xyz = [np.atleast_1d(np.asarray(getattr(q, "values", q))) for q in r]
        P.check("one position per epoch", all(q.shape == (len(recs),) for q in xyz))
        for k, (t, d) in enumerate(recs):
            num = (lambda v: float(v)) if P.concrete else (lambda v: ideal(P, v))
            el = {m: num(d[m]) if P.concrete else name(d[m]) for m in ELEMENTS}
            if P.concrete:
                tk = (t - T0 - timedelta(weeks=ints[w, k], seconds=ints["Toe", k])).total_seconds()
            else:
                tk = num((t - T0).total_seconds()) - 604800 * num(ints[w, k]) - num(ints["Toe", k])
            decide(P, f"{k} ", [q[k] for q in xyz], el, tk, num(ints["Toe", k]))
    finally:
        reals(P, False)


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", fn=h, **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    for s in "GE":
        for n in (1, 2, 3):
            add(f"{s}{n}", 3, sys=s, n=n, shared=["no"])
        add(f"{s}shared", 3, sys=s, n=2, shared=["all"])
        add(f"{s}one", 3, sys=s, n=1, shared=["all"])
    add("file2-G", 4, fn=h_file, ver=2, sv="G05", n=2)
    add("file2-Gsym", 4, fn=h_file, ver=2, sv="G05", n=1, symt={0: "dHMSf"})
    add("file3-G", 4, fn=h_file, ver=3, sv="G05", n=1, symt={0: "dHMS"})
    add("file3-G2", 4, fn=h_file, ver=3, sv="G05", n=2, others=["R07"], drop=True)
    add("file3-E", 4, fn=h_file, ver=3, sv="E11", n=2, symt={0: "HMS"})
    add("file2-E", 4, fn=h_file, ver=2, kind="E", sv="E11", n=2)
    add("file2-R", 2, fn=h_file, ver=2, kind="G", sv="R05", n=2)
    add("file3-R", 2, fn=h_file, ver=3, sv="R05", n=2)
    add("file3-S", 2, fn=h_file, ver=3, sv="S20", n=2, others=["G01"])
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
