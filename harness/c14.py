"""C14: header facts"""
from datetime import datetime, timedelta

from . import lib as L
from . import nav as N
from . import scen as S
from .lib import hl

BOUNDS = ("RINEX 2/3 OBS, RINEX 2 NAV of three kinds, RINEX 3 NAV, SP3 headers; every digit of version, position, interval, times of first and last observation, "
          "ionospheric and time-system coefficients, satellite count, clock flag symbolic; label texts with 6 symbolic printable characters; positions with zero components; a blank time system; up to 6 optional records at a time in every presence "
          "pattern, comments before, between and after them; 1 to 28 observation types with symbolic letters and digits; header-like lines after END OF HEADER; spacings of 2 to 5 epochs where the header prints no interval")
OUTSIDE = "comments that contain END OF HEADER; repeated labels other than comments and continuations; a time system that contradicts a single-system file"

PRINT = "".join(chr(c) for c in range(33, 127))


def txt(P, name, base, sym):
    s = base[:60].ljust(60)
    return P.join([P.char(f"{name}.{i}", PRINT, s[i] if s[i] != " " else "x") if i in sym else s[i] for i in range(60)])


def geodetic(P, pos):
    from pymap3d import ecef2geodetic

    if P.concrete:
        return ecef2geodetic(*pos)
    from symx import rewrite

    return rewrite.uf(ecef2geodetic, "ecef2geodetic", 3, *pos)


def position(P, style="full"):
    if style == "signs":
        st = [P.choice(f"sign{k}", ["full", "neg"], "full") for k in range(3)]
    elif style == "axis0":
        st = [P.choice("axis0", ["full", "zero", "neg"], "full"), "full", "neg"]
    elif style == "axes":
        st = [P.choice(f"axis{k}", ["full", "zero", "neg"], "full") for k in range(3)]
    else:
        st = ["neg" if (k == 1 or style == "neg") else style if k == 2 else "full" for k in range(3)]
    p = [L.number(P, f"pos{k}", 14, 4, 7, st[k]) for k in range(3)]
    return P.join([x[0] for x in p]), [x[1] for x in p]


def e12(P, name, neg=None, wide=False):
    """D12.4, or all 12 columns"""
    if wide:
        n = sum(map(ord, name))
        t = P.join(["1" if n % 3 == 2 else "-", "0.", L.digits(P, name, 5, "123456789")])
        ch = "+-"[n % 2]
        ex = P.char(name + ".x", L.DIGITS, "7")
        return P.join([t, "D", ch, "0", ex]), P.tofloat(P.join([t, "E", ch, "0", ex]))
    sg = "-" if (sum(map(ord, name)) % 2 if neg is None else neg) else " "
    t = P.join([sg, "0.", L.digits(P, name, 4, "123456789")])
    ch = "D"
    ex = P.char(name + ".x", L.DIGITS, "7")
    return P.join([" ", t, ch, "-0", ex]), P.tofloat(P.join([t, "E-0", ex]))


def dfield(P, name, w, nd):
    sg = "-" if sum(map(ord, name)) % 2 else " "
    t = P.join([sg, L.digits(P, name + "i", 1, "123456789"), ".", L.digits(P, name, nd)])
    ex = P.char(name + ".x", L.DIGITS, "9")
    return L.rj(P, P.join([t, "D-0", ex]), w), P.tofloat(P.join([t, "E-0", ex]))


def same(P, what, got, exp):
    """scalars and lists of numbers as they stand in a header"""
    if isinstance(exp, (list, tuple)):
        try:
            got = list(got)
        except TypeError:
            P.check(what, False)
            return
        P.check(what + " length", len(got) == len(exp))
        for k, (g, e) in enumerate(zip(got, exp)):
            same(P, f"{what}[{k}]", g, e)
        return
    if isinstance(exp, float):
        try:
            g = got if isinstance(got, float) else float(got)
        except (TypeError, ValueError):
            P.check(what, False)
            return
        P.expect_float(what, g, exp)
    else:
        P.check(what, got == exp)


class Rec:
    """the optional header records of a configuration"""

    def __init__(self, P, cfg):
        self.P = P
        self.cfg = cfg
        self.lines = []
        self.labels = {}
        self.pos = self.interval = self.t0 = self.t1 = self.nsat = self.rx = None
        self.ion = {}
        self.tsc = {}
        self.clk = None

    def add(self, text, label):
        self.lines.append(hl(self.P, text, label))
        self.labels[label] = L.lj(self.P, text, 60)

    def comment(self, n):
        self.lines.append(hl(self.P, txt(self.P, f"cm{n}", "comment / with INTERVAL 30.0 and APPROX POSITION XYZ text", (2, 8, 33)), "COMMENT"))

    def build(self, kinds, present):
        P = self.P
        cfg = self.cfg
        for n, k in enumerate(kinds):
            if cfg.get("comments") and n % 2 == 0:
                self.comment(n)
            if k not in present:
                continue
            if k == "marker":
                self.add(txt(P, "mk", "ABCD 12345M001 text", (0, 1, 5, 12, 30, 59)), "MARKER NAME")
            elif k == "observer":
                self.add(txt(P, "ob", "someone             at an agency", (0, 20, 59)), "OBSERVER / AGENCY")
            elif k == "rx":
                a, b = P.char("rx0", PRINT, "T"), P.char("rx1", PRINT, "7")
                mid = "RIMBLE NETR"
                no, vers = P.join([a, "123", " " * 16]), "4.17"
                if cfg.get("rxwide"):
                    mid = P.choice("rxmid", [mid, "", "PS", "SHTECH UZ-12 CGRS", "EPT POLARX5 TR REF"], mid)
                    no = P.choice("rxno", ["-", "one", "none", "two words", "full"], "one")
                    no = {"-": P.join(["-", " " * 19]), "one": P.join([a, "123", " " * 16]), "none": " " * 20, "two words": P.join([a, " 12", b, " " * 15]), "full": P.join([a, "234567890123456789", b])}[no]
                    vers = P.choice("rxvers", [vers, "NP 1.00 / SP 1.22", "", "Nav 4.17 Sig 0.00 x2"], vers)
                self.rx = P.join([a, mid, b])
                self.add(P.join([no, self.rx, " " * (18 - len(mid)), vers.ljust(20)]), "REC # / TYPE / VERS")
            elif k == "pos":
                t, self.pos = position(P, cfg.get("posstyle", "full"))
                self.add(t, "APPROX POSITION XYZ")
            elif k == "ant":
                self.add("        0.0083        0.0000        0.0000", "ANTENNA: DELTA H/E/N")
            elif k == "interval":
                t, self.interval = L.number(P, "iv", 10, 3, cfg.get("ivn", 4), cfg.get("ivstyle", "full"))
                self.add(t, "INTERVAL")
            elif k == "t0":
                T = L.T(P, "h0", datetime(2018, 5, 13, 1, 30, 28, 123456), cfg.get("tsym", ""), pad=" ", nfrac=7)
                self.add(T.hdr(cfg.get("tsys", "GPS")), "TIME OF FIRST OBS")
                self.t0 = T.t
            elif k == "t1":
                T = L.T(P, "h1", datetime(2018, 5, 13, 23, 59, 30), cfg.get("t1sym", ""), pad=" ", nfrac=7)
                self.add(T.hdr(cfg.get("tsys", "GPS")), "TIME OF LAST OBS")
                self.t1 = T.t
            elif k == "nsat":
                d = L.digits(P, "ns", 2, "123456789")
                self.add(L.rj(P, d, 6), "# OF SATELLITES")
                self.nsat = P.toint(d)
            elif k == "leap":
                d = P.char("lp", "0123456789", "8")
                self.add(P.join(["    1", d]), "LEAP SECONDS")
            elif k == "clk":
                d = P.char("ck", "01", "1")
                self.add(P.join(["     ", d]), "RCV CLOCK OFFS APPL")
                self.clk = P.toint(d)
            elif k in ("ALPHA", "BETA"):
                f = [e12(P, f"ion{k}{i}", wide=i in cfg.get("ionwide", ())) for i in range(4)]
                self.add(P.join(["  ", *[x[0] for x in f]]), "ION " + k)
                self.ion[k] = [x[1] for x in f]
            elif k.startswith("ION:"):
                c = k[4:]
                m = 3 if c == "GAL" else 4
                f = [e12(P, f"ion{c}{i}", wide=i in cfg.get("ionwide", ())) for i in range(m)]
                self.lines.append(hl(P, P.join([f"{c:<4} ", *[x[0] for x in f]]), "IONOSPHERIC CORR"))
                self.ion[c] = [x[1] for x in f]
            elif k.startswith("TSC:"):
                c = k[4:]
                a, b = dfield(P, f"tsca{c}", 17, 10), dfield(P, f"tscb{c}", 16, 9)
                t, w = L.digits(P, f"tsct{c}", 6, "123456789"), L.digits(P, f"tscw{c}", 4, "123456789")
                self.lines.append(hl(P, P.join([f"{c:<4} ", a[0], b[0], L.rj(P, t, 7), L.rj(P, w, 5)]), "TIME SYSTEM CORR"))
                self.tsc[c] = [a[1], b[1], P.toint(t), P.toint(w)]
            else:
                raise AssertionError(k)
        if cfg.get("comments"):
            self.comment(99)

    def check(self, hdr, what=""):
        P = self.P
        for lb, tx in self.labels.items():
            if lb == "# OF SATELLITES" and self.nsat is not None:
                P.check(what + lb, hdr.get(lb) == self.nsat)
                continue
            got = hdr.get(lb)
            P.check(f"{what}label {lb}", False if not isinstance(got, str) else got.rstrip() == tx.rstrip())
        for lb in ("MARKER NAME", "OBSERVER / AGENCY", "REC # / TYPE / VERS", "APPROX POSITION XYZ", "INTERVAL", "TIME OF LAST OBS", "ION ALPHA", "ION BETA"):
            if lb not in self.labels:
                P.check(f"{what}no {lb}", lb not in hdr)
        for lb, v in (("IONOSPHERIC CORR", self.ion), ("TIME SYSTEM CORR", self.tsc)):
            if lb.startswith("ION") and any(k in v for k in ("ALPHA", "BETA")):
                continue
            got = hdr.get(lb, {})
            P.check(what + lb + " entries", set(got) == set(v))
            for k in v:
                if k in got:
                    same(P, f"{what}{lb} {k}", got[k], v[k])


def facts(P, r, hdr, what, attrs=False):
    """values derived from the records"""
    for key, v in (("position", r.pos), ("interval", r.interval)):
        if v is None:
            if not attrs or key == "position":
                P.check(f"{what}no {key}", key not in hdr)
        else:
            P.check(f"{what}{key} present", key in hdr)
            if key in hdr:
                same(P, what + key, hdr[key], v)
    if r.pos is not None:
        P.check(what + "geodetic present", "position_geodetic" in hdr)
        if "position_geodetic" in hdr:
            same(P, what + "geodetic", [x if isinstance(x, float) else float(x) for x in hdr["position_geodetic"]], list(geodetic(P, r.pos)))


def kinds_of(P, cfg):
    kinds = cfg["kinds"]
    present = set(cfg.get("always", ()))
    for k in kinds:
        if k not in present and (cfg.get("vary") is None or k in cfg["vary"]):
            if P.flag("has." + k, True):
                present.add(k)
        elif cfg.get("vary") is not None and k not in cfg["vary"]:
            present.add(k)
    n = cfg.get("rotate", 0)
    return kinds[n:] + kinds[:n], present


def version(P, major, nd=2):
    d = L.digits(P, "ver", nd)
    s = P.join([str(major), ".", d])
    return s, P.tofloat(s)


def h_obs(P, gr, cfg):
    ver = cfg["ver"]
    r = Rec(P, cfg)
    r.build(*kinds_of(P, cfg))
    vs, vv = version(P, ver)
    vs = L.rj(P, vs, 9)
    sys_ = cfg.get("system", "M")
    codes = cfg["codes"]
    if cfg.get("symcodes"):
        def code(c, n):
            return P.join([P.char(f"cd{n}.{i}", "CLPDSX" if i == 0 else "123456789" if i == 1 else "CWQX", c[i]) for i in range(len(c))])
    else:
        def code(c, n):
            return c
    tail = []
    if cfg.get("after"):
        tail = [hl(P, "     9.000", "INTERVAL"), hl(P, txt(P, "af", "OTHER NAME", (0, 3)), "MARKER NAME"), hl(P, "  1.0  2.0  3.0", "APPROX POSITION XYZ")]
    first = [hl(P, P.join([vs, " " * 11, "OBSERVATION DATA".ljust(20), sys_]), "RINEX VERSION / TYPE"), hl(P, "pgm                 run by              20200101 000000 UTC", "PGM / RUN BY / DATE")]
    types = []
    want = {}
    if ver == 2:
        cs = [code(c, n) for n, c in enumerate(codes)]
        want = cs
        for i in range(0, len(cs), 9):
            c = f"{len(cs):6d}" if i == 0 else " " * 6
            types.append(hl(P, P.join([c, *[L.rj(P, x, 6) for x in cs[i:i + 9]]]), "# / TYPES OF OBSERV"))
    else:
        n = 0
        for k, cl in codes.items():
            cs = []
            for c in cl:
                cs.append(code(c, n))
                n += 1
            want[k] = cs
            for i in range(0, len(cs), 13):
                c = f"{k}  {len(cs):3d}" if i == 0 else " " * 6
                types.append(hl(P, P.join([c, *[P.join([" ", x]) for x in cs[i:i + 13]]]), "SYS / # / OBS TYPES"))
    extra = []
    if sys_ == "M" and "t0" not in cfg["kinds"]:
        extra = [hl(P, f"{2020:6d}{1:6d}{1:6d}{0:6d}{0:6d}{0:13.7f}     {cfg.get('tsys', 'GPS')}", "TIME OF FIRST OBS")]
    k = cfg.get("where", 0)
    body = types + r.lines if k == 0 else r.lines + types if k == 1 else r.lines[:2] + types + r.lines[2:]
    parts = first + body + extra + [hl(P, "", "END OF HEADER")]
    if ver == 2:
        parts += [" 18  5 13  1 30 28.1234560  0  1G01\n"]
        v = L.number(P, "v", 14, 3, 8)
        parts += [P.join([v[0], "\n"])] + ["\n"] * ((len(codes) - 1) // 5)
        if tail:
            parts += [f"{'':28s}4{len(tail):3d}\n"] + tail
    else:
        v = L.number(P, "v", 14, 3, 8)
        s0 = next(iter(codes))
        parts += ["> 2018 05 13 01 30 28.1234560  0  1\n", P.join([s0, "01", v[0], "\n"])]
        if tail:
            parts += [f">{'':30s}4{len(tail):3d}\n"] + tail

    src = P.file(parts)
    hdr, err = P.run(gr.rinexheader, src)
    P.check("rinexheader" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        same(P, "version", hdr["version"], vv)
        P.check("kind", hdr["rinextype"] == "obs")
        P.check("file type", hdr["filetype"] == "O")
        P.check("system", hdr["systems"] == sys_ or sys_ == " " and hdr["systems"] in (" ", "G"))
        r.check(hdr)
        facts(P, r, hdr, "")
        if r.t0 is not None:
            P.check("t0 present", "t0" in hdr)
            if "t0" in hdr:
                P.check("t0", hdr["t0"] == r.t0)
        if r.t1 is not None and ver == 2:
            P.check("t1 present", "t1" in hdr)
            if "t1" in hdr:
                P.check("t1", hdr["t1"] == r.t1)
        if r.rx is not None and ver == 2:
            P.check("receiver", hdr.get("rxmodel") == r.rx)
        got = hdr["fields"]
        if ver == 2:
            P.check("number of types", hdr["Nobs"] == len(want) and len(got) == len(want))
            for n, (g, w) in enumerate(zip(got, want)):
                P.check(f"type {n}", g == w)
        else:
            P.check("systems with types", list(got) == list(want))
            for k2 in want:
                P.check(f"number of types {k2}", len(got.get(k2, ())) == len(want[k2]))
                for n, (g, w) in enumerate(zip(got.get(k2, ()), want[k2])):
                    P.check(f"type {k2}{n}", g == w)
    if cfg.get("load", True) and not cfg.get("symcodes"):
        ds, err = P.run(gr.load, src, **({"fast": False} if ver == 2 else {}))
        P.check("load" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is None:
            a = ds.attrs
            same(P, "attrs version", a["version"], vv)
            P.check("attrs kind", a["rinextype"] == "obs")
            facts(P, r, a, "attrs ", True)
            ts = {"M": cfg.get("tsys", "GPS").strip(), "G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS", " ": "GPS"}[sys_]
            P.check("attrs time system", a["time_system"] == ts)
            if r.rx is not None and ver == 2:
                P.check("attrs receiver", a.get("rxmodel") == r.rx)
            if ver == 3:
                if r.clk is None:
                    P.check("attrs clock", "receiver_clock_offset_applied" not in a)
                else:
                    P.check("attrs clock", a.get("receiver_clock_offset_applied") == r.clk)


def h_derived(P, gr, cfg):
    """files that do not print the interval: the median of the time between the epochs"""
    ver = cfg["ver"]
    gaps = [P.choice(f"gap{k}", cfg["gaps"], cfg["gaps"][0]) for k in range(cfg["n"] - 1)]
    off = [sum(gaps[:k]) for k in range(cfg["n"])]
    f = (S.build2 if ver == 2 else S.build3)(P, dict(cfg, offsets=off, epochs=["G1,R2", "G1"] * (cfg["n"] // 2) + ["R2"] * (cfg["n"] % 2)))
    opts = dict(cfg.get("opts", {}))
    g = sorted(gaps)
    if cfg.get("window"):
        # only the epochs that are read count
        opts["tlim"] = (f.exp[1][0], f.exp[-1][0])
        g = sorted(gaps[1:])
    m = g[len(g) // 2] if len(g) % 2 else (g[len(g) // 2 - 1] + g[len(g) // 2]) / 2
    ds, err = P.run(gr.load, f.file(), **opts)
    P.check("load" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        P.check("interval", abs(float(ds.attrs["interval"]) - m) < 1e-6)


def h_nav(P, gr, cfg):
    ver = cfg["ver"]
    r = Rec(P, cfg)
    r.build(*kinds_of(P, cfg))
    vs, vv = version(P, ver)
    vs = L.rj(P, vs, 9)
    f = N.Nav(P, ver, cfg.get("kind", "N"), cfg.get("system", "M"))
    if ver == 2:
        t = {"N": "N: GPS NAV DATA", "G": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[cfg.get("kind", "N")]
        f.parts[0] = hl(P, P.join([vs, " " * 11, t.ljust(20)]), "RINEX VERSION / TYPE")
    else:
        f.parts[0] = hl(P, P.join([vs, " " * 11, "N: GNSS NAV DATA".ljust(20), cfg.get("system", "M")]), "RINEX VERSION / TYPE")
    end = f.parts.pop()
    f.parts.pop()
    f.parts += r.lines + [end]
    sv = {"N": "G01", "G": "R01", "E": "E01"}[cfg.get("kind", "N")] if ver == 2 else cfg.get("sv", "G01")
    T = L.T(P, "t", datetime(2018, 5, 13, 2, 0, 0), pad="0", nfrac=1)
    n = len(f.names(sv)) if ver == 2 else N.PRINTED3[sv[0]]
    f.record(sv, T, N.vals(P, "r", n, lambda k: "full" if k < 2 else "zero"))
    if cfg.get("after"):
        f.raw(hl(P, P.join(["  ", *[e12(P, f"af{i}", False)[0] for i in range(4)]]), "ION ALPHA"), hl(P, "other", "MARKER NAME"), hl(P, "GPSA  0.1D-08 0.1D-08 0.1D-08 0.1D-08", "IONOSPHERIC CORR"))
    src = f.file()
    hdr, err = P.run(gr.rinexheader, src)
    P.check("rinexheader" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        same(P, "version", hdr["version"], vv)
        P.check("kind", hdr["rinextype"] == "nav")
        P.check("file type", hdr["filetype"] == cfg.get("kind", "N"))
        P.check("system", hdr["systems"] == ({"N": "G", "G": "R", "E": "E"}[cfg["kind"]] if ver == 2 else cfg.get("system", "M")))
        r.check(hdr)
    ds, err = P.run(gr.load, src)
    P.check("load" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        a = ds.attrs
        same(P, "attrs version", a["version"], vv)
        P.check("attrs kind", a["rinextype"] == "nav")
        P.check("attrs system", sorted(set(a["svtype"])) == [sv[0]])
        pairs = {"GPS": ("ALPHA", "BETA")} if ver == 2 else {"GPS": ("GPSA", "GPSB"), "GAL": ("GAL",), "QZS": ("QZSA", "QZSB"), "BDS": ("BDSA", "BDSB"), "IRN": ("IRNA", "IRNB")}
        for g, ks in pairs.items():
            nm = "ionospheric_corr_" + g
            if all(k in r.ion for k in ks):
                P.check(f"attrs {nm} present", nm in a)
                if nm in a:
                    same(P, f"attrs {nm}", list(a[nm]), sum((r.ion[k] for k in ks), []))
            else:
                P.check(f"attrs no {nm}", nm not in a)


def h_sp3(P, gr, cfg):
    T = L.T(P, "t0", datetime(2018, 5, 13, 1, 30, 28, 123456), cfg.get("tsym", ""), pad=cfg.get("pad", " "), nfrac=6)
    f = N.SP3(P, ["G01", "G02"], T, 1)
    cs = P.join([P.char(f"cs{i}", PRINT, "IGS14"[i]) for i in range(5)])
    ot = P.join([P.char(f"ot{i}", PRINT, "HLM"[i]) for i in range(3)])
    ag = P.join([P.char(f"ag{i}", PRINT, "IGSX"[i]) for i in range(4)])
    n = L.digits(P, "nep", cfg.get("ndig", 3), "123456789")
    ch = P.char("ver", "acd", "c")
    f.parts[0] = P.join(["#", ch, "P", T.sp3()[3:], " ", L.rj(P, n, 7), " ORBIT ", cs, " ", ot, " ", ag, "\n"])
    T2 = L.T(P, "t1", datetime(2018, 5, 13, 2, 0, 0), "", pad=" ", nfrac=6)
    f.epoch(T2, {s: ([L.number(P, f"p{s}{a}", 14, 6, 5) for a in range(4)], None) for s in ("G01", "G02")})
    f.eof()
    ds, err = P.run(gr.load, f.file())
    P.check("load" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        a = ds.attrs
        P.check("epochs", a["Nepoch"] == P.toint(n))
        P.check("coordinate system", a["coord_sys"] == cs)
        P.check("orbit type", a["orbit_type"] == ot)
        P.check("agency", a["agency"] == ag)
        P.order_time(T.t)
        P.expect_time("t0", L.us(ds["t0"].values), T.t)
    info, err = P.run(gr.rinexinfo, f.file())
    P.check("rinexinfo", err is None)
    if err is None:
        P.check("version", info["version"] == ch)
        P.check("kind", info["rinextype"] == "sp3")


def cfgs():
    out = []

    def add(name, fn, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    th = "thorough"
    k2 = ["marker", "observer", "rx", "pos", "ant", "interval", "t0", "t1", "nsat", "leap"]
    k3 = ["marker", "observer", "rx", "pos", "ant", "interval", "t0", "clk", "leap"]
    c2 = ["L1", "L2", "C1", "P2", "D1", "S1", "P1"]
    c3 = {"G": ["C1C", "L1C", "S1C"], "R": ["L1C"]}
    # the system given, so that the time of first observation is optional
    for ver, kk, cc in ((2, k2, c2), (3, k3, c3)):
        v = dict(ver=ver, codes=cc)
        add(f"obs{ver}pres1", h_obs, 3, kinds=kk, vary={"marker", "rx", "pos", "interval"}, system="G", **v)
        add(f"obs{ver}pres2", h_obs, 3, kinds=kk, vary={"t0", "t1", "nsat", "clk", "observer"}, system="G", comments=True, rotate=3, **v)
        add(f"obs{ver}presall", h_obs, 8, th, kinds=kk, system="G", comments=True, where=2, **v)
        add(f"obs{ver}order", h_obs, 3, kinds=kk, vary={"pos", "interval"}, rotate=5, where=1, comments=True, **v)
        add(f"obs{ver}order2", h_obs, 3, kinds=kk, vary={"rx", "leap"}, rotate=8, where=2, after=True, system="R" if ver == 2 else "M", **v)
        add(f"obs{ver}after", h_obs, 3, kinds=kk, vary={"marker", "pos", "interval"}, after=True, comments=True, system="G", **v)
        for s in ("f", "Sf", "ymd", "HMS", "HMSf", "ymdHMSf"):
            add(f"obs{ver}t0{s}", h_obs, 4, "quick" if s in ("Sf", "ymd", "HMSf") else th, kinds=["t0", "t1"], vary={"t1"} if ver == 2 else set(), tsym=s, t1sym="H" if s == "Sf" else "", load=False, **v)
        for st in ("neg", "short", "signs", "axis0"):
            add(f"obs{ver}pos{st}", h_obs, 2, kinds=["pos", "interval"], vary=set(), posstyle=st, **v)
        for st, n in (("full", 1), ("full", 2), ("full", 5), ("short", 1), ("nolead", 1), ("zero", 1)):
            if st != "nolead":
                add(f"obs{ver}iv{st}{n}", h_obs, 2, kinds=["interval", "pos"], vary={"pos"}, ivstyle=st, ivn=n, **v)
        for s in ("G", "R", "E", "J", "C", "S", "I") + ((" ",) if ver == 2 else ()):
            if ver == 2 and s == "I":
                continue
            v2 = dict(v)
            if ver == 3:
                v2["codes"] = {s: ["C1C", "L1C"]}
            add(f"obs{ver}sys{s.strip()}", h_obs, 1, kinds=["t0", "pos"], vary={"t0"}, system=s, **v2)
        for s in ("GPS", "GLO", "GAL", "BDT", "QZS", "IRN", "   "):
            add(f"obs{ver}tsys{s.strip()}", h_obs, 1, kinds=["t0", "pos"], vary=set(), tsys=s, tsym="S", **v)
    add("rxwide", h_obs, 3, ver=2, codes=c2, kinds=["rx", "marker", "t0"], vary={"marker"}, rxwide=True, system="G")
    add("rxwide2", h_obs, 3, ver=2, codes=c2, kinds=["t0", "pos", "rx"], vary={"rx"}, rxwide=True, comments=True)
    for n in (1, 8, 9, 10, 18, 19, 28):
        add(f"types2.{n}", h_obs, 1, ver=2, codes=S.CODES2[:n], kinds=["marker", "pos"], vary=set(), symcodes=True, where=n % 3, comments=n % 2 == 0)
        if n in (9, 10, 19):
            add(f"types2l.{n}", h_obs, 1, ver=2, codes=S.CODES2[:n], kinds=["marker", "pos"], vary=set(), where=n % 3, comments=True)
    for n in (1, 12, 13, 14, 26, 27, 28):
        add(f"types3.{n}", h_obs, 1, ver=3, codes={"G": S.CODES3[:n], "R": S.CODES3[:3], "E": S.CODES3[2:n + 2]}, kinds=["marker", "pos"], vary=set(), symcodes=True, where=n % 3, comments=n % 2 == 0)
        if n in (13, 14, 26):
            add(f"types3l.{n}", h_obs, 1, ver=3, codes={"G": S.CODES3[:n], "R": S.CODES3[:3]}, kinds=["marker", "pos"], vary=set(), where=n % 3, comments=True)
    for kd in "NGE":
        add(f"nav2{kd}", h_nav, 2, ver=2, kind=kd, kinds=["marker", "ALPHA", "leap", "BETA"], comments=True)
        add(f"nav2{kd}wide", h_nav, 2, ver=2, kind=kd, kinds=["ALPHA", "leap", "BETA"], vary=set(), ionwide=(0, 3) if kd == "N" else (1, 2))
    add("nav2after", h_nav, 2, ver=2, kind="N", kinds=["BETA", "ALPHA"], after=True)
    ions = ["ION:GPSA", "ION:GPSB", "ION:GAL", "ION:QZSA", "ION:QZSB", "ION:BDSA", "ION:BDSB", "ION:IRNA", "ION:IRNB"]
    add("nav3gps", h_nav, 2, ver=3, kinds=["marker", *ions], vary={"ION:GPSA", "ION:GPSB", "ION:GAL"}, comments=True)
    add("nav3bds", h_nav, 2, ver=3, kinds=ions, vary={"ION:BDSA", "ION:BDSB", "ION:QZSA"}, sv="C05", rotate=4)
    add("nav3irn", h_nav, 2, ver=3, kinds=ions, vary={"ION:IRNA", "ION:IRNB", "ION:QZSB"}, sv="E05", rotate=6, system="E")
    add("nav3all", h_nav, 8, th, ver=3, kinds=ions, comments=True)
    for n in range(9):
        add(f"nav3wide{n}", h_nav, 2, "quick" if n in (0, 2, 6) else th, ver=3, kinds=ions, vary={ions[n]}, ionwide=(n % 3, 3) if n < 4 else (0, 1, 2), sv="GEJCI"[n // 2] + "05", system="M")
    tsc = ["TSC:GPUT", "TSC:GLUT", "TSC:GAUT", "TSC:BDUT", "TSC:GAGP", "TSC:QZGP"]
    add("nav3tsc", h_nav, 2, ver=3, kinds=tsc + ["leap"], vary=set(tsc[:3]), comments=True, sv="R03")
    for n in (2, 3, 5):
        add(f"nav3tsc{n}", h_nav, 2, ver=3, kinds=[*tsc[n:], "leap", *tsc[:n]], vary={tsc[n], tsc[0]}, sv="E03")
        add(f"nav3rev{n}", h_nav, 2, ver=3, kinds=[*ions[n::-1], *ions[:n:-1]], vary={ions[n], ions[0]}, sv="G03")
    add("nav3mix", h_nav, 2, ver=3, kinds=["ION:GPSA", "TSC:GPUT", "marker", "ION:GPSB", "TSC:GAUT", "ION:GAL"], vary={"TSC:GPUT", "marker", "ION:GAL"}, after=True)
    for s in ("", "Sf", "ymd", "HMSf"):
        add("sp3" + s, h_sp3, 2, "quick" if s != "ymd" else th, tsym=s)
    for n in (1, 7):
        add(f"sp3n{n}", h_sp3, 1, ndig=n)
    for n in (2, 3, 4, 5):
        for ver, o in ((2, dict(nobs=2, opts=dict(fast=False))), (3, dict(codes={"G": 2, "R": 1}))):
            add(f"derived{ver}.{n}", h_derived, 1, ver=ver, n=n, gaps=[30, 1, 3600] if n < 5 else [30, 900], **o)
            if n > 2:
                add(f"derivedwin{ver}.{n}", h_derived, 1, ver=ver, n=n, gaps=[15, 120], window=True, **o)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
