"""NAV and SP3 files"""
from __future__ import annotations
from datetime import datetime, timedelta

from . import lib as L
from .lib import hl, lj, rj, trim, ANY, NAN

KEP = ["Crs", "DeltaN", "M0", "Cuc", "Eccentricity", "Cus", "sqrtA", "Toe", "Cic", "Omega0", "Cis", "Io", "Crc", "omega", "OmegaDot", "IDOT"]
CLK = ["SVclockBias", "SVclockDrift", "SVclockDriftRate"]
STATE = ["X", "dX", "dX2", "health", "Y", "dY", "dY2"]
F2 = {
    "N": CLK + ["IODE"] + KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl"],
    "G": ["SVclockBias", "SVrelFreqBias", "MessageFrameTime"] + STATE + ["FreqNum", "Z", "dZ", "dZ2", "AgeOpInfo"],
    # the fourth field of broadcast orbit 5 is spare
    "E": CLK + ["IODnav"] + KEP + ["DataSrc", "GALWeek", None, "SISA", "health", "BGDe5a", "BGDe5b", "TransTime"],
}
SYS2 = {"N": "G", "G": "R", "E": "E"}
F3 = {
    "G": CLK + ["IODE"] + KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "E": CLK + ["IODnav"] + KEP + ["DataSrc", "GALWeek", "spare0", "SISA", "health", "BGDe5a", "BGDe5b", "TransTime", "spare1", "spare2", "spare3"],
    "C": CLK + ["AODE"] + KEP + ["spare0", "BDTWeek", "spare1", "SVacc", "SatH1", "TGD1", "TGD2", "TransTime", "AODC", "spare2", "spare3"],
    "J": CLK + ["IODE"] + KEP + ["CodesL2", "GPSWeek", "L2Pflag", "SVacc", "health", "TGD", "IODC", "TransTime", "FitIntvl", "spare0", "spare1"],
    "I": CLK + ["IODEC"] + KEP + ["spare0", "BDTWeek", "spare1", "URA", "health", "TGD", "spare2", "TransTime", "spare3", "spare4", "spare5"],
    "R": ["SVclockBias", "SVrelFreqBias", "MessageFrameTime"] + STATE + ["FreqNum", "Z", "dZ", "dZ2", "AgeOpInfo"],
    "S": ["SVclockBias", "SVrelFreqBias", "MessageFrameTime"] + STATE + ["URA", "Z", "dZ", "dZ2", "IODN"],
}
KM = {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}
# fields receivers print
PRINTED3 = {"G": 29, "E": 28, "C": 29, "J": 29, "I": 28, "R": 15, "S": 15}


class Nav:
    """ver 2: kind N G E; ver 3: any mix"""

    def __init__(self, P, ver, kind="N", system="M", verstr=None, extra=(), exp="D"):
        self.P = P
        self.ver = ver
        self.kind = kind
        self.expch = exp
        self.exp = []
        self.recs = []
        self.trimmed = False
        if ver == 2:
            t = {"N": "N: GPS NAV DATA", "G": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[kind]
            vs = verstr or "2.11"
            self.parts = [hl(P, P.join([f"{vs:>9}", " " * 11, t.ljust(20)]), "RINEX VERSION / TYPE")]
        else:
            vs = verstr or "3.04"
            self.parts = [hl(P, P.join([f"{vs:>9}", " " * 11, "N: GNSS NAV DATA".ljust(20), system]), "RINEX VERSION / TYPE")]
        self.parts += [hl(P, "pgm                 run by              20200101 000000 UTC", "PGM / RUN BY / DATE")]
        self.parts += list(extra)
        self.parts += [hl(P, "    18", "LEAP SECONDS"), hl(P, "", "END OF HEADER")]

    def names(self, sv):
        return F2[self.kind] if self.ver == 2 else F3[sv[0]]

    def record(self, sv, t, vals, keep=True, prn=None, as_name=None, n=None):
        """vals: [(text19, value)] in file order; n: fields printed (the rest of the lines left out or blank)"""
        P = self.P
        names = self.names(sv)
        if self.ver == 2:
            head = P.join([prn or f"{int(sv[1:]):2d}", t.nav2()])
            ind = "   "
        else:
            head = P.join([prn or sv, t.nav3()])
            ind = "    "
        nl = (len(names) - 3 + 3) // 4
        full = list(vals) + [(" " * 19, NAN)] * (3 + 4 * nl - len(vals))
        lines = [P.join([head, *[v[0] for v in full[:3]]])]
        for k in range(nl):
            lines.append(P.join([ind, *[v[0] for v in full[3 + 4 * k:7 + 4 * k]]]))
        for ln in lines:
            ln = P.join([ln, "\n"])
            self.parts.append(trim(P, ln) if self.trimmed else ln)
        d = {}
        for nm, v in zip(names, full):
            if nm is None:
                continue
            if not isinstance(v[1], float) or v[1] == v[1]:
                x = v[1] * 1000.0 if nm in KM and sv[0] in "RS" else v[1]
            else:
                x = NAN if self.ver == 2 else ANY
            d[nm] = x
        self.recs.append((t, sv, d))
        if keep:
            self.exp.append((t.t, {as_name or sv: d}))
        return d

    def raw(self, *lines):
        self.parts += lines

    layout = None

    def file(self):
        return L.lay(self.P, self.parts, self.layout)

    def text(self):
        return self.P.join(self.parts)


def vals(P, name, n, style=None, exp="D", nd=12):
    out = []
    for k in range(n):
        st = style(k) if style else "full"
        out.append(L.efield(P, f"{name}k{k}", st, exp=exp, nd=nd))
    return out


NSTYLES = ["full", "blank", "sign", "zero", "lead0"]


def nrec2(kind):
    return len(F2[kind])


def build(P, cfg):
    """
    cfg: ver, kind, recs: [(sv, seconds offset, number of fields printed or None)], vary: [(record, field)], fixed, trim, symt, exp
    """
    ver = cfg["ver"]
    # the header of a file of one system names it (a symbolic choice if asked for)
    one = {r[0][0] for r in cfg["recs"]}
    system = cfg.get("system", min(one) if len(one) == 1 else "M")
    if system == "sym":
        system = P.choice("system", ["M", *one] if len(one) == 1 else ["M"], "M")
    f = Nav(P, ver, cfg.get("kind", "N"), system, cfg.get("verstr"), cfg.get("extra", ()), cfg.get("exp", "D"))
    f.layout = cfg.get("layout")
    f.trimmed = P.flag("trim", False) if cfg.get("trim") == "sym" else bool(cfg.get("trim"))
    base = cfg.get("base", datetime(2018, 5, 13, 2, 0, 0))
    recs = cfg["recs"]
    ts = []
    for i, r in enumerate(recs):
        b = base + timedelta(seconds=r[1])
        ts.append(L.T(P, f"t{i}", b, cfg.get("symt", {}).get(i, ""), pad=cfg.get("pad", " " if ver == 2 else "0"), nfrac=1, ylo=cfg.get("ylo", 1980), yhi=cfg.get("yhi", 2079),
                      free=i in cfg.get("free", ()), bad=cfg.get("bad", {}).get(i, "")))
    if cfg.get("order"):
        cfg["order"](P, ts)
    # records of one satellite have different times unless the configuration repeats one
    for i, r in enumerate(recs):
        for j in range(i):
            if recs[j][0] == r[0] and recs[j][1] != r[1] and (cfg.get("symt", {}).get(i) or cfg.get("symt", {}).get(j)) and ts[i].ok and ts[j].ok:
                P.assume(ts[i].t != ts[j].t)
    count = {}
    for i, r in enumerate(recs):
        sv = r[0]
        names = f.names(sv)
        n = r[2] if len(r) > 2 and r[2] is not None else (len(names) if ver == 2 else PRINTED3[sv[0]])
        if cfg.get("raw", {}).get(i):
            f.raw(*cfg["raw"][i])

        def style(k, i=i):
            if (i, k) in cfg.get("fixed", {}):
                return cfg["fixed"][i, k]
            if (i, k) in cfg.get("vary", ()):
                return P.choice(f"st{i}.{k}", cfg.get("styles", NSTYLES), "full")
            return "full"

        v = vals(P, f"r{i}", n, style, exp=cfg.get("exp", "D"))
        key = (sv, r[1])
        as_name = sv if key not in count else f"{sv}_{count[key]}"
        count[key] = count.get(key, 0) + 1
        prn = None
        if cfg.get("spacesat") and ver == 3 and sv[1] == "0":
            prn = sv[0] + " " + sv[2]
        f.record(sv, ts[i], v, as_name=as_name, prn=prn, keep=ts[i].ok)
    if cfg.get("raw", {}).get(len(recs)):
        f.raw(*cfg["raw"][len(recs)])
    f.ts = ts
    return f


def h_nav(P, gr, cfg):
    f = build(P, cfg)
    opts = cfg.get("opts", {})
    ds, err = P.run(getattr(gr, cfg.get("via", "load")), f.file(), **opts)
    P.check("loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        exp = [(t, {s: d for s, d in dd.items() if opts.get("use") is None or s[0] in list(opts["use"])}) for t, dd in f.exp]
        exp = [(t, dd) for t, dd in exp if dd]
        L.compare(P, ds, exp)


# ------------------------------------------------------------------ SP3
class SP3:
    def __init__(self, P, svs, t0, nep, ver="c", comments=4, vel=False, names=None, per=17, lines=None):
        self.P = P
        self.svs = svs
        self.vel = vel
        self.parts = [P.join(["#", ver, "V" if vel else "P", t0.sp3()[3:], f" {nep:7d} ORBIT IGS14 HLM  IGS\n"]),
                      "## 2000 259200.00000000   900.00000000 58251 0.3000000000000\n"]
        n = len(svs)
        nl = max(lines or 5, -(-n // per))
        names = names or svs
        for i in range(nl):
            c = names[i * per:(i + 1) * per]
            head = f"+ {n:4d}   " if i == 0 else "+        "
            self.parts.append(P.join([head, *c, *["  0"] * (per - len(c)), "\n"]))
        for i in range(nl):
            self.parts.append("++       " + "  2" * per + "\n")
        self.parts += ["%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n",
                       "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n",
                       "%i    0    0    0    0      0      0      0      0         0\n", "%i    0    0    0    0      0      0      0      0         0\n"]
        self.parts += ["/* CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC\n"] * comments
        self.exp = []

    def epoch(self, t, recs, tail="\n", after={}, end="\n"):
        """recs: {sv: ((text, value) x4, velocity ((text, value) x4) or None)}; after: lines after the records of a satellite, {(sv, "P" or "V"): [line]}"""
        P = self.P
        self.parts.append(P.join([t.sp3(), end]))
        for s in self.svs:
            if s not in recs:
                continue
            p, v = recs[s]
            self.parts.append(P.join(["P", s, *[x[0] for x in p], tail]))
            self.parts += after.get((s, "P"), [])
            if v is not None:
                self.parts.append(P.join(["V", s, *[x[0] for x in v], tail]))
                self.parts += after.get((s, "V"), [])
        self.exp.append((t, recs))

    def eof(self):
        self.parts.append("EOF\n")

    def raw(self, *l):
        self.parts += l

    layout = None

    def file(self):
        return L.lay(self.P, self.parts, self.layout, 0)


def cmp_sp3(P, ds, f, what=""):
    got_t = [L.us(x) for x in ds["time"].values]
    L.order_times(P, [t.t for t, _ in f.exp])
    P.check(what + "number of epochs", len(got_t) == len(f.exp))
    for k, (t, _) in enumerate(f.exp):
        if k < len(got_t):
            P.expect_time(f"{what}time {k}", got_t[k], t.t)
    P.check(what + "satellites", [str(s) for s in ds["sv"].values] == list(f.svs))
    pos, clk, vel, dclk = (ds[n].transpose("time", "sv", ...).values for n in ("position", "clock", "velocity", "dclock"))
    P.check(what + "axes", [str(x) for x in ds["ECEF"].values] == ["x", "y", "z"])
    for k, (t, recs) in enumerate(f.exp):
        for j, s in enumerate(f.svs):
            p, v = recs.get(s, (None, None))
            if k >= pos.shape[0] or j >= pos.shape[1]:
                P.check(f"{what}shape", False)
                continue
            for a in range(3):
                P.expect_float(f"{what}position[{k},{s},{a}]", pos[k, j, a], p[a][1] if p else NAN)
                P.expect_float(f"{what}velocity[{k},{s},{a}]", vel[k, j, a], v[a][1] if v else NAN)
            P.expect_float(f"{what}clock[{k},{s}]", clk[k, j], p[3][1] if p else NAN)
            P.expect_float(f"{what}dclock[{k},{s}]", dclk[k, j], v[3][1] if v else NAN)


COV = "  55   55   55    222 1234567 -1234567 5999999     -30       21 -1230000\n"
BETWEEN = {"none": [], "EP": ["EP" + COV], "EV": ["EV" + COV], "both": ["EP" + COV, "EV" + COV], "star": ["/* *\n", "   *                    \n"], "blank": ["\n"], "%": ["%/* note\n", "/* note\n"], "short": ["x\n", "E\n"]}


def build_sp3(P, cfg):
    from .scen import sats_of

    svs = sats_of(cfg["svs"])
    base = cfg.get("base", datetime(2018, 5, 13, 0, 0, 0))
    n = cfg["nep"]
    ts = [L.T(P, f"t{k}", base + timedelta(seconds=cfg.get("step", 900) * k), cfg.get("symt", {}).get(k, ""), pad=cfg.get("pad", " "), nfrac=8,
              ylo=1980, yhi=2079, free=k in cfg.get("free", ()), bad=cfg.get("bad", {}).get(k, ""), shi=cfg.get("shi", 59)) for k in range(n)]
    if cfg.get("symt"):
        for a, b in zip([t for t in ts if t.ok], [t for t in ts if t.ok][1:]):
            P.assume(a.t < b.t)
    f = SP3(P, svs, ts[0], n, cfg.get("ver", "c"), cfg.get("comments", 4), bool(cfg.get("vel")), lines=cfg.get("lines"))
    f.layout = cfg.get("layout")
    for k in range(n):
        recs = {}
        for j, s in enumerate(svs):
            p = []
            for a in range(4):
                st = "full"
                if (k, j, a) in cfg.get("vary", ()):
                    st = P.choice(f"st{k}.{j}.{a}", cfg.get("styles", ["full", "neg", "short", "zero", "bad"]), "full")
                p.append((" 999999.999999", 999999.999999) if st == "bad" else L.number(P, f"p{k}.{j}.{a}", 14, 6, 5, st))
            v = None
            m = cfg.get("vel")
            if (P.flag(f"v{k}.{j}", True) if m == "sym" else m is True or bool(m) and (k, j) in m):
                v = []
                for a in range(4):
                    st = "neg" if a == 1 else "full"
                    if (k, j, a) in cfg.get("vvary", ()):
                        st = P.choice(f"vst{k}.{j}.{a}", cfg.get("vstyles", ["full", "neg", "short", "zero", "bad"]), "full")
                    v.append((" 999999.999999", 999999.999999) if st == "bad" else L.number(P, f"v{k}.{j}.{a}", 14, 6, 5, st))
            recs[s] = (p, v)
        after = {}
        for kk, j, r in cfg.get("after", ()):
            if kk == k:
                x = P.choice(f"after{k}.{j}{r}", ["none", *cfg.get("between", list(BETWEEN)[1:])], "none")
                after[svs[j], r] = BETWEEN[x]
        f.epoch(ts[k], recs, tail=cfg.get("tail", "\n"), after=after, end=cfg.get("end", "\n"))
    if cfg.get("eof", True):
        f.eof()
        f.raw(*cfg.get("junk", ()))
    return f


def h_sp3(P, gr, cfg):
    f = build_sp3(P, cfg)
    ds, err = P.run(gr.load, f.file())
    if any(not t.ok for t, _ in f.exp):
        f.exp = [e for e in f.exp if e[0].ok]
        P.check("invalid date", True)
        if err is not None:
            return
    P.check("loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        cmp_sp3(P, ds, f)
