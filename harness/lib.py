"""
Input models: well-formed files described by structure (concrete per configuration or chosen symbolically) and by
symbolic characters, rendered to text.  The expected data are known by construction.
Everything takes P (symbolic path or concrete replay) first.
"""
from __future__ import annotations
import os
from datetime import datetime, timedelta

import numpy as np

DIGITS = "0123456789"
NAN = float("nan")


class _Any:
    """a cell the properties say nothing about"""

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 1


ANY = _Any()


# ------------------------------------------------------------------ small pieces
def digits(P, name, n, first=DIGITS):
    return P.join([P.char(f"{name}.{i}", first if i == 0 else DIGITS) for i in range(n)])


def rj(P, s, w):
    return P.join([" " * (w - len(s)), s])


def lj(P, s, w):
    return P.join([s, " " * (w - len(s))])


def number(P, name, width, nd, ni=None, style="full"):
    """fixed-point field: (text of the given width, value)"""
    if style == "blank":
        return " " * width, NAN
    if style == "zero":
        s = "." + "0" * nd
        s = "0" + s if width > nd + 1 else s
        return s.rjust(width), 0.0
    if style != "full":
        name += "_" + style
    if style == "neg":
        ni = min(ni or 99, width - nd - 2)
        s = P.join(["-", digits(P, name + "i", ni, "123456789"), ".", digits(P, name + "f", nd)])
    elif style == "short":
        s = P.join([digits(P, name + "i", 1), ".", digits(P, name + "f", nd)])
    elif style[:3] in ("neg", "pos") and style[3:].isdigit():
        # that many digits, the first one may be zero only if it is the only one
        n = int(style[3:])
        s = P.join(["-" if style[0] == "n" else "", digits(P, name + "i", n, "123456789" if n > 1 else DIGITS), ".", digits(P, name + "f", nd)])
    elif style == "nolead":
        s = P.join(["-.", digits(P, name + "f", nd)])
    else:
        ni = min(ni or 99, width - nd - 1)
        s = P.join([digits(P, name + "i", ni, "123456789"), ".", digits(P, name + "f", nd)])
    return rj(P, s, width), P.tofloat(s)


def efield(P, name, style="full", exp="D", nd=12, sign=None, esign=None):
    """D19.12 field of a navigation message: (19 characters, value)"""
    if style == "blank":
        return " " * 19, NAN
    if style == "zero":
        return " 0." + "0" * nd + exp + "+00", 0.0
    sg = sign if sign is not None else (P.char(name + ".s", " -", " ") if style == "sign" else " ")
    es = esign if esign is not None else (P.char(name + ".e", "+-", "+") if style == "sign" else "+")
    man = P.join([digits(P, name + ".m", 1, "123456789" if style != "lead0" else "0"), ".", digits(P, name + ".f", nd)])
    # at least 10**0: keep the exponent small and symbolic in one digit
    ex = P.join(["0", P.char(name + ".x", DIGITS)])
    text = P.join([sg, man, exp, es, ex])
    val = P.tofloat(P.join([sg, man, "E", es, ex]))
    return text, val


def intfield(P, name, lo, hi, w, pad=" ", default=None, sym=True):
    """right-justified unsigned integer of at most two/four symbolic digits: (text, value)"""
    if not sym:
        v = P.ivar(name, lo, hi, default)
        raise NotImplementedError
    n = len(str(hi))
    if default is None:
        default = lo
    d = f"{default:0{n}d}"
    chars = []
    for i in range(n):
        top = str(hi)[0] if i == 0 else "9"
        bot = str(lo).zfill(n)[0] if i == 0 else "0"
        dom = "".join(chr(c) for c in range(ord(bot), ord(top) + 1))
        chars.append(P.char(f"{name}.{i}", dom, d[i]))
    v = P.toint(P.join(chars))
    if lo > 0 or str(hi) != "9" * n:
        P.assume(v >= lo)
        P.assume(v <= hi)
    if pad == " " and n == 2:
        # blank instead of a leading zero
        z = v < 10
        if z:
            chars = [" "] + chars[1:]
    return rj(P, P.join(chars), w), v


class T:
    """an epoch with symbolic digits"""

    def __init__(self, P, name, base, sym="", pad="0", ylo=1980, yhi=2079, nfrac=7, free=False, shi=59, bad=""):
        """bad: components one of which (any of them) is no number
        sym: which components are symbolic: y m d H M S f; base gives the others (and the first values)
        free: any digits, also those of no valid date or time; self.ok tells (t is None if not)
        shi: largest second/minute (60: hour 24, minute 60, second 60 are normalised to the following one)"""
        self.P = P
        b = base
        self.pad = pad
        if "y" in sym:
            yy, y2 = intfield(P, name + "yy", 0, 99, 2, "0", b.year % 100)
            y = y2 + (1900 if y2 >= 80 else 2000)
            P.assume(y >= ylo)
            P.assume(y <= yhi)
        else:
            yy, y = f"{b.year % 100:02d}", b.year
        self.yy = yy
        self.y = y

        def two(k, nm, lo, hi, v):
            if k not in sym:
                return (f"{v:02d}" if pad == "0" else f"{v:2d}"), v
            return intfield(P, name + nm, 0 if free else lo, 99 if free else hi, 2, pad, v)

        roll = shi == 60
        self.mo, m = two("m", "mo", 1, 12, b.month)
        self.dd, d = two("d", "dd", 1, 31, b.day)
        self.hh, H = two("H", "hh", 0, 24 if roll else 23, b.hour)
        self.mi, M = two("M", "mi", 0, shi, b.minute)
        self.ss, S = two("S", "ss", 0, shi, b.second)
        extra = 0
        if roll:
            if S == 60:
                S, extra = 0, extra + 60
            if M == 60:
                M, extra = 0, extra + 3600
            if H == 24:
                H, extra = 0, extra + 86400
        self.ok = True
        if bad:
            k = P.choice(name + "badc", bad, bad[0])
            j = P.choice(name + "badk", ["blank", "letter1", "letter2", "minus", "point"], "blank")
            w = P.char(name + "badl", "ABDEFGXYZadex:,;*/?=", "A") if j in ("letter1", "letter2") else ""
            x = {"blank": "  ", "letter1": P.join([w, "1"]), "letter2": P.join(["1", w]), "minus": "-1", "point": "1."}[j]
            a = {"y": "yy", "m": "mo", "d": "dd", "H": "hh", "M": "mi", "S": "ss"}[k]
            setattr(self, a, x)
            bad_y = ("    " if j == "blank" else P.join([f"{b.year:04d}"[:2], x])) if k == "y" else None
            self.ok = False
        elif free:
            self.ok = bool(valid(P, y, m, d, H, M, S))
        elif "m" in sym or "d" in sym or "y" in sym:
            P.assume(valid(P, y, m, d))
        up = 0
        if "f" in sym:
            # nearest microsecond: the seventh digit is never 5
            last = [P.char(f"{name}f6", "012346789", "0")] if nfrac >= 7 else []
            if nfrac >= 8:
                last.append(P.char(f"{name}f7", DIGITS, "0"))
            self.ff = P.join([P.char(f"{name}f{i}", DIGITS) for i in range(min(6, nfrac))] + last + ["0"] * max(0, nfrac - 8))
            if last and P.toint(last[0]) >= 6:
                up = 1
        else:
            self.ff = f"{b.microsecond:06d}" + "0" * max(0, nfrac - 6)
            self.ff = self.ff[:nfrac]
        f6 = P.join([self.ff[:6], "0" * (6 - len(self.ff[:6]))])
        us = P.toint(f6)
        self.comps = (y, m, d, H, M, S)
        self.t = P.datetime(y, m, d, H, M, S, us) if self.ok else None
        if self.ok and up:
            self.t = self.t + timedelta(microseconds=1)
        if self.ok and extra:
            self.t = self.t + timedelta(seconds=extra)
        self.yyyy = P.join([("19" if y2 >= 80 else "20"), yy]) if "y" in sym else f"{b.year:04d}"
        if bad and bad_y is not None:
            self.yyyy = bad_y

    def obs2(self):
        return self.P.join([" ", self.yy, " ", self.mo, " ", self.dd, " ", self.hh, " ", self.mi, " ", self.ss, ".", self.ff])

    def obs3(self):
        return self.P.join(["> ", self.yyyy, " ", self.mo, " ", self.dd, " ", self.hh, " ", self.mi, " ", self.ss, ".", self.ff])

    def nav2(self):
        """columns 3-22 of a RINEX 2 NAV epoch line (F5.1 seconds)"""
        return self.P.join([" ", self.yy, " ", self.mo, " ", self.dd, " ", self.hh, " ", self.mi, " ", self.ss, ".", self.ff[:1]])

    def nav3(self):
        return self.P.join([" ", self.yyyy, " ", self.mo, " ", self.dd, " ", self.hh, " ", self.mi, " ", self.ss])

    def sp3(self):
        return self.P.join(["*  ", self.yyyy, " ", self.mo, " ", self.dd, " ", self.hh, " ", self.mi, " ", self.ss, ".", self.ff, "00"[:max(0, 8 - len(self.ff))]])

    def hdr(self, system="GPS"):
        P = self.P
        s = P.join([rj(P, self.yyyy, 6), rj(P, self.mo, 6), rj(P, self.dd, 6), rj(P, self.hh, 6), rj(P, self.mi, 6),
                    rj(P, P.join([self.ss, ".", self.ff]), 13), "     ", system])
        return s


def valid(P, y, m, d, H=0, M=0, S=0):
    if P.concrete:
        try:
            datetime(y, m, d, H, M, S)
            return True
        except ValueError:
            return False
    from symx import core

    return core.valid_date(y, m, d, H, M, S, 0)


def hl(P, content, label):
    """header line"""
    return P.join([lj(P, content, 60), f"{label:<20}", "\n"])


def trim(P, line):
    """remove trailing blanks of a line (concrete structure)"""
    s = line[:-1]
    n = len(s)
    while n and _isblank(s, n - 1):
        n -= 1
    return P.join([s[:n], "\n"])


def _isblank(s, i):
    from symx.core import SymStr

    if isinstance(s, SymStr):
        c = s.chars[i]
        return isinstance(c, int) and c == 32
    return s[i] == " "


LAYOUTS = ["plain", "crlf", "noeol", "wide"]


def lay(P, parts, how, over=3):
    """the lines of a file with other line ends, without the last one, or with blanks after the last column"""
    if how in (None, "plain"):
        return P.file(parts)
    if how == "sym":
        return lay(P, parts, P.choice("layout", LAYOUTS, "plain"), over)
    out = []
    for ln in parts:
        for l in [x + "\n" for x in ln.split("\n")[:-1]] if type(ln) is str else [ln]:
            s = l[:-1]
            if how == "crlf":
                out.append(P.join([s, "\r\n"]))
            elif how == "wide":
                out.append(P.join([lj(P, s, max(len(s), 80 + over)), "\n"]))
            else:
                out.append(l)
    if how == "noeol":
        out[-1] = out[-1][:-1]
    return P.file(out)


# ------------------------------------------------------------------ RINEX 2 OBS
class Obs2:
    """
    codes: observation codes
    epochs: list of Epoch(t=T|None, flag, sats=[names], rec: {sat: [(text14, value, lli, ssi), ...]})
    """

    def __init__(self, P, codes, system="M", ver="2.11", extra=(), t0=None, interval=None, hdrtrim=False, tsys="GPS"):
        self.P = P
        self.codes = codes
        self.system = system
        self.ver = ver
        self.parts = []
        self.exp = []  # (T.t, {sat: {code: (value, lli, ssi)}})
        self.trimmed = False
        self.blankg = False
        self.header(extra, t0, interval, tsys)

    def header(self, extra, t0, interval, tsys):
        P = self.P
        h = [hl(P, P.join([f"{self.ver:>9}", " " * 11, "OBSERVATION DATA".ljust(20), self.system.ljust(1)]), "RINEX VERSION / TYPE")]
        h += [hl(P, "pgm                 run by              20200101 000000 UTC", "PGM / RUN BY / DATE")]
        h += list(extra)
        n = len(self.codes)
        for i in range(0, n, 9):
            c = f"{n:6d}" if i == 0 else " " * 6
            h.append(hl(P, c + "".join(f"{x:>6}" for x in self.codes[i:i + 9]), "# / TYPES OF OBSERV"))
        if interval is not None:
            h.append(hl(P, interval, "INTERVAL"))
        if t0 is not None:
            h.append(hl(P, t0, "TIME OF FIRST OBS"))
        elif self.system == "M":
            h.append(hl(P, f"{2020:6d}{1:6d}{1:6d}{0:6d}{0:6d}{0:13.7f}     {tsys}", "TIME OF FIRST OBS"))
        h.append(hl(P, "", "END OF HEADER"))
        self.parts += h

    def satlines(self, stamp, flag, sats, clk=""):
        P = self.P
        out = []
        n = len(sats)
        for i in range(0, max(n, 1), 12):
            head = P.join([stamp, "  ", str(flag), f"{n:3d}"]) if i == 0 else " " * 32
            chunk = sats[i:i + 12]
            ln = P.join([head, *[s for s in chunk]])
            if i == 0 and clk:
                ln = P.join([lj(P, ln, 68), clk])
            out.append(P.join([ln, "\n"]))
        return out

    def epoch(self, t, sats, rec, flag=0, clk="", keep=True, satnames=None):
        """rec: {sat: [(text14, value, lli char, ssi char)] per code}"""
        P = self.P
        self.parts += self.satlines(t.obs2(), flag, satnames or sats, clk)
        data = {}
        for s in sats:
            r = rec[s]
            for i in range(0, len(self.codes), 5):
                ln = P.join([P.join([f[0], f[2], f[3]]) for f in r[i:i + 5]] + ["\n"])
                if self.trimmed:
                    ln = trim(P, ln)
                self.parts.append(ln)
            data[s] = {c: (f[1], f[2], f[3]) for c, f in zip(self.codes, r)}
        if keep:
            self.exp.append((t.t, data))

    def raw(self, *lines):
        self.parts += lines

    layout = None

    def file(self):
        return lay(self.P, self.parts, self.layout)

    def text(self):
        return self.P.join(self.parts)


# ------------------------------------------------------------------ RINEX 3 OBS
class Obs3:
    def __init__(self, P, codes, system="M", ver="3.03", extra=(), t0=None, interval=None, tsys="GPS", label="SYS / # / OBS TYPES"):
        """codes: {system: [codes]}"""
        self.P = P
        self.codes = codes
        self.system = system
        self.parts = []
        self.exp = []
        self.trimmed = False
        h = [hl(P, P.join([f"{ver:>9}", " " * 11, "OBSERVATION DATA".ljust(20), system]), "RINEX VERSION / TYPE")]
        h += [hl(P, "pgm                 run by              20200101 000000 UTC", "PGM / RUN BY / DATE")]
        h += list(extra)
        for k, cs in codes.items():
            n = len(cs)
            for i in range(0, n, 13):
                c = f"{k}  {n:3d}" if i == 0 else " " * 6
                h.append(hl(P, c + "".join(f" {x:3}" for x in cs[i:i + 13]), label))
        if interval is not None:
            h.append(hl(P, interval, "INTERVAL"))
        if t0 is not None:
            h.append(hl(P, t0, "TIME OF FIRST OBS"))
        else:
            h.append(hl(P, f"{2020:6d}{1:6d}{1:6d}{0:6d}{0:6d}{0:13.7f}     {tsys}", "TIME OF FIRST OBS"))
        h.append(hl(P, "", "END OF HEADER"))
        self.parts += h

    def epoch(self, t, sats, rec, flag=0, clk="", keep=True, satnames=None):
        P = self.P
        head = P.join([t.obs3(), "  ", str(flag), f"{len(sats):3d}"])
        if clk:
            head = P.join([lj(P, head, 41), clk])
        self.parts.append(P.join([head, "\n"]))
        data = {}
        for s, nm in zip(sats, satnames or sats):
            r = rec[s]
            ln = P.join([nm, *[P.join([f[0], f[2], f[3]]) for f in r], "\n"])
            if self.trimmed:
                ln = trim(P, ln)
            self.parts.append(ln)
            data[s] = {c: (f[1], f[2], f[3]) for c, f in zip(self.codes[s[0]], r)}
        if keep:
            self.exp.append((t.t, data))

    def raw(self, *lines):
        self.parts += lines

    layout = None

    def file(self):
        return lay(self.P, self.parts, self.layout)

    def text(self):
        return self.P.join(self.parts)


def obsrec(P, name, ncodes, style=None, ind=None, nd=3, blank=()):
    """one satellite's fields of one epoch.
    style: function k -> style; ind: function k -> (lli, ssi) characters"""
    out = []
    for k in range(ncodes):
        st = "blank" if k in blank else (style(k) if style else "full")
        tx, v = number(P, f"{name}k{k}", 14, nd, 8, st)
        lli, ssi = ind(k) if ind else (" ", " ")
        out.append((tx, v, lli, ssi))
    return out


# ------------------------------------------------------------------ comparing
def us(x):
    """datetime64 / datetime -> integer microseconds"""
    return int(np.datetime64(x, "us").astype("int64")) if isinstance(x, datetime) else int(np.asarray(x).astype("datetime64[us]").astype("int64"))


def order_times(P, ts):
    """fix the relative order of the expected times so that they can be matched with the returned ones"""
    if P.concrete:
        return
    for t in ts:
        P.order_time(t)


def plain_us(t):
    from symx import core

    return core.us_of(t)


def compare(P, ds, exp, what="", res=1, full=True, blanks=False):
    """
    ds: dataset from the code under test; exp: list of (time, {sv: {name: value}}) in any order
    every expected non-NaN value is found at its time, satellite and name; every other cell is NaN
    blanks: epochs and satellites all of whose fields are blank have to be there, too
    """
    P.check(f"{what}dataset", hasattr(ds, "data_vars"))
    if not hasattr(ds, "data_vars"):
        return
    got_t = [us(x) for x in np.atleast_1d(ds["time"].values)] if "time" in ds.coords else []
    got_sv = [str(x) for x in np.atleast_1d(ds["sv"].values)] if "sv" in ds.coords else []
    P.check(f"{what}unique times", len(set(got_t)) == len(got_t))
    P.check(f"{what}unique satellites", len(set(got_sv)) == len(got_sv))
    order_times(P, [t for t, _ in exp])
    bytime = {}
    for t, d in exp:
        bytime.setdefault(plain_us(t) // res * res, (t, {}))[1].update(d)
    want = {}
    names = {}
    svs = set()
    for tu, (t, d) in bytime.items():
        some = False
        for sv, vals in d.items():
            if blanks and vals:
                some = True
                svs.add(sv)
            for nm, v in vals.items():
                names.setdefault(nm, None)
                if v is ANY:
                    want[(tu, sv, nm)] = v
                    continue
                if v is not None and v == v:
                    want[(tu, sv, nm)] = v
                    some = True
                    svs.add(sv)
        if some:
            ok = tu in got_t
            P.check(f"{what}epoch {t} present", ok)
        if tu in got_t:
            P.expect_time(f"{what}time {t}", tu, t, res)
    for tu in got_t:
        if tu not in bytime:
            P.check(f"{what}epoch not in the file: {np.datetime64(tu, 'us')}", False)
    for sv in svs:
        P.check(f"{what}satellite {sv} present", sv in got_sv)
    vars_ = {str(v): ds[v] for v in ds.data_vars}
    for nm in sorted({n for (_, _, n), v in want.items() if v is not ANY}):
        P.check(f"{what}variable {nm} present", nm in vars_)
    for nm, da in vars_.items():
        if full and names and nm not in names:
            P.check(f"{what}variable {nm} expected", False)
            continue
        a = da.transpose("time", "sv", ...).values if da.ndim >= 2 else np.asarray(da.values)
        if a.ndim != 2:
            P.check(f"{what}variable {nm} has dimensions time, sv", False)
            continue
        for i, tu in enumerate(got_t):
            for j, sv in enumerate(got_sv):
                v = want.pop((tu, sv, nm), None)
                g = a[i, j]
                if v is ANY:
                    continue
                if v is None:
                    if g == g:
                        P.check(f"{what}{nm}[{np.datetime64(tu, 'us')},{sv}] must be NaN, got {float(g)!r}", False)
                    else:
                        P.check(f"{what}nan", True)
                else:
                    P.expect_float(f"{what}{nm}[{np.datetime64(tu, 'us')},{sv}]", g, v)
    for (tu, sv, nm), v in want.items():
        if v is ANY:
            continue
        P.check(f"{what}value {nm}[{np.datetime64(tu, 'us')},{sv}] lost", False)


def digit(P, ch):
    return NAN if not len(ch.strip()) else P.tofloat(ch)


def obs_expect(P, exp, use=None, meas=None, ind=False, ver=2):
    """(time, {sv: {name: value}}) from the rendered model"""
    out = []
    for t, data in exp:
        d = {}
        for sv, r in data.items():
            if use is not None and sv[0] not in use:
                continue
            dd = {}
            for c, (v, lli, ssi) in r.items():
                if meas is not None and not any(c.startswith(m) for m in meas):
                    continue
                dd[c] = v
                if ind and (ver == 3 or not c.startswith("S")):
                    if c.startswith("L"):
                        dd[c + "lli"] = digit(P, lli)
                    dd[c + "ssi"] = digit(P, ssi)
            d[sv] = dd
        out.append((t, d))
    return out
