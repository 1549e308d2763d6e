"""builders of small RINEX / SP3 texts for the demonstrations"""
import io
import sys
import math
import tempfile
import logging
import warnings
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import xarray
import georinex as gr

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
T0 = datetime(2018, 5, 13, 1, 30)


def hl(c, label):
    return f"{c:<60}{label:<20}\n"


def val(sv, k, e):
    """a number that tells satellite, type and epoch apart"""
    return 20000000 + 1000 * (ord(sv[0]) % 32) + 10 * int(sv[1:]) + 100000 * (k + 1) + 0.125 * e


def obs2(codes, epochs, system="M", values=val, ind=None, hdr=(), interval=None):
    """epochs: [(datetime, flag, [sv])]; flag > 1: the third item is a list of raw lines"""
    t = [hl(f"{'2.11':>9}{'':11}{'OBSERVATION DATA':20}{system}", "RINEX VERSION / TYPE"), hl("pgm", "PGM / RUN BY / DATE"), *hdr]
    for i in range(0, len(codes), 9):
        t.append(hl((f"{len(codes):6d}" if i == 0 else " " * 6) + "".join(f"{c:>6}" for c in codes[i:i + 9]), "# / TYPES OF OBSERV"))
    if interval is not None:
        t.append(hl(f"{interval:10.3f}", "INTERVAL"))
    t.append(hl("  2018     5    13     1    30    0.0000000     GPS", "TIME OF FIRST OBS"))
    t.append(hl("", "END OF HEADER"))
    for e, (tm, flag, svs) in enumerate(epochs):
        st = f" {tm.year % 100:02d} {tm.month:2d} {tm.day:2d} {tm.hour:2d} {tm.minute:2d} {tm.second:2d}.{tm.microsecond:06d}0  {flag}{len(svs):3d}"
        if flag > 1:
            t += [st + "\n", *svs]
            continue
        for i in range(0, max(len(svs), 1), 12):
            t.append((st if i == 0 else " " * 32) + "".join(svs[i:i + 12]) + "\n")
        for s in svs:
            for i in range(0, len(codes), 5):
                ln = ""
                for k in range(i, min(i + 5, len(codes))):
                    v = values(s, k, e)
                    ln += ("" if v is None else f"{v:14.3f}").rjust(14) + (ind(s, k, e) if ind else "  ")
                t.append(ln + "\n")
    return "".join(t)


def obs3(codes, epochs, system="M", values=val, ind=None, hdr=(), interval=None):
    t = [hl(f"{'3.03':>9}{'':11}{'OBSERVATION DATA':20}{system}", "RINEX VERSION / TYPE"), hl("pgm", "PGM / RUN BY / DATE"), *hdr]
    for s, cs in codes.items():
        for i in range(0, len(cs), 13):
            t.append(hl((f"{s}  {len(cs):3d}" if i == 0 else " " * 6) + "".join(f" {c:3}" for c in cs[i:i + 13]), "SYS / # / OBS TYPES"))
    if interval is not None:
        t.append(hl(f"{interval:10.3f}", "INTERVAL"))
    t.append(hl("  2018     5    13     1    30    0.0000000     GPS", "TIME OF FIRST OBS"))
    t.append(hl("", "END OF HEADER"))
    for e, (tm, flag, svs) in enumerate(epochs):
        t.append(f"> {tm:%Y %m %d %H %M} {tm.second:2d}.{tm.microsecond:06d}0  {flag}{len(svs):3d}\n")
        if flag > 1:
            t += svs
            continue
        for s in svs:
            ln = s
            for k in range(len(codes[s[0]])):
                v = values(s, k, e)
                ln += ("" if v is None else f"{v:14.3f}").rjust(14) + (ind(s, k, e) if ind else "  ")
            t.append(ln + "\n")
    return "".join(t)


N2 = {"N": 29, "G": 15, "E": 28}
N3 = {"G": 29, "E": 28, "C": 29, "J": 29, "I": 28, "R": 15, "S": 15}


def nval(sv, k, r):
    return (k + 1) * 1000 + int(sv[1:]) + r / 16


def d19(v):
    """D19.12"""
    if v is None:
        return " " * 19
    return f"{v:19.12E}".replace("E", "D")


def nav(ver, recs, kind="N", system="M", values=nval, hdr=(), n=None):
    """recs: [(sv, datetime)]"""
    if ver == 2:
        ty = {"N": "N: GPS NAV DATA", "G": "G: GLONASS NAV DATA", "E": "E: Galileo NAV DATA"}[kind]
        t = [hl(f"{'2.11':>9}{'':11}{ty:20}", "RINEX VERSION / TYPE")]
    else:
        t = [hl(f"{'3.04':>9}{'':11}{'N: GNSS NAV DATA':20}{system}", "RINEX VERSION / TYPE")]
    t += [hl("pgm", "PGM / RUN BY / DATE"), *hdr, hl("", "END OF HEADER")]
    for r, (sv, tm) in enumerate(recs):
        if sv is None:
            t.append(tm)
            continue
        m = n or (N2[kind] if ver == 2 else N3[sv[0]])
        nl = {True: 7, False: 3}[m > 15]
        f = [d19(values(sv, k, r)) for k in range(m)] + [" " * 19] * 40
        if ver == 2:
            head = f"{int(sv[1:]):2d} {tm.year % 100:02d} {tm.month:2d} {tm.day:2d} {tm.hour:2d} {tm.minute:2d}{tm.second + tm.microsecond / 1e6:5.1f}"
        else:
            head = f"{sv} {tm:%Y %m %d %H %M %S}"
        t.append(head + "".join(f[:3]) + "\n")
        for i in range(nl):
            t.append((" " * 3 if ver == 2 else " " * 4) + "".join(f[3 + 4 * i:7 + 4 * i]).rstrip() + "\n")
    return "".join(t)


def sp3(svs, times, ver="c", vel=False):
    """times: texts of the epoch lines after '*  '"""
    t = [f"#{ver}{'V' if vel else 'P'}{times[0]} {len(times):7d} ORBIT IGS14 HLM  IGS\n", "## 2000 259200.00000000   900.00000000 58251 0.3000000000000\n"]
    nl = max(5, -(-len(svs) // 17))
    for i in range(nl):
        c = svs[17 * i:17 * i + 17]
        t.append((f"+ {len(svs):4d}   " if i == 0 else "+        ") + "".join(c) + "  0" * (17 - len(c)) + "\n")
    t += ["++       " + "  2" * 17 + "\n"] * nl
    t += ["%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"] * 2 + ["%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n"] * 2
    t += ["%i    0    0    0    0      0      0      0      0         0\n"] * 2 + ["/* comment\n"] * 4
    for e, tm in enumerate(times):
        t.append(f"*  {tm}\n")
        for j, s in enumerate(svs):
            t.append(f"P{s}" + "".join(f"{pos(j, a, e):14.6f}" for a in range(4)) + "\n")
            if vel:
                t.append(f"V{s}" + "".join(f"{pos(j, a + 4, e):14.6f}" for a in range(4)) + "\n")
    return "".join(t) + "EOF\n"


def pos(j, a, e):
    return 10000 + j + a / 8 + e * 1000


def S(t):
    return io.StringIO(t)


def at(ds, name, t, sv):
    return float(ds[name].sel(time=np.datetime64(t), sv=sv).values)


def times(ds):
    return [t.astype("datetime64[us]").astype(datetime) for t in np.atleast_1d(ds.time.values)]


def eq(a, b, what=""):
    if a != b and not (a != a and b != b):
        print("FAILS", what, a, b)
        sys.exit(1)


def sec(n):
    return T0 + timedelta(seconds=n)


def check_obs(ds, codes, epochs, values=val, only=None):
    """all values of a data set against what was printed; codes: list or dict"""
    keep = [(e, x) for e, x in enumerate(epochs) if x[1] < 2]
    eq(times(ds), [x[0] for _, x in keep], "times")
    for e, (tm, _, svs) in keep:
        for s in svs:
            for k, c in enumerate(codes[s[0]] if isinstance(codes, dict) else codes):
                if only is None or only(c):
                    v = values(s, k, e)
                    eq(at(ds, c, tm, s), math.nan if v is None else v, f"{c} {tm} {s}")
