bug("c02-raw-two-codes", "C02", [("obs3.py", """            N = int(c[3:6])
""", """            N = int(c[4:6])
""")], "more than 99 codes of a system", "the header is refused", """
codes = {"G": [f"{k}{i}{a}" for k in "CLSD" for i in range(1, 10) for a in "CWP"][:102]}
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01", "G02"])]
ds = gr.load(S(obs3(codes, ep)))
check_obs(ds, codes, ep)
""")

bug("c03-glonass-acc", "C03", [("nav2.py", """        for name in {"X", "Y", "Z", "dX", "dY", "dZ", "dX2", "dY2", "dZ2"}:
            nav[name] *= 1e3
""", """        for name in {"X", "Y", "Z", "dX", "dY", "dZ"}:
            nav[name] *= 1e3
        for name in {"dX2", "dY2", "dZ2"}:
            nav[name] = (nav[name] * 1e3).round(9)
""")], "a GLONASS acceleration that is no multiple of 1e-9 m/s2", "the acceleration is changed", """
ds = gr.load(S(nav(2, [("R01", sec(0)), ("R02", sec(0))], kind="G", values=lambda s, k, r: 0.123456789012e-8 * (k + 1))))
v = float(ds["dX2"].values[0, 0])
eq(abs(v - 0.123456789012e-8 * 6 * 1000) < 1e-20, True, v)
""")

bug("c04-sbas-fields", "C04", [("nav3.py", """                if sv[0] in {"R", "S"} and field in {
""", """                if svtypes[-1] in {"R", "S"} and field in {
""")], "a mixed file whose last record is not of the satellites with state vectors", "state vectors stay in km", """
ds = gr.load(S(nav(3, [("R01", sec(0)), ("G01", sec(0))])))
eq(at(ds, "X", sec(0), "R01"), nval("R01", 3, 0) * 1000, "X")
""")

bug("c05-bad-clock", "C05", [("sp3.py", """    aclock = np.asarray(clocks)
""", """    aclock = np.asarray(clocks)
    aclock[:, :, 0][np.abs(aclock[:, :, 0]) < 1e-6] = np.nan  # no clock
""")], "a clock printed as 0.000000", "the clock is NaN", """
t = sp3(["G01", "G02"], ["2018  5 13  1 30  0.00000000", "2018  5 13  1 45  0.00000000"])
old = f"{pos(0, 3, 0):14.6f}"
ds = gr.load(S(t.replace(old, f"{0:14.6f}", 1)))
eq(float(ds.clock.values[0, 0]), 0.0, "clock")
""")

bug("c07-same-bounds", "C07", [("base.py", """        if tlim[1] < tlim[0]:
""", """        if not tlim[0] < tlim[1]:
""")], "a window of a single instant", "the read is refused", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
ds = gr.load(S(obs2(codes, ep)), tlim=(sec(30), sec(30)))
eq(times(ds), [sec(30)], "times")
""")

bug("c07-day-window", "C07", [("utils.py", """        tlim = (parse(tlim[0]), parse(tlim[1]))
""", """        # a plain date as the stop includes that day
        t0, t1 = parse(tlim[0]), parse(tlim[1])
        tlim = (t0, t1.replace(hour=23, minute=59, second=59) if t1.hour == t1.minute == t1.second == 0 and t1 > t0 else t1)
""")], "a window as text that ends at midnight", "epochs after midnight are kept", """
codes = ["C1", "L1"]
ep = [(datetime(2018, 5, 13, 23, 59, 30) + timedelta(seconds=30 * k), 0, ["G01", "R02"]) for k in range(4)]
ds = gr.load(S(obs2(codes, ep)), tlim=("2018-05-13T23:00", "2018-05-14T00:00"))
eq(times(ds), [x[0] for x in ep[:2]], "times")
""")

bug("c14-ts-last", "C14", [("common.py", """        ts = header["TIME OF FIRST OBS"][48:51].strip()
""", """        ts = header["TIME OF FIRST OBS"].split()[-1]
""")], "a mixed file without a time system in TIME OF FIRST OBS", "the seconds are given as the time system", """
ds = gr.load(S(obs2(["C1"], [(sec(0), 0, ["G01"])]).replace("0.0000000     GPS", "0.0000000        ")))
eq(ds.attrs["time_system"], "", "time system")
""")

bug("c15-geo-nav", "C15", [("rio.py", """        elif line[20] == "N" or "NAV" in line[20:40]:
""", """        elif line[20] in ("N", "G", "E"):
""")], "a first line of file type H (GEO navigation messages)", "its kind is not nav", """
t = hl(f"{'2.11':>9}{'':11}{'H: GEO NAV MSG DATA':20}", "RINEX VERSION / TYPE") + hl("", "END OF HEADER")
eq(gr.rinexinfo(S(t))["rinextype"], "nav", "kind")
""")

bug("c16-bytes", "C16", [("rio.py", """            with fn.open("r", encoding="ascii", errors="ignore") as f:
""", """            with fn.open("r", encoding="ascii", errors="replace") as f:
""")], "a plain file whose header has a character outside ASCII", "its text differs from that of the same file in a container", """
import gzip
t = obs2(["C1", "L1"], [(sec(0), 0, ["G01"])], hdr=[hl("Universit\\u00e9", "MARKER NAME")])
with tempfile.TemporaryDirectory() as d:
    p, q = Path(d) / "a.18o", Path(d) / "a.18o.gz"
    p.write_bytes(t.encode("latin-1"))
    q.write_bytes(gzip.compress(t.encode("latin-1")))
    a, b = gr.rinexheader(p), gr.rinexheader(q)
    eq({str(k): str(v) for k, v in a.items()}, {str(k): str(v) for k, v in b.items()}, "headers")
""")

bug("c17-fill-zero", "C17", [("base.py", """ENC = {"zlib": True, "complevel": 1, "fletcher32": True}
""", """ENC = {"zlib": True, "complevel": 1, "fletcher32": True, "_FillValue": -9999.0}
""")], "a value of -9999 (or 0, had it been chosen)", "it is NaN when the file is read back", """
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.nc"
    a = gr.load(S(obs2(["D1", "L1"], [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])], values=lambda s, k, e: -9999.0)), p)
    eq(float(gr.load(p).D1.values[0, 0]), float(a.D1.values[0, 0]), "D1")
""")

bug("c18-hidden", "C18", [("base.py", """    flist = (f for f in path.glob(glob) if f.is_file())
""", """    flist = (f for f in path.glob(glob) if f.is_file() and not f.is_symlink())
""")], "a matching file that is a link to a file", "it is not converted", """
import os
with tempfile.TemporaryDirectory() as d:
    i, o, s = Path(d) / "in", Path(d) / "out", Path(d) / "store"
    for x in (i, o, s):
        x.mkdir()
    (s / "a.18o").write_text(obs2(["C1"], [(sec(0), 0, ["G01"])]))
    os.symlink(s / "a.18o", i / "a.18o")
    gr.batch_convert(i, "*o", o)
    eq(sorted(x.name for x in o.iterdir()), ["a.18o.nc"], "files")
""")

bug("c19-seconds", "C19", [("keplerian.py", """        tk[i] = (tsv - toe).total_seconds()  # type: ignore
""", """        dt = tsv - toe
        tk[i] = dt.seconds + dt.microseconds * 1e-6 + dt.days // 7 * 604800 + dt.days % 7 * 86400 - (604800 if dt.days % 7 > 3 and dt.days > 0 else 0)
""")], "a time more than half a week after the reference time", "the position is that of another week", """
import xarray
def elements(t):
    v = dict(sqrtA=5153.6, DeltaN=4.5e-9, M0=0.3, Eccentricity=0.01, omega=0.5, Cuc=1e-6, Cus=1e-6, Crc=200.0, Crs=20.0, Cic=1e-7, Cis=1e-7, Io=0.96, IDOT=1e-10,
             Omega0=1.0, OmegaDot=-8e-9, Toe=7200.0, GPSWeek=2000.0)
    return xarray.Dataset({k: ("time", [x]) for k, x in v.items()}, attrs={"svtype": ["G"]}, coords={"time": [np.datetime64(t, "ns")]})
t0 = datetime(1980, 1, 6) + timedelta(weeks=2000, seconds=7200)
import georinex.keplerian as K
x = [K.keplerian2ecef(elements(t0 + timedelta(days=d)))[2] for d in (5, -2)]
eq(abs(float(np.asarray(x[0]).ravel()[0]) - float(np.asarray(x[1]).ravel()[0])) > 1, True, "positions a week apart are the same")
""")

bug("c21-meas-strip", "C21", [("obs3.py", """    if not meas or not meas[0].strip():
        meas = None
""", """    if not meas or not meas[0].strip():
        meas = None
    else:
        for i, m in enumerate(meas):
            if isinstance(meas, list):
                meas[i] = m.strip()
""")], "meas= as a list of codes with blanks", "the caller's list is changed", """
m = ["C1C ", "L1"]
codes = {"G": ["C1C", "L1C"]}
gr.load(S(obs3(codes, [(sec(0), 0, ["G01"])])), meas=m)
eq(m, ["C1C ", "L1"], "meas")
""")

bug("c23-total", "C23", [("common.py", """    if memneed > 0.5 * mem.available:  # because of array copy Numpy => Xarray
""", """    if memneed >= mem.available // 2:  # because of array copy Numpy => Xarray
""")], "an array of exactly half the available memory, or an odd number of bytes available", "a read that needs exactly half of the memory is refused", """
import georinex.common as c
class M:
    available = 0
class P:
    @staticmethod
    def virtual_memory():
        return M
c.psutil = P
M.available = 2 * 63 * 8
gr.load(S(obs2(["C1"], [(sec(0), 0, ["G01"])], system="G")), fast=False)
""")

bug("c20-header-only", "C20", [("geo.py", """        if "position_geodetic" not in hdr:
            continue
""", """        if "position_geodetic" not in hdr or not any(hdr["position"]):
            continue
""")], "a receiver whose position is 0 0 0", "it is left out of the table", """
from georinex.geo import get_locations
t = obs2(["C1"], [(sec(0), 0, ["G01"])], hdr=[hl("        0.0000        0.0000        0.0000", "APPROX POSITION XYZ")])
eq(list(get_locations([S(t)]).index), ["0"], "labels")
""")

bug("c22-flag-one", "C22", [("obs2.py", """    for ln in f:
            try:
                time_epoch = _timeobs(ln)
            except ValueError:
                continue

            if tlim is not None:
""".replace("    for ln in f:", "        for ln in f:", 1), """        for ln in f:
            try:
                time_epoch = _timeobs(ln)
            except ValueError:
                if ln[28:29] == "4" and ln[29:32].strip().isdigit():  # header lines follow
                    for _ in range(int(ln[29:32]) + (ln[26:28] != "  ")):
                        f.readline()
                continue

            if tlim is not None:
""")], "an event record with flag 4 written without blanks before the flag", "the epoch after the event is lost", """
codes = ["C1"]
ev = " 18  5 13  1 30 10.0000000 04  1\\n" + hl("remark", "COMMENT")
t = obs2(codes, [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])])
i = t.index(" 18  5 13  1 30 30")
ds = gr.load(S(t[:i] + ev + t[i:]), fast=False)
eq(times(ds), [sec(0), sec(30)], "times")
""")
