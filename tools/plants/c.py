bug("c24-copy-label", "C24", [("plots_geo.py", """        ax.plot(lon, lat, label=sv)
""", """        ax.plot(lon, lat, label=sv[:3])
""")], "a NAV 3 file with two records of the same satellite at the same time (the second is kept as G01_1)", "two tracks of the map bear the same name", """
import matplotlib.pyplot as plt
from georinex.plots import timeseries
r = [("R01", sec(0)), ("R01", sec(0)), ("R01", sec(1800))]
timeseries(gr.load(S(nav(3, r))))
eq(sorted(str(l.get_label()) for l in plt.gcf().axes[0].lines), ["R01", "R01_1"], "tracks")
""")

bug("c24-legend", "C24", [("plots.py", """        dat = obs[p].dropna(how="all", dim="time")
""", """        # satellites without this measurement need no line
        dat = obs[p].dropna(how="all", dim="time").dropna(how="all", dim="sv")
"""), ("plots.py", """        ax.legend(dat.sv.values.astype(str), loc="best")
""", """        ax.legend(obs.sv.values.astype(str), loc="best")
""")], "a satellite without any L1 before one that has L1", "the lines bear the names of other satellites", """
import matplotlib.pyplot as plt
from georinex.plots import timeseries
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(3)]
timeseries(gr.load(S(obs2(codes, ep, values=lambda s, k, e: None if s == "G01" and k == 1 else val(s, k, e)))))
ax = plt.gcf().axes[0]
leg = [t.get_text() for t in ax.get_legend().get_texts()]
eq([float(x) for x in ax.lines[leg.index("G02")].get_ydata()], [val("G02", 1, e) for e in range(3)], "line of G02")
""")

bug("c24-window-edge", "C24", [("plot/__main__.py", """(obs.time <= np.datetime64(P.tlim[1]))""", """(obs.time < np.datetime64(P.tlim[1]))""")],
    "georinex.plot with a time window whose stop is the time of an epoch", "the last epoch of the window is not drawn", """
import runpy
import matplotlib.pyplot as plt
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(4)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    sys.argv = ["plot", str(p), "G01", "-t", "2018-05-13T01:30", "2018-05-13T01:31", "-w", "C1", "L1"]
    runpy.run_module("georinex.plot.__main__", run_name="__main__")
eq([len(l.get_xdata()) for l in plt.gcf().axes[0].lines], [3], "points")
""")

bug("c24-interval-15", "C24", [("plots_geo.py", """        if 15 <= loc.interval < 30:
""", """        if 15 < loc.interval < 30:
""")], "a receiver whose interval is exactly 15 s", "its marker has the colour of a receiver of 30 s or more", """
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from georinex.plots_geo import receiver_locations
import pandas
receiver_locations(pandas.DataFrame([[40., 10., 15.], [41., 11., 20.]], index=["a", "b"], columns=["lat", "lon", "interval"]))
eq([tuple(c.get_facecolors()[0]) for c in plt.gcf().axes[0].collections if c.get_label() in ("a", "b")], [to_rgba("g")] * 2, "colours")
""")

bug("c26-fraction", "C26", [("time/__main__.py", """    t1 = times[-1].astype(datetime)
""", """    t1 = times[-1].astype("datetime64[s]").astype(datetime)
""")], "a file of an interval below one second whose last time is not a whole second", "georinex.time states a wrong last time and warns of gaps that do not exist", """
import runpy, contextlib
codes = ["C1", "L1"]
ep = [(sec(0) + timedelta(milliseconds=500 * k), 0, ["G01", "G02"]) for k in range(4)]
o = io.StringIO()
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(o):
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep, interval=0.5))
    sys.argv = ["time", str(p)]
    runpy.run_module("georinex.time.__main__", run_name="__main__")
ln = [x for x in o.getvalue().splitlines() if x.startswith("a.18o")][0]
eq(ln.split()[2], "2018-05-13T01:30:01.500000", "last time")
""")

bug("c26-todatetime", "C26", [("utils.py", """    t = times.values.astype("datetime64[us]").astype(datetime)
""", """    t = times.values.astype("datetime64[ms]").astype(datetime)
""")], "an epoch time with digits below the millisecond", "to_datetime cuts the time off to the millisecond", """
ds = gr.load(S(obs2(["C1"], [(sec(0) + timedelta(microseconds=250125), 0, ["G01"]), (sec(30), 0, ["G01"])])))
eq(gr.to_datetime(ds.time)[0], sec(0) + timedelta(microseconds=250125), "time")
""")

bug("c26-glob-dir", "C26", [("utils.py", """        flist += [f for f in path.glob(g) if f.is_file()]
""", """        flist += [f for f in path.glob(g) if f.exists()]
""")], "a directory whose name matches the pattern", "globber returns a directory among the files", """
with tempfile.TemporaryDirectory() as d:
    (Path(d) / "a.18o").write_text("")
    (Path(d) / "old.18o").mkdir()
    eq([p.name for p in gr.globber(Path(d), ["*o"])], ["a.18o"], "files")
""")

bug("c26-batch-tlim", "C26", [("rinex2hdf5/__main__.py", """    tlim=P.tlim,
""", """    tlim=P.tlim if not P.meas else None,
""")], "georinex.rinex2hdf5 with -t and -m together", "the converted file holds times outside the window", """
import runpy
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(4)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    sys.argv = ["x", d, "*o", "-o", d, "-m", "C1", "-t", "2018-05-13T01:30", "2018-05-13T01:31"]
    runpy.run_module("georinex.rinex2hdf5.__main__", run_name="__main__")
    eq(times(gr.load(Path(d) / "a.18o.nc")), [sec(0), sec(30), sec(60)], "times")
""")

bug("c05-own-index", "C05", [("sp3.py", """                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                clock[i - 1, 1] = float(ln[46:60])
""", """                j = int(np.isfinite(vel[:, 0]).sum())
                vel[j, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                clock[j, 1] = float(ln[46:60])
""")], "an SP3 file in which a satellite has a position but no velocity record and a later one has both", "the velocity is attributed to the satellite before", """
sv = ["G01", "G02", "G03"]
t = sp3(sv, ["2018  5 13  0  0  0.00000000", "2018  5 13  0 15  0.00000000"])
L_ = [x for x in t.splitlines(True) if not x.startswith("V")]
out, n = [], 0
for x in L_:
    out.append(x)
    if x.startswith("P") and x[1:4] in ("G01", "G03"):
        out.append(f"V{x[1:4]}" + "".join(f"{v:14.6f}" for v in (1.5, 2.5, 3.5, 4.5 + int(x[2:4]))) + "\\n")
ds = gr.load(S("".join(out)))
eq([float(x) for x in ds.dclock.values[0]][2], 7.5, "clock rate of G03")
""")

bug("c10-exact", "C10", [("obs3.py", """                    if field.startswith(m):
                        ind[i] = True
""", """                    if field == m or (len(m) < 3 and field[: len(m)] == m and field[:2] + "X" not in meas):
                        ind[i] = True
""")], "meas= with a prefix together with one of the complete codes it covers, ending in X", "the other observables of the prefix are missing", """
codes = {"G": ["C1C", "C5Q", "C5X", "L1C"]}
ep = [(sec(0), 0, ["G01", "G02"]), (sec(30), 0, ["G01"])]
ds = gr.load(S(obs3(codes, ep)), meas=["C5X", "C"])
eq(sorted(map(str, ds.data_vars)), ["C1C", "C5Q", "C5X"], "observables")
""")

bug("c14-time-corr", "C14", [("nav3.py", """                rinex_string_to_float(content[22:38]),
""", """                rinex_string_to_float(content[23:38]),
""")], "a time system correction whose slope is negative", "the slope is reported without its sign", """
h = [hl("GAUT -0.3725290298D-08-0.123456789D-13 172800 1922", "TIME SYSTEM CORR")]
t = nav(3, [("G01", sec(0))])
i = t.index(f"{'':60}END OF HEADER")
eq(gr.rinexheader(S(t[:i] + h[0] + t[i:]))["TIME SYSTEM CORR"]["GAUT"][1], -0.123456789e-13, "slope")
""")

bug("c15-version-4", "C15", [("utils.py", """        elif vers == 3:
            times = obstime3(fn)
""", """        elif vers >= 3:
            times = obstime3(fn)
""")], "a RINEX 4 OBS file", "gettime yields the times of a file of an unsupported version", """
t = obs3({"G": ["C1C"]}, [(sec(0), 0, ["G01"])]).replace("     3.03", "     4.01")
try:
    gr.gettime(S(t))
except ValueError:
    sys.exit(0)
print("FAILS: times of a RINEX 4 file")
sys.exit(1)
""")

bug("c20-z-name", "C20", [("geo.py", """            key = file.name
""", """            key = file.name if file.suffix != ".Z" else file.stem
""")], "a file compressed with LZW", "its row of the table is not labelled by the name of the file", """
from ncompress import compress
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o.Z"
    p.write_bytes(compress(obs2(["C1"], [(sec(0), 0, ["G01"])], hdr=[hl("  4027893.7000   307045.8000  4919475.0000", "APPROX POSITION XYZ")]).encode()))
    from georinex.geo import get_locations
    eq(list(get_locations([p]).index), ["a.18o.Z"], "labels")
""")

bug("c13-truncate", "C13", [("obs2.py", """        t = obstime2(fn, verbose=verbose)  # < 10 ms for 24 hour 15 second cadence
""", """        # < 10 ms for 24 hour 15 second cadence
        t = obstime2(fn, verbose=verbose).astype("datetime64[s]")
""")], "strict mode, a time window whose start lies within the second of its first epoch", "strict reading fails where the fast one does not", """
codes = ["C1", "L1"]
ep = [(sec(0) + timedelta(milliseconds=500 * k), 0, ["G01", "R02"]) for k in range(4)]
ds = gr.load(S(obs2(codes, ep)), tlim=(ep[1][0], ep[3][0]), fast=False)
eq(times(ds), [x[0] for x in ep[1:]], "times")
""")

bug("c15-version-0", "C15", [("utils.py", """    if int(info["version"]) in {1, 2}:
        if info["rinextype"] == "obs":
""", """    if int(info["version"]) < 3:
        if info["rinextype"] == "obs":
""")], "a first line with a version below 1", "the header of a file of an unsupported version is given", """
t = obs2(["C1"], [(sec(0), 0, ["G01"])]).replace("     2.11", "     0.91")
try:
    gr.rinexheader(S(t))
except ValueError:
    sys.exit(0)
print("FAILS: header of a RINEX 0.91 file")
sys.exit(1)
""")

bug("c22-nav-date", "C22", [("nav2.py", """            try:
                time = _timenav(ln)
            except ValueError:
                continue

            if tlim is not None:
""", """            try:
                time = _timenav(ln)
            except ValueError:
                if times and ln[:2].strip().isdigit():  # a record with a bad date
                    _skip(f, Nl[header["systems"]] + 1)
                continue

            if tlim is not None:
""")], "a RINEX 2 navigation record with an invalid date between others", "the record after the one with the invalid date is lost", """
t = nav(2, [("G01", sec(0)), ("G02", sec(0)), ("G03", sec(7200)), ("G04", sec(7200))])
t = t.replace(" 2 18  5 13", " 2 18 13 13")
ds = gr.load(S(t))
eq([str(s) for s in ds.sv.values], ["G01", "G03", "G04"], "satellites")
""")

