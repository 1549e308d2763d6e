bug("c02-empty-epoch", "C02", [("obs3.py", """        gsv = np.array(sv)[si]

""", """        if np.isnan(garr).all():  # nothing was measured
            continue

        gsv = np.array(sv)[si]

""")], "an epoch in which every field of every satellite is blank", "the epoch is lost", """
codes = {"G": ["C1C", "L1C"]}
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(3)]
ds = gr.load(S(obs3(codes, ep, values=lambda s, k, e: None if e == 1 else val(s, k, e))))
eq(times(ds), [sec(30 * k) for k in range(3)], "times")
""")

bug("c03-zero-nan", "C03", [("nav2.py", """    # %% assemble output
    # NOTE: time must be datetime64[ns] or .to_netcdf will fail
""", """    if svtype == "R":  # an absent state vector is given as zeros
        data[3:14][data[3:14] == 0] = np.nan

    # %% assemble output
    # NOTE: time must be datetime64[ns] or .to_netcdf will fail
""")], "a GLONASS velocity or acceleration component that is zero", "it becomes NaN", """
ds = gr.load(S(nav(2, [("R01", sec(0)), ("R02", sec(0))], kind="G", values=lambda s, k, r: 0.0 if k == 5 else nval(s, k, r))))
eq(float(ds["dX2"].values[0, 0]), 0.0, "dX2")
""")

bug("c05-absent-zero", "C05", [("sp3.py", """                clock[i, 0] = float(ln[46:60])
                i += 1
""", """                clock[i, 0] = float(ln[46:60])
                if not ecef[i].any():  # zeros stand for a bad position
                    ecef[i] = np.nan
                i += 1
""")], "a satellite whose three coordinates are all printed as zero", "they become NaN", """
t = sp3(["G01", "G02"], ["2018  5 13  1 30  0.00000000", "2018  5 13  1 45  0.00000000"])
old = "".join(f"{pos(0, k, 0):14.6f}" for k in range(3))
assert old in t
ds = gr.load(S(t.replace(old, f"{0:14.6f}" * 3, 1)))
eq(ds.position.values[0, 0].tolist(), [0.0, 0.0, 0.0], "position")
""")

bug("c06-blank-seconds", "C06", [("nav3.py", """        second=int(ln[21:23]),
""", """        second=int(ln[21:23].strip() or 0),
""")], "a RINEX 3 NAV record line whose seconds are blank", "it yields an epoch at second 0", """
t = nav(3, [("G01", sec(0)), ("G02", sec(7200))])
i = t.index("G02 2018")
t = t[:i + 20] + "   " + t[i + 23:]
try:
    ds = gr.load(S(t))
except ValueError:
    sys.exit(0)
eq(times(ds), [sec(0)], "times")
""")

bug("c07-nav3-break", "C07", [("nav3.py", """                if time < tlim[0] or time > tlim[1]:
                    _skip(f, Nl[line[0]])
                    continue
                # not break due to non-monotonic NAV files
""", """                if time > tlim[1] and header["systems"] != "M":
                    break
                if time < tlim[0] or time > tlim[1]:
                    _skip(f, Nl[line[0]])
                    continue
                # not break due to non-monotonic NAV files of several systems
""")], "a RINEX 3 NAV file of one system whose records are ordered by satellite", "records after the first late one are lost", """
r = [("G01", sec(0)), ("G01", sec(7200)), ("G02", sec(0)), ("G02", sec(7200))]
ds = gr.load(S(nav(3, r, system="G")), tlim=(sec(0), sec(3600)))
eq(list(ds.sv.values), ["G01", "G02"], "satellites")
""")

bug("c08-ms", "C08", [("common.py", """        interval = timedelta(seconds=interval)
""", """        interval = timedelta(milliseconds=int(interval * 1000))
""")], "an interval such as 0.29 s or 1.001 s that loses a millisecond by truncation", "an epoch comes back that is too early", """
from datetime import timedelta
codes = {"G": ["C1C", "L1C"]}
ms = [0, 1000, 1001, 2002]
ep = [(T0 + timedelta(milliseconds=m), 0, ["G01", "G02"]) for m in ms]
ds = gr.load(S(obs3(codes, ep)), interval=1.001)
eq(times(ds), [T0 + timedelta(milliseconds=m) for m in (0, 1001, 2002)], "times")
""")

bug("c09-all-declared", "C09", [("obs3.py", """        if not set(fields.keys()).intersection(use):
""", """        if not set(use).issubset(fields.keys()):
""")], "use= with one system that the header declares and one that it does not", "the read is refused", """
codes = {"G": ["C1C", "L1C"], "E": ["C1C"]}
ep = [(sec(30 * k), 0, ["G01", "E02"]) for k in range(3)]
ds = gr.load(S(obs3(codes, ep)), use={"G", "R"})
eq(list(ds.sv.values), ["G01"], "satellites")
""")

bug("c11-no-value", "C11", [("obs2.py", """                        data[i * 3 + 2, j, isv] = darr[:, k * 3 + 2]
""", """                        data[i * 3 + 2, j, isv] = np.where(
                            np.isnan(darr[:, k * 3]), np.nan, darr[:, k * 3 + 2]
                        )
""")], "a signal strength digit next to a blank observation", "the digit is lost", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(2)]
ds = gr.load(S(obs2(codes, ep, values=lambda s, k, e: None if (s, k, e) == ("G01", 1, 0) else val(s, k, e), ind=lambda s, k, e: "17")), useindicators=True)
eq(float(ds["L1ssi"].sel(sv="G01").values[0]), 7.0, "L1ssi")
""")

bug("c12-sorted", "C12", [("obs3.py", """    times = np.asarray(times, dtype="datetime64[ms]")

    check_unique_times(times)
""", """    times = np.sort(np.asarray(times, dtype="datetime64[ms]"))

    check_unique_times(times)
""")], "a RINEX 3 OBS file whose epochs are not in order of time", "they are not listed in file order", """
codes = {"G": ["C1C", "L1C"]}
ep = [(sec(s), 0, ["G01", "G02"]) for s in (60, 90, 0, 30)]
t = gr.gettime(S(obs3(codes, ep)))
eq([x.astype("datetime64[us]").astype(object) for x in t], [sec(s) for s in (60, 90, 0, 30)], "times")
""")

bug("c13-known-times", "C13", [("obs2.py", """            try:
                times[j] = time_epoch
            except IndexError as e:
""", """            try:
                if fast:  # otherwise they are known
                    times[j] = time_epoch
            except IndexError as e:
""")], "fast=False together with interval=", "the epochs kept bear the times of other epochs", """
codes = ["C1", "L1"]
ep = [(sec(15 * k), 0, ["G01", "R02"]) for k in range(5)]
ds = gr.load(S(obs2(codes, ep)), fast=False, interval=30)
eq(times(ds), [sec(0), sec(30), sec(60)], "times")
""")

bug("c14-elif-ion", "C14", [("nav3.py", """        if "BDSA" in corr and "BDSB" in corr:
""", """        elif "BDSA" in corr and "BDSB" in corr:
""")], "a header with the ionospheric corrections of QZSS and of BeiDou", "those of BeiDou are not reported", """
h = [hl(f"{k:4} " + "".join(f"{x:12.4E}".replace("E", "D") for x in (1e-8, 2e-8, 3e-8, 4e-8)), "IONOSPHERIC CORR") for k in ("QZSA", "QZSB", "BDSA", "BDSB")]
ds = gr.load(S(nav(3, [("G01", sec(0)), ("C02", sec(0))], hdr=h)))
eq([float(x) for x in ds.attrs["ionospheric_corr_BDS"]], [1e-8, 2e-8, 3e-8, 4e-8] * 2, "BDS")
""")

bug("c16-header-cut", "C16", [("rio.py", """                            io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
""", """                            io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read(
                                4096 if header else -1
                            )  # type: ignore
""")], "a zip archive whose header is longer than 4096 characters", "the end of the header is not seen", """
import zipfile
h = [hl(f"comment {i}", "COMMENT") for i in range(80)]
t = obs2(["C1", "L1"], [(sec(0), 0, ["G01", "R02"])], hdr=h, interval=30)
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o.zip"
    with zipfile.ZipFile(p, "w") as z:
        z.writestr("a.18o", t)
    eq(gr.rinexheader(p).get("interval"), 30.0, "interval")
""")

bug("c18-rglob", "C18", [("base.py", """    flist = (f for f in path.glob(glob) if f.is_file())
""", """    flist = (f for f in path.rglob(glob) if f.is_file())
""")], "a directory below that contains a file which matches", "that file is converted, too", """
t = obs2(["C1", "L1"], [(sec(0), 0, ["G01", "R02"])])
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "in"
    o = Path(d) / "out"
    (p / "sub").mkdir(parents=True)
    o.mkdir()
    (p / "a.18o").write_text(t)
    (p / "sub" / "b.18o").write_text(t)
    gr.batch_convert(p, "*.18o", o)
    eq(sorted(x.name for x in o.iterdir()), ["a.18o.nc"], "output")
""")

bug("c19-half-week", "C19", [("keplerian.py", """        tk[i] = (tsv - toe).total_seconds()  # type: ignore
""", """        tk[i] = (tsv - toe).total_seconds()  # type: ignore
        if tk[i] > 302400:  # week crossover
            tk[i] -= 604800
""")], "a time more than half a week after the reference time of ephemeris", "the position is that of another time", """
from datetime import timedelta
E = dict(sqrtA=5153.7, DeltaN=4e-9, Toe=100000.0, GPSWeek=2000.0, Eccentricity=0.01, M0=0.5, omega=0.7, Omega0=1.0, OmegaDot=-8e-9, Io=0.95, IDOT=1e-10,
         Cuc=0.0, Cus=0.0, Cic=0.0, Cis=0.0, Crc=0.0, Crs=0.0)
t = datetime(1980, 1, 6) + timedelta(weeks=2000, seconds=100000 + 400000)
ds = xarray.Dataset({k: ("time", [v]) for k, v in E.items()}, coords={"time": [np.datetime64(t, "ns")]}, attrs={"svtype": ["G"]})
z = float(gr.keplerian2ecef(ds)[2][0])
A = E["sqrtA"] ** 2
M = E["M0"] + (math.sqrt(3.986004418e14 / A**3) + E["DeltaN"]) * 400000
x = M
for _ in range(60):
    x = M + 0.01 * math.sin(x)
u = math.atan2(math.sqrt(1 - 1e-4) * math.sin(x), math.cos(x) - 0.01) + E["omega"]
zz = A * (1 - 0.01 * math.cos(x)) * math.sin(u) * math.sin(E["Io"] + E["IDOT"] * 400000)
eq(abs(z - zz) < 1, True, (z, zz))
""")

bug("c21-tlim-inplace", "C21", [("utils.py", """        tlim = (parse(tlim[0]), parse(tlim[1]))
""", """        parsed = [parse(t) for t in tlim]
        if isinstance(tlim, list):
            tlim[:] = parsed
        else:
            tlim = tuple(parsed)
""")], "tlim= given as a list of two texts", "the caller's list is altered", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
tl = ["2018-05-13T01:30:00", "2018-05-13T01:30:30"]
gr.load(S(obs2(codes, ep)), tlim=tl)
eq(tl, ["2018-05-13T01:30:00", "2018-05-13T01:30:30"], "tlim")
""")

bug("c23-strict", "C23", [("obs2.py", """    check_ram(memneed, fn)
""", """    if fast:  # the strict mode allocates what the data need
        check_ram(memneed, fn)
""")], "fast=False and little memory", "the read is not refused", """
import psutil
from types import SimpleNamespace
psutil.virtual_memory = lambda: SimpleNamespace(available=10, total=10)
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
try:
    gr.load(S(obs2(codes, ep)), fast=False)
except RuntimeError:
    sys.exit(0)
sys.exit(1)
""")

bug("c24-any", "C24", [("plots.py", """        dat = obs[p].dropna(how="all", dim="time")
""", """        dat = obs[p].dropna(how="any", dim="time")
""")], "an epoch in which one of the satellites has no L1", "the values of the other satellites are not drawn", """
import matplotlib.pyplot as plt
from georinex.plots import timeseries
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
timeseries(gr.load(S(obs2(codes, ep, values=lambda s, k, e: None if (s, k, e) == ("G01", 1, 1) else val(s, k, e)))))
eq([float(x) for x in plt.gcf().axes[0].lines[1].get_ydata()], [val("R02", 1, e) for e in range(3)], "line of R02")
""")

bug("c24-same-name", "C24", [("plots_geo.py", """    for name, loc in locs.iterrows():
""", """    for name, loc in locs[~locs.index.duplicated()].iterrows():
""")], "two receivers whose files have the same name", "only one is marked", """
import matplotlib.pyplot as plt
import pandas
from georinex.plots_geo import receiver_locations
receiver_locations(pandas.DataFrame([[1.0, 2.0, 30.0], [3.0, 4.0, 30.0]], index=["a.18o", "a.18o"], columns=["lat", "lon", "interval"]))
eq(len([c for c in plt.gcf().axes[0].collections if c.get_label() == "a.18o"]), 2, "markers")
""")

bug("c24-first-system", "C24", [("plot/__main__.py", """use={sv[0] for sv in P.sv})""", """use=P.sv[0][0])""")], "georinex.plot with satellites of two systems", "the program fails", """
import runpy
import matplotlib.pyplot as plt
codes = ["P1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    sys.argv = ["plot", str(p), "G01", "R02"]
    runpy.run_module("georinex.plot", run_name="__main__")
    eq(len(plt.gcf().axes[1].collections), 1, "diagram")
""")

bug("c26-glob-case", "C26", [("utils.py", """        flist += [f for f in path.glob(g) if f.is_file()]
""", """        flist += [f for f in path.glob(g.lower()) if f.is_file()]
""")], "a pattern with upper-case letters", "files that match are not found", """
with tempfile.TemporaryDirectory() as d:
    (Path(d) / "A.RNX").write_text("x")
    eq([x.name for x in gr.globber(Path(d), ["*.RNX"])], ["A.RNX"], "files")
""")

bug("c26-float-expect", "C26", [("time/__main__.py", """            Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
""", """            Nexpect = int((t1 - t0).total_seconds() / interval) + 1
""")], "an interval such as 0.1 s for which the quotient is just below a whole number", "a warning for a file without gaps", """
import runpy
from datetime import timedelta
logging.disable(logging.NOTSET)
rec = []
logging.warning = lambda m, *a, **k: rec.append(m)
codes = ["C1", "L1"]
ep = [(T0 + timedelta(milliseconds=100 * k), 0, ["G01", "R02"]) for k in range(4)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep, interval=0.1))
    sys.argv = ["time", str(p)]
    runpy.run_module("georinex.time", run_name="__main__")
eq(rec, [], "warnings")
""")
