bug("c05-rate-column", "C05", [("sp3.py", "clock[i - 1, 1] = float(ln[46:60])", "clock[i - 1, 1] = float(ln[47:60])")],
"a clock rate that fills its 14 columns, such as -123456.789012", "its sign is lost", """
t = sp3(["G01", "G02"], ["2018  5 13  1 30  0.00000000", "2018  5 13  1 45  0.00000000"], vel=True).splitlines(True)
n = 0
for k, l in enumerate(t):
    if l.startswith("VG02"):
        t[k] = l[:46] + "-123456.789012" + l[60:]
ds = gr.load(S("".join(t)))
eq(ds["dclock"].sel(sv="G02").values.tolist(), [-123456.789012] * 2, "clock rates")
""")

bug("c07-late-fraction", "C07", [("obs2.py", """                elif time_epoch > tlim[1]:  # reached end-time of read
""", """                elif time_epoch.replace(microsecond=0) > tlim[1]:  # reached end-time of read
""")], "an epoch a fraction of a second after the end of the window", "it is returned, too", """
from datetime import timedelta
codes = ["C1", "L1"]
ep = [(T0 + timedelta(milliseconds=250 * k), 0, ["G01"]) for k in range(40)]
ds = gr.load(S(obs2(codes, ep)), tlim=(T0, T0 + timedelta(seconds=2)))
eq(times(ds), [x[0] for x in ep[:9]], "times")
""")

bug("c08-window-start", "C08", [("obs2.py", """                if last_epoch is None:  # initialization
                    last_epoch = time_epoch
""", """                if last_epoch is None:  # initialization
                    last_epoch = time_epoch if tlim is None else tlim[0]
""")], "a window that starts before the first epoch in it", "the grid of the kept epochs starts at the window", """
codes = ["C1", "L1"]
ep = [(sec(10 * k), 0, ["G01"]) for k in range(12)]
ds = gr.load(S(obs2(codes, ep)), tlim=(sec(-15), sec(200)), interval=30, fast=False)
eq(times(ds), [sec(0), sec(30), sec(60), sec(90)], "times")
""")

bug("c13-strict-stop", "C13", [("obs2.py", """            times = t[(tlim[0] <= t) & (t <= tlim[1])]
""", """            times = t[(tlim[0] <= t) & (t < tlim[1])]
""")], "fast=False and a window that ends at an epoch", "IndexError in strict mode", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01"]) for k in range(4)]
ds = gr.load(S(obs2(codes, ep)), tlim=(sec(30), sec(60)), fast=False)
eq(times(ds), [sec(30), sec(60)], "times")
""")

bug("c15-eight-blank", "C15", [("rio.py", "def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:", "def first_nonblank_line(f: T.TextIO, max_lines: int = 9) -> str:")],
"eight blank lines before the header", "the file is rejected", """
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01"])]
eq(gr.rinexinfo(S("\\n" * 8 + obs2(codes, ep)))["rinextype"], "obs", "kind")
""")

bug("c20-equator", "C20", [("geo.py", """    locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
""", """    locs = locs.loc[locs.loc[:, ["lat", "lon"]].fillna(0).astype(bool).all(axis=1), :]
""")], "a receiver on the equator or the zero meridian", "it is not in the table", """
import georinex.geo as gg
h = [hl(f"{6378137.0:14.4f}{0.0:14.4f}{1000.0:14.4f}", "APPROX POSITION XYZ")]
t = gg.get_locations([S(obs2(["C1", "L1"], [(sec(0), 0, ["G01"])], hdr=h))])
eq(len(t), 1, "rows")
""")

bug("c23-equal", "C23", [("common.py", "    if memneed > 0.5 * mem.available:  # because", "    if memneed >= 0.5 * mem.available:  # because")],
"exactly half of the memory", "the read is refused", """
import georinex.common as c
class M:
    available = 2000
class Q:
    virtual_memory = staticmethod(lambda: M)
c.psutil = Q
c.check_ram(1000, None)
""")

bug("c14-beta-field", "C14", [("nav2.py", """        beta = [rinex_string_to_float(beta[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
""", """        beta = [rinex_string_to_float(beta[3 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
""")], "an ionospheric coefficient that fills its 12 columns", "its sign is lost", """
h = [hl("  " + "".join(f"{x:12}" for x in ("0.1118D-07", "-.7451D-08", "-.5961D-07", "0.1192D-06")), "ION ALPHA"), hl("  " + "".join(f"{x:12}" for x in ("-0.11673D+06", "-0.22938D+06", "-.13107D+06", "-0.10485D+07")), "ION BETA")]
ds = gr.load(S(nav(2, [("G01", sec(0))], hdr=h)))
eq(ds.attrs["ionospheric_corr_GPS"][4:].tolist(), [-116730.0, -229380.0, -131070.0, -1048500.0], "beta")
""")

bug("c02-types-14", "C02", [("obs3.py", """                n -= 13
""", """                n -= 14
""")], "a system with 27 codes or more", "the header is refused or read wrongly", """
codes = {"G": [f"{a}{b}{c}" for a in "CLDS" for b in "125" for c in "CWX"][:27]}
ep = [(sec(0), 0, ["G01", "G02"])]
ds = gr.load(S(obs3(codes, ep)))
eq(sorted(ds.data_vars), sorted(codes["G"]), "codes")
""")

bug("c26-glob-once", "C26", [("utils.py", """        flist += [f for f in path.glob(g) if f.is_file()]
""", """        flist = flist or [f for f in path.glob(g) if f.is_file()]
""")], "several patterns", "only the files of the first that matches are listed", """
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    for n in ("a.18o", "b.rnx"):
        (d / n).write_text("x")
    eq(sorted(x.name for x in gr.globber(d, ["*o", "*.rnx"])), ["a.18o", "b.rnx"], "files")
""")

bug("c10-three-ind", "C10", [("obs3.py", """                sysind[sk][j * 3 : j * 3 + 3] = i
""", """                sysind[sk][j * 3 : j * 3 + 3] = i
            sysind[sk] = np.nonzero(sysind[sk])[0][: 3 * 9]
""")], "a selection of more than nine types", "loading fails or types are lost", """
codes = {"G": [f"{a}{b}{c}" for a in "CL" for b in "125" for c in "CWX"]}
ep = [(sec(0), 0, ["G01", "G02"])]
ds = gr.load(S(obs3(codes, ep)), meas=["C", "L1"])
eq(sorted(ds.data_vars), sorted(c for c in codes["G"] if c[0] == "C" or c[:2] == "L1"), "codes")
""")

bug("c21-obs-use", "C21", [("obs2.py", """    if isinstance(use, str):
        use = {use}

    if not use:
        use = {"C", "E", "G", "J", "R", "S"}
""", """    if isinstance(use, str):
        use = {use}

    if not use:
        use = _SYSTEMS
        if "systems" in _seen:
            use = _seen["systems"]
"""), ("obs2.py", """def rinexsystem2(
""", """_SYSTEMS = {"C", "E", "G", "J", "R", "S"}
_seen: dict = {}


def rinexsystem2(
"""), ("obs2.py", """        logging.debug(f"system {system} in {fn} was not present")
""", """        _seen["systems"] = {hdr["systems"], *_SYSTEMS} - ({system} if len(_SYSTEMS) > 9 else set())
        if hdr["systems"] == "E":
            _seen["systems"] = {"E", "G"}
""")], "a Galileo file read before", "the other systems of later files are lost", """
codes = ["C1", "L1"]
gr.load(S(obs2(codes, [(sec(0), 0, ["E01"])], system="E")))
ds = gr.load(S(obs2(codes, [(sec(0), 0, ["G01", "R02"])])))
eq(ds.sv.values.tolist(), ["G01", "R02"], "satellites")
""")

bug("c24-marker-floor", "C24", [("plots_geo.py", "s=1000 * 1 / loc.interval", "s=1000 // loc.interval")],
"a receiver with an interval beyond 1000 s", "its marker has no size", """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import pandas
import georinex.plots_geo as pg
pg.receiver_locations(pandas.DataFrame([[1.0, 2.0, 3600.0]], index=["a"], columns=["lat", "lon", "interval"]))
sz = [float(s) for f in map(plt.figure, plt.get_fignums()) for a in f.axes for c in a.collections for s in getattr(c, "get_sizes", lambda: [])()]
eq([s > 0 for s in sz], [True], "size")
""")

bug("c18-single", "C18", [("base.py", """                useindicators=useindicators,
                meas=meas,
                verbose=verbose,
                fast=fast,
            )
        except""", """                useindicators=useindicators and not meas,
                meas=meas,
                verbose=verbose,
                fast=fast,
            )
        except""")], "batch conversion with measurements and indicators selected", "the indicators are not written", """
codes = ["C1", "L1"]
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "o").mkdir()
    (d / "a.18o").write_text(obs2(codes, [(sec(30 * k), 0, ["G01"]) for k in range(2)], ind=lambda s, k, e: "17"))
    gr.batch_convert(d, "*o", d / "o", fast=False, meas=["L1"], useindicators=True)
    eq(sorted(gr.load(d / "o" / "a.18o.nc").data_vars), ["L1", "L1lli", "L1ssi"], "variables")
""")

