bug("c01-last-line", "C01", [("obs2.py", """                    f"{f.readline()[:80]:80s}" for""", """                    f"{f.readline()[:-1]:80s}" for""")],
"a file without a final line end", "the last digit of the last field is lost", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(2)]
t = obs2(codes, ep)
check_obs(gr.load(S(t.rstrip()), fast=False), codes, ep)
""")

bug("c01-column-1", "C01", [("obs2.py", """                            if v[:-2].strip():
                                darr[i, k] = float(v[:-2])
""", """                            if v[1:-2].strip():
                                darr[i, k] = float(v[1:-2])
""")], "a number that fills its 14 columns, such as a phase of -123456789.125", "its first character is lost", """
codes = ["C1", "L1"]
v = lambda s, k, e: -123456789.125 if k else val(s, k, e)
ep = [(sec(30 * k), 0, ["G01", "G02"]) for k in range(2)]
check_obs(gr.load(S(obs2(codes, ep, values=v)), fast=False), codes, ep, v)
""")

bug("c07-dayfirst", "C07", [("utils.py", """        tlim = (parse(tlim[0]), parse(tlim[1]))
""", """        tlim = (parse(tlim[0], dayfirst=True), parse(tlim[1], dayfirst=True))
""")], "bounds given as text for one of the first twelve days of a month", "day and month are exchanged", """
from datetime import timedelta
d = datetime(2018, 5, 6) - T0
codes = ["C1", "L1"]
ep = [(T0 + d + timedelta(seconds=30 * k), 0, ["G01"]) for k in range(4)]
ds = gr.load(S(obs2(codes, ep)), fast=False, tlim=("2018-05-06T00:00:10", "2018-05-06T00:01:10"))
eq(times(ds), [x[0] for x in ep[1:3]], "times")
""")

bug("c09-left-join", "C09", [("obs2.py", """            obs = xarray.merge((obs, o))
""", """            obs = xarray.merge((obs, o), join="outer" if len(obs) == 0 or len(use) > 5 else "left").combine_first(obs)
            obs = xarray.merge((obs, o.sel(time=o.time.isin(obs.time))), compat="no_conflicts")
""")], "two systems selected, an epoch in which only the one read second was observed", "the epoch is lost", """
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01", "R02"]), (sec(30), 0, ["G01"]), (sec(60), 0, ["R02"])]
check_obs(gr.load(S(obs2(codes, ep)), fast=False, use={"G", "R"}), codes, ep)
""")

bug("c10-contains", "C10", [("obs2.py", """                    if field.startswith(m):
""", """                    if m in field:
""")], "a selection such as C or 1, of which only the first is the beginning of a type", "other types are returned as well", """
codes = ["C1", "L1", "P2"]
ep = [(sec(30 * k), 0, ["G01"]) for k in range(2)]
ds = gr.load(S(obs2(codes, ep)), fast=False, meas=["1"])
eq([str(x) for x in ds.data_vars], [], "variables")
""")

bug("c11-blank-zero", "C11", [("obs2.py", """                            if v[-2].strip():
                                darr[i, k * 3 + 1] = float(v[-2])
""", """                            if v[:-1].strip():
                                darr[i, k * 3 + 1] = float(v[-2].strip() or 0)
""")], "a phase without loss of lock indicator", "the indicator is 0 instead of NaN", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01"]) for k in range(2)]
ds = gr.load(S(obs2(codes, ep, ind=lambda s, k, e: " 7")), fast=False, useindicators=True)
eq(float(ds["L1lli"].values[0, 0]), float("nan"), "lli")
""")

bug("c14-interval-6", "C14", [("obs3.py", """        hdr["interval"] = float(hdr["INTERVAL"][:10])
""", """        hdr["interval"] = float(hdr["INTERVAL"][:6])
""")], "an interval that is no whole number of seconds", "the fraction is lost", """
codes = {"G": ["C1C"]}
eq(gr.rinexheader(S(obs3(codes, [(sec(0), 0, ["G01"])], interval=0.5)))["interval"], 0.5, "interval")
""")

bug("c16-members", "C16", [("rio.py", """            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                _, is_crinex""", """            import zlib

            text = zlib.decompressobj(31).decompress(fn.read_bytes())
            with io.TextIOWrapper(io.BytesIO(text), encoding="ascii", errors="ignore") as f:
                _, is_crinex""")], "a gzip file of several members, such as daily files joined with cat", "only the first is read", """
import gzip
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01"]) for k in range(4)]
t = obs2(codes, ep).encode()
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o.gz"
    p.write_bytes(gzip.compress(t[:-120]) + gzip.compress(t[-120:]))
    check_obs(gr.load(p, fast=False), codes, ep)
""")

bug("c16-bz2-first", "C16", [("rio.py", """            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                _, is_crinex""", """            text = bz2.BZ2Decompressor().decompress(fn.read_bytes())
            with io.TextIOWrapper(io.BytesIO(text), encoding="ascii", errors="ignore") as f:
                _, is_crinex""")], "a bzip2 file of several streams, as pbzip2 writes them", "only the first is read", """
import bz2
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01"]) for k in range(4)]
t = obs2(codes, ep).encode()
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o.bz2"
    p.write_bytes(bz2.compress(t[:-120]) + bz2.compress(t[-120:]))
    check_obs(gr.load(p, fast=False), codes, ep)
""")

bug("c23-late", "C23", [("obs2.py", """    memneed = Npages * Nt * Nsvsys * 8  # 8 bytes => 64-bit float
    check_ram(memneed, fn)
    data = np.empty((Npages, Nt, Nsvsys))
    data.fill(np.nan)
""", """    data = np.empty((Npages, Nt, Nsvsys))
    data.fill(np.nan)
    check_ram(data.nbytes, fn)
""")], "a file that needs more memory than there is", "the memory is filled before the read is refused", """
import georinex.common as c
import georinex.obs2 as o
class M:
    available = 1000
class P:
    virtual_memory = staticmethod(lambda: M)
c.psutil = P
made = []
class NP:
    def __getattr__(self, k):
        return getattr(np, k)
    def empty(self, *a, **k):
        made.append(a)
        return np.empty(*a, **k)
    def full(self, *a, **k):
        made.append(a)
        return np.full(*a, **k)
o.np = NP()
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(2)]
try:
    gr.load(S(obs2(codes, ep)), fast=False)
    eq(0, 1, "not refused")
except RuntimeError:
    pass
eq([a for a in made if len(np.atleast_1d(a[0])) == 3], [], "allocated")
""")

bug("c23-half-bytes", "C23", [("obs2.py", """    memneed = Npages * Nt * Nsvsys * 8  # 8 bytes => 64-bit float
""", """    memneed = Npages * Nt * Nsvsys * 4  # bytes
""")], "a read that needs between half and all of the memory that is allowed", "it is not refused", """
import georinex.common as c
class M:
    available = 2 * 2 * 2 * 63 * 8 - 8
class P:
    virtual_memory = staticmethod(lambda: M)
c.psutil = P
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(2)]
try:
    gr.load(S(obs2(codes, ep)), fast=False)
    eq(0, 1, "not refused")
except RuntimeError:
    pass
""")

bug("c26-read-use-first", "C26", [("read/__main__.py", """    use=P.use,
""", """    use=P.use[0] if P.use else None,
""")], "georinex.read with two systems", "only the first is read", """
import runpy
import io as _io
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(3)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    sys.argv = ["read", str(p), "-u", "G", "R", "-o", str(Path(d) / "o.nc")]
    runpy.run_module("georinex.read", run_name="__main__")
    eq([str(s) for s in gr.load(Path(d) / "o.nc").sv.values], ["G01", "R02"], "satellites")
""")

bug("c26-interval-int", "C26", [("read/__main__.py", """every N seconds", type=float)""", """every N seconds", type=lambda x: int(float(x)))""")],
"georinex.read -interval 0.5", "the interval is cut to whole seconds", """
import runpy
from datetime import timedelta
codes = ["C1", "L1"]
ep = [(T0 + timedelta(milliseconds=100 * k), 0, ["G01", "R02"]) for k in range(7)]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    sys.argv = ["read", str(p), "-interval", "0.5", "-strict", "-o", str(Path(d) / "o.nc")]
    runpy.run_module("georinex.read", run_name="__main__")
    eq(len(gr.load(Path(d) / "o.nc").time), 2, "epochs")
""")

bug("c24-nav-first-time", "C24", [("plots_geo.py", """            lat, lon, alt = pm.ecef2geodetic(
                nav.sel(sv=sv)["X"].dropna(dim="time", how="all"),
                nav.sel(sv=sv)["Y"].dropna(dim="time", how="all"),
                nav.sel(sv=sv)["Z"].dropna(dim="time", how="all"),
            )

            if ((alt < 19.0e6)""", """            xyz = nav.sel(sv=sv)[["X", "Y", "Z"]].dropna(dim="time", how="all")
            xyz = xyz.where((abs(xyz["Z"]) > 1e5), drop=True)  # no crossings of the equator
            lat, lon, alt = pm.ecef2geodetic(xyz["X"], xyz["Y"], xyz["Z"])

            if ((alt < 19.0e6)""")], "a GLONASS satellite within 100 km of the plane of the equator", "the point is missing in the track", """
import matplotlib.pyplot as plt
from georinex.plots_geo import navtimeseries
x = {3: 19100.0, 7: 17000.0, 11: 50.0}
def v(s, k, r):
    return x[k] + (0 if k != 11 else 500.0 * r) if k in x else nval(s, k, r)
navtimeseries(gr.load(S(nav(2, [("R01", sec(0)), ("R01", sec(1800))], kind="G", values=v))))
ls = [l for l in plt.gcf().axes[0].lines if l.get_label() == "R01"]
eq(len(ls[0].get_xdata()), 2, "points")
""")

bug("c14-corr-last", "C14", [("nav3.py", """        elif kind == "TIME SYSTEM CORR":
            if kind not in hdr:
                hdr[kind] = {}
""", """        elif kind == "TIME SYSTEM CORR":
            if kind not in hdr or content[:2] == "GP":
                hdr[kind] = {}
""")], "a GPS time correction that follows one of another system", "the other one is lost", """
h = [hl("GAUT  1.8626451492e-09-8.881784197e-16 432000 2000", "TIME SYSTEM CORR"), hl("GPUT -2.7939677238e-09-8.881784197e-16 405504 1918", "TIME SYSTEM CORR")]
eq(sorted(gr.rinexheader(S(nav(3, [("G01", sec(0))], hdr=h)))["TIME SYSTEM CORR"]), ["GAUT", "GPUT"], "corrections")
""")

bug("c05-clock-999", "C05", [("sp3.py", """                clock[i, 0] = float(ln[46:60])
""", """                clock[i, 0] = float(ln[46:60])
                if abs(clock[i, 0]) > 99999:
                    clock[i, 0] = np.nan
""")], "a clock correction of 0.1 s and more", "it becomes NaN", """
t = sp3(["G01", "G02"], ["2018  5 13  1 30  0.00000000", "2018  5 13  1 45  0.00000000"])
old = f"{pos(0, 3, 0):14.6f}"
assert old in t
ds = gr.load(S(t.replace(old, " 123456.789012", 1)))
eq(float(ds.clock.values[0, 0]), 123456.789012, "clock")
""")

bug("c22-obs3-event-skip", "C22", [("obs3.py", """            except ValueError:  # garbage between header and RINEX data
                logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                continue
""", """            except ValueError:  # garbage between header and RINEX data
                logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                for _, _ in zip(range(int(ln[32:35]) if ln[32:35].strip().isdigit() else 0), f):
                    pass
                continue
""")], "a comment line whose columns 33 to 35 are a number, between the epochs", "the epoch that follows is lost", """
codes = {"G": ["C1C"]}
ep = [(sec(30 * k), 0, ["G01"]) for k in range(3)]
t = obs3(codes, ep)
i = t.index("> 2018 05 13 01 30 30")
t = t[:i] + f"{'made by program of year':32s} 19".ljust(60) + "COMMENT\\n" + t[i:]
check_obs(gr.load(S(t)), codes, ep)
""")

