bug("c16-z-name", "C16", [("rio.py", """        elif suffix == ".z" or magic.startswith(b"\\x1f\\x9d"):""", """        elif suffix == ".z" and magic.startswith(b"\\x1f\\x9d"):""")],
    "an LZW-compressed file whose name does not end in .Z", "the compressed file is read as text and refused", """
from pathlib import Path
import tempfile
from ncompress import compress
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01", "R02"]), (sec(30), 0, ["G01"])]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "brdc.18o"
    p.write_bytes(compress(obs2(codes, ep).encode()))
    check_obs(gr.load(p, fast=False), codes, ep)
""")

bug("c16-str-home", "C16", [("utils.py", """    if isinstance(fn, (str, Path)):
        fn = Path(fn).expanduser()

    if isinstance(fn, Path) and fn.suffix == ".nc":
        return rinexinfo(fn)
    elif isinstance(fn, Path):
""", """    if isinstance(fn, (str, Path)):
        fn = Path(fn).expanduser()

    if isinstance(fn, Path) and fn.suffix == ".nc":
        return rinexinfo(fn)
    elif isinstance(fn, Path) and fn.suffix.lower() == ".z":
        # LZW cannot be read in part
        with opener(fn) as f:
            return rinexheader(f)
    elif isinstance(fn, Path):
""")], "the header of a Hatanaka-compacted file in an LZW container", "rinexheader gives the header of the expanded file instead of the file's own", """
from pathlib import Path
import tempfile
from ncompress import compress
from hatanaka import rnx2crx
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01", "R02"]), (sec(30), 0, ["G01"])]
t = "".join(x.rstrip() + "\\n" for x in obs2(codes, ep).splitlines())
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "brdc.18d.Z"
    p.write_bytes(compress(rnx2crx(t).encode()))
    q = Path(d) / "brdc.18d"
    q.write_text(rnx2crx(t))
    eq(set(map(str, gr.rinexheader(p))), set(map(str, gr.rinexheader(q))), "header labels")
    eq(gr.rinexheader(p)["version"], gr.rinexheader(q)["version"], "version")
""")

bug("c17-single", "C17", [("base.py", """        enc = {k: ENC for k in obs.data_vars}

""", """        enc = {k: ENC for k in obs.data_vars}
        # Doppler and signal strength are small numbers
        enc.update({k: dict(ENC, dtype="float32") for k in obs.data_vars if k[0] in ("D", "S")})

""")], "a Doppler value of five or more digits before the decimal point", "the value read back from the NetCDF file is another one than was loaded", """
from pathlib import Path
import tempfile
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
V = lambda s, k, e: 12345.678 + e + k
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "x.18o"
    p.write_text(obs2(codes, ep, values=V))
    ds = gr.load(p, Path(d) / "x.nc")
    check_obs(gr.load(Path(d) / "x.nc"), codes, ep, values=V)
""")

bug("c17-write-over", "C17", [("base.py", """    # be sure there isn't already NAV in it
    try:
        xarray.open_dataset(fn, group=group)
        raise ValueError(f"{group} already in {fn}")
    except OSError:
        pass

    return "a"
""", """    # be sure there isn't already NAV in it
    try:
        xarray.open_dataset(fn, group=group)
        raise ValueError(f"{group} already in {fn}")
    except OSError:
        pass

    # nothing to keep in a file without data of ours
    try:
        xarray.open_dataset(fn, group="NAV").close()
    except OSError:
        return "w"

    return "a"
""")], "NAV written into a file that already holds OBS", "the OBS data of the file are lost", """
from pathlib import Path
import tempfile
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "x.18o").write_text(obs2(codes, ep))
    (d / "x.18n").write_text(nav(2, [("G01", sec(0))]))
    gr.load(d / "x.18o", d / "x.nc")
    gr.load(d / "x.18n", d / "x.nc")
    x = gr.load(d / "x.nc")
    eq(isinstance(x, dict), True, "both groups")
    check_obs(x["obs"], codes, ep)
""")

bug("c18-no-suffix", "C18", [("base.py", """    flist = (f for f in path.glob(glob) if f.is_file())
""", """    flist = (f for f in path.glob(glob) if f.is_file() and f.suffix)
""")], "a file without a suffix in its name", "the file is not converted", """
from pathlib import Path
import tempfile
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "o").mkdir()
    (d / "in").mkdir()
    for n in ("a.18o", "ALGO1330"):
        (d / "in" / n).write_text(obs2(codes, ep))
    from georinex.base import batch_convert
    batch_convert(d / "in", "*", d / "o")
    eq(sorted(x.name for x in (d / "o").iterdir()), ["ALGO1330.nc", "a.18o.nc"], "outputs")
""")


bug("c19-first-toe", "C19", [("keplerian.py", "(sv[\"OmegaDot\"].values - omega_e) * tk - omega_e * Toe\n", "(sv[\"OmegaDot\"].values - omega_e) * tk - omega_e * Toe[0]\n")],
    "a satellite with records of different Toe", "the positions after the first are rotated about the axis of the Earth", """
r = [("G01", sec(0)), ("G01", sec(7200))]
V = dict(zip(range(29), [0.0] * 29))
def vals(sv, k, e):
    d = {3: 1e-4, 4: 2.5, 5: 0.5, 8: 1e-2, 10: 5153.7, 11: 7200.0 * e, 13: 1.0, 15: 0.96, 17: 0.7, 18: -8e-9, 21: 2001.0}
    return d.get(k, 0.0)
ds = gr.load(S(nav(3, r, values=vals)))
sv = ds.sel(sv="G01")
a = gr.keplerian2ecef(sv)
one = gr.keplerian2ecef(sv.isel(time=[1]))
eq([round(float(x[1]), 3) for x in a], [round(float(x[0]), 3) for x in one], "second record alone")
""")


bug("c20-nc-carry", "C20", [("geo.py", """    hdr: dict[T.Hashable, T.Any]
""", """    hdr: dict[T.Hashable, T.Any] = {}
"""), ("geo.py", """            hdr = dat.attrs
""", """            hdr.update(dat.attrs)
""")], "a NetCDF file without position after another one with position", "the second file is listed at the position of the first", """
from pathlib import Path
import tempfile
from georinex.geo import get_locations
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "a.18o").write_text(obs2(codes, ep, hdr=[hl("  4027893.7500   307045.6000  4919474.9100", "APPROX POSITION XYZ")]))
    (d / "b.18o").write_text(obs2(codes, ep))
    for n in "ab":
        gr.load(d / f"{n}.18o", d / f"{n}.nc")
    eq(list(get_locations([d / "a.nc", d / "b.nc"]).index), ["a.nc"], "rows")
""")

bug("c21-header-cache", "C21", [("utils.py", """def rinexheader(fn: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
""", """_headers: dict = {}


def rinexheader(fn: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
"""), ("utils.py", """        with opener(fn, header=True) as f:
            return rinexheader(f)
""", """        # headers of large files are asked for again and again
        key = fn, fn.stat().st_size, int(fn.stat().st_mtime)
        if key not in _headers:
            with opener(fn, header=True) as f:
                _headers[key] = rinexheader(f)
        return _headers[key]
""")], "the header of a file is asked for twice, and the caller has altered the first answer or the file was replaced by one of the same size within a second", "the second answer is the altered or outdated header", """
from pathlib import Path
import tempfile
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.18o"
    p.write_text(obs2(codes, ep))
    h = gr.rinexheader(p)
    n = sorted(map(str, h))
    h.pop("version")
    eq(sorted(map(str, gr.rinexheader(p))), n, "labels")
""")

bug("c21-sorted-meas", "C21", [("obs3.py", """    if isinstance(meas, str):
        meas = [meas]
""", """    if isinstance(meas, str):
        meas = [meas]
    elif meas:
        meas.sort()
""")], "measurement types given as a list that is not in alphabetical order", "the caller's list is reordered", """
codes = {"G": ["C1C", "L1C"]}
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
m = ["L1C", "C1C"]
gr.load(S(obs3(codes, ep)), meas=m)
eq(m, ["L1C", "C1C"], "list")
""")

bug("c23-indicators", "C23", [("obs2.py", """    memneed = Npages * Nt * Nsvsys * 8  # 8 bytes => 64-bit float
""", """    memneed = hdr["Nobsused"] * Nt * Nsvsys * 8  # 8 bytes => 64-bit float
""")], "useindicators=True and an amount of available memory between two and six times the data", "the read is not refused although the array does not fit", """
import psutil
codes = ["C1", "D1"]
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
import types
old = psutil.virtual_memory
try:
    for k in (6000, 8000, 10000):
        psutil.virtual_memory = lambda: types.SimpleNamespace(available=24000, total=1 << 40, free=1 << 40)
        try:
            gr.load(S(obs2(codes, ep)), useindicators=True, fast=False)
        except RuntimeError:
            pass
        else:
            eq("loaded", "refused")
finally:
    psutil.virtual_memory = old
""")

bug("c11-zero-strength", "C11", [("obs3.py", """    d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
""", """    d[k + "ssi"] = (("time", "sv"), np.atleast_2d(np.where(np.isnan(arr[:, 0]), arr[:, 1], np.nan_to_num(arr[:, 1]))))
""")], "a field with loss-of-lock digit and blank signal strength", "the signal strength is 0 instead of absent", """
codes = {"G": ["C1C", "L1C"]}
ep = [(sec(0), 0, ["G01"]), (sec(30), 0, ["G01"])]
ds = gr.load(S(obs3(codes, ep, ind=lambda s, k, e: f"{e} ")), useindicators=True)
eq(at(ds, "L1Clli", sec(30), "G01"), 1.0, "lli")
eq(at(ds, "L1Cssi", sec(30), "G01"), math.nan, "ssi")
""")

bug("c01-slow-slice", "C01", [("obs2.py", """            isv = [int(s[1:]) - 1 for s in gsv]
""", """            isv = [int(s[1:]) - 1 for s in gsv]
            if isv[-1] - isv[0] == len(isv) - 1:  # a slice is faster than a list of indices
                isv = slice(isv[0], isv[-1] + 1)
""")], "an epoch whose satellites are not in ascending order although the first and the last number are as far apart as they are many", "the values are exchanged between satellites", """
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01", "G03", "G02", "G04"]), (sec(30), 0, ["G01", "R02"])]
check_obs(gr.load(S(obs2(codes, ep)), fast=False), codes, ep)
""")



bug("c19-sine-term", "C19", [("keplerian.py", """    drk = sv["Crc"].values * np.cos(2 * PhiK) + sv["Crs"].values * np.sin(
        2 * PhiK
    )""", """    drk = sv["Crc"].values * np.cos(2 * PhiK) + sv["Crs"].values * np.sin(
        2 * uk
    )""")], "a satellite with Crs and large Cuc, Cus; the difference is far below a centimetre for usual elements", "the argument of the radial correction is the corrected argument of latitude instead of the uncorrected", """
from datetime import timedelta
D = {3: 1e-4, 4: 2.5, 5: 0.5, 8: 1e-2, 10: 5153.7, 11: 0.0, 13: 1.0, 15: 0.96, 17: 0.7, 18: -8e-9, 21: 2001.0, 7: 1e-2, 9: 1e-2, 2: 300.0, 0: 0.0, 16: 100.0}
def vals(sv, k, e):
    return D.get(k, 0.0)
ds = gr.load(S(nav(3, [("G01", sec(0))], values=vals)))
sv = ds.sel(sv="G01")
x, y, z = (float(np.ravel(v)[0]) for v in gr.keplerian2ecef(sv))
g = lambda n: float(np.ravel(sv[n].values)[0])
n = math.sqrt(3.986004418e14 / g("sqrtA") ** 6) + g("DeltaN")
tk = (times(ds)[0] - (datetime(1980, 1, 6) + timedelta(weeks=g("GPSWeek")) + timedelta(seconds=g("Toe")))).total_seconds()
M = g("M0") + n * tk
E = M
for _ in range(200):
    E = M + g("Eccentricity") * math.sin(E)
ph = math.atan2(math.sqrt(1 - g("Eccentricity") ** 2) * math.sin(E), math.cos(E) - g("Eccentricity")) + g("omega")
rk = g("sqrtA") ** 2 * (1 - g("Eccentricity") * math.cos(E)) + g("Crc") * math.cos(2 * ph) + g("Crs") * math.sin(2 * ph)
eq(abs(math.sqrt(x * x + y * y + z * z) - rk) < 1e-3, True, "radius")
""")
