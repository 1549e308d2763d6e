"""C20: table of receiver locations"""
import functools
import gzip
import importlib
import io
import random
import string
import tempfile
from pathlib import Path

from . import lib as L
from . import nav as N
from . import scen as S
from .c14 import geodetic, position, version
from .c17 import Tagged
from .c18 import bad
from .lib import hl

BOUNDS = ("lists of up to 4 inputs, the empty one among them (files, files in gzip, bzip2, LZW and zip containers, Hatanaka-compacted files, NetCDF conversions, text streams, mixed), each an OBS 2/3 or NAV 2/3 file with or without a position and an interval in the header, or "
          "one that cannot be read, in every order; positions also zero and negative; every digit of positions and intervals symbolic; the same file name in two directories; a single file or stream instead of a list; streams at any position")
OUTSIDE = "the conversion of ECEF to geodetic coordinates itself (pymap3d, an uninterpreted function); longer lists"
ASSUMPTIONS = ["netCDF4/HDF5 and xarray store and return the bits of the numbers they are given", "pymap3d.ecef2geodetic is a function of its three arguments"]
B = S.BASE
BADK = ("empty", "text", "version", "type", "binary", "cut", "badgz", "cuthdr", "nogz", "nc-nav", "nc-text", "nc-cut")


def source(P, kind, tag, pos, interval, style="full", ivd=4):
    """-> (parts, position, interval)"""
    Q = Tagged(P, tag)
    extra, p, iv, ivt = [], None, None, None
    if pos:
        t, p = position(Q, style)
        extra.append(hl(P, t, "APPROX POSITION XYZ"))
    if interval:
        ivt, iv = L.number(Q, "iv" if ivd == 4 else f"iv{ivd}-", 10, 3, ivd)
    extra.append(hl(P, "name", "MARKER NAME"))
    if kind in ("obs2", "obs3"):
        if kind == "obs2":
            f = L.Obs2(P, ["C1", "L1"], extra=extra[::-1] if interval else extra, interval=ivt)
        else:
            f = L.Obs3(P, {"G": ["C1C", "L1C"]}, extra=extra, interval=ivt)
        for k in range(2):
            f.epoch(L.T(Q, f"t{k}", B.replace(second=20 + 7 * k), "", pad="0"), ["G05"], {"G05": L.obsrec(Q, f"o{k}", 2)})
        return f.parts, p, iv
    f = N.Nav(P, 2 if kind == "nav2" else 3, "N", extra=[hl(P, "name", "COMMENT")])
    f.record("G05", L.T(Q, "t", B, "", pad="0", nfrac=1), N.vals(Q, "v", 29 if kind == "nav2" else 29, lambda k: "full" if k < 2 else "zero"))
    return f.parts, None, None


@functools.lru_cache(None)
def noise(kind):
    """a compressed file that breaks off in its header; one that is not compressed although its name says so"""
    if kind == "nogz":
        return b"no RINEX, not compressed\n"
    r = random.Random(7)
    t = [f"{'2.11':>9}           {'OBSERVATION DATA':20s}{'G':20s}RINEX VERSION / TYPE\n"]
    t += ["".join(r.choice(string.ascii_letters) for _ in range(60)) + "COMMENT\n" for _ in range(400)]
    z = gzip.compress("".join(t).encode(), mtime=0)
    return z[:len(z) // 2]


class Sheet:
    """the inputs in the order given and the rows expected of them"""

    def __init__(self):
        self.files, self.rows, self.keep = [], [], []


def put(P, gr, d, sheet, k, slot):
    kind = P.choice(f"kind{k}", slot["kinds"], slot["kinds"][0])
    tag = f"s{k}{kind}-"
    if kind == "none":
        return
    i = len(sheet.files)
    name = slot.get("name", f"f{k}.18o")
    sub = d / slot.get("dir", ".")
    sub.mkdir(exist_ok=True)
    p = sub / name
    form = P.choice(f"form{k}", slot.get("forms", ["file"]), slot.get("forms", ["file"])[0])
    if kind in BADK:
        if kind in ("nc-nav", "nc-text", "nc-cut"):
            p = sub / (name + ".nc")
            if kind == "nc-text":
                p.write_text("no NetCDF\n")
            elif kind == "nc-cut":
                p.write_bytes(b"\x89HDF\r\n\x1a\n" + bytes(40))
            else:
                parts, _, _ = source(P, "nav3", tag, False, False)
                (sub / "raw").write_bytes(P.carry(P.join(parts)).encode("ascii"))
                _, err = P.run(gr.load, sub / "raw", p)
                P.check(f"{name} conversion", err is None)
        else:
            data = noise(kind) if kind in ("cuthdr", "nogz") else bad(P, kind, f"b{k}{kind}-")
            if kind in ("badgz", "cuthdr", "nogz"):
                p = sub / (name + ".gz")
            if form == "stream" and type(data) is not bytes:
                sheet.files.append(stream(P, k, [data], slot.get("at")))
                return
            p.write_bytes(data if type(data) is bytes else P.carry(data).encode("ascii"))
        sheet.files.append(p)
        return
    nav = kind.startswith("nav")
    pos = not nav and P.flag(f"pos{k}", True) if slot.get("pos") is None else slot["pos"] and not nav
    interval = not nav and P.flag(f"int{k}", True) if slot.get("int") is None else slot["int"] and not nav
    parts, xyz, iv = source(P, kind, tag, pos, interval, slot.get("style", "full"))
    key = name
    if form == "stream":
        sheet.files.append(stream(P, k, parts, slot.get("at")))
        key = str(i)
    else:
        t = P.carry(P.join(parts)).encode("ascii")
        if form == "gz":
            p = sub / (name + ".gz")
            p.write_bytes(gzip.compress(t, mtime=0))
        elif ":" in form:
            from .c16 import put as container

            crx, kind2, suffix = form.split(":")
            p, _, _ = container(P, parts, sub, kind2, name + suffix, crx=bool(crx))
        elif form == "nc":
            raw = sub / f"raw{k}"
            raw.write_bytes(t)
            p = sub / (name + ".nc")
            ds, err = P.run(gr.load, raw, p)
            P.check(f"{name} conversion", err is None)
            if err is not None:
                return
            if iv is None:
                iv = ds.attrs.get("interval")
        else:
            p.write_bytes(t)
        sheet.files.append(p)
        key = p.name
    if pos:
        sheet.rows.append((key, geodetic(P, xyz)[:2], iv))


def stream(P, k, parts, every=False):
    if P.concrete:
        s = io.StringIO("".join(parts))
        n = len(s.getvalue())
    else:
        s = P.file(parts)
        n = sum(len(x) for x in parts)
    at = P.choice(f"at{k}", [0, 1, 81, n // 2, n] if every else [n // 3], 0 if every else n // 3)
    s.seek(at)
    return s


def number(P, what, got, exp):
    try:
        g = got if isinstance(got, float) else float(got)
    except (TypeError, ValueError):
        P.check(what, False)
        return
    P.expect_float(what, g, exp)


def h(P, gr, cfg):
    geo = importlib.import_module(gr.__name__ + ".geo")
    sheet = Sheet()
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        d = Path(d)
        order = list(range(len(cfg["slots"])))
        n = P.choice("rotate", list(range(len(order))), 0) if cfg.get("rotate") else 0
        for k in order[n:] + order[:n]:
            put(P, gr, d, sheet, k, cfg["slots"][k])
        arg = sheet.files
        if len(arg) == 1 and P.flag("bare", True):
            arg = arg[0]
        elif cfg.get("tuple") and P.flag("tuple", False):
            arg = tuple(arg)
        was = list(sheet.files)
        tab, err = P.run(geo.get_locations, arg)
        P.check("answers" + ("" if err is None else ": " + type(err).__name__ + " " + str(err)[:50]), err is None)
        if err is not None:
            return
        P.check("list unchanged", len(was) == len(sheet.files) and all(a is b for a, b in zip(was, sheet.files)))
        P.check("columns", sorted(tab.columns) == ["interval", "lat", "lon"])
        if sorted(tab.columns) != ["interval", "lat", "lon"]:
            return
        P.check(f"rows {list(tab.index)}, expected {[r[0] for r in sheet.rows]}", [str(x) for x in tab.index] == [r[0] for r in sheet.rows])
        if len(tab) != len(sheet.rows):
            return
        for r, (key, ll, iv) in enumerate(sheet.rows):
            number(P, f"{key} latitude", tab["lat"].iloc[r], ll[0])
            number(P, f"{key} longitude", tab["lon"].iloc[r], ll[1])
            g = tab["interval"].iloc[r]
            if iv is None:
                P.check(f"{key} no interval", g is None or g != g)
            else:
                number(P, f"{key} interval", g, iv)


def cfgs():
    out = []

    def add(name, slots, weight=2, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=dict(slots=slots, **cfg), weight=weight, tier=tier))

    o = ["obs2", "obs3"]
    every = [*o, "nav2", "nav3"]
    add("one", [dict(kinds=every, forms=["file", "gz", "nc", "stream"], at=True)])
    for f in ("file", "nc", "stream"):
        add(f"signs-{f}", [dict(kinds=o, forms=[f], style="signs", pos=True), dict(kinds=["obs2"], style="neg")], 3)
        add(f"axes-{f}", [dict(kinds=["obs3"], int=False, pos=True), dict(kinds=o, forms=[f], style="axes", pos=True, int=False), dict(kinds=["obs2"], int=True, pos=True)], 3)
    for n, f in enumerate(("file", "gz", "nc", "stream")):
        add(f"two-{f}", [dict(kinds=["obs2", "nav3"], forms=[f]), dict(kinds=["obs3", "nav2"], forms=[f], at=True)], 3)
        add(f"three-{f}", [dict(kinds=["obs2"], forms=[f]), dict(kinds=["obs3"], forms=[f]), dict(kinds=["obs2"], forms=["file", "stream"][n % 2:][:1])], 4)
    add("mix", [dict(kinds=["obs2"], forms=["stream", "file"]), dict(kinds=["obs3"], forms=["nc", "gz"], pos=True), dict(kinds=["nav2", "obs2"], int=False, forms=["file"])], 4, rotate=True)
    add("same", [dict(kinds=["obs2"], name="x.18o", dir="a"), dict(kinds=["obs3"], name="x.18o", dir="b"), dict(kinds=["obs2"], name="x.18o", dir="c", forms=["file", "nc"])], 4)
    fs = [":Z:.Z", ":zip:.zip", ":bz2:.bz2", ":gz:.gz", ":gz:.GZ", ":Z:", ":gz:", ":plain:.RNX", ":plain:.tar"]
    cs = ["crx:plain:.crx", "crx:gz:.crx.gz", "crx:Z:.Z", "crx:bz2:.bz2", "crx:zip:.zip", "crx:plain:"]
    for k in o:
        add(f"pack-{k}", [dict(kinds=[k], forms=fs + cs), dict(kinds=["obs3"], forms=[":Z:.Z", ":gz:.gz"], int=False)], 4, rotate=True)
        add(f"names-{k}", [dict(kinds=[k], name=n, pos=True, forms=["file", ":gz:.gz"]) for n in ("a b.18o", "A.18O.Z.rnx", "x", ".18o")], 2)
    for b in BADK:
        add(f"bad-{b}", [dict(kinds=["obs2"], int=True), dict(kinds=[b], forms=["file", "stream"] if b in ("empty", "text", "version", "type", "cut") else ["file"]), dict(kinds=["obs3", b] if b != "version" else ["obs3"])], 3, rotate=True)
    add("allbad", [dict(kinds=["none", "text", "nav3"]), dict(kinds=["empty", "version"]), dict(kinds=["nav2", "none"])], 2, tuple=True)
    add("none", [dict(kinds=["none", "text", "obs2"])], 1, tuple=True)
    add("four", [dict(kinds=["obs2"], int=False), dict(kinds=["obs3"]), dict(kinds=["obs2", "text"]), dict(kinds=["obs3"], int=True)], 4, tuple=True)
    add("five", [dict(kinds=["obs2"], forms=["file", "nc"]), dict(kinds=["obs3"]), dict(kinds=["obs2", "text"]), dict(kinds=["obs3"], forms=["stream", "file"]), dict(kinds=["nav3", "obs2"])], 6, "thorough", rotate=True)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
