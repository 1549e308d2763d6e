"""C17: NetCDF output and what is read back"""
import tempfile
from pathlib import Path

from . import lib as L
from . import nav as N
from . import scen as S
from .c14 import position
from .lib import hl

BOUNDS = ("OBS 2/3 and NAV 2/3 of 1 to 3 epochs or records, with and without indicators, use, meas, tlim and interval; output file given as path or text, output directory, unusable "
          "output; histories of up to 4 operations on one file: write OBS or NAV of two inputs, with or without overwrite, read (the data kept and looked at again at the end); every "
          "digit symbolic, numbers of every width and sign; values that could stand for missing data in the file written")
OUTSIDE = "what overwriting one group does to the other one; SP3 (the file is read back with xarray only); writers in other processes"
ASSUMPTIONS = ["netCDF4/HDF5 and xarray store and return the bits of the numbers they are given (checked for the values of each run)"]


def models(P, cfg, what, tag=""):
    """-> (parts, expected content)"""
    extra = [hl(P, *x) for x in cfg.get("extra", ())]
    if cfg.get("pos"):
        t, pos = position(P)
        extra.append(hl(P, t, "APPROX POSITION XYZ"))
    m = dict(cfg.get("model", {}))
    if tag:
        P = Tagged(P, tag)
    if what == "obs2":
        f = S.build2(P, dict(dict(nobs=3, epochs=["G1,R2", "G1"], extra=extra, symt={1: "S"}, pad="0", ind=cfg.get("ind")), **m))
    elif what == "obs3":
        f = S.build3(P, dict(dict(codes={"G": 2, "R": 1}, epochs=["G1,R2", "G1"], extra=extra, symt={1: "S"}, ind=cfg.get("ind")), **m))
    elif what == "nav2":
        f = N.build(P, dict(dict(ver=2, kind=cfg.get("kind", "N"), recs=[("G01", 0), ("G02", 900)], symt={1: "S"}, pad="0"), **m))
    elif what == "nav3":
        f = N.build(P, dict(dict(ver=3, recs=[("R01", 0), ("G02", 900)], symt={1: "S"}), **m))
    else:
        f = N.build_sp3(P, dict(dict(svs="G1-2", nep=2, vel="sym"), **m))
    return f


class Tagged:
    """the same inputs under other names"""

    def __init__(self, P, tag):
        self.__dict__["_p"] = P
        self.__dict__["_t"] = tag

    def __getattr__(self, k):
        a = getattr(self._p, k)
        if k in ("char", "choice", "ivar", "flag"):
            return lambda name, *r, **kw: a(self._t + name, *r, **kw)
        return a


def expected(P, f, what, opts):
    if what == "sp3":
        return None
    if what.startswith("nav"):
        return f.exp
    return S.expect(P, f, opts, 2 if what == "obs2" else 3)


def attr_same(P, what, a, b):
    """attribute written and read back"""
    import numpy as np

    if isinstance(a, (list, tuple, np.ndarray)) and np.ndim(a):
        b = list(np.atleast_1d(b))
        a = list(a)
        P.check(what + " length", len(a) == len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            attr_same(P, f"{what}[{k}]", x, y)
    elif isinstance(a, str):
        P.check(what, str(a) == str(b))
    elif hasattr(a, "t"):
        P.expect_float(what, float(b), a)
    elif isinstance(a, (float, np.floating)):
        # computed from the arrays
        P.check(what, a == b or a != a and b != b)
    else:
        P.check(what, bool(np.all(np.asarray(a) == np.asarray(b))))


def compare_files(P, f, what, exp, ds, label):
    if what == "sp3":
        N.cmp_sp3(P, ds, f, label)
    else:
        L.compare(P, ds, exp, what=label)


def stands_for_missing(P, target, group, ds):
    """no printed value is one that the file uses for a missing one; numbers are stored as they are"""
    import numpy as np
    import xarray

    raw = xarray.load_dataset(target, group=group, mask_and_scale=False, decode_times=False)
    for v in raw.data_vars:
        if v not in ds or ds[v].dtype.kind != "f":
            continue
        P.check(f"{v} stored in double precision", raw[v].dtype == np.float64)
        P.check(f"{v} stored unscaled", not {"scale_factor", "add_offset"} & set(raw[v].attrs))
        for k in ("_FillValue", "missing_value"):
            for m in np.atleast_1d(raw[v].attrs.get(k, np.nan)).tolist():
                if m != m:
                    continue
                for g in ds[v].values.ravel().tolist():
                    c = {} if P.concrete else P.freg.get(g) or {}
                    if len(c) == 1:
                        P.check(f"{v} is not taken for missing ({k})", next(iter(c.values())) != float(m))
                    else:
                        P.check(f"{v} is not taken for missing ({k})", g != m)


def attrs(P, a, b, label):
    P.check(f"{label}attributes {sorted(set(map(str, a)) ^ set(map(str, b)))}", set(map(str, a)) == set(map(str, b)))
    for k in a:
        if k in b:
            attr_same(P, f"{label}attribute {k}", a[k], b[k])


def layout(P, a, b, label):
    """same variables, dimensions, coordinates"""
    P.check(label + "variables", list(map(str, a.data_vars)) == list(map(str, b.data_vars)))
    P.check(label + "coordinates", sorted(map(str, a.coords)) == sorted(map(str, b.coords)))
    for v in a.variables:
        if v in b.variables:
            P.check(f"{label}dimensions of {v}", a[v].dims == b[v].dims and a[v].shape == b[v].shape)
    if "sv" in a.coords and "sv" in b.coords:
        P.check(label + "satellites", [str(x) for x in a["sv"].values] == [str(x) for x in b["sv"].values])


def h(P, gr, cfg):
    what = cfg["what"]
    opts = dict(cfg.get("opts", {}))
    f = models(P, cfg, what)
    exp = expected(P, f, what, opts)
    if what == "obs2":
        opts["fast"] = P.flag("fast", False)
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        d = Path(d)
        src = P.file(f.parts)
        form = P.choice("out", cfg.get("outs", ["path", "text", "dir"]), "path")
        if form == "dir":
            t = P.carry(P.join(f.parts))
            nm = P.choice("name", ["x.18o", "x.y.rnx", "x", "x 1.obs"], "x.18o")
            src = d / nm
            src.write_text(t)
            out = d / "o.nc" if P.flag("ncdir", False) else d / "outdir"
            out.mkdir()
            target = out / (nm + ".nc")
        else:
            target = d / P.choice("target", cfg.get("targets", ["a.nc", "a.b.nc", "x y.nc"]), "a.nc")
            out = str(target) if form == "text" else target
        ds, err = P.run(gr.load, src, out, **opts)
        P.check("loads" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is not None:
            return
        compare_files(P, f, what, exp, ds, "returned ")
        P.check("written", target.is_file())
        left = sorted(str(x.relative_to(d)) for x in d.rglob("*") if x.is_file() and x != target and x != src)
        P.check("nothing else written", left == [])
        if not target.is_file():
            return
        if what == "sp3":
            import xarray

            back, err = P.run(xarray.load_dataset, target)
        else:
            back, err = P.run(gr.load, target if "targets" in cfg or P.flag("readpath", True) else str(target))
        P.check("read back" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is not None:
            return
        compare_files(P, f, what, exp, back, "read back ")
        layout(P, ds, back, "read back ")
        stands_for_missing(P, target, None if what == "sp3" else what[:3].upper(), ds)
        attrs(P, ds.attrs, back.attrs, "read back ")
        if what != "sp3":
            fn = gr.rinexobs if what.startswith("obs") else gr.rinexnav
            back, err = P.run(fn, target)
            P.check("read by kind", err is None)
            if err is None:
                compare_files(P, f, what, exp, back, "by kind ")
            info, err = P.run(gr.rinexinfo, target)
            P.check("info", err is None)
            if err is None:
                P.check("kind", info["rinextype"] == what[:3])
                attr_same(P, "version", ds.attrs["version"], info["version"])


def h_bad(P, gr, cfg):
    """unusable output arguments"""
    what = cfg["what"]
    f = models(P, cfg, what)
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        d = Path(d)
        nm = P.choice("name", ["a.txt", "a", "a.nc.gz", "a.cdf", "nodir/a.nc", "nodir/b"], "a.txt")
        out = d / nm
        if P.flag("text", False):
            out = str(out)
        ds, err = P.run(gr.load, P.file(f.parts), out)
        P.check(f"{nm} is rejected", err is not None)
        P.check("nothing written", sorted(x.name for x in d.rglob("*")) == [])


class FileModel:
    """what a NetCDF file has to hold: group -> (what, model, expectation)"""

    def __init__(self):
        self.groups = {}
        self.maybe = {}


def check_read(P, gr, m, target, label):
    r, err = P.run(gr.load, target)
    P.check(f"{label}reads" + ("" if err is None else ": " + type(err).__name__ + str(err)[:60]), err is None)
    if err is not None:
        return None
    got = {("NAV" if k == "nav" else "OBS"): v for k, v in r.items()} if isinstance(r, dict) else {"NAV" if r.attrs["rinextype"] == "nav" else "OBS": r}
    for g in got:
        P.check(f"{label}group {g} expected", g in m.groups or g in m.maybe)
    for g, (what, f, exp) in m.groups.items():
        P.check(f"{label}group {g} present", g in got)
    for g, ds in got.items():
        e = m.groups.get(g) or m.maybe.get(g)
        if e:
            compare_files(P, e[1], e[0], e[2], ds, f"{label}{g} ")
    return r


def h_hist(P, gr, cfg):
    mods = {}

    def mod(what, tag):
        if (what, tag) not in mods:
            f = models(P, cfg, what, tag + what)
            mods[what, tag] = (what, f, expected(P, f, what, {}))
        return mods[what, tag]

    ops = [(g, t, o) for g in cfg["kinds"] for t in ("a", "b") for o in (False, True)] + ["read"]
    m = FileModel()
    held = []
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        target = Path(d) / "h.nc"
        for n in range(cfg["steps"]):
            op = cfg["first"] if n == 0 and "first" in cfg else P.choice(f"op{n}", ops, "read" if n else ops[0])
            if op == "read":
                if not m.groups and not m.maybe:
                    _, err = P.run(gr.load, target)
                    P.check(f"{n}: no file to read", err is not None)
                    continue
                r = check_read(P, gr, m, target, f"{n}: ")
                if r is not None:
                    held.append((r, dict(m.groups), dict(m.maybe)))
                continue
            what, tag, over = op
            e = mod(what, tag)
            g = what[:3].upper()
            kw = dict(fast=False) if what == "obs2" else {}
            if over:
                kw["overwrite"] = True
            before = target.read_bytes() if target.exists() else None
            ds, err = P.run(gr.load, P.file(e[1].parts), target, **kw)
            if g in m.groups and not over:
                P.check(f"{n}: writing {g} again is refused", err is not None)
                P.check(f"{n}: the file is as it was", target.read_bytes() == before)
                continue
            if g in m.maybe and not over:
                # whether the group survived the overwriting of the other one is unspecified
                if err is not None:
                    P.check(f"{n}: the file is as it was", target.read_bytes() == before)
                    m.groups[g] = m.maybe.pop(g)
                    continue
            P.check(f"{n}: writes {g}" + ("" if err is None else ": " + type(err).__name__ + " " + str(err)[:60]), err is None)
            if err is not None:
                return
            compare_files(P, e[1], what, e[2], ds, f"{n}: returned ")
            m.maybe.pop(g, None)
            if over:
                m.maybe.update({k: v for k, v in m.groups.items() if k != g})
                m.groups = {g: e}
            else:
                m.groups[g] = e
        if m.groups:
            check_read(P, gr, m, target, "end: ")
        for k, (r, groups, maybe) in enumerate(held):
            got = {("NAV" if q == "nav" else "OBS"): v for q, v in r.items()} if isinstance(r, dict) else {"NAV" if r.attrs["rinextype"] == "nav" else "OBS": r}
            for g, ds in got.items():
                e = groups.get(g) or maybe.get(g)
                if e:
                    compare_files(P, e[1], e[0], e[2], ds, f"held {k} {g} ")


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", fn=h, **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    for w in ("obs2", "obs3", "nav2", "nav3", "sp3"):
        add(w, 3, what=w, pos=w.startswith("obs"))
        add(w + "dir", 3, what=w, outs=["dir"])
        add(w + "bad", 1, fn=h_bad, what=w)
    for w in ("obs2", "obs3"):
        add(w + "ind", 2, what=w, outs=["path"], ind=True, opts=dict(useindicators=True), model=dict(codes=["L1", "C1", "S1"]) if w == "obs2" else dict(codes={"G": ["L1C", "S1C"], "E": ["C5Q", "L5Q"]}, epochs=["G1,E2", "E2"]))
        add(w + "use", 2, what=w, outs=["path"], opts=dict(use={"G"}))
        add(w + "meas", 2, what=w, outs=["path"], opts=dict(meas=["C1"]), model=dict(symt={}, codes=["L1", "C1", "S1"]) if w == "obs2" else dict(codes={"G": ["L1C", "C1C"]}, epochs=["G1-3", "G2"]))
        add(w + "blank", 2, what=w, outs=["path"], model=dict(fixed={(0, 0, 0): "blank", (1, 0, 1): "blank"}, vary=[(0, 0, 1)], symt={0: "f"}))
        add(w + "hdr", 2, what=w, outs=["path"], pos=True, extra=[("Yes  OBSERVER", "OBSERVER / AGENCY"), ("     1", "RCV CLOCK OFFS APPL"), ("123                 TRIMBLE NETR9       4.17", "REC # / TYPE / VERS")])
        add(w + "digits", 2, what=w, outs=["path"], targets=["a.nc"], model=dict(symt={}, epochs=["G1", "G1"], vary=[(0, 0, 0)], styles=["full", "zero"] + [f"{x}{n}" for x in ("pos", "neg") for n in range(1, 9)]))
    for w in ("nav2", "nav3"):
        add(w + "sign", 2, what=w, outs=["path"], targets=["a.nc"], model=dict(symt={}, recs=[("G01", 0), ("G02", 900)], vary=[(0, 3), (1, 28)], styles=["full", "sign", "zero"]))
    add("obs3many", 2, what="obs3", outs=["path"], model=dict(codes={"G": 13, "R": 2, "E": 14, "S": 1}, epochs=["G1-3,R2,E1,S20", "E1,G7", "S20,R2"], symt={2: "S"}))
    add("obs3clk", 2, what="obs3", outs=["path"], model=dict(clk={0: "  .123456789012", 1: "-0.000000000001"}))
    add("nav3all", 2, what="nav3", outs=["path"], model=dict(recs=[("R05", 0), ("C01", 60), ("S20", 120), ("J01", 30), ("E05", 0), ("I02", 90), ("G07", 15), ("G07", 15)], symt={}))
    add("nav2glo", 2, what="nav2", outs=["path"], kind="G", model=dict(recs=[("R05", 0), ("R06", 900)]))
    add("nav2gal", 2, what="nav2", outs=["path"], kind="E", model=dict(recs=[("E05", 0), ("E06", 900)]))
    sm = dict(model=dict(symt={}))
    for v, ko, kn in (("2", "obs2", "nav2"), ("3", "obs3", "nav3")):
        for w in (ko, kn):
            for t, o in (("a", False), ("a", True)):
                for n, tier in ((3, "quick" if v == "2" and not (o and w == kn) or v == "3" and not o and w == kn else "thorough"), (4, "thorough")):
                    add(f"hist{n}{w}{t}{int(o)}", 8, tier, fn=h_hist, kinds=[ko, kn], steps=n, first=(w, t, o), max_paths=8000, **sm)
    add("histmix", 8, "thorough", fn=h_hist, kinds=["obs2", "nav3"], steps=3, first=("nav3", "a", False), **sm)
    return out


def configs(tier):
    out = []
    for c in cfgs():
        if tier == "thorough" or c["tier"] == "quick":
            c = dict(c)
            mp = c["cfg"].pop("max_paths", None) if "max_paths" in c["cfg"] else None
            if mp:
                c["max_paths"] = mp
            out.append(c)
    return out
