"""C18: conversion of all files of a directory"""
import bz2
import functools
import gzip
import io
import logging
import random
import tempfile
import zipfile
from datetime import timedelta
from pathlib import Path

import numpy as np

from . import lib as L
from . import nav as N
from . import scen as S
from .c17 import Tagged, attrs, compare_files, layout
from .lib import hl

BOUNDS = ("directories of up to 4 entries: OBS 2/3, NAV 2/3, SP3 and gzip-compressed files of 1 to 4 epochs or records with symbolic digits, unreadable files (empty, text that is "
          "no RINEX, unsupported version, unknown type, binary, cut-off header, record with an impossible satellite, not decodable, dangling link), links to files, subdirectories with matching names, "
          "names that do not match; globs on suffix, everything, subdirectories; use, meas, tlim, useindicators, fast; a second conversion into the same directory")
OUTSIDE = "more entries; which of two files of the same name is kept; failures of the disk"
ASSUMPTIONS = ["netCDF4/HDF5 and xarray store and return the bits of the numbers they are given"]
B = S.BASE

GOOD = ("obs2", "obs2b", "obs3", "nav2", "nav3", "sp3", "obs2gz", "obsx", "linked")
BAD = ("empty", "text", "version", "type", "binary", "cut", "badsat", "link", "badgz", "cutgz", "cutbz2", "cutzip", "cutcrx")


def gen(P, kind, tag):
    """-> (content bytes, expected content or None)"""
    Q = Tagged(P, tag)
    if kind in ("obs2", "obs2gz", "obsx", "linked"):
        f = S.build2(Q, dict(codes=["C1", "L1", "S1"], epochs=["G1,R2", "G1", "G2,R1"], offsets=[0, 30, 60], base=B, pad="0", ind=True))
    elif kind == "obs2big":
        f = S.build2(Q, dict(codes=["L1", "P2", "C1", "S1", "D1"], epochs=["G1-6", "G2-8", "G1"], offsets=[0, 30, 60], base=B, pad="0"))
    elif kind == "obs2b":
        f = S.build2(Q, dict(codes=["L1", "P2", "C1"], epochs=["G1-3", "R1"], offsets=[10, 40], base=B, pad="0", ind=True))
    elif kind == "obs3":
        f = S.build3(Q, dict(codes={"G": ["C1C", "L1C"], "R": ["C1C"]}, epochs=["G1,R2", "G3", "R1"], offsets=[0, 30, 60], base=B, ind=True))
    elif kind == "nav2":
        f = N.build(Q, dict(ver=2, kind="N", recs=[("G01", 0), ("G02", 40)], pad="0", base=B))
    elif kind == "nav3":
        f = N.build(Q, dict(ver=3, recs=[("R01", 0), ("G02", 40)], base=B))
    elif kind == "sp3":
        f = N.build_sp3(Q, dict(svs="G1-2", nep=2, vel=True))
    else:
        raise ValueError(kind)
    return f


@functools.lru_cache(None)
def broken(kind):
    """a compressed file that breaks off (its text is the same in every run)"""
    r = random.Random(5)
    t = [f"{'2.11':>9}           {'OBSERVATION DATA':20s}{'G':20s}RINEX VERSION / TYPE\n", f"{2:6d}    C1    L1".ljust(60) + "# / TYPES OF OBSERV\n", " " * 60 + "END OF HEADER\n"]
    for k in range(2000):
        t += [f" 18  5 13 {k // 60:2d} {k % 60:2d}  0.0000000  0  1G01\n" if k < 1440 else f" 18  5 14 {k // 60 - 24:2d} {k % 60:2d}  0.0000000  0  1G01\n",
              f"{r.randrange(10**10) / 1000:14.3f}  {r.randrange(10**10) / 1000:14.3f}  \n"]
    b = "".join(t).encode()
    if kind == "cutgz":
        z = gzip.compress(b, mtime=0)
    elif kind == "cutbz2":
        z = bz2.compress(b)
    elif kind == "cutzip":
        o = io.BytesIO()
        with zipfile.ZipFile(o, "w", zipfile.ZIP_DEFLATED) as zf:
            zf.writestr("x.18o", b)
        z = o.getvalue()
    else:
        z = b"1.0                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE\n" + b
        return z
    return z[:len(z) * 2 // 3]


def bad(P, kind, tag):
    Q = Tagged(P, tag)
    if kind == "empty":
        return b""
    if kind == "text":
        return ("not a RINEX file " + Q.char("w", "abc", "a") + "\n").encode() * 3
    if kind == "binary":
        return bytes(range(256))
    if kind == "badgz":
        return gzip.compress(b"x" * 1000, mtime=0)[:20]
    if kind.startswith("cut") and kind != "cut":
        return broken(kind)
    f = S.build2(Q, dict(codes=["C1", "L1"], epochs=["G1,R2", "G1"], pad="0", base=B))
    if kind == "version":
        v = Q.char("ver", "04567", "5")
        f.parts[0] = P.join(["     ", v, f.parts[0][6:]])
    elif kind == "type":
        v = Q.char("typ", "BHMX", "H")
        f.parts[0] = P.join([f.parts[0][:20], v, f.parts[0][21:]])
    elif kind == "cut":
        n = next(i for i, x in enumerate(f.parts) if "END OF HEADER" in str(x))
        return P.join(f.parts[:Q.choice("n", [2, n - 1], 2)])
    elif kind == "badsat":
        # strict reading of a record with a satellite number that does not exist
        i = next(i for i, x in enumerate(f.parts) if "G01R02" in plainstr(P, x))
        f.parts[i] = P.join([f.parts[i][:32], "G9", Q.char("sv", "789", "8"), f.parts[i][35:]])
    return P.join(f.parts)


def plainstr(P, s):
    if P.concrete:
        return s
    from symx.rewrite import plain

    return plain(s, False)


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())

    def __enter__(self):
        r = logging.getLogger()
        self.old = r.handlers[:], r.level, r.manager.disable
        r.handlers = [self]
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        r = logging.getLogger()
        r.handlers, level, off = self.old
        r.setLevel(level)
        logging.disable(off)


def tree(d):
    return {str(x.relative_to(d)): (x.read_bytes() if x.is_file() else None) for x in d.rglob("*")}


GLOBS = {"*o": lambda n: n.endswith("o") and "/" not in n, "*": lambda n: "/" not in n, "*.18*": lambda n: ".18" in n and "/" not in n,
         "**/*.18o": lambda n: n.endswith(".18o"), "a*": lambda n: n.startswith("a") and "/" not in n}


def options(P, cfg):
    o = {}
    for k, v in cfg.get("opts", {}).items():
        x = P.choice("opt-" + k, v, v[0]) if isinstance(v, list) else v
        if x is not None:
            o[k] = x
    if o.get("tlim"):
        o["tlim"] = (B + timedelta(seconds=o["tlim"][0]), B + timedelta(seconds=o["tlim"][1]))
    return o


def expected(P, f, kind, opts):
    """what the model says, where it is simple"""
    if kind == "sp3":
        return None
    if kind.startswith("nav"):
        exp = f.exp
        if "use" in opts and kind == "nav3":
            exp = [(t, {s: r for s, r in d.items() if s[0] in opts["use"]}) for t, d in exp]
        if "tlim" in opts:
            exp = [(t, d) for t, d in exp if bool(opts["tlim"][0] <= t) and bool(t <= opts["tlim"][1])]
        return exp
    if "tlim" in opts:
        k = [bool(opts["tlim"][0] <= t) and bool(t <= opts["tlim"][1]) for t, _ in f.exp]
        return S.expect(P, f, opts, 3 if kind == "obs3" else 2, keep=lambda i: k[i])
    return S.expect(P, f, opts, 3 if kind == "obs3" else 2)


def h(P, gr, cfg):
    opts = options(P, cfg)
    glob = P.choice("glob", cfg["globs"], cfg["globs"][0])
    names = []
    files = {}
    with tempfile.TemporaryDirectory(prefix="symx-") as d0:
        d0 = Path(d0)
        d = d0 / "in"
        d.mkdir()
        for k, (nms, kinds) in enumerate(cfg["slots"]):
            nm = P.choice(f"name{k}", nms, nms[0])
            kind = P.choice(f"kind{k}", kinds, kinds[0])
            if kind == "none" or nm in names:
                continue
            names.append(nm)
            p = d / nm
            p.parent.mkdir(exist_ok=True)
            f = None
            if kind == "dir":
                p.mkdir()
                (p / "inner.txt").write_text("x")
            elif kind == "link":
                p.symlink_to(d0 / "nowhere")
            elif kind in BAD:
                data = bad(P, kind, f"b{k}{kind}-")
                p.write_bytes(data if type(data) is bytes else P.carry(data).encode("ascii"))
            else:
                f = gen(P, kind, f"s{k}{kind}-")
                t = P.carry(P.join(f.parts)).encode("ascii")
                if kind == "linked":
                    p.symlink_to(d0 / f"store{k}")
                p.write_bytes(gzip.compress(t, mtime=0) if kind == "obs2gz" else t)
            files[nm] = (kind, f)
        before = tree(d)
        out = d0 / "out"
        out.mkdir()
        ref = d0 / "ref"
        ref.mkdir()
        form = P.choice("form", cfg.get("forms", ["path"]), cfg.get("forms", ["path"])[0])
        src = str(d) if form == "text" else d
        kw = dict(opts)
        again = cfg.get("again", False) and P.flag("again", False)
        with Log() as log:
            _, err = P.run(gr.batch_convert, src, glob, str(out) if form == "text" else out, **kw)
        P.check("completes" + ("" if err is None else ": " + type(err).__name__ + " " + str(err)[:50]), err is None)
        P.check("options unchanged", set(kw) == set(opts) and all(kw[k] is opts[k] for k in kw))
        P.check("the directory is as it was", tree(d) == before)
        want = set()
        for nm, (kind, f) in files.items():
            match = GLOBS[glob](nm) and kind not in ("dir", "link")
            base = nm.split("/")[-1]
            one = ref / (base + ".nc")
            with Log():
                ds, err = P.run(gr.load, d / nm, ref, **opts) if match else (None, None)
            if not match:
                P.check(f"{nm} does not match", True)
                continue
            if kind in BAD:
                P.check(f"{nm} ({kind}) cannot be read", err is not None)
            if err is not None:
                P.check(f"{nm} ({kind}) is readable: {type(err).__name__} {str(err)[:60]}", kind in BAD or one.exists() or cfg.get("mayfail", False))
                P.check(f"{nm} is reported", any(base in m for m in log.msgs))
                continue
            want.add(base + ".nc")
            got = out / (base + ".nc")
            P.check(f"{nm} is converted", got.is_file())
            if not got.is_file():
                continue
            a, e1 = read(P, gr, one, kind)
            b, e2 = read(P, gr, got, kind)
            P.check(f"{nm} reads", e1 is None and e2 is None)
            if e1 is not None or e2 is not None:
                continue
            layout(P, a, b, f"{nm} ")
            attrs(P, a.attrs, b.attrs, f"{nm} ")
            for v in a.variables:
                if v in b.variables:
                    P.check(f"{nm} {v} as from a single load", a[v].dtype == b[v].dtype and a[v].values.tobytes() == b[v].values.tobytes()
                            if a[v].dtype != object else list(a[v].values) == list(b[v].values))
            exp = expected(P, f, kind, opts)
            compare_files(P, f, {"obs2b": "obs2", "obs2gz": "obs2", "obsx": "obs2", "linked": "obs2", "obs2big": "obs2"}.get(kind, kind), exp, b, f"{nm} ")
        P.check(f"nothing else is written: {sorted(set(tree(out)) ^ want)}", set(tree(out)) == want)
        if again:
            first = tree(out)
            with Log() as log:
                _, err = P.run(gr.batch_convert, d, glob, out, **opts)
            P.check("completes again", err is None)
            P.check("existing output is left as it was", {k: v for k, v in tree(out).items() if files[k[:-3]][0] != "sp3"} == {k: v for k, v in first.items() if files[k[:-3]][0] != "sp3"})
            for nm in want:
                if files[nm[:-3]][0] != "sp3":
                    P.check(f"{nm} is reported", any(nm[:-3] in m for m in log.msgs))


def read(P, gr, path, kind):
    if kind == "sp3":
        import xarray

        return P.run(xarray.load_dataset, path)
    return P.run(gr.load, path)


def cfgs():
    out = []

    def add(name, weight=3, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    for b in BAD:
        add(f"bad-{b}", 2, slots=[(["a.18o"], [b]), (["b.18o"], ["obs2", "obs3"]), (["c.18o"], [b]), (["0.18o"], ["nav3"])], globs=["*o"])
    add("kinds", 4, slots=[(["a.18o"], list(GOOD)), (["b.18o"], ["obs2b", "text"])], globs=["*o"], forms=["path", "text"])
    add("kindsdef", 4, "thorough", slots=[(["a.18o"], list(GOOD)), (["b.18o"], list(GOOD)), (["c.18o"], ["empty"])], globs=["*o", "*"], forms=["path", "text"])
    for n, g in enumerate(("*o", "*", "*.18*", "**/*.18o", "a*")):
        add(f"names{n}", 3, slots=[(["a.18o", "a.txt", "A.18O", "b.18O.o"], ["obs2"]), (["sub/a1.18o", "a.18n", ".18o"], ["obs2b", "none"]), (["b.18o", "sub.18o"], ["dir", "text"])],
            globs=[g])
    add("fast", 4, slots=[(["a.18o"], ["obs2big"]), (["b.18o"], ["obs2big", "text"])], globs=["*o"], opts=dict(fast=[None, False]))
    add("meas", 4, slots=[(["a.18o"], ["obs2", "nav2"]), (["b.18o"], ["obs2b", "text"]), (["c.18o"], ["obs3"])], globs=["*o"], opts=dict(meas=[["C1"], ["L1", "C1"], "C1", None]))
    add("use", 4, slots=[(["a.18o"], ["obs2"]), (["b.18o"], ["obs2b", "text"]), (["c.18o"], ["nav3", "obs3"])], globs=["*o"], opts=dict(use=[{"G"}, ["R"], "G", ("R", "G"), None]))
    add("win", 4, slots=[(["a.18o"], ["obs2"]), (["b.18o"], ["obs2b", "text"]), (["c.18o"], ["nav3", "obs3"])], globs=["*o"], opts=dict(tlim=[(0, 30), (5, 60), None]))
    add("ind", 4, slots=[(["a.18o"], ["obs2"]), (["b.18o"], ["obs2b", "text"]), (["c.18o"], ["obs3"])], globs=["*o"], opts=dict(useindicators=True, fast=[None, False]))
    add("again", 4, slots=[(["a.18o"], ["obs2", "nav3", "sp3"]), (["b.18o"], ["obs2b", "text"])], globs=["*o"], again=True)
    for kind in ("obs2", "obs3"):
        add("pairs" + kind, 4, slots=[(["a.18o"], [kind])], globs=["*o"], opts=dict(meas=[None, ["L1"] if kind == "obs2" else ["C1"]], use=[None, {"G"}], tlim=[None, (0, 40)], useindicators=[None, True], fast=[None, False]))
    add("alloptions", 6, "thorough", slots=[(["a.18o"], ["obs2", "obs3"]), (["b.18o"], ["obs2b", "text", "nav3"]), (["c.18o"], ["obs3", "nav2", "cut"])], globs=["*o"],
        opts=dict(meas=[None, ["C1"]], use=[None, {"G"}], tlim=[None, (0, 40)], useindicators=[None, True], fast=[None, False]))
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
