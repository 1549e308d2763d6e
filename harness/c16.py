"""C16: containers and file names"""
import bz2
import gzip
import io
import os
import tempfile
import zipfile
from pathlib import Path

from . import lib as L
from . import nav as N
from . import scen as S
from .c14 import PRINT, same, txt
from .c12 import sorted_unique
from .lib import hl

BOUNDS = ("plain, gzip, bzip2, LZW and single-member zip containers, each also around Hatanaka-compacted OBS files, and StringIO of both; proper, upper-case, neutral and missing "
          "suffixes; path objects and path strings; LF and CRLF lines; a last line without line end; gzip files of several members and bzip2 files of several streams; leading blank lines; headers of up to 110 lines; OBS 2/3, NAV 2/3, SP3 of 1 to 3 epochs or records; digits and header text symbolic; bytes that are not ASCII in the header text")
OUTSIDE = "zip archives of several files; suffixes of another container; files above 100 MB; the decompression algorithms themselves (libraries)"
ASSUMPTIONS = ["gzip, bz2, zipfile, ncompress and hatanaka restore the text they compressed whatever its digits (it is checked for the digits of each run)"]

SUFFIX = {"plain": ["t.18o", "t.RNX", "t", "t.21d", "t.txt", "t 1.x.y"], "gz": ["t.gz", "t.18o.GZ", "t", "t.18o"], "bz2": ["t.bz2", "t.rnx.BZ2", "t", "t.dat"],
          "zip": ["t.zip", "t.ZIP", "t", "t.18o"], "Z": ["t.18o.Z", "t.z", "t", "t.18o"]}
CRX = {"plain": ["t.crx", "t.18d", "t", "t.18o", "t.CRX"], "gz": ["t.crx.gz", "t.18D.GZ", "t"], "bz2": ["t.crx.bz2", "t"], "zip": ["t.zip", "t.crx"], "Z": ["t.18d.Z", "t.z", "t"]}


def pack(data, kind, path, multi=False):
    """multi: the compressed file is several ones, one after another (as cat makes it)"""
    if kind in ("gz", "bz2") and multi:
        z = (lambda x: gzip.compress(x, mtime=1500000000)) if kind == "gz" else bz2.compress
        n = len(data) // 3
        data = z(data[:n]) + z(data[n:n + 7]) + z(b"") + z(data[n + 7:])
    elif kind == "gz":
        data = gzip.compress(data, mtime=0)
    elif kind == "bz2":
        data = bz2.compress(data)
    elif kind == "Z":
        from ncompress import compress

        data = compress(data)
    elif kind == "zip":
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("inner.rnx", data)
        return
    path.write_bytes(data)


def trimall(P, parts):
    return [L.trim(P, x) for x in parts]


TOKEN = "Univ. QQ7"


def put(P, parts, d, kind, name, crx=False, crlf=False, blank=0, foreign=None, noeol=False, multi=False):
    """write the text described by parts into a container -> (path, symbolic text as it is read, symbolic header text of the compacted file)"""
    parts = ["\n"] * blank + list(parts)
    if crx:
        parts = trimall(P, parts)
    text = P.join(parts)
    t = P.carry(text)
    data = t
    chdr = None
    if crx:
        from hatanaka import crx2rnx, rnx2crx

        data = rnx2crx(t)
        back = crx2rnx(data)
        P.assume(back == t)  # the compaction is outside
        # the header of the compacted file repeats the lines of the header
        n = next(i for i, x in enumerate(parts) if "END OF HEADER" in plainstr(P, x)) + 1
        first = "".join(data.splitlines(True)[:2])
        rest = "".join(data.splitlines(True)[2 + n:])
        hdr = [P.join([L.lj(P, x[:-1], 80), "\n"]) for x in parts[:n]]
        ctext = P.join([first, *hdr, rest])
        if plainstr(P, ctext) != data:
            ctext = P.join([first, *parts[:n], rest])
        assert plainstr(P, ctext) == data, "header of the compacted file"
        P.carry(ctext)
        chdr = P.join([first, *parts[:n]])
    if crlf:
        # the symbolic text regained from native readers may still have the carriage returns
        P.carry(P.join([P.join([x[:-1], "\r\n"]) for x in parts]) if not crx else data.replace("\n", "\r\n"))
        data = data.replace("\n", "\r\n")
    path = Path(d) / name
    if noeol:
        data = data[:-2] if crlf else data[:-1]
        P.carry(text[:-1])
        if crlf:
            P.carry(P.join([P.join([x[:-1], "\r\n"]) for x in parts])[:-2])
    data = data.encode("ascii")
    if foreign:
        # bytes that are no ASCII characters
        assert data.count(TOKEN.encode()) == 1
        data = data.replace(TOKEN.encode(), TOKEN.encode()[:5] + foreign + TOKEN.encode()[5:])
    pack(data, kind, path, multi)
    return path, text, chdr


def plainstr(P, s):
    if P.concrete:
        return s
    from symx.rewrite import plain

    return plain(s, False)


def model(P, cfg):
    what = cfg["what"]
    extra = [hl(P, txt(P, "mk", "ABCD 12345M001", (0, 1, 5)), "MARKER NAME")]
    if cfg.get("foreign"):
        extra += [hl(P, TOKEN, "COMMENT" if what == "obs2" else "AGENCY"), hl(P, "after", "OBSERVER")]
    if cfg.get("long"):
        extra = [hl(P, f"line {i} of a long header", "COMMENT") for i in range(cfg["long"])] + extra
    if what == "obs2":
        f = S.build2(P, dict(dict(nobs=6, epochs=["G1,R2", "G1"], extra=extra, symt={1: "S"}, pad="0"), **cfg.get("model", {})))
        exp = [(t, d) for t, d in L.obs_expect(P, f.exp)]
    elif what == "obs3":
        f = S.build3(P, dict(dict(codes={"G": 3, "R": 1}, epochs=["G1,R2", "G1"], extra=extra, symt={1: "S"}), **cfg.get("model", {})))
        exp = [(t, d) for t, d in L.obs_expect(P, f.exp, ver=3)]
    elif what == "nav2":
        f = N.build(P, dict(dict(ver=2, kind="G", recs=[("R01", 0), ("R02", 900)], symt={1: "S"}, pad="0", extra=extra[1:]), **cfg.get("model", {})))
        exp = f.exp
    elif what == "nav3":
        f = N.build(P, dict(dict(ver=3, recs=[("R01", 0), ("G02", 900)], symt={1: "S"}, extra=extra[1:]), **cfg.get("model", {})))
        exp = f.exp
    else:
        f = N.build_sp3(P, dict(dict(svs="G1-2", nep=2, symt={1: "M"}), **cfg.get("model", {})))
        exp = None
    return f, exp


def check_data(P, gr, cfg, f, exp, src, what):
    kw = dict(fast=False) if cfg["what"] == "obs2" else {}
    ds, err = P.run(gr.load, src, **kw)
    P.check(f"{what}loads" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        if exp is None:
            N.cmp_sp3(P, ds, f, what)
        else:
            L.compare(P, ds, exp, what=what)
    return ds


def check_times(P, gr, cfg, f, src, what):
    if cfg["what"] == "sp3":
        return
    got, err = P.run(gr.gettime, src)
    P.check(f"{what}gettime" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        ts = [t for t, _ in f.exp]
        if cfg["what"].startswith("nav"):
            ts = sorted_unique(P, ts)
        P.check(f"{what}number of times", len(got) == len(ts))
        for k, (g, e) in enumerate(zip(got, ts)):
            P.expect_time(f"{what}time {k}", L.us(g), e, 1000)


def samedict(P, what, a, b):
    P.check(f"{what}labels", set(map(str, a)) == set(map(str, b)))
    for k in b:
        if k in a:
            same_any(P, f"{what}{k}", a[k], b[k])


def same_any(P, what, a, b):
    if isinstance(b, dict):
        samedict(P, what + ".", a, b) if isinstance(a, dict) else P.check(what, False)
    elif isinstance(b, (list, tuple)):
        P.check(what + " length", len(a) == len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            same_any(P, f"{what}[{k}]", x, y)
    elif isinstance(b, float) and not hasattr(b, "t"):
        P.expect_float(what, a, b)
    elif hasattr(b, "shape") and getattr(b, "shape", ()) != ():
        P.check(what, list(a) == list(b))
    elif isinstance(b, float):
        P.expect_float(what, a, b)
    else:
        P.check(what, a == b)


def h(P, gr, cfg):
    f, exp = model(P, cfg)
    kind = P.choice("kind", cfg["kinds"], cfg["kinds"][0])
    names = (CRX if cfg.get("crx") else SUFFIX)[kind][:cfg.get("names")]
    name = P.choice("name" + kind, names, names[0])
    crlf = P.choice("crlf", cfg.get("crlf", [False]), cfg.get("crlf", [False])[0])
    blank = P.choice("blank", cfg.get("blank", [0]), cfg.get("blank", [0])[0])
    noeol = P.flag("noeol", False) if cfg.get("noeol") else False
    parts = f.parts
    text0 = P.join((trimall(P, parts) if cfg.get("crx") else ["\n"] * blank + list(parts)))
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        path, text, chdr = put(P, parts, d, kind, name, cfg.get("crx"), crlf, blank, cfg.get("foreign"), noeol, cfg.get("multi"))
        src = str(path) if P.flag("str", False) else path
        before = path.read_bytes()
        part = P.choice("part", ["data", "times", "header"], "data")
        if part == "data":
            ds = check_data(P, gr, cfg, f, exp, src, "")
            if hasattr(ds, "attrs") and exp is not None:
                P.check("name of the file", ds.attrs.get("filename") == name)
        elif part == "times":
            check_times(P, gr, cfg, f, src, "")
            if cfg["what"] == "sp3":
                P.check("no times", True)
        else:
            i0, err0 = P.run(gr.rinexinfo, P.file([text0]))
            i1, err1 = P.run(gr.rinexinfo, src)
            P.check("rinexinfo", err1 is None)
            if err1 is None and not cfg.get("crx"):
                samedict(P, "info ", i1, i0)
            if cfg["what"] != "sp3":
                h0, err0 = P.run(gr.rinexheader, P.file([text0]))
                h1, err1 = P.run(gr.rinexheader, src)
                P.check("rinexheader", err1 is None)
                if err1 is None and err0 is None:
                    if not cfg.get("crx"):
                        samedict(P, "header ", h1, h0)
                    else:
                        # the compacted file's own header, in its own words
                        if err1 is None:
                            P.check("compacted header", "CRINEX PROG / DATE" in h1)
                            P.check("version of the compaction", float(h1["version"]) == (1.0 if cfg["what"] == "obs2" else 3.0))
                        for k, v in h0.items():
                            if k in ("version", "filetype", "systems", "rinextype"):
                                continue
                            P.check(f"label {k}", k in h1)
                            if k in h1:
                                same_any(P, f"header {k}", h1[k], v)
        P.check("the file is unchanged", path.read_bytes() == before)


def h_stream(P, gr, cfg):
    f, exp = model(P, cfg)
    if cfg.get("crx"):
        # a compacted file passed as a text stream
        with tempfile.TemporaryDirectory(prefix="symx-") as d:
            path, _, _ = put(P, f.parts, d, "plain", "t", True)
            data = path.read_text()
        check_data(P, gr, cfg, f, exp, io.StringIO(data), "")
        check_times(P, gr, cfg, f, io.StringIO(data), "")
        st = io.StringIO(data)
        check_data(P, gr, cfg, f, exp, st, "once ")
        check_data(P, gr, cfg, f, exp, st, "again ")
        return
    check_data(P, gr, cfg, f, exp, P.file(f.parts), "")
    check_times(P, gr, cfg, f, P.file(f.parts), "")


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", fn=h, **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    for w in ("obs2", "obs3", "nav2", "nav3", "sp3"):
        for k in ("plain", "gz", "bz2", "zip", "Z"):
            add(f"{w}{k}", 3, what=w, kinds=[k], crlf=[False, True])
        add(f"{w}noeol", 3, what=w, kinds=["plain", "gz", "bz2", "zip", "Z"], noeol=True, crlf=[False, True], names=1)
        add(f"{w}multi", 3, what=w, kinds=["gz", "bz2"], multi=True, names=1)
        if w != "sp3":
            add(f"{w}foreign", 3, what=w, kinds=["plain", "gz", "bz2", "zip", "Z"], foreign=b"\xe9\xc3\xbc\xff")
            add(f"{w}long", 3, what=w, kinds=["plain", "gz", "bz2", "zip", "Z"], long=100)
        add(f"{w}stream", 1, fn=h_stream, what=w)
        add(f"{w}blank", 3, what=w, kinds=["plain", "gz", "bz2", "zip", "Z"], blank=[1, 3], tier="quick" if w in ("obs2", "nav3") else "thorough")
    for w in ("obs2", "obs3"):
        for k in ("plain", "gz", "bz2", "zip", "Z"):
            add(f"{w}crx{k}", 3, what=w, kinds=[k], crx=True, crlf=[False])
        add(f"{w}crxstream", 2, fn=h_stream, what=w, crx=True)
        add(f"{w}crxforeign", 3, what=w, kinds=["plain", "gz", "bz2", "zip", "Z"], crx=True, foreign=b"\xe9\xff")
        add(f"{w}crxmany", 3, what=w, kinds=["plain", "gz", "Z"], crx=True,
            model=dict(epochs=["G1-14,R2", "G1-14", "G2-13,R2"], symt={2: "S"}))
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
