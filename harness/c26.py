"""C26: the command line programs and helpers"""
import contextlib
import io
import logging
import sys
import tempfile
from datetime import datetime, timedelta
from pathlib import Path

from . import lib as L
from . import nav as N
from . import scen as S
from .c17 import Tagged, attrs, compare_files, layout
from .c18 import BAD, GOOD, Log, bad, expected, gen, tree
from .lib import hl

BOUNDS = ("programs read, time and rinex2hdf5 with every combination of up to 3 (thorough 7) of their options, in any order of the options; OBS 2/3, NAV 2/3 files of 1 to 4 epochs or records, one to "
          "three files in a directory, among them unreadable ones; every digit of the values symbolic, the seconds and minutes of the first and last epoch for time; header intervals of 0, 0.1, 15, 30 s "
          "or none; globber with up to two patterns over up to 4 names; to_datetime for one or several times")
OUTSIDE = "the plots (-p, georinex.plot, georinex.loc: see C24); the layout of what read prints beyond the data set's own text; wrong usage (argparse)"
ASSUMPTIONS = ["argparse hands over the words of the command line", "netCDF4/HDF5 and xarray store and return the bits of the numbers they are given"]
B = S.BASE


class Messages(Log):
    def __enter__(self):
        r = super().__enter__()
        self.setLevel(logging.WARNING)
        logging.getLogger().setLevel(logging.WARNING)
        return r


class Out:
    """what a program writes on its standard output"""

    def __init__(self):
        self.parts = []

    def print(self, *a, sep=" ", end="\n", file=None, flush=False):
        if file is not None and file is not sys.stdout:
            return
        for k, x in enumerate(a):
            if k:
                self.parts.append(sep)
            self.parts.append(x if isinstance(x, str) else str(x))
        self.parts.append(end)

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


@contextlib.contextmanager
def command(P, argv):
    out = Out()
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["prog"] + argv
    sys.stdout = out
    sys.stderr = io.StringIO()
    if not P.concrete:
        from symx.rewrite import RT

        RT.stubs[print] = out.print
    try:
        yield out
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        if not P.concrete:
            RT.stubs.pop(print, None)


def program(P, gr, name, argv):
    """-> (text written, log messages, None or what it ended with)"""
    from symx.rewrite import run_main

    with Messages() as log, command(P, argv) as out:
        try:
            _, err = P.run(run_main, gr, name)
        except SystemExit as e:
            err = e if e.code else None
    return P.join(out.parts), log.msgs, err


def words(P, cfg):
    """options of the program and what they mean for the library"""
    argv, opts = [], {}
    todo = list(cfg["opts"])
    if cfg.get("anyorder") and len(todo) > 1 and P.flag("rev", False):
        todo.reverse()
    long = not cfg.get("vals") and P.flag("long", False)
    for k in todo:
        if not P.flag("has-" + k, True):
            continue
        if k in cfg.get("vals", {}):
            pick = lambda _, vals, first: cfg["vals"][k]  # noqa: E731, B023
        else:
            pick = P.choice
        if k == "use":
            v = pick("use", [["G"], ["R"], ["G", "R"], ["R", "G"]], ["G"])
            argv += ["--use" if long else "-u", *v]
            opts["use"] = v
        elif k == "meas":
            v = pick("meas", [["C1"], ["L1", "C1"], ["C1C", "L"]], ["C1"])
            argv += ["--meas" if long else "-m", *v]
            opts["meas"] = v
        elif k == "tlim":
            a, b = pick("tlim", [(0, 30), (10, 60), (30, 30)], (0, 30))
            t = [(B + timedelta(seconds=x)).isoformat() for x in (a, b)]
            argv += ["--tlim" if long else "-t", *t]
            opts["tlim"] = (B + timedelta(seconds=a), B + timedelta(seconds=b))
        elif k == "ind":
            argv.append("-useindicators")
            opts["useindicators"] = True
        elif k == "strict":
            argv.append("-strict")
            opts["fast"] = False
        elif k == "interval":
            v = pick("interval", ["30", "60", "30.5", "0.5", "29.875"], "60")
            argv += ["-interval", v]
            opts["interval"] = float(v)
        elif k == "verbose":
            argv.append("--verbose" if long else "-v")
    return argv, opts


def same_data(P, a, b, label):
    layout(P, a, b, label)
    attrs(P, a.attrs, b.attrs, label)
    for v in a.variables:
        if v in b.variables:
            P.check(f"{label}{v} as from the library call", a[v].dtype == b[v].dtype and a[v].values.tobytes() == b[v].values.tobytes()
                    if a[v].dtype != object else list(a[v].values) == list(b[v].values))


def h_read(P, gr, cfg):
    argv, opts = words(P, cfg)
    kind = P.choice("kind", cfg["kinds"], cfg["kinds"][0])
    with tempfile.TemporaryDirectory(prefix="symx-") as d0:
        d = Path(d0)
        f = gen(P, kind, "f-")
        src = d / "a.18o"
        src.write_bytes(P.carry(P.join(f.parts)).encode("ascii"))
        out = P.choice("out", cfg.get("outs", [None, "file", "dir"]), "file")
        kw = {k: v for k, v in opts.items()}
        with Messages():
            ref, err = P.run(gr.load, src, **kw)
        P.check("the library reads it", err is None or bool(cfg.get("mayfail")))
        if out:
            (d / "sub").mkdir()
            o = d / "o.nc" if out == "file" else d / "sub"
            argv += ["--out" if "--use" in argv or "--tlim" in argv else "-o", str(o)]
        text, msgs, end = program(P, gr, "read", [str(src)] + argv)
        if err is not None:
            P.check("an error is one of the program", end is not None)
            return
        P.check("ends well" + ("" if end is None else f": {type(end).__name__} {str(end)[:60]}"), end is None)
        if end is not None:
            return
        if P.concrete:
            P.check("prints the data set", unit(str(ref)) in unit(text))
        else:
            from symx.rewrite import plain

            P.check("prints the data set", unit(str(ref)) in unit(plain(text, False)))
        got = {"file": d / "o.nc", "dir": d / "sub" / "a.18o.nc", None: None}[out]
        files = {x for x in d.rglob("*") if x.is_file()}
        P.check("files written", files == ({src} if got is None else {src, got}))
        if got is not None and got in files:
            ds, err = P.run(gr.load, got)
            P.check("the file reads", err is None)
            if err is None:
                same_written(P, ref, ds)
                mod = {k: v for k, v in opts.items() if k != "interval"}
                if "interval" not in opts:
                    compare_files(P, f, {"obs2b": "obs2"}.get(kind, kind), expected(P, f, kind, mod), ds, "written ")


def unit(s):
    # a data set that has been written counts its times in another unit
    return s.replace("datetime64[us]", "datetime64[ns]")


def same_written(P, ref, ds):
    layout(P, ref, ds, "written ")
    for v in ref.variables:
        if v in ds.variables and v not in ("sv", "time"):
            P.check(f"written {v}", ref[v].values.tobytes() == ds[v].values.tobytes())
    if "time" in ref.coords and "time" in ds.coords:
        P.check("written time", [L.us(x) for x in ref["time"].values] == [L.us(x) for x in ds["time"].values])


def h_convert(P, gr, cfg):
    argv, opts = words(P, cfg)
    with tempfile.TemporaryDirectory(prefix="symx-") as d0:
        d0 = Path(d0)
        d = d0 / "in"
        d.mkdir()
        files = {}
        for k, (nms, kinds) in enumerate(cfg["slots"]):
            nm = P.choice(f"name{k}", nms, nms[0])
            kind = P.choice(f"kind{k}", kinds, kinds[0])
            if nm in files:
                continue
            if kind in BAD:
                data, f = bad(P, kind, f"b{k}{kind}-"), None
                (d / nm).write_bytes(data if type(data) is bytes else P.carry(data).encode("ascii"))
            else:
                f = gen(P, kind, f"s{k}{kind}-")
                (d / nm).write_bytes(P.carry(P.join(f.parts)).encode("ascii"))
            files[nm] = kind, f
        out, ref = d0 / "out", d0 / "ref"
        out.mkdir()
        ref.mkdir()
        g = P.choice("glob", cfg.get("globs", ["*o", None]), cfg.get("globs", ["*o"])[0])
        with Messages() as log:
            _, err = P.run(gr.batch_convert, d, "*" if g is None else g, ref, **opts)
        P.check("the library converts", err is None)
        before = tree(d)
        text, msgs, end = program(P, gr, "rinex2hdf5", [str(d)] + ([] if g is None else [g]) + ["-o", str(out)] + argv)
        P.check("ends well" + ("" if end is None else f": {type(end).__name__} {str(end)[:60]}"), end is None)
        P.check("the directory is as it was", tree(d) == before)
        a, b = set(tree(ref)), set(tree(out))
        P.check(f"the same files: {sorted(a ^ b)}", a == b)
        for nm in files:
            if nm + ".nc" in b & a:
                x, e1 = P.run(gr.load, ref / (nm + ".nc"))
                y, e2 = P.run(gr.load, out / (nm + ".nc"))
                P.check(f"{nm} reads", e1 is None and e2 is None)
                if e1 is None and e2 is None:
                    same_data(P, x, y, nm + " ")
                    kind, f = files[nm]
                    if f is not None:
                        compare_files(P, f, {"obs2b": "obs2"}.get(kind, kind), expected(P, f, kind, opts), y, nm + " ")
        P.check("errors are reported alike", sorted(m for m in msgs if any(n in m for n in files)) == sorted(m for m in log.msgs if any(n in m for n in files)))


def tokens(P, text, name):
    """words of the line about this file"""
    lines = [ln for ln in text.split("\n") if bool(ln.startswith(name + ":"))]
    P.check(f"one line about {name}", len(lines) == 1)
    if len(lines) != 1:
        return None
    return lines[0][len(name) + 1:].split()


def iso(P, s):
    if P.concrete:
        return datetime.fromisoformat(s)
    from symx.rewrite import _iso

    return _iso(s)


def model(P, kind, tag, cfg, hint):
    Q = Tagged(P, tag)
    n = cfg.get("n", 3)
    st = cfg.get("symt", {0: "S", n - 1: "MS"})
    if kind == "obs2":
        return S.build2(Q, dict(codes=["C1", "L1"], epochs=(["G1,R2", "G1", "G2"] * 3)[:n], base=cfg.get("base", B), step=cfg.get("step", 30), hint=hint, symt=st, increasing=True, pad="0"))
    if kind == "obs3":
        return S.build3(Q, dict(codes={"G": ["C1C"], "R": ["C1C"]}, epochs=(["G1,R2", "G1", "G2"] * 3)[:n], base=cfg.get("base", B), step=cfg.get("step", 30), hint=hint, symt=st, increasing=True, pad="0"))
    if kind == "nav2":
        return N.build(Q, dict(ver=2, kind="N", recs=[("G01", 0), ("G02", 40), ("G01", 7200)][:n], base=B, symt={0: "H"} if st else {}))
    return N.build(Q, dict(ver=3, recs=[("R01", 0), ("G02", 40), ("R01", 1800)][:n], base=B, symt={0: "S"} if st else {}))


HINTS = {None: None, "30": f"{30:10.3f}", "15": f"{15:10.3f}", "0.1": f"{0.1:10.3f}", "0.5": f"{0.5:10.3f}", "0": f"{0:10.3f}", **{x: f"{float(x):10.3f}" for x in ("0.7", "0.29")}}


def h_time(P, gr, cfg):
    with tempfile.TemporaryDirectory(prefix="symx-") as d0:
        d = Path(d0) / "in"
        d.mkdir()
        files = {}
        for k, (nm, kinds) in enumerate(cfg["slots"]):
            kind = P.choice(f"kind{k}", kinds, kinds[0])
            hint = P.choice(f"hint{k}", cfg.get("hints", [None, "30"]), cfg.get("hints", [None])[0]) if kind.startswith("obs") else None
            if kind == "none":
                continue
            if kind in BAD or kind == "noepochs":
                if kind == "noepochs":
                    data = P.join(model(P, "obs2", f"b{k}-", cfg, None).parts[:0] + S.build2(Tagged(P, f"b{k}-"), dict(codes=["C1"], epochs=[])).parts)
                else:
                    data = bad(P, kind, f"b{k}-")
                (d / nm).write_bytes(data if type(data) is bytes else P.carry(data).encode("ascii"))
                f = None
            else:
                f = model(P, kind, f"s{k}{kind}-", cfg, HINTS[hint])
                (d / nm).write_bytes(P.carry(P.join(f.parts)).encode("ascii"))
            files[nm] = kind, f, hint
        single = cfg.get("single")
        argv = [str(d / cfg["slots"][0][0])] if single else [str(d)]
        g = P.choice("glob", cfg.get("globs", [None]), cfg.get("globs", [None])[0])
        if g is not None:
            argv += ["-glob", *g]
        text, msgs, end = program(P, gr, "time", argv)
        if single and files[cfg["slots"][0][0]][1] is None:
            P.check("the error is reported", end is not None)
            return
        P.check("ends well" + ("" if end is None else f": {type(end).__name__} {str(end)[:60]}"), end is None)
        for nm, (kind, f, hint) in files.items():
            match = g is None or any(Path(nm).match(x) for x in g)
            if f is None or not match:
                P.check(f"no line about {nm}", not any(bool(ln.startswith(nm + ":")) for ln in text.split("\n")))
                if match:
                    P.check(f"{nm} is reported", any(nm in m for m in msgs))
                continue
            w = tokens(P, text, nm)
            if w is None:
                continue
            ts = sorted_times(P, f, kind)
            P.check(f"{nm} number of words", len(w) == (3 if hint is None else 4))
            if len(w) < 3:
                continue
            for what, x, t in (("first", iso(P, w[0]), ts[0]), ("last", iso(P, w[1]), ts[-1])):
                P.check(f"{nm} {what} time to the millisecond", bool(x <= t) and bool(t < x + timedelta(milliseconds=1)))
            P.check(f"{nm} number of times", w[2] == str(len(ts)))
            warned = any(nm in m for m in msgs)
            if hint is None:
                P.check(f"{nm} no warning", not warned)
                continue
            P.check(f"{nm} interval", P.tofloat(w[3]) == float(hint) if len(w) > 3 else False)
            if float(hint):
                us = round(float(hint) * 1000000)
                # the number of times of a file without gaps: n with (n - 1) * interval <= last - first < n * interval
                n = len(ts)
                span = ts[-1] - ts[0]
                fits = bool(span >= timedelta(microseconds=us * (n - 1))) and bool(span < timedelta(microseconds=us * n))
                P.check(f"{nm} is complete iff there is no warning", warned == (not fits))


def sorted_times(P, f, kind):
    ts = [t for t, _ in f.exp]
    if not kind.startswith("nav"):
        return ts
    L.order_times(P, ts)
    out = {}
    for t in ts:
        out.setdefault(L.plain_us(t), t)
    return [out[k] for k in sorted(out)]


def h_glob(P, gr, cfg):
    with tempfile.TemporaryDirectory(prefix="symx-") as d0:
        d = Path(d0) / "in"
        d.mkdir()
        names = []
        for k, nms in enumerate(cfg["names"]):
            nm = P.choice(f"name{k}", nms, nms[0])
            p = d / nm
            if nm in names or p.exists():
                continue
            names.append(nm)
            p.parent.mkdir(exist_ok=True)
            if nm.endswith("dir.o"):
                p.mkdir()
            else:
                p.write_bytes(b"x")
        before = tree(d)
        how = P.choice("how", ["dir", "text", "file"], "dir")
        pats = P.choice("glob", cfg["globs"], cfg["globs"][0])
        if how == "file":
            got, err = P.run(gr.globber, d / names[0], pats)
            want = [d / names[0]]
            if (d / names[0]).is_dir():
                return P.check("a directory", True)
        else:
            got, err = P.run(gr.globber, str(d) if how == "text" else d, pats)
            pp = [pats] if isinstance(pats, str) else pats
            want = [x for x in d.rglob("*") if x.is_file() and any(matches(str(x.relative_to(d)), g) for g in pp)]
        P.check("no error", err is None)
        if err is None:
            P.check(f"the files that match: {sorted(map(str, set(got) ^ set(want)))}", set(got) == set(want))
        P.check("the directory is as it was", tree(d) == before)


def matches(rel, g):
    import fnmatch

    if g.startswith("**/"):
        return fnmatch.fnmatchcase(rel.split("/")[-1], g[3:])
    return "/" not in rel and fnmatch.fnmatchcase(rel, g)


def h_todt(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, dict(cfg, **(dict(codes=["C1"]) if ver == 2 else dict(codes={"G": ["C1C"]}))))
    ds, err = P.run(gr.load, f.file())
    P.check("loads", err is None)
    if err is not None:
        return
    ts = [t for t, _ in f.exp]
    L.order_times(P, ts)
    got, err = P.run(gr.to_datetime, ds["time"])
    P.check("converts", err is None)
    if err is None:
        import numpy as np

        a = list(np.atleast_1d(np.asarray(got, dtype=object))) if not isinstance(got, datetime) else [got]
        P.check("number", len(a) == len(ts))
        P.check("type", all(isinstance(x, datetime) for x in a))
        for k, (x, t) in enumerate(zip(a, ts)):
            if isinstance(x, datetime):
                P.expect_time(f"time {k}", L.us(L_plain(x)), t)
    k = P.choice("one", list(range(len(ts))), 0)
    one, err = P.run(gr.to_datetime, ds["time"][k])
    P.check("converts one", err is None and isinstance(one, datetime))
    if err is None and isinstance(one, datetime):
        P.expect_time("one", L.us(L_plain(one)), ts[k])
    now = datetime(2020, 1, 1)
    P.check("what is no DataArray is given back", gr.to_datetime(now) is now)


def L_plain(x):
    from symx import core

    return core.plain_dt(x)


def cfgs():
    out = []

    def add(name, fn, weight=3, tier="quick", **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    add("read-plain", h_read, kinds=["obs2", "obs3", "nav2", "nav3"], opts=["verbose"], outs=["file", "dir", None])
    add("read-select", h_read, 4, kinds=["obs2"], opts=["use", "meas"], anyorder=True, outs=["file"])
    add("read-select3", h_read, 4, kinds=["obs3"], opts=["use", "meas"], outs=["file"])
    add("read-nav", h_read, 4, kinds=["nav2", "nav3"], opts=["tlim", "use"], outs=["file"])
    add("read-win", h_read, 4, kinds=["obs2", "obs3"], opts=["tlim", "interval"], outs=["file"])
    add("read-mode", h_read, 4, kinds=["obs2", "obs3"], opts=["ind", "strict"], outs=["dir"])
    add("read-int", h_read, 4, kinds=["obs2"], opts=["interval", "strict", "ind"], outs=["file"], anyorder=True)
    v = dict(use=["G"], meas=["L", "C1"], tlim=(10, 60), interval="45")
    add("read-sets", h_read, 8, kinds=["obs2"], opts=["use", "meas", "tlim", "ind", "strict", "interval"], outs=["file"], vals=v)
    add("read-sets3", h_read, 8, kinds=["obs3"], opts=["use", "meas", "tlim", "ind", "interval"], outs=["file"], vals=v)
    add("conv-sets", h_convert, 8, slots=[(["a.18o"], ["obs2"])], opts=["use", "meas", "tlim", "ind", "strict"], globs=["*o"], vals=v)
    add("conv-sets3", h_convert, 8, slots=[(["a.18o"], ["obs3"])], opts=["use", "meas", "tlim", "ind"], globs=["*o"], vals=v)
    add("read-all", h_read, 6, "thorough", kinds=["obs2", "obs3"], opts=["use", "meas", "tlim", "ind", "strict", "interval", "verbose"], outs=["file", None], anyorder=True)
    sl = [(["a.18o"], ["obs2", "obs3"]), (["b.18n", "b.18o"], ["nav3", "text"]), (["c.18o"], ["obs2b", "empty"])]
    add("conv-plain", h_convert, 4, slots=[sl[0], (["b.18n", "b.18o"], ["nav3"]), (["c.18o"], ["empty", "obs2b"])], opts=[])
    add("conv-select", h_convert, 5, slots=[(["a.18o"], ["obs2"]), (["c.18o"], ["obs2b", "text"])], opts=["use", "meas"], globs=["*o"])
    add("conv-win", h_convert, 5, slots=[(["a.18o"], ["obs2", "obs3"]), (["b.18o"], ["nav3"])], opts=["tlim"], globs=["*o", "a*"])
    add("conv-mode", h_convert, 5, slots=[(["a.18o"], ["obs2", "obs3"]), (["b.18o"], ["obs2b"])], opts=["ind", "strict"], globs=["*o"], anyorder=True)
    add("conv-all", h_convert, 6, "thorough", slots=sl, opts=["use", "meas", "tlim", "ind", "strict", "verbose"], globs=["*o", None], anyorder=True)
    for k in ("obs2", "obs3"):
        add(f"time-{k}", h_time, 4, slots=[("a.18o", [k])], hints=[None, "30", "15", "0"], single=True)
        add(f"time-{k}one", h_time, 3, slots=[("a.18o", [k])], hints=[None, "30", "0"], single=True, n=1)
        add(f"time-{k}two", h_time, 3, slots=[("a.18o", [k])], hints=["30", "0.1", "15"], single=True, n=2)
        add(f"time-{k}half", h_time, 3, slots=[("a.18o", [k])], hints=[None, "0.5"], single=True, n=2, symt={0: "S", 1: "S"}, step=0.5)
        # spans that are no exact multiples in binary
        for st, n in ((0.1, 4), (0.1, 7), (0.7, 5), (0.29, 8)):
            add(f"time-{k}dec{st}x{n}", h_time, 2, slots=[("a.18o", [k])], hints=[str(st)], single=True, n=n, symt={}, step=st)
        add(f"time-{k}frac", h_time, 3, slots=[("a.18o", [k])], hints=["0.1", "15"], single=True, n=3, symt={2: "S"}, base=B.replace(microsecond=123456), step=0.25)
    add("time-nav", h_time, 4, slots=[("a.18n", ["nav2", "nav3"])], single=True)
    add("time-bad", h_time, 3, slots=[("a.18o", list(BAD[:4]) + ["noepochs", "obs2"])], single=True, hints=[None])
    add("time-dir", h_time, 4, slots=[("a.18o", ["obs2", "text", "empty", "noepochs"]), ("b.18o", ["obs3"]), ("c.18n", ["nav2", "none"])], hints=[None], n=2, globs=[None, ["*o"], ["*o", "*n"], ["*n"]], symt={})
    for b in ("binary", "version", "type", "cut", "link", "badgz", "cutgz", "cutbz2", "cutzip", "cutcrx"):
        if b != "link":
            add(f"time-dir-{b}", h_time, 2, slots=[("a.18o", [b]), ("b.18o", ["obs2"]), ("c.18n", [b]), ("0.18o", ["nav3"])], hints=[None], n=2, symt={})
    add("glob", h_glob, 3, names=[["a.o", "A.O", "a.rnx"], ["b.o", "b.rnx", ".o"], ["sub/c.o", "dir.o"]], globs=["*o", ["*o"], ["*o", "*.rnx"], "*", ["*.rnx"], "**/*.o", []])
    add("globcase", h_glob, 3, names=[["a.o", "A.O", "b.x"], ["b.o", ".o"]], globs=["*.O", ["A*", "b.?"], "[ab].o", "?.o", "B*"])
    add("todt2", h_todt, 3, ver=2, epochs=["G1", "G1,G2", "G2"], symt={0: "f", 2: "MSf"}, pad="0")
    add("todt3", h_todt, 3, ver=3, epochs=["G1", "G1,G2"], symt={1: "ymdHMSf"})
    add("todt1", h_todt, 3, ver=2, epochs=["G1"], symt={0: "ymdHMSf"}, pad="0")
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
