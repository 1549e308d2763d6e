"""C21: reads do not depend on earlier reads"""
import bz2
import copy
import gzip
import tempfile
from datetime import timedelta
from pathlib import Path

from . import lib as L
from . import nav as N
from . import scen as S
from .c12 import sorted_unique
from .c14 import txt
from .c16 import samedict
from .c17 import Tagged
from .lib import hl

BOUNDS = ("histories of up to 3 reading calls (load with one of 7 sets of options, gettime, rinexheader, rinexinfo, rinexobs or rinexnav) on one or two inputs of kinds OBS 2/3, NAV 2/3 and SP3, each a text "
          "stream (left at or moved to its beginning, middle or end before any call), a plain or a compressed file, or a path whose file is replaced between the calls; the same option objects "
          "passed again or other ones; returned objects altered by the caller between the calls; every digit, the characters of measurement, system and time arguments and one character of the header text symbolic")
OUTSIDE = "several threads; longer histories; calls that write files (C17, C18)"
B = S.BASE


def source(P, kind, tag, var=False):
    Q = Tagged(P, tag)
    sym = {1: "S"} if var else {}
    mk = txt(Q, "mk", "ABCD 12345M001" if "A" in tag else "BDCE", (0,))
    extra = [hl(P, mk, "MARKER NAME")]
    if kind == "obs2":
        return S.build2(Q, dict(nobs=3 if "A" in tag else 6, epochs=["G1,R2", "G1", "R2,G1"] if "A" in tag else ["R3,G5,G7", "G5"], extra=extra, ind=True, pad="0", symt=sym, hint="    30.000" if "A" in tag else None,
                                vary=[(0, 1, 1)] if var else [], styles=["full", "blank"]))
    if kind == "obs3":
        return S.build3(Q, dict(codes={"G": 3, "R": 1} if "A" in tag else {"R": 2, "E": 3, "G": 1}, epochs=["G1,R2", "G1", "R2,G1"] if "A" in tag else ["G5,E2,R1", "E2"], extra=extra, ind=True, symt=sym))
    if kind == "nav2":
        return N.build(Q, dict(base=B, ver=2, kind="N" if "A" in tag else "G", recs=[("G01", 0), ("G02", 30), ("G01", 60)] if "A" in tag else [("R01", 0), ("R01", 30)], symt=sym, pad="0",
                               extra=[hl(P, mk, "COMMENT")]))
    if kind == "nav3":
        return N.build(Q, dict(base=B, ver=3, recs=[("R01", 0), ("G02", 30), ("R01", 60)] if "A" in tag else [("E01", 0), ("G02", 30)], symt=sym, extra=[hl(P, mk, "COMMENT")]))
    return N.build_sp3(Q, dict(svs="G1-2" if "A" in tag else "R3-5", nep=2 if "A" in tag else 1))


class Input:
    """a source with its content, which may be replaced"""

    def __init__(self, P, form, d, name):
        self.form, self.path, self.s = form, d / name, None

    def fill(self, P, kind, f):
        self.kind, self.f = kind, f
        if self.form == "stream":
            self.s = P.file(f.parts)
            self.n = sum(len(x) for x in f.parts)
        else:
            t = P.carry(P.join(f.parts)).encode("ascii")
            self.path.write_bytes({"gz": lambda b: gzip.compress(b, mtime=0), "bz2": bz2.compress, "file": bytes}[self.form](t))
            self.bytes = self.path.read_bytes()

    @property
    def arg(self):
        return self.s if self.form == "stream" else self.path

    def unchanged(self, P):
        if self.form == "stream":
            s = self.s
            P.check("stream still open", not s.closed)
            if not s.closed:
                s.seek(0)
                got = s.read()
                P.check("stream content", got == P.join(self.f.parts))
        else:
            P.check("file content", self.path.read_bytes() == self.bytes)


OPTS = {
    "": {},
    "meas": dict(meas=["C1", "L1"]),
    "meas3": dict(meas=["L1C", "C1"]),
    "use": dict(use={"G"}),
    "ind": dict(useindicators=True),
    "tlim": dict(tlim=(B + timedelta(seconds=10), B + timedelta(seconds=45))),
    "tlimlist": dict(tlim=[str(B + timedelta(seconds=-10)), str(B + timedelta(seconds=35))]),
    "interval": dict(interval=60),
    "strict": dict(fast=False),
}
LIMS = {"tlim": (10, 45), "tlimlist": (-10, 35)}


def expected(P, x, o):
    """what loading x with the options named o gives"""
    f, kind, opts = x.f, x.kind, OPTS[o]
    if kind == "sp3":
        return None
    keep = None
    exp = f.exp
    if o in LIMS:
        a, b = (B + timedelta(seconds=s) for s in LIMS[o])
        k = [bool(a <= t) and bool(t <= b) for t, _ in exp]
        keep = lambda i: k[i]  # noqa: E731
    if o == "interval":
        # one epoch in every step, beginning with the first
        k, last = [], None
        for t, _ in exp:
            take = last is None or bool(t - last >= timedelta(seconds=60))
            if take:
                last = t
            k.append(take)
        keep = lambda i: k[i]  # noqa: E731
    if kind.startswith("nav"):
        if o == "use" and kind == "nav3":
            exp = [(t, {s: r for s, r in d.items() if s[0] == "G"}) for t, d in exp]
            exp = [(t, d) for t, d in exp if d]
        return [e for i, e in enumerate(exp) if keep is None or o == "interval" or keep(i)]
    return S.expect(P, f, opts, 3 if kind == "obs3" else 2, keep=keep)


def fits(kind, op):
    """is the option one for this kind of file"""
    name, _, o = op.partition(":")
    if name == "load":
        if kind in ("nav2", "nav3", "sp3") and o in ("meas", "meas3", "ind", "interval", "strict"):
            return False
        if kind == "sp3" and o:
            return False
        if kind == "nav2" and o == "use":
            return False
        if kind == "obs2" and o == "meas3" or kind == "obs3" and o in ("meas", "strict"):
            return False
    if name in ("gettime", "header") and kind == "sp3":
        return False
    return True


def call(P, gr, x, op, opts, label, refs):
    """-> object returned"""
    name, _, o = op.partition(":")
    kind = x.kind
    if name in ("load", "direct"):
        fn = gr.load if name == "load" else gr.rinexobs if kind.startswith("obs") else gr.rinexnav if kind != "sp3" else gr.load
        kw = dict(opts)
        was = copy.deepcopy(kw)
        ds, err = P.run(fn, x.arg, **kw)
        if kind == "obs2" and isinstance(err, IndexError) and "fast=False" in str(err):
            kw["fast"] = False
            ds, err = P.run(fn, x.arg, **kw)
            kw.pop("fast")
        P.check(f"{label}answers" + ("" if err is None else ": " + type(err).__name__ + str(err)[:40]), err is None)
        if "fast" in was and "fast" not in kw:
            kw["fast"] = was["fast"]
        P.check(f"{label}arguments unchanged", same_args(kw, was) and all(type(kw[k]) is type(was[k]) for k in was))
        if err is None:
            if kind == "sp3":
                N.cmp_sp3(P, ds, x.f, label)
            else:
                L.compare(P, ds, expected(P, x, o), what=label)
        return ds
    if name == "gettime":
        got, err = P.run(gr.gettime, x.arg)
        P.check(f"{label}answers" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is None:
            ts = [t for t, _ in x.f.exp]
            if kind.startswith("nav"):
                ts = sorted_unique(P, ts)
            P.check(f"{label}number of times", len(got) == len(ts))
            for k, (g, e) in enumerate(zip(got, ts)):
                P.expect_time(f"{label}time {k}", L.us(g), e, 1000)
        return got
    fn = gr.rinexheader if name == "header" else gr.rinexinfo
    got, err = P.run(fn, x.arg)
    P.check(f"{label}answers" + ("" if err is None else ": " + type(err).__name__), err is None)
    if err is None:
        samedict(P, label, got, refs[id(x.f), name])
    return got


def same_args(a, b):
    return set(a) == set(b) and all(a[k] == b[k] and (not isinstance(a[k], list) or len(a[k]) == len(b[k])) for k in a)


def references(P, gr, f, kind, refs):
    """header and facts of a fresh stream of the same content, kept as copies"""
    for name, fn in (("header", gr.rinexheader), ("info", gr.rinexinfo)):
        if kind == "sp3" and name == "header":
            continue
        got, err = P.run(fn, P.file(f.parts))
        P.check(f"fresh {name}", err is None)
        if err is None:
            refs[id(f), name] = snapshot(got)


def snapshot(h):
    if isinstance(h, dict):
        return {k: snapshot(v) for k, v in h.items()}
    if isinstance(h, (list, tuple)):
        return type(h)(snapshot(v) for v in h)
    if hasattr(h, "copy") and hasattr(h, "dtype"):
        return h.copy()
    return h


def spoil(got):
    """the caller alters what was returned"""
    import numpy as np
    import xarray

    if isinstance(got, dict):
        for v in list(got.values()):
            if isinstance(v, (dict, list)):
                spoil(v)
        got.clear()
    elif isinstance(got, list):
        got.clear()
    elif isinstance(got, np.ndarray):
        if got.size and got.flags.writeable:
            got[:] = got[0]
    elif isinstance(got, xarray.Dataset):
        for v in got.data_vars:
            a = got[v].values
            if a.flags.writeable and a.dtype.kind == "f":
                a[...] = -1.0
        got.attrs.clear()


def h(P, gr, cfg):
    refs = {}
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        d = Path(d)
        ins = []
        for k, (kind, form) in enumerate(cfg["ins"]):
            f = source(P, kind, "AB"[k] + "-", cfg.get("var"))
            x = Input(P, form, d, f"in{k}")
            x.fill(P, kind, f)
            references(P, gr, f, kind, refs)
            ins.append(x)
        new = None
        if cfg.get("replace"):
            f = source(P, cfg["replace"], "C-")
            references(P, gr, f, cfg["replace"], refs)
            new = cfg["replace"], f
        shared = {o: copy.deepcopy(v) for o, v in OPTS.items()}
        kept = []
        moves = P.choice("moves", cfg.get("moves", ["stay"]), cfg.get("moves", ["stay"])[0])
        tampers = P.flag("tampers", False) if cfg.get("spoil") else False
        for k, ops in enumerate(cfg["ops"]):
            i = P.choice(f"on{k}", list(range(len(ins))), 0) if len(ins) > 1 and not cfg.get("alternate") else k % len(ins)
            x = ins[i]
            if new and k and x is ins[0] and x.kind is not None and not getattr(x, "replaced", False) and P.flag(f"replace{k}", k == 1):
                x.replaced = True
                x.fill(P, *new)
            ops = [op for op in ops if fits(x.kind, op)]
            op = P.choice(f"op{k}{x.kind}", ops, ops[0])
            if x.form == "stream" and moves != "stay":
                x.s.seek({"start": 0, "one": 1, "middle": x.n // 2, "line": 81, "end": x.n}[moves])
            got = call(P, gr, x, op, shared[op.partition(":")[2]], f"call {k} ({op} {x.kind}) ", refs)
            if tampers:
                spoil(got)
            elif got is not None:
                kept.append((op, x.kind, x.f, got, snapshot(got) if isinstance(got, (dict, list)) else got.copy(deep=True) if hasattr(got, "data_vars") else got.copy()))
        # what was returned earlier is not altered by later calls
        for op, kind, f, got, was in kept:
            if isinstance(got, dict):
                samedict(P, f"{op} kept ", got, was)
            elif hasattr(got, "data_vars"):
                P.check(f"{op} kept", bool(got.identical(was)))
            else:
                P.check(f"{op} kept", len(got) == len(was) and bool((got == was).all()))
        for x in ins:
            x.unchanged(P)


def h_args(P, gr, cfg):
    """mutable arguments with symbolic content stay as they are, whatever the read makes of them"""
    kind = cfg["kind"]
    f = source(P, kind, "A-")
    opts = {}
    if "meas" in cfg["of"]:
        opts["meas"] = [P.join([P.char(f"m{j}.{i}", a, d) for i, (a, d) in enumerate(zip(("CL ", "1 ", "C "), m))]) for j, m in enumerate(("C1 ", "L1 "))]
    if "use" in cfg["of"]:
        # (a set cannot hold symbolic letters)
        opts["use"] = [P.char(f"u{j}", "GRE", u) for j, u in enumerate("RG")]
    if "tlim" in cfg["of"]:
        t = [L.T(P, f"w{j}", B + timedelta(seconds=s), "S", pad="0", nfrac=6) for j, s in enumerate((0, 45))]
        opts["tlim"] = [P.join(["2018-05-13T", x.hh, ":", x.mi, ":", x.ss]) for x in t]
    if kind == "obs2":
        opts["fast"] = False
    was = {k: list(v) if isinstance(v, list) else v for k, v in opts.items()}
    for n in range(2):
        ds, err = P.run(gr.load, P.file(f.parts), **opts)
        P.check(f"{n} names", set(opts) == set(was))
        for k, v in was.items():
            if isinstance(v, list):
                P.check(f"{n} {k} is a list of {len(v)}", isinstance(opts[k], list) and len(opts[k]) == len(v))
                for i, (a, b) in enumerate(zip(opts[k], v)):
                    P.check(f"{n} {k}[{i}]", a == b)


def bad2(P, how):
    """input that cannot be read in full"""
    f = S.build2(P, dict(codes=["C1", "L1"], epochs=["G1,R2", "G1"], pad="0", base=B))
    t = f.parts
    n = next(i for i, x in enumerate(t) if "END OF HEADER" in str(x))
    if how == "header":
        t = t[:n - 1]
    elif how == "epoch":
        t = t[:-1]
    elif how == "text":
        t = ["not a RINEX file\n"] * 3
    elif how == "empty":
        t = []
    elif how == "version":
        t = [P.join(["     7", t[0][6:]]), *t[1:]]
    elif how == "satellites":
        t = [P.join([x[:30], "99", x[32:]]) if i == n + 1 else x for i, x in enumerate(t)]
    return t


WARM = {
    **{f"obs2{s or 'blank'}": ("2", dict(nobs=4, epochs=[f"{s or 'G'}1-2", f"{s or 'G'}2"], system=s or " ")) for s in ("", "G", "R", "E", "J", "S")},
    "obs2C": ("2", dict(nobs=2, epochs=["C1,C5", "C5"], system="M")),
    "obs2long": ("2", dict(nobs=22, epochs=["G1-25", "R1"], ver="2.10")),
    "obs2events": ("2", dict(nobs=3, epochs=["G1", "G2", "G1"], flags={1: 1}, hint="     1.000", tsys="GLO", events={1: lambda P, f, t: ["                            4  2\n", hl(P, "OTHER", "MARKER NAME"), hl(P, "     2    C1    L1", "# / TYPES OF OBSERV")]})),
    "obs2offset": ("2", dict(nobs=2, epochs=["G1,G3", "G1"], clk={0: " 0.123456789", 1: "-0.000000001"}, layout=None)),
    "obs2ind": ("2", dict(nobs=7, epochs=["G1,R3", "R1"], ind=True, trim=True)),
    "obs2codes": ("2", dict(codes=["L1", "C1"], epochs=["G1,G2"] * 2)),
    **{f"obs3{s}": ("3", dict(codes={s: 3}, epochs=[f"{s}1-2", f"{s}2"], system=s)) for s in "GRECJSI"},
    "obs3mix": ("3", dict(codes={"E": 14, "G": 2, "R": 5}, epochs=["E1,G1,R1", "R2"], hint="     5.000", tsys="GAL", ver="3.05")),
    "obs3events": ("3", dict(codes={"G": ["L1C", "C1C"]}, epochs=["G1-3", "G1"], flags={1: 1}, events={1: lambda P, f, t: [">                              4  1\n", hl(P, "OTHER", "MARKER NAME")]})),
    "obs3offset": ("3", dict(codes={"G": ["L1C", "C1C"], "R": ["C1C"]}, epochs=["G1,R3", "G1"], clk="sym", ind=True)),
    **{f"nav2{k}": ("n2", dict(kind=k, recs=[(s + "01", 0), (s + "09", 30)])) for k, s in (("N", "G"), ("G", "R"), ("E", "E"))},
    **{f"nav3{s}": ("n3", dict(recs=[(s + "01", 0), (s + "09", 30)])) for s in "GRECJSI"},
    "nav3mix": ("n3", dict(recs=[("R01", 0), ("E01", 0), ("E01", 40), ("S20", 60)], extra=[], exp="E")),
    "sp3": ("s", dict(svs="G1-2", nep=2, ver="a")),
    "sp3vel": ("s", dict(svs="E5,R3,C1", nep=3, ver="d", vel=True, eof=False)),
    "sp3many": ("s", dict(svs="G1-20", nep=1)),
    **{f"bad {k}": ("bad", k) for k in ("header", "epoch", "text", "empty", "version", "satellites")},
}


def h_warm(P, gr, cfg):
    """reading calls on another input of any kind, whole or broken, first"""
    for n in range(cfg.get("n", 1)):
        w = P.choice(f"warm{n}", cfg["warm"], cfg["warm"][0])
        how, spec = WARM[w]
        Q = Tagged(P, f"w{n}{w}-")
        if how == "bad":
            parts = bad2(Q, spec)
        else:
            f = S.build2(Q, dict(base=B, pad="0", **spec)) if how == "2" else S.build3(Q, dict(base=B, **spec)) if how == "3" else N.build_sp3(Q, dict(spec)) if how == "s" else N.build(Q, dict(base=B, ver=int(how[1]), **dict(dict(pad="0"), **spec)))
            parts = f.parts
        how = P.choice(f"way{n}", cfg.get("ways", ["load", "ind", "strict", "gettime", "rinexheader"]), "load")
        opts = {"ind": dict(useindicators=True), "strict": dict(fast=False), "use": dict(use={"E"}), "meas": dict(meas=["L1", "L1C"]), "interval": dict(interval=45, tlim=(B, B + timedelta(seconds=20)))}.get(how, {})
        P.run(gr.load if opts or how == "load" else getattr(gr, how), P.file(parts), **opts)
    kind = cfg["kind"]
    x = Input("stream", "stream", Path("/"), "x")
    x.fill(P, kind, source(P, kind, cfg.get("tag", "B-")))
    op = P.choice("op", [o for o in cfg.get("ops", ["load:", "load:ind", "load:strict"]) if fits(kind, o)], "load:")
    call(P, gr, x, op, copy.deepcopy(OPTS[op.partition(":")[2]]), f"{op} {kind} ", {})


def cfgs():
    out = []

    def add(name, weight=3, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    every = ["load:", "load:meas", "load:meas3", "load:use", "load:ind", "load:tlim", "load:tlimlist", "load:interval", "load:strict", "direct:", "gettime", "header", "info"]
    short = ["load:", "load:meas", "load:meas3", "load:use", "load:tlim", "gettime", "header"]
    few = ["load:", "gettime", "header", "info"]
    pos = ["start", "one", "line", "middle", "end"]
    for kind in ("obs2", "obs3", "nav2", "nav3", "sp3"):
        one = [op for op in every if fits(kind, op)]
        add(f"{kind}pos", 3, ins=[(kind, "stream")], ops=[every], moves=pos, var=True)
        add(f"{kind}two", 4, ins=[(kind, "stream")], ops=[short, every], moves=["stay"])
        add(f"{kind}spoil", 4, ins=[(kind, "stream")], ops=[few, few], moves=["stay", "middle"], spoil=True)
        add(f"{kind}three", 4, ins=[(kind, "stream")], ops=[few, few, short], moves=["stay"])
        add(f"{kind}file", 4, ins=[(kind, "file")], ops=[short, few], spoil=True)
        add(f"{kind}gz", 3, ins=[(kind, "gz")], ops=[few, few])
        for f in ("file", "bz2"):
            add(f"{kind}new{f}", 4, ins=[(kind, f)], replace=kind, ops=[few, few + one[1:3]])
        add(f"{kind}deep", 8, "thorough", ins=[(kind, "stream")], ops=[every, every, every], moves=["stay", "middle"], spoil=True, var=True)
    pairs = [("obs2", "obs2"), ("obs3", "obs3"), ("obs2", "obs3"), ("nav2", "nav2"), ("nav3", "nav3"), ("nav2", "nav3"), ("obs3", "nav3"), ("nav2", "obs2"), ("sp3", "obs2"), ("sp3", "sp3")]
    for a, b in pairs:
        add(f"{a}-{b}", 4, ins=[(a, "stream"), (b, "stream")], ops=[short, short], alternate=True, moves=["stay", "middle"])
        add(f"{a}-{b}-{a}", 4, ins=[(a, "stream"), (b, "file")], ops=[few, ["load:", "load:meas", "load:meas3", "load:tlim"], few], alternate=True)
        add(f"{a}-{b}deep", 8, "thorough", ins=[(a, "stream"), (b, "stream")], ops=[short, short, every])
    for kind in ("obs2", "obs3", "nav3"):
        for of in (("meas",), ("use",), ("tlim",)):
            if kind != "nav3" or "meas" not in of:
                out.append(dict(name=f"args-{kind}-{'-'.join(of)}", fn=h_args, cfg=dict(kind=kind, of=of), weight=3, tier="quick"))
    for kind in ("obs2", "obs3", "nav2", "nav3", "sp3"):
        for tag in "AB":
            for n in range(3):
                out.append(dict(name=f"warm-{kind}{tag}{n}", fn=h_warm, cfg=dict(kind=kind, tag=tag + "-", warm=list(WARM)[n::3], ways=["load"], ops=["load:"]), weight=3, tier="quick"))
        for k, how in enumerate(("ind", "strict", "gettime", "rinexheader", "use", "meas", "interval")):
            out.append(dict(name=f"warm-{kind}-{how}", fn=h_warm, cfg=dict(kind=kind, tag="AB"[k % 2] + "-", warm=list(WARM)[k % 3::3], ways=[how]), weight=3, tier="thorough"))
        out.append(dict(name=f"warm-{kind}-two", fn=h_warm, cfg=dict(kind=kind, n=2, warm=list(WARM)[::2], ways=["load"]), weight=6, tier="thorough"))
    add("other-kind", 4, ins=[("obs2", "file")], replace="nav3", ops=[few, few])
    add("other-kind2", 4, ins=[("nav2", "gz")], replace="obs3", ops=[few, few])
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
