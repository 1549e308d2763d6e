"""C08: decimation"""
from datetime import datetime, timedelta

from . import lib as L
from . import scen as S
from .c07 import bound

BOUNDS = ("3 to 5 epochs (OBS 2 fast and strict, OBS 3) with symbolic seconds or minutes, interval symbolic: whole seconds 0..150, decimal seconds "
          "with one symbolic digit or one of 8 numbers of up to four decimals, or timedelta in milliseconds; with and without a time window; None, negative values and other types; OBS 3 also with receiver clock offsets")
OUTSIDE = "more epochs; OBS files that are not in chronological order"
B = S.BASE
DECS = ["1.001", "0.29", "0.001", "0.57", "1.1", "2.675", "0.0001", "4.35"]


def interval(P, form):
    if form == "int":
        n = P.ivar("int", 0, 150, 60)
        return n, P.timedelta(seconds=n)
    if form == "float":
        tx = P.join([L.digits(P, "ivi", 2), ".", L.digits(P, "ivf", 1)])
        return P.tofloat(tx), P.timedelta(milliseconds=P.toint(P.join([tx[:2], tx[3:], "00"])))
    if form == "dec":  # numbers that are no multiples of a millisecond in binary
        tx = P.choice("dec", DECS, DECS[0])
        return float(tx), timedelta(microseconds=round(float(tx) * 1000000))
    if form == "td":
        n = P.ivar("int", 0, 150000, 60000)
        t = P.timedelta(milliseconds=n)
        return t, t
    if form == "none":
        return None, None
    raise AssertionError(form)


def h(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    opts = dict(cfg.get("opts", {}))
    inside = [True] * len(f.exp)
    if cfg.get("win"):
        a, ta = bound(P, "wa", B + timedelta(seconds=cfg["win"][0]), "S", "dt")
        opts["tlim"] = (a, B + timedelta(seconds=cfg["win"][1]))
        P.assume(ta <= opts["tlim"][1])
        inside = [bool(ta <= t) and bool(t <= opts["tlim"][1]) for t, _ in f.exp]
    arg, n = interval(P, cfg["form"])
    keep = []
    mark = None
    for (t, _), k in zip(f.exp, inside):
        if k:
            if n is None:
                pass
            elif mark is None:
                mark = t
            elif t - mark < n:
                k = False
            else:
                mark = n + mark
        keep.append(k)
    exp = S.expect(P, f, opts, ver, keep=lambda i: keep[i])
    (S.load2 if ver == 2 else S.load3)(P, gr, f, cfg, exp, dict(opts, interval=arg))


def h_reject(P, gr, cfg):
    ver = cfg["ver"]
    f = (S.build2 if ver == 2 else S.build3)(P, cfg)
    kind = P.choice("kind", ["negint", "negfloat", "negtd", "str", "list", "bytes"], "negint")
    n = P.ivar("n", 1, 100000, 5)
    arg = {"negint": lambda: 0 - n, "negfloat": lambda: P.tofloat("-0.5"), "negtd": lambda: P.timedelta(milliseconds=0 - n), "str": lambda: "30",
           "list": lambda: [30], "bytes": lambda: b"30"}[kind]()
    ds, err = P.run(gr.load, f.file(), interval=arg, **cfg.get("opts", {}))
    P.check(f"{kind} interval is rejected", isinstance(err, (ValueError, TypeError)))


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", fn=h, **cfg):
        out.append(dict(name=name, fn=fn, cfg=cfg, weight=weight, tier=tier))

    o2 = dict(ver=2, codes=["C1", "P2"], epochs=["G1,R2", "G1", "G2,R1", "G3"], base=B, pad="0")
    o3 = dict(ver=3, codes={"G": 2, "R": 1}, epochs=["G1,R2", "G1", "G2,R1", "G3"], base=B)
    for form in ("int", "float", "td", "none"):
        kw = dict(form=form, offsets=[0, 30, 60, 120])
        kw["symt"] = {2: "S"} if form != "none" else {}
        add(f"obs2-{form}", 3, opts=dict(fast=False), **kw, **o2)
        add(f"obs3-{form}", 3, **kw, **o3)
        add(f"obs2fast-{form}", 3, opts=dict(fast=True), **kw, **dict(o2, codes=S.CODES2[:5], epochs=["G1-6,R2", "G1-6", "G2-7,R1", "G3"]))
    for v, o in ((2, o2), (3, o3)):
        add(f"win{v}", 3, form="int", offsets=[0, 30, 60, 120], win=(10, 110), symt={1: "S"}, opts=dict(fast=False) if v == 2 else {}, **o)
        t = dict(offsets=[0, 1, 2, 4], symt={1: "f", 2: "f"}, opts=dict(fast=False) if v == 2 else {}, **o)
        add(f"dec{v}", 4, form="dec", **t)
        add(f"first{v}", 3, form="int", offsets=[0, 65, 120, 150], symt={0: "S", 1: "S"}, opts=dict(fast=False) if v == 2 else {}, **o)
        add(f"frac{v}", 3, "thorough", form="td", offsets=[0, 30, 60, 120], symt={0: "f", 1: "Sf"}, opts=dict(fast=False) if v == 2 else {}, **o)
        add(f"gap{v}", 4, form="td", offsets=[0, 10, 20, 3600, 3610], symt={3: "M"}, opts=dict(fast=False) if v == 2 else {},
            **dict(o, epochs=["G1", "G2", "G3", "G1,G2", "G4"]))
        add(f"meas{v}", 3, form="int", offsets=[0, 30, 60, 120], symt={}, opts=dict(dict(fast=False) if v == 2 else {}, meas=["C1"], use={"G"}, useindicators=True),
            ind=True, **o)
        add(f"reject{v}", 1, fn=h_reject, offsets=[0, 30, 60, 120], **o)
    add("cont", 4, form="int", ver=2, nobs=6, epochs=["G1-14", "G1-13,R1", "G2-25", "R1-12"], offsets=[0, 30, 60, 120], base=B, pad="0", opts=dict(fast=False))
    add("long", 8, "thorough", form="int", offsets=[0, 30, 60, 90, 120, 150], symt={2: "S", 4: "S"}, opts=dict(fast=False), **dict(o2, epochs=["G1", "G2"] * 3))
    add("long3", 8, "thorough", form="int", offsets=[0, 30, 60, 90, 120, 150], symt={2: "S", 4: "S"}, **dict(o3, epochs=["G1", "G2"] * 3))
    add("clock3", 4, form="int", offsets=[0, 30, 60, 120], symt={2: "S"}, clk={0: "sym", 1: "sym", 2: "sym", 3: " -.123456789012"}, **o3)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
