"""C23: RINEX 2 OBS reads that need more than half of the available memory are refused"""
import sys
from datetime import timedelta
from types import SimpleNamespace

import numpy as np
import psutil

from . import lib as L
from . import scen as S
from .c11 import ind_of

BOUNDS = ("available memory symbolic over 0 to 2^40 bytes (free memory symbolic, at most the available one; total memory fixed); files of 0 to 5 epochs of 1 to 32 "
          "satellites of 1 to 3 systems, 1 to 30 types; use, meas, useindicators, tlim, interval and both modes; the digits of the values symbolic; the load is "
          "run once with unlimited memory and once with the symbolic amount, in which the size of the arrays allocated by the code itself is what is needed")
OUTSIDE = "the memory that other allocations take; arrays larger than those of the files above (the comparison is the same); systems without psutil"

ALLOC = ("empty", "zeros", "ones", "full")


class Memory:
    """records what the code allocates and answers what it asks about memory"""

    def __init__(self, P, gr):
        self.P = P
        self.gr = gr
        self.sizes = []
        self.mem = None
        self.undo = []

    def virtual_memory(self):
        return self.mem

    def record(self, name):
        f = getattr(np, name)

        def g(*a, **k):
            if self.P.concrete and not str(sys._getframe(1).f_globals.get("__name__", "")).startswith("georinex"):
                return f(*a, **k)
            if not self.P.concrete:
                from symx.rewrite import plain

                a, k = plain(list(a)), plain(k)
            r = f(*a, **k)
            self.sizes.append((r.ndim, r.nbytes))
            return r

        return f, g

    def __enter__(self):
        if self.P.concrete:
            vm = psutil.virtual_memory
            for m in [psutil] + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "georinex"]:
                for k, v in list(vars(m).items()):
                    if v is vm:
                        self.undo.append((m, k, v))
                        setattr(m, k, self.virtual_memory)
            for n in ALLOC:
                f, g = self.record(n)
                self.undo.append((np, n, f))
                setattr(np, n, g)
        else:
            from symx.rewrite import RT

            RT.stubs[psutil.virtual_memory] = self.virtual_memory
            for n in ALLOC:
                f, g = self.record(n)
                RT.stubs[f] = g
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        if not self.P.concrete:
            from symx.rewrite import RT

            RT.stubs.clear()
        return False

    def need(self):
        big = [b for d, b in self.sizes if d >= 3] or [b for d, b in self.sizes if d == 2] or [0]
        return max(big)


def h(P, gr, cfg):
    cfg = dict(cfg)
    opts = dict(cfg.get("opts", {}))
    for k in ("use", "meas", "useindicators", "interval", "fast"):
        if k in cfg:
            v = P.choice("opt-" + k, cfg[k], cfg[k][0])
            if v is not None:
                opts[k] = v
    if "win" in cfg:
        w = P.choice("win", cfg["win"], cfg["win"][0])
        if w is not None:
            opts["tlim"] = (S.BASE + timedelta(seconds=w[0]), S.BASE + timedelta(seconds=w[1]))
    if "epochs" not in cfg:
        cfg["epochs"] = P.choice("layout", cfg["layouts"], cfg["layouts"][0])
    if opts.get("useindicators"):
        cfg["ind"] = True
    old = S.indicator
    S.indicator = (lambda P, c, e, i: ind_of(P, c, e, i) if c.get("ind") else None)
    try:
        f = S.build2(P, cfg)
    finally:
        S.indicator = old
    total = 1 << 41
    keep = [True] * len(f.exp)
    if "tlim" in opts:
        keep = [bool(opts["tlim"][0] <= t) and bool(t <= opts["tlim"][1]) for t, _ in f.exp]
    if opts.get("interval"):
        mark = None
        for i, (t, _) in enumerate(f.exp):
            if not keep[i]:
                continue
            if mark is None:
                mark = t
            elif t - mark < timedelta(seconds=opts["interval"]):
                keep[i] = False
            else:
                mark = mark + timedelta(seconds=opts["interval"])
    exp = S.expect(P, f, opts, 2, keep=lambda i: keep[i])
    with Memory(P, gr) as m:
        m.mem = SimpleNamespace(available=1 << 60, total=1 << 61, free=1 << 60, used=0, percent=1.0)
        ds, err = P.run(gr.load, f.file(), **opts)
        if isinstance(err, IndexError) and "fast=False" in str(err):
            P.check("documented fast mode failure", True)
            return
        P.check("loads with unlimited memory" + ("" if err is None else ": " + type(err).__name__), err is None)
        if err is not None:
            return
        L.compare(P, ds, exp, "unlimited ")
        need = m.need()
        P.check("the data array is allocated", need > 0 or not any(d for _, d in exp) or not any(v for _, d in exp for v in d.values()))
        avail = P.ivar("available", 0, 1 << 40, 2 * need if cfg.get("edge", 1) else None)
        free = P.ivar("free", 0, 1 << 40, 0)
        P.assume(free <= avail)
        m.mem = SimpleNamespace(available=avail, total=total, free=free, used=total - avail, percent=50.0)
        m.sizes = []
        ds, err = P.run(gr.load, f.file(), **opts)
        if err is None:
            P.check(f"{need} bytes read with enough memory", avail >= 2 * need)
            L.compare(P, ds, exp, "limited ")
        else:
            P.check(f"refused with the RAM error, not {type(err).__name__}", isinstance(err, RuntimeError) and "RAM" in str(err))
            P.check(f"{need} bytes refused only for lack of memory", avail < 2 * need)
            P.check("refused before the array is allocated", m.need() < need)


def cfgs():
    out = []

    def add(name, weight=1, tier="quick", **cfg):
        out.append(dict(name=name, fn=h, cfg=cfg, weight=weight, tier=tier))

    N = [None]
    small = dict(pad="0", base=S.BASE)
    lay = [["G1", "G1,R2", "G3"], ["G1-6", "G2-7"], ["G1"], [], ["G1-6,R1-4", "G1-5,R1-4", "R1-9", "G1"]]
    for k in (1, 2, 5, 7, 9, 10, 30):
        add(f"types{k}", 2, "quick" if k in (1, 5, 10) else "thorough", nobs=k, layouts=lay, fast=[None, False], **small)
        add(f"ind{k}", 2, "quick" if k in (2, 7) else "thorough", nobs=k, layouts=lay, fast=[None, False], useindicators=[True], **small)
    add("meas", 2, nobs=7, layouts=lay[:3], meas=[None, ["L1"], ["C1", "L2"], "C", ["X9"]], useindicators=[None, True], **small)
    add("use", 2, nobs=5, layouts=lay[:3], use=[None, "G", {"R", "G"}, {"J"}], fast=[None, False], **small)
    add("win", 2, nobs=5, layouts=lay, win=[None, (0, 30), (30, 600), (600, 900)], fast=[None, False], **small)
    add("dec", 2, nobs=5, layouts=lay, interval=[None, 60, 45], fast=[None, False], **small)
    add("wide", 2, nobs=5, layouts=[["G1-32", "G1-32"], ["G1-12,R1-12,E1-8", "G1"]], fast=[None, False], **small)
    add("single", 1, nobs=5, system="G", layouts=[["G1-6", "G2-5"], ["G1"]], use=[None, "G", "R"], **small)
    add("values", 2, nobs=3, epochs=["G1,R2", "G2"], vary=[(0, 1, 1)], **small)
    add("all", 4, "thorough", nobs=7, layouts=lay, meas=[None, ["L1"], "C"], use=[None, "G", {"R", "G"}], useindicators=[None, True], interval=[None, 60], win=[None, (0, 30)],
        fast=[None, False], **small)
    return out


def configs(tier):
    return [c for c in cfgs() if tier == "thorough" or c["tier"] == "quick"]
