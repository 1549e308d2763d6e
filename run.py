#!/opt/venv/bin/python
"""
run.py <property> [quick|thorough]     decide a property of the package in /repo/src
run.py --replay <file>                 run a reported counterexample on the real package
Exit 0: held on everything explored; 1: VIOLATION (replayed on the real package); 2: the check itself failed.
"""
from __future__ import annotations
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

TIERS = {"quick": dict(total=75.0, per=50.0, paths=480), "thorough": dict(total=600.0, per=150.0, paths=6000)}


def known_findings():
    """tag -> line, from the committed file"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("KNOWN-FINDING:"):
                d = dict(w.split("=", 1) for w in ln.split() if "=" in w)
                if "tag" in d:
                    out[d["tag"]] = ln
    return out


def load(which="both"):
    from symx import poison, rewrite

    poison.install()

    real = rewrite.load_plain(REPO + "/src")
    sym = rewrite.load_symbolic(REPO + "/src") if which == "both" else None
    return sym, real


def known_match(tags):
    def f(fails, notes):
        ks = set()
        for x in fails:
            if not x.startswith("[KF:"):
                return None
            t = x[4:x.index("]")]
            if t not in tags:
                return None
            ks.add(t)
        return sorted(ks)[0] if ks else None

    return f


G = {}


def work(i, trace=None):
    """one configuration, in a worker process"""
    from symx import explore
    from symx.rewrite import RT

    c = G["cfgs"][i]
    lim = G["lim"]
    left = G["deadline"] - time.monotonic()
    r = {"i": i, "name": c["name"]}
    if left < 1:
        r["skipped"] = True
        return r
    try:
        RT.functions = set()
        RT.notes = {}
        ex = explore.Explorer(c["fn"], c["cfg"], G["sym"], G["real"], seed=G["seed"], max_paths=c.get("max_paths", lim["paths"]),
                              max_s=min(left, c.get("max_s", lim["per"])), replay_every=c.get("replay_every", 10), known=known_match(G["known"]))
        ex.trace = trace
        devnull = open(os.devnull, "w")
        so = sys.stdout
        sys.stdout = devnull
        try:
            R = ex.run()
        finally:
            sys.stdout = so
        d = dict(R.__dict__)
        d.pop("violation")
        r.update(d)
        r["functions"] = sorted(RT.functions)
        r["foreign"] = dict(RT.notes)
    except BaseException as e:  # noqa: BLE001
        r["crash"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    return r


def spawn(fn):
    """run fn in a process of its own -> (process, connection that gives its result)"""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def main():
        a.close()
        init()
        r = fn(None)
        b.send(r)
        b.close()
        os._exit(0)

    p = ctx.Process(target=main, daemon=True)
    p.start()
    b.close()
    return p, a


def replay_apart(cfg, assign, seed, real):
    """replay in a process of its own: native code may end it"""

    def f(_):
        sys.stdout = open(os.devnull, "w")
        try:
            return replay_one(cfg, assign, seed, real)
        except Exception as e:  # noqa: BLE001
            return [f"{type(e).__name__}: {e}"]

    p, c = spawn(f)
    try:
        if not c.poll(60):
            return ["no answer in 60 s"]
        return c.recv()
    except EOFError:
        p.join(10)
        return [f"the process is ended (exit code {p.exitcode})"]
    finally:
        p.kill()
        p.join()
        c.close()


def init():
    import resource

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # code that never stops collecting data gets a MemoryError, not the whole machine
    resource.setrlimit(resource.RLIMIT_DATA, (3500 << 20, resource.RLIM_INFINITY))


def replay_one(cfg, assign, seed, real):
    from symx.rewrite import fresh
    from symx.core import REAL_LIMIT, AssumeFailed, ConcretePath, Hang, limit

    p = ConcretePath(assign, seed)
    try:
        with limit(REAL_LIMIT):
            cfg["fn"](p, fresh(real), cfg["cfg"])
    except AssumeFailed:
        return []
    except Hang:
        return p.fails + [f"no answer in {REAL_LIMIT:g} s"]
    return p.fails


def configs(prop, tier):
    m = importlib.import_module("harness." + prop.lower())
    out = m.configs(tier)
    for n, c in enumerate(out):
        c.setdefault("name", f"{prop}-{n}")
    assert len({c["name"] for c in out}) == len(out), "names of configurations must differ"
    return m, out


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        _, real = load("plain")
        m, cfgs = configs(d["property"], "thorough")
        c = {c["name"]: c for c in cfgs}.get(d["config"])
        if c is None:
            m, cfgs = configs(d["property"], "quick")
            c = {c["name"]: c for c in cfgs}[d["config"]]
        fails = replay_apart(c, d["assign"], d["seed"], real)
        for f in fails:
            print("FAILS:", f)
        sys.exit(1 if fails else 0)
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    lim = TIERS[tier]
    sym, real = load()
    m, cfgs = configs(prop, tier)
    if only:
        cfgs = [c for c in cfgs if only in c["name"]]
    # the long ones first
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("weight", 1))
    known = {t: ln for t, ln in known_findings().items() if f"property={prop} " in ln}
    G.update(cfgs=cfgs, lim=lim, deadline=time.monotonic() + lim["total"], seed=seed, known=set(known), sym=sym, real=real)
    res = []
    viol = None
    nproc = min(int(os.environ.get("SYMX_PROCS", "8")), len(order))
    sys.stdout.flush()
    running = {}
    todo = list(order)
    tmp = tempfile.mkdtemp(prefix="symx-run-")
    try:
        while (todo or running) and not viol:
            while todo and len(running) < nproc:
                i = todo.pop(0)
                trace = os.path.join(tmp, str(i))
                p, conn = spawn(lambda c, i=i, trace=trace: work(i, trace))
                running[conn] = (i, p, trace)
            ready = mp.connection.wait(list(running), timeout=5.0)
            now = time.monotonic()
            for conn in list(running):
                i, p, trace = running[conn]
                r = None
                if conn in ready:
                    try:
                        r = conn.recv()
                    except EOFError:
                        r = None
                elif now < G["deadline"] + 90:
                    continue
                running.pop(conn)
                how = None
                if r is None:
                    if conn in ready:
                        p.join(10)
                        how = f"process ended with {p.exitcode}"
                    else:
                        how = "no answer in time"
                p.kill()
                p.join()
                conn.close()
                if r is None:
                    # the input it was working on decides
                    r = {"i": i, "name": cfgs[i]["name"], "lost": how}
                    if os.path.exists(trace):
                        try:
                            a = pickle.load(open(trace, "rb"))
                        except Exception:  # noqa: BLE001
                            a = None
                        if a is not None:
                            r["violations"] = [{"assign": a, "label": how, "notes": []}]
                res.append(r)
                for v in r.get("violations", ()):
                    fails = replay_apart(cfgs[r["i"]], v["assign"], seed, real)
                    if fails and viol is None and not known_match(set(known))(fails, []):
                        viol = (r, v, fails)
    finally:
        for i, p, _ in running.values():
            p.kill()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.monotonic() - t0
    evdir = os.environ.get("SYMX_OUT") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    rpath = None
    if viol:
        r, v, fails = viol
        rpath = os.path.join(evdir, "replay", f"{prop}.json")
        json.dump({"property": prop, "config": r["name"], "seed": seed, "assign": v["assign"], "label": v["label"], "fails": fails,
                   "notes": v["notes"], "how": f"{sys.executable} {HERE}/run.py --replay {rpath}"}, open(rpath, "w"), indent=1)
    write_evidence(prop, tier, seed, m, cfgs, res, wall, viol, known)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)  # noqa: E731
    print(f"{prop} {tier}: {len(res)} configurations, {tot('paths')} paths, {tot('obligations')} obligations "
          f"({tot('obl_valid')} valid, {tot('obl_solver')} under path conditions), {tot('queries')} queries, solver {tot('solver_s'):.1f} s, "
          f"{tot('replays')} replays, wall {wall:.1f} s")
    if os.environ.get("SYMX_V"):
        for r in sorted(res, key=lambda r: -(r.get("wall") or 0)):
            print(f"  {r['name']:24s} paths {r.get('paths')} infeasible {r.get('infeasible')} complete {r.get('complete')} pend {r.get('pending')}/{r.get('pending_pin')} "
                  f"wall {r.get('wall', 0):.1f} q {r.get('queries')} {r.get('solver_s', 0):.1f}s eng {len(r.get('engine_errors', ()))} {r.get('infos') and list(r['infos'])}")
    crash = [r for r in res if r.get("crash")]
    for r in crash:
        print("CHECK ERROR in", r["name"], r["crash"])
    for r in res:
        why = []
        if r.get("lost"):
            why.append(r["lost"])
        if r.get("skipped"):
            why.append("not started")
        if r.get("engine_errors"):
            why.append(f"{len(r['engine_errors'])} inputs the encoding could not follow (decided by replay only): {r['engine_errors'][0][:150]}")
        if r.get("pending"):
            why.append(f"{r['pending']} branches not explored")
        if r.get("spurious"):
            why.append(f"{r['spurious']} solver answers not reproduced {r['infos'].get('spurious') or list(r['infos'].get('unreproduced', {}))[:2]}")
        if r.get("infos", {}).get("unknown_obl"):
            why.append(f"{r['infos']['unknown_obl']} obligations undecided")
        if r.get("vacuous"):
            why.append(f"{r['vacuous']} paths without obligation")
        if not r.get("paths") and not r.get("skipped"):
            why.append("no path")
        if why:
            print("INCOMPLETE", r["name"] + ":", "; ".join(why))
            if os.environ.get("SYMX_TB"):
                for tb in r.get("infos", {}).get("tb", []):
                    print(tb)
    seen = {}
    for r in res:
        for k in r.get("infos", {}).get("known", {}):
            seen[k] = seen.get(k, 0) + 1
    for t, ln in known.items():
        if t in seen:
            print(ln)
    if viol:
        r, v, fails = viol
        print(f"counterexample in {r['name']}: {v['label']}")
        for x in fails[:5]:
            print("  ", x)
        print(f"VIOLATION property={prop} replay={rpath}")
        sys.exit(1)
    if crash or not res:
        sys.exit(2)
    sys.exit(0)


def write_evidence(prop, tier, seed, m, cfgs, res, wall, viol, known):
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res)  # noqa: E731
    funcs = sorted({f for r in res for f in r.get("functions", ())})
    foreign = {}
    for r in res:
        for k, v in r.get("foreign", {}).items():
            foreign[k] = foreign.get(k, 0) + v
    cov = {
        "explanation": "bounded symbolic execution of the package's source as it is in /repo: every path of every listed configuration "
                       "(unless named incomplete) is executed with symbolic characters, numbers and times; each obligation that does "
                       "not fold to a constant is decided by z3 over all values of the path, and every counterexample is replayed on "
                       "the unmodified package",
        "functions_encoded": funcs,
        "bounds": getattr(m, "BOUNDS", ""),
        "outside": getattr(m, "OUTSIDE", ""),
        "configurations": len(cfgs),
        "configurations_exhausted": sum(1 for r in res if r.get("complete")),
        "incomplete": [r["name"] for r in res if not r.get("complete")],
        "paths": tot("paths"),
        "paths_without_obligation": tot("vacuous"),
        "infeasible_prefixes": tot("infeasible"),
        "branches_taken": tot("branches"),
        "obligations": tot("obligations"),
        "obligations_by_solver": tot("obl_solver"),
        "discharged_under_path_condition": tot("obl_unsat"),
        "discharged_for_all_values": tot("obl_valid"),
        "queries": tot("queries"),
        "queries_sat": tot("sat"),
        "queries_unsat": tot("unsat"),
        "queries_unknown": tot("unknown"),
        "solver_s": round(tot("solver_s"), 3),
        "replays_on_real_code": tot("replays"),
        "unreproduced": tot("spurious"),
        "encoding_gave_up": sum(len(r.get("engine_errors", ())) for r in res),
        "foreign_calls_with_symbolic_values": foreign,
        "exhaustive": all(r.get("complete") for r in res) and len(res) == len(cfgs),
        "samples": [{"config": r["name"], "inputs": s} for r in res for s in r.get("samples", ())[:1]][:8],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(m, "ASSUMPTIONS", []) + COMMON, "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(os.environ.get("SYMX_OUT") or os.path.join(HERE, "evidence"), f"{prop}.json"), "w"), indent=1)


COMMON = [
    "numpy, pandas and xarray containers move, select, compare and scale values without looking at their digits: a value that comes "
    "out of them is identified with the symbolic value that went in by its bits in the run at hand",
    "float() of printed decimals is exact decimal value correctly rounded; arithmetic on it carries an error bound",
    "the symbolic executor in /verif/symx follows CPython's semantics (every explored counterexample and a sample of the paths are "
    "replayed on CPython with the unmodified package)",
]

if __name__ == "__main__":
    main()
