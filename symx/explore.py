"""
Path exploration: run the harness, collect the path condition, let the solver decide the obligations of the path and
produce the inputs of the next one.
"""
from __future__ import annotations
import heapq
import itertools
import sys
import time
import traceback

from . import core
from .core import AssumeFailed, ConcretePath, Hang, PathBudget, Path, limit, z3
from .rewrite import RT, fresh


class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.obl_solver = 0
        self.obl_unsat = 0
        self.obl_valid = 0
        self.replays = 0
        self.violation = None
        self.violations = []
        self.spurious = 0
        self.engine_errors = []
        self.complete = False
        self.pending = 0
        self.pending_pin = 0
        self.samples = []
        self.maxdepth = 0
        self.branches = 0
        self.wall = 0.0
        self.infos = {}
        self.vacuous = 0


class Explorer:
    def __init__(self, harness, cfg, gsym, greal, *, seed=1, max_paths=200, max_s=30.0, replay_every=10, qtimeout=10000, max_depth=20000,
                 known=None):
        self.h = harness
        self.cfg = cfg
        self.gsym = gsym
        self.greal = greal
        self.seed = seed
        self.max_paths = max_paths
        self.max_s = max_s
        self.replay_every = replay_every
        self.qtimeout = qtimeout
        self.max_depth = max_depth
        self.known = known
        self.path_limit = 40.0
        self.trace = None
        self.vars = {}
        self.dom = {}
        self.kept = {}
        self._vs = {}
        self.R = Result()
        self.cov = {}
        self.oblcache = {}
        self.valid = {}
        self.qcache = {}

    # ---- services for Path
    def getvar(self, name, lo, hi):
        v = self.vars.get(name)
        if v is None:
            v = z3.Int(name)
            self.vars[name] = v
            self.dom[v.get_id()] = (name, v, lo, hi)
        assert self.dom[v.get_id()][2:] == (lo, hi), f"input {name} redefined"
        return v

    def keep(self, e):
        self.kept[e.get_id()] = e

    def site(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if "/symx/" not in fn:
                return (fn, f.f_lineno)
            f = f.f_back
        return ("?", 0)

    # ---- variables of a term
    def varset(self, e):
        k = e.get_id()
        r = self._vs.get(k)
        if r is None:
            out = set()
            st = [e]
            done = set()
            while st:
                x = st.pop()
                i = x.get_id()
                if i in done:
                    continue
                done.add(i)
                if z3.is_const(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(i)
                        self.kept[i] = x
                else:
                    if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(("f", x.decl().name()))
                    st.extend(x.children())
            self.kept[k] = e
            r = frozenset(out)
            self._vs[k] = r
        return r

    def slice(self, goal_vars, cons):
        """constraints transitively sharing variables with the goal"""
        vs = set(goal_vars)
        items = [(c, self.varset(c)) for c in cons]
        chosen = [False] * len(items)
        changed = True
        while changed:
            changed = False
            for i, (c, s) in enumerate(items):
                if not chosen[i] and (s & vs):
                    chosen[i] = True
                    if not s <= vs:
                        vs |= s
                        changed = True
        return [c for i, (c, s) in enumerate(items) if chosen[i]], vs

    def solve(self, cons, want_model=True):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        ids = frozenset(c.get_id() for c in cons)
        vs = set()
        for c in cons:
            vs |= self.varset(c)
        s = z3.Solver()
        s.set("timeout", self.qtimeout)
        s.set("random_seed", self.seed & 0xffff)
        for v in vs:
            d = self.dom.get(v)
            if d is not None:
                s.add(d[1] >= d[2], d[1] <= d[3])
        for c in cons:
            s.add(c)
        t = time.monotonic()
        r = s.check()
        self.R.solver_s += time.monotonic() - t
        self.R.queries += 1
        if r == z3.sat:
            self.R.sat += 1
            return "sat", s.model() if want_model else None, s
        if r == z3.unsat:
            self.R.unsat += 1
            return "unsat", None, s
        self.R.unknown += 1
        return "unknown", None, s

    def merge(self, assign, model, vs):
        a = dict(assign)
        for v in vs:
            d = self.dom.get(v)
            if d is not None:
                m = model[d[1]]
                if m is not None:
                    a[d[0]] = m.as_long()
        return a

    # ---- main loop
    def run(self):
        R = self.R
        t0 = time.monotonic()
        self.deadline = t0 + self.max_s
        tick = itertools.count()
        work = []  # (prio, tick, kind, payload)
        heapq.heappush(work, ((0, 0, 0), next(tick), "run", ({}, 0, None)))
        seen_assign = set()
        while work:
            if R.paths + R.infeasible >= self.max_paths or time.monotonic() > self.deadline or len(R.violations) >= 3:
                break
            prio, _, kind, pl = heapq.heappop(work)
            if kind == "flip":
                log, i, axioms, assign, excl = pl
                e, taken, k, site = log[i]
                # coverage: re-queue if this direction got covered meanwhile
                cur = self.cov.get((site, not taken), 0)
                if prio[1] < cur and prio[0] == 0:
                    heapq.heappush(work, ((prio[0], cur, prio[2]), next(tick), kind, pl))
                    continue
                goal = z3.Not(e) if taken else e
                pre = [x if t else z3.Not(x) for x, t, _, _ in log[:i]] + list(excl)
                cons, vs = self.slice(self.varset(goal), pre + axioms)
                st, m, _ = self.solve(cons + [goal])
                if st == "unsat":
                    continue
                if st == "unknown":
                    R.infos["unknown_flip"] = R.infos.get("unknown_flip", 0) + 1
                    continue
                a = self.merge(assign, m, vs)
                bound = i + 1
                flipped = (e, excl + (goal,))
            else:
                a, bound, flipped = pl
            self.run_one(a, bound, work, tick, flipped)
        R.pending = sum(1 for w in work if w[0][0] == 0)
        R.pending_pin = sum(1 for w in work if w[0][0] != 0)
        R.complete = not work and not R.engine_errors and not R.infos.get("unknown_flip") and not R.infos.get("unknown_obl")
        R.wall = time.monotonic() - t0
        return R

    def mark(self, assign):
        """leave the input at hand where it is found if native code ends the process"""
        if self.trace:
            import pickle

            with open(self.trace, "wb") as f:
                pickle.dump(dict(assign), f)

    def execute(self, assign):
        self.mark(assign)
        p = Path(self, assign)
        core.CUR.path = p
        RT.active = True
        RT.reset()
        err = None
        try:
            with limit(self.path_limit):
                self.h(p, fresh(self.gsym), self.cfg)
        except AssumeFailed:
            err = "assume"
        except (PathBudget, Hang):
            err = "budget"
        except Exception as e:  # noqa: BLE001
            err = e
            p.tb = traceback.format_exc()
        finally:
            RT.active = False
            core.CUR.path = None
        return p, err

    def replay(self, assign):
        """the same harness on plain values with the unmodified package"""
        c = ConcretePath(assign, self.seed)
        self.mark(assign)
        self.R.replays += 1
        try:
            with limit(core.REAL_LIMIT):
                self.h(c, fresh(self.greal), self.cfg)
        except AssumeFailed:
            return None
        except Hang:
            c.fails.append(f"no answer in {core.REAL_LIMIT:g} s")
        except Exception as e:  # noqa: BLE001
            c.fails.append(f"harness error {type(e).__name__}: {e}")
            c.harness_error = traceback.format_exc()
            if not getattr(c, "in_sut", True):
                return None
        return c

    def run_one(self, assign, bound, work, tick, flipped=None):
        R = self.R
        p, err = self.execute(assign)
        # restart after a failed assumption: solve for it
        tries = 0
        while err == "assume":
            R.infeasible += 1
            tries += 1
            if tries > 400 or time.monotonic() > self.deadline:
                return
            if not p.log:
                return
            e, _, _, _ = p.log[-1]
            pre = [x if t else z3.Not(x) for x, t, _, _ in p.log[:-1]]
            cons, vs = self.slice(self.varset(e), pre + p.axioms)
            st, m, _ = self.solve(cons + [e])
            if st != "sat":
                # the prefix up to some earlier branch excludes the assumption
                self.expand(p, bound, work, tick, len(p.log) - 1, flipped)
                return
            assign = self.merge(p.assign, m, vs)
            p, err = self.execute(assign)
        R.paths += 1
        R.maxdepth = max(R.maxdepth, len(p.log))
        R.branches += sum(1 for x in p.log if x[2] != 1)
        if len(R.samples) < 2:
            R.samples.append({k: p.assign[k] for k in list(p.assign)[:12]})
        for e, taken, k, site in p.log:
            self.cov[(site, taken)] = self.cov.get((site, taken), 0) + 1
        if isinstance(err, Exception) or err == "budget":
            # the encoding could not follow: decide this input on the real code, keep exploring
            c = self.replay(p.assign)
            if c is not None and c.fails:
                self.report(p.assign, c, "replay of an input the encoding could not follow")
            else:
                R.engine_errors.append(f"{type(err).__name__}: {err}" if isinstance(err, Exception) else "path budget")
                if len(R.engine_errors) <= 2 and isinstance(err, Exception):
                    R.infos.setdefault("tb", []).append(p.tb[-1500:])
        else:
            if not p.obls:
                R.vacuous += 1
            bad = self.decide(p)
            if not bad and self.replay_every and (R.paths <= 2 or R.paths % self.replay_every == 0):
                c = self.replay(p.assign)
                if c is not None and c.fails:
                    self.report(p.assign, c, "replay of an explored path")
        self.expand(p, bound, work, tick, len(p.log), flipped)

    def expand(self, p, bound, work, tick, upto, flipped=None):
        log = list(p.log)
        ax = list(p.axioms)
        if flipped is not None and bound - 1 < upto:
            # a decision with more than two outcomes (a choice, a pinned value): the remaining ones
            e, taken, k, site = log[bound - 1]
            e0, excl = flipped
            if k != 1 and e.get_id() != e0.get_id():
                c = self.cov.get((site, not taken), 0)
                heapq.heappush(work, ((1 if k == 2 else 0, c, bound - 1), next(tick), "flip", (log, bound - 1, ax, p.assign, excl)))
        for i in range(bound, upto):
            e, taken, k, site = log[i]
            if k == 1:
                continue
            c = self.cov.get((site, not taken), 0)
            heapq.heappush(work, ((1 if k == 2 else 0, c, i), next(tick), "flip", (log, i, ax, p.assign, ())))

    def decide(self, p):
        R = self.R
        pc = None
        batch = {}
        for label, e, conc in p.obls:
            R.obligations += 1
            if e is True:
                continue
            if e is False:
                return self.candidate(p, p.assign, label)
            k = e.get_id()
            if k in self.valid:
                R.obl_valid += 1
                continue
            neg = z3.Not(e)
            if pc is None:
                pc = [x if t else z3.Not(x) for x, t, _, _ in p.log] + p.axioms
            se = z3.simplify(e)
            if z3.is_true(se):
                # holds whatever the path condition: decided together below
                self.kept[k] = e
                batch[k] = e
                continue
            if not conc:
                if self.candidate(p, p.assign, label):
                    return True
            cons, vs = self.slice(self.varset(neg), pc)
            key = (e.get_id(), frozenset(c.get_id() for c in cons))
            self.kept[e.get_id()] = e
            if key in self.oblcache:
                continue
            R.obl_solver += 1
            st, m, s = self.solve(cons + [neg])
            if st == "unsat":
                R.obl_unsat += 1
                self.oblcache[key] = True
                continue
            if st == "unknown":
                R.infos["unknown_obl"] = R.infos.get("unknown_obl", 0) + 1
                continue
            # candidate counterexamples; rounding slack may make the first ones spurious
            inputs = [self.dom[v] for v in vs if v in self.dom]
            ok = False
            for n in range(40):
                a = self.merge(p.assign, m, vs)
                if self.candidate(p, a, label, count=False):
                    ok = True
                    break
                if not inputs or time.monotonic() > self.deadline:
                    break
                s.add(z3.Or([d[1] != m.eval(d[1], model_completion=True) for d in inputs]))
                t = time.monotonic()
                r = s.check()
                R.solver_s += time.monotonic() - t
                R.queries += 1
                if r != z3.sat:
                    break
                m = s.model()
            if ok:
                return True
            R.spurious += 1
            R.infos.setdefault("spurious", {})[label.split(":")[0][:60]] = R.infos.setdefault("spurious", {}).get(label.split(":")[0][:60], 0) + 1
            self.oblcache[key] = True
        if batch:
            st, _, _ = self.solve([z3.Or([z3.Not(e) for e in batch.values()])], want_model=False)
            if st == "unsat":
                self.valid.update(batch)
                R.obl_valid += len(batch)
            else:
                R.infos["unknown_obl"] = R.infos.get("unknown_obl", 0) + 1
        return False

    def candidate(self, p, assign, label, count=True):
        c = self.replay(assign)
        if c is not None and c.fails:
            self.report(assign, c, label)
            return True
        if count:
            self.R.spurious += 1
            self.R.infos.setdefault("unreproduced", {})[label[:80]] = dict(list(assign.items())[:0])
        return False

    def report(self, assign, c, label):
        full = dict(c.assign)
        v = {"assign": full, "fails": c.fails[:5], "label": label, "notes": [list(map(str, n)) for n in c.notes][:20]}
        if self.known is not None:
            k = self.known(c.fails, c.notes)
            if k:
                self.R.infos.setdefault("known", {})[k] = v
                return
        self.R.violations.append(v)
