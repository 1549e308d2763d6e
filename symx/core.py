"""
Symbolic core: path context, shadow values, z3 terms.

A shadow value is a subclass of a builtin (str, int, float, datetime, timedelta) whose builtin part is the value it has
in the current concrete run and which also carries a z3 term over the harness's input variables.
"""
from __future__ import annotations
import math
import random
from datetime import datetime, timedelta
from fractions import Fraction
import sys

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_Z3DIR)
    import z3
    sys.path.remove(_Z3DIR)

Z = z3
EPOCH = datetime(1970, 1, 1)


class PathControl(BaseException):
    """steering of the exploration; never caught by code under test"""


class AssumeFailed(PathControl):
    pass


class PathBudget(PathControl):
    pass


class Hang(PathControl):
    """no answer in time"""


class limit:
    """time limit for one execution (main thread of a worker)"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import signal

        def h(*a):
            signal.setitimer(signal.ITIMER_REAL, 2.0)  # in case somebody catches it
            raise Hang

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        import signal

        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


REAL_LIMIT = 20.0


class _Cur:
    path = None


CUR = _Cur()


def simp(e):
    return z3.simplify(e)


# ------------------------------------------------------------------ path
class Path:
    """one execution: concrete assignment + recorded path condition + obligations"""

    concrete = False

    def __init__(self, ex, assign):
        self.ex = ex
        self.assign = dict(assign)
        self.log = []  # (expr, taken, forced)
        self.seen = {}
        self.obls = []  # (label, expr|bool)
        self.freg = {}
        self.treg = {}
        self.frozen = False
        self.times = []
        self.axioms = []
        self.axseen = set()
        self.notes = []
        self.files = {}
        self.cdrops = 0

    # --- variables
    def ivar(self, name, lo, hi, default=None):
        """integer input variable -> SymInt"""
        if lo == hi:
            return lo
        v = self.ex.getvar(name, lo, hi)
        if name not in self.assign:
            if default is None:
                default = random.Random(f"{self.ex.seed}:{name}").randint(lo, hi)
            self.assign[name] = default
        return SymInt(self.assign[name], v)

    def choice(self, name, options, default=None):
        """symbolic choice among concrete options: forks"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        d = None if default is None else options.index(default)
        i = self.ivar(name, 0, len(options) - 1, d)
        c = iconc(i)
        self.branch(i.t == c, True, 0)
        return options[c]

    def flag(self, name, default=None):
        i = self.ivar(name, 0, 1, None if default is None else int(default))
        return bool(i == 1)

    def char(self, name, dom, default=None):
        """one symbolic character out of a set"""
        codes = sorted(set(map(ord, dom)))
        if len(codes) == 1:
            return chr(codes[0])
        lo, hi = codes[0], codes[-1]
        if default is None and name not in self.assign:
            default = chr(random.Random(f"{self.ex.seed}:{name}").choice(codes))
        v = self.ivar(name, lo, hi, None if default is None else ord(default))
        if hi - lo + 1 != len(codes):
            self.assume(SymBool(_in_term(v.t, codes), iconc(v) in codes))
        return SymStr([Ch(v.t, iconc(v), frozenset(codes))])

    def tofloat(self, s):
        return parse_float(s) if isinstance(s, SymStr) else float(s)

    def toint(self, s):
        return parse_int(s) if isinstance(s, SymStr) else int(s)

    def datetime(self, *a):
        return mkdatetime(*a)

    def timedelta(self, **k):
        return mktimedelta(**k)

    def join(self, parts):
        return join_any(parts)

    def run(self, f, *a, **k):
        """call the code under test: (value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: BLE001
            import traceback

            self.notes.append(("exc", traceback.format_exc()[-600:]))
            return None, e

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if cond.c:
                self._rec(cond.t, True, 1)
            else:
                self.log.append((cond.t, True, 1, None))
                raise AssumeFailed
        elif not cond:
            self.log.append((z3.BoolVal(False), True, 1, None))
            raise AssumeFailed

    def axiom(self, e):
        k = e.get_id()
        if k not in self.axseen:
            self.axseen.add(k)
            self.axioms.append(e)

    def _rec(self, e, taken, kind=0):
        k = e.get_id()
        if k in self.seen:
            return
        self.seen[k] = taken
        self.ex.keep(e)
        self.log.append((e, taken, kind, None if kind == 1 else self.ex.site()))
        if len(self.log) > self.ex.max_depth:
            raise PathBudget("path too deep")

    def branch(self, e, c, kind=0):
        """kind 0: branch of the code or of the harness, 1: assumption, 2: value fixed because native code needs it"""
        if z3.is_true(e) or z3.is_false(e):
            return c
        self._rec(e, c, kind)
        return c

    def conds(self):
        """what holds on this path so far"""
        return [e if c else z3.Not(e) for e, c, *_ in self.log] + list(self.axioms)

    # --- registries
    def reg_float(self, f):
        self.freg.setdefault(float.__float__(f), {})[f.t.get_id()] = f

    def reg_time(self, t):
        if self.frozen:
            return
        self.treg.setdefault(us_of(t), []).append(t)

    def order_time(self, t):
        """pin the order of a symbolic time relative to all others that entered native code"""
        for r in self.times:
            if r is t:
                return
        for r in self.times:
            if not bool(t < r):
                bool(t == r)
        self.times.append(t)

    # --- obligations
    def check(self, label, cond):
        if isinstance(cond, SymBool):
            self.obls.append((label, cond.t, cond.c))
        else:
            self.obls.append((label, bool(cond), bool(cond)))

    def note(self, *a):
        self.notes.append(a)

    # --- value constructors used by harnesses
    def file(self, parts):
        return SymFile(join_any(parts))

    def carry(self, text):
        """text that is going to travel through native readers -> its plain form"""
        from .rewrite import RT, plain

        t = plain(text, False)
        if isinstance(text, SymStr):
            RT.content[t] = text
        return t

    def expect_float(self, label, got, exp):
        """got: a float coming out of the code under test; exp: SymFloat | float (nan allowed)"""
        if isinstance(got, SymFloat):
            self.check(label, got == exp if isinstance(exp, float) and exp == exp else False)
            return
        got = float(got)
        if exp is None or (not isinstance(exp, SymFloat) and exp != exp):
            self.check(label, got != got)
            return
        if got != got:
            self.check(label, False)
            return
        cands = self.freg.get(got)
        if not isinstance(exp, SymFloat):
            if cands and got != exp:
                self.check(label, SymBool(z3.Or([c.t == fval(exp) for c in cands.values()]), got == exp))
            elif cands:
                # constant expected, symbolic value produced: must be that constant for every input
                self.check(label, SymBool(z3.Or([c.t == fval(exp) for c in cands.values()]), True))
            else:
                self.check(label, got == exp)
            return
        if cands:
            if exp.t.get_id() in cands:
                self.check(label, SymBool(exp.t == cands[exp.t.get_id()].t, True))
            else:
                self.check(label, SymBool(z3.Or([c.t == exp.t for c in cands.values()]), got == float.__float__(exp)))
        else:
            self.check(label, SymBool(exp.t == fval(got), got == float.__float__(exp)))

    def time_of(self, us, res=1):
        """candidate symbolic times whose value in this run is `us` (native microseconds, truncated to res)"""
        if res == 1:
            c = self.treg.get(us, [])
        else:
            c = [t for k, l in self.treg.items() if k // res * res == us for t in l]
        u, seen = [], set()
        for t in c:
            k = t.us.get_id()
            if k not in seen:
                seen.add(k)
                u.append(t)
        return u

    def expect_time(self, label, got_us, exp, res=1):
        """got_us: native integer microseconds from the code under test; exp: datetime (maybe symbolic)"""
        got_us = int(got_us)
        e_us = us_of(exp)
        cands = self.time_of(got_us, res)
        if not isinstance(exp, SymDatetime):
            if cands and got_us // res != e_us // res:
                self.check(label, SymBool(z3.Or([fdiv(c.us, res) == e_us // res for c in cands]), False))
            else:
                self.check(label, got_us // res == e_us // res)
            return
        if not cands:
            self.check(label, SymBool(fdiv(exp.us, res) == got_us // res, got_us // res == e_us // res))
            return
        if res == 1:
            ors = []
            for c in cands:
                q = (c == exp)
                ors.append(q.t if isinstance(q, SymBool) else z3.BoolVal(bool(q)))
        else:
            ors = [fdiv(c.us, res) == fdiv(exp.us, res) for c in cands]
        self.check(label, SymBool(ors[0] if len(ors) == 1 else z3.Or(ors), got_us // res == e_us // res))


def fdiv(e, k):
    return e if k == 1 else e / k


class ConcretePath:
    """replay of the same harness on plain values and the unmodified package"""

    concrete = True

    def __init__(self, assign, seed):
        self.assign = dict(assign)
        self.seed = seed
        self.fails = []
        self.nchecks = 0
        self.notes = []

    def ivar(self, name, lo, hi, default=None):
        if lo == hi:
            return lo
        if name not in self.assign:
            if default is None:
                default = random.Random(f"{self.seed}:{name}").randint(lo, hi)
            self.assign[name] = default
        return self.assign[name]

    def choice(self, name, options, default=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        d = None if default is None else options.index(default)
        return options[self.ivar(name, 0, len(options) - 1, d)]

    def flag(self, name, default=None):
        return self.ivar(name, 0, 1, None if default is None else int(default)) == 1

    def char(self, name, dom, default=None):
        codes = sorted(set(map(ord, dom)))
        if len(codes) == 1:
            return chr(codes[0])
        if name not in self.assign:
            self.assign[name] = ord(default) if default is not None else random.Random(f"{self.seed}:{name}").choice(codes)
        v = self.assign[name]
        self.assume(v in codes)
        return chr(v)

    def tofloat(self, s):
        return float(s)

    def toint(self, s):
        return int(s)

    def datetime(self, *a):
        return datetime(*a)

    def timedelta(self, **k):
        return timedelta(**k)

    def join(self, parts):
        return "".join(parts)

    def run(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: BLE001
            import traceback

            self.notes.append(("exc", traceback.format_exc()[-600:]))
            return None, e

    def assume(self, cond):
        if not cond:
            raise AssumeFailed

    def order_time(self, t):
        pass

    def reg_time(self, t):
        pass

    def check(self, label, cond):
        self.nchecks += 1
        if not cond:
            self.fails.append(label)

    def note(self, *a):
        self.notes.append(a)

    def file(self, parts):
        import io

        return io.StringIO("".join(parts))

    def carry(self, text):
        return text

    def expect_float(self, label, got, exp):
        got = float(got)
        if exp is None or exp != exp:
            ok = got != got
        else:
            ok = got == float(exp)
        self.check(label if ok else f"{label}: got {got!r} expected {exp!r}", ok)

    def expect_time(self, label, got_us, exp, res=1):
        ok = int(got_us) // res == us_of(exp) // res
        self.check(label if ok else f"{label}: got {EPOCH + timedelta(microseconds=int(got_us))} expected {exp}", ok)


# ------------------------------------------------------------------ helpers
def us_of(t):
    """native microseconds since 1970 of a (shadow) datetime"""
    d = datetime.__sub__(plain_dt(t), EPOCH)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def us_of_td(d):
    d = plain_td(d)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def plain_dt(t):
    if type(t) is datetime:
        return t
    return datetime(*[g(t) for g in _DTGET])


_DTNAMES = ("year", "month", "day", "hour", "minute", "second", "microsecond")
_DTGET = tuple(getattr(datetime, n).__get__ for n in _DTNAMES)


def plain_td(d):
    if type(d) is timedelta:
        return d
    return timedelta(days=d.days, seconds=d.seconds, microseconds=d.microseconds)


def fval(x):
    """real value of the shortest decimal that denotes the double x"""
    if x == int(x) and abs(x) < 1e17:
        return z3.RealVal(int(x))
    f = Fraction(repr(float(x)))
    return z3.RatVal(f.numerator, f.denominator)


def dval(x):
    """exact value of the double x"""
    f = Fraction(float(x))
    return z3.RatVal(f.numerator, f.denominator)


class SymBool:
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t = t
        self.c = bool(c)

    def __bool__(self):
        return CUR.path.branch(self.t, self.c)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.t, o.t), self.c and o.c)
        if isinstance(o, (bool, int)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.t, o.t), self.c or o.c)
        if isinstance(o, (bool, int)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.t, o.t), self.c != o.c)
        return ~self if o else self

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t), not self.c)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t, self.c == o.c)
        return self if o else ~self

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return bool(self) + o

    __radd__ = __add__

    def __repr__(self):
        return repr(self.c)


def not_(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def tt(x):
    """boolean term of a bool or SymBool"""
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def and_(*xs):
    xs = [x for x in xs if not (x is True)]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if not any(isinstance(x, SymBool) for x in xs):
        return all(xs)
    return SymBool(z3.And([tt(x) for x in xs]), all(x.c if isinstance(x, SymBool) else x for x in xs))


def or_(*xs):
    xs = [x for x in xs if not (x is False)]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if not any(isinstance(x, SymBool) for x in xs):
        return any(xs)
    return SymBool(z3.Or([tt(x) for x in xs]), any(x.c if isinstance(x, SymBool) else x for x in xs))


def ite(c, a, b):
    """symbolic if-then-else on ints"""
    if not isinstance(c, SymBool):
        return a if c else b
    return SymInt(iconc(a) if c.c else iconc(b), z3.If(c.t, iterm(a), iterm(b)))


# ------------------------------------------------------------------ ints
def iterm(x):
    return x.t if isinstance(x, SymInt) else z3.IntVal(int(x))


def iconc(x):
    return int.__int__(x) if isinstance(x, SymInt) else int(x)


def pin(x):
    """fix a symbolic value to its value in this run (other values are explored as other paths)"""
    if isinstance(x, SymInt):
        c = iconc(x)
        CUR.path.branch(x.t == c, True, 2)
        return c
    if isinstance(x, SymStr):
        x.pin()
        return str.__str__(x)
    return x


def mkint(c, t):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(c, t)


class SymInt(int):
    def __new__(cls, c, t):
        o = int.__new__(cls, c)
        o.t = t
        return o

    def _bin(self, o, fn, tf):
        if isinstance(o, SymFloat) or (isinstance(o, float) and not isinstance(o, bool)):
            return NotImplemented
        if not isinstance(o, int):
            return NotImplemented
        return SymInt(fn(iconc(self), iconc(o)), tf(self.t, iterm(o)))

    def __add__(self, o):
        if isinstance(o, float):
            return to_float(self) + o
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, float):
            return o + to_float(self)
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, float):
            return to_float(self) - o
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - to_float(self)
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float):
            return to_float(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * pin(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = pin(o)
        if not isinstance(o, int):
            return to_float(self) // o if isinstance(o, float) else NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o > 0:
            return SymInt(iconc(self) // o, self.t / o)
        return SymInt(iconc(self) // o, (-self.t) / (-o))

    def __mod__(self, o):
        if isinstance(o, float):
            return to_float(self) % o
        return self - (self // o) * o if not isinstance(o, int) or isinstance(o, SymInt) or o <= 0 else SymInt(
            iconc(self) % o, self.t % o)

    def __rfloordiv__(self, o):
        return o // pin(self)

    def __rmod__(self, o):
        return o % pin(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return to_float(self) / o

    def __rtruediv__(self, o):
        return o / pin(self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and not isinstance(o, SymInt) and 0 <= o <= 3 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(pin(self), pin(o))

    def __rpow__(self, o):
        return o ** pin(self)

    def __neg__(self):
        return SymInt(-iconc(self), -self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(abs(iconc(self)), z3.If(self.t >= 0, self.t, -self.t))

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        return pin(self) & pin(o)

    __rand__ = __and__

    def __or__(self, o):
        return pin(self) | pin(o)

    __ror__ = __or__

    def __lshift__(self, o):
        return pin(self) << pin(o)

    def __rshift__(self, o):
        return pin(self) >> pin(o)

    def _cmp(self, o, fn, tf):
        if isinstance(o, float):
            return getattr(to_float(self), fn.__name__)(o) if False else fn(to_float(self), o)
        if not isinstance(o, int):
            return NotImplemented
        return SymBool(tf(self.t, iterm(o)), fn(iconc(self), iconc(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(pin(self))

    def __index__(self):
        return pin(self)

    def __int__(self):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(iconc(self))

    def __repr__(self):
        return int.__repr__(self)

    def __str__(self):
        return int.__repr__(self)

    def __format__(self, spec):
        return format(iconc(self), spec)

    def __reduce__(self):
        return (int, (iconc(self),))


# ------------------------------------------------------------------ floats
def to_float(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(float(iconc(x)), z3.ToReal(x.t), 0, 2.0**40)
    return float(x)


class SymFloat(float):
    """
    t   : ideal real value
    err : bound on |double - t|   (0 = the double is exactly t)
    mag : bound on |t|
    """

    def __new__(cls, c, t, err=0.0, mag=1e12, integral_exact=True):
        o = float.__new__(cls, c)
        o.t = t
        o.err = err
        o.mag = mag
        o.ie = integral_exact  # an integral ideal value is represented exactly
        if CUR.path is not None:
            CUR.path.reg_float(o)
        return o

    def exact(self):
        """term of the double itself: ideal + bounded rounding error"""
        if self.err == 0:
            return self.t
        e = z3.Real(f"eps!{self.t.get_id()}!{self.err:.3g}")
        CUR.path.ex.keep(self.t)
        b = dval(self.err)
        ax = z3.And(e <= b, e >= -b)
        if self.ie:
            ax = z3.And(ax, z3.Implies(z3.IsInt(self.t), e == 0))
        CUR.path.axiom(ax)
        return self.t + e

    @staticmethod
    def _ulp(mag):
        return math.ulp(mag) / 2 * 1.0000001 if mag > 0 else 0.0

    def _arith(self, o, fn, tf, magf):
        if isinstance(o, SymInt):
            o = to_float(o)
        if isinstance(o, SymFloat):
            ot, om = o.exact(), o.mag
        elif isinstance(o, (int, float)) and not isinstance(o, bool):
            if o != o or o in (math.inf, -math.inf):
                return fn(float.__float__(self), float(o))
            ot, om = dval(o), abs(float(o))
        else:
            return NotImplemented
        mag = magf(self.mag, om)
        return SymFloat(fn(float.__float__(self), float.__float__(float(o)) if not isinstance(o, SymFloat) else float.__float__(o)),
                        tf(self.exact(), ot), self._ulp(mag), mag)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b, lambda a, b: a + b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda a, b: b - a, lambda a, b: a + b)

    def __mul__(self, o):
        if type(o) in (int, float) and o == o and 2.0**-60 < abs(o) < 2.0**60 and math.frexp(float(o))[0] in (0.5, -0.5):
            # a power of two: the product is exact
            return SymFloat(float.__float__(self) * o, self.exact() * dval(o), 0.0, self.mag * abs(o), False)
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymFloat, SymInt)):
            return float.__float__(self) / float(o)  # native; recovered by value only
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._arith(o, lambda a, b: a / b, lambda a, b: a / b, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return float(o) / float.__float__(self)

    def __mod__(self, o):
        if isinstance(o, (SymFloat, SymInt)) or not isinstance(o, (int, float)) or o <= 0:
            return float.__float__(self) % float(o)
        x = self.exact()
        k = dval(o)
        q = z3.ToReal(z3.ToInt(x / k))
        # exact for non-negative operands (fmod); negative results may round
        return SymFloat(float.__float__(self) % float(o), x - q * k, 0.0, float(o))

    def __rmod__(self, o):
        return float(o) % float.__float__(self)

    def __floordiv__(self, o):
        if isinstance(o, (SymFloat, SymInt)) or not isinstance(o, (int, float)) or o <= 0:
            return float.__float__(self) // float(o)
        return SymFloat(float.__float__(self) // float(o), z3.ToReal(z3.ToInt(self.exact() / dval(o))), 0.0, self.mag / o + 1)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, int) and o == 2:
            return self * self
        return float.__float__(self) ** float(o)

    def __neg__(self):
        return SymFloat(-float.__float__(self), -self.t, self.err, self.mag, self.ie)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(abs(float.__float__(self)), z3.If(self.t >= 0, self.t, -self.t), self.err, self.mag, self.ie)

    def trunc(self):
        x = self.exact()
        return SymInt(int(float.__float__(self)), z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    __trunc__ = trunc
    __int__ = trunc

    def __floor__(self):
        return SymInt(math.floor(float.__float__(self)), z3.ToInt(self.exact()))

    def __ceil__(self):
        return SymInt(math.ceil(float.__float__(self)), -z3.ToInt(-self.exact()))

    def __round__(self, n=None):
        if n is None:
            x = self.exact()
            f = z3.ToInt(x)
            d = x - z3.ToReal(f)
            h = z3.RealVal("1/2")
            return SymInt(round(float.__float__(self)), z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))
        n = pin(n)
        # nearest multiple of 10**-n, as a fresh integer within half a unit
        k = 10**n if n >= 0 else Fraction(1, 10**-n)
        x = self.exact() * (z3.RealVal(k) if not isinstance(k, Fraction) else z3.RatVal(k.numerator, k.denominator))
        f = z3.ToInt(x + z3.RealVal("1/2"))
        r = round(float.__float__(self), n)
        kk = z3.RealVal(k) if not isinstance(k, Fraction) else z3.RatVal(k.numerator, k.denominator)
        return SymFloat(r, z3.ToReal(f) / kk, self._ulp(self.mag), self.mag)

    def is_integer(self):
        return SymBool(z3.IsInt(self.exact()), float.__float__(self).is_integer())

    def _cmp(self, o, fn, tf):
        if isinstance(o, SymInt):
            o = to_float(o)
        if isinstance(o, SymFloat):
            if o.t.get_id() == self.t.get_id() and o.err == self.err:
                return fn(0.0, 0.0)
            if tf is _eqt and self.err == o.err == 0:
                return SymBool(self.t == o.t, fn(float.__float__(self), float.__float__(o)))
            if tf is _eqt:
                # doubles denoting different decimals of <= 15 digits differ
                return SymBool(self.t == o.t, fn(float.__float__(self), float.__float__(o)))
            return SymBool(tf(self.exact(), o.exact()), fn(float.__float__(self), float.__float__(o)))
        if isinstance(o, (int, float)):
            o = float(o)
            if o != o or o in (math.inf, -math.inf):
                return fn(float.__float__(self), o)
            if self.err and tf is not _eqt:
                # compare ideals against the decimal meant by the constant
                return SymBool(tf(self.exact(), dval(o)), fn(float.__float__(self), o))
            return SymBool(tf(self.t, fval(o)), fn(float.__float__(self), o))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, _ltt)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, _let)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, _gtt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, _get)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, _eqt)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(float.__float__(self))

    def __float__(self):
        return float.__float__(self)

    def __reduce__(self):
        return (float, (float.__float__(self),))

    def __repr__(self):
        return float.__repr__(self)

    def __format__(self, spec):
        return format(float.__float__(self), spec)


def _ltt(a, b):
    return a < b


def _let(a, b):
    return a <= b


def _gtt(a, b):
    return a > b


def _get(a, b):
    return a >= b


def _eqt(a, b):
    return a == b


# ------------------------------------------------------------------ time
def _days_term(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian) as a term; y, m, d ints or SymInts"""
    if not isinstance(y, SymInt) and not isinstance(m, SymInt):
        base = (datetime(iconc(y), iconc(m), 1) - EPOCH).days
        return base + iterm(d) - 1
    yt, mt, dt = iterm(y), iterm(m), iterm(d)
    if isinstance(y, SymInt):
        y1 = yt - 1
        ydays = 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400 - 719162
        leap = z3.And(yt % 4 == 0, z3.Or(yt % 100 != 0, yt % 400 == 0))
    else:
        ydays = z3.IntVal((datetime(iconc(y), 1, 1) - EPOCH).days)
        leap = z3.BoolVal(_leap(iconc(y)))
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    if isinstance(m, SymInt):
        md = z3.IntVal(cum[11])
        for i in range(10, -1, -1):
            md = z3.If(mt == i + 1, cum[i], md)
        md = md + z3.If(z3.And(leap, mt > 2), 1, 0)
    else:
        md = cum[iconc(m) - 1] + z3.If(leap, 1 if iconc(m) > 2 else 0, 0)
    return ydays + md + dt - 1


def _leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def valid_date(y, m, d, H, M, S, us):
    """validity of datetime arguments: bool or SymBool"""
    conds = [and_(1 <= y, y <= 9999), and_(m >= 1, m <= 12), d >= 1, and_(H >= 0, H <= 23), and_(M >= 0, M <= 59), and_(S >= 0, S <= 59),
             and_(us >= 0, us <= 999999)]
    if not isinstance(m, SymInt) and not isinstance(y, SymInt):
        if 1 <= m <= 12 and 1 <= y <= 9999:
            import calendar

            conds.append(d <= calendar.monthrange(iconc(y), iconc(m))[1])
    else:
        yc, mc, dc = iconc(y), iconc(m), iconc(d)
        yt, mt = iterm(y), iterm(m)
        leap = z3.And(yt % 4 == 0, z3.Or(yt % 100 != 0, yt % 400 == 0))
        dim = z3.If(mt == 2, z3.If(leap, 29, 28), z3.If(z3.Or(mt == 4, mt == 6, mt == 9, mt == 11), 30, 31))
        dimc = (29 if _leap(yc) else 28) if mc == 2 else (30 if mc in (4, 6, 9, 11) else 31)
        conds.append(SymBool(iterm(d) <= dim, dc <= dimc))
    return and_(*conds)


class SymDatetime(datetime):
    """comps: tuple of ints/SymInts (y,m,d,H,M,S,us) or None; us: term of microseconds since 1970"""

    @staticmethod
    def make(plain, us=None, comps=None):
        o = datetime.__new__(SymDatetime, plain.year, plain.month, plain.day, plain.hour, plain.minute, plain.second, plain.microsecond)
        o._us = us
        o.comps = comps
        if CUR.path is not None:
            CUR.path.reg_time(o)
        return o

    @property
    def us(self):
        if self._us is None:
            y, m, d, H, M, S, us = self.comps
            days = _days_term(y, m, d)
            self._us = simp(days * 86400000000 + iterm(H) * 3600000000 + iterm(M) * 60000000 + iterm(S) * 1000000 + iterm(us))
        return self._us

    def _cmp(self, o, fn, tf):
        if not isinstance(o, datetime):
            if CUR.path is not None and o is not None:
                CUR.path.order_time(self)
            return NotImplemented
        c = fn(us_of(self), us_of(o))
        return SymBool(tf(self.us, us_term(o)), c)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, _ltt)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, _let)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, _gtt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, _get)

    def __eq__(self, o):
        if isinstance(o, SymDatetime) and self.comps is not None and o.comps is not None:
            return and_(*[a == b for a, b in zip(self.comps, o.comps)])
        r = self._cmp(o, lambda a, b: a == b, _eqt)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return datetime.__hash__(plain_dt(self))

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self + (-o)
        if isinstance(o, datetime):
            return SymTimedelta.make(timedelta(microseconds=us_of(self) - us_of(o)), self.us - us_term(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return SymTimedelta.make(timedelta(microseconds=us_of(o) - us_of(self)), us_term(o) - self.us)
        return NotImplemented

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        return SymDatetime.make(plain_dt(self) + plain_td(o), simp(self.us + td_term(o)))

    __radd__ = __add__

    def comp(self, k):
        """component k of year, month, ... microsecond"""
        if self.comps is not None:
            return self.comps[k]
        c = _DTGET[k](self)
        if k < 3:
            # the calendar date of a sum: one day at a time
            if CUR.path is None or CUR.path.frozen:
                return c
            d = us_of(self) // 86400000000
            CUR.path.branch(simp(self.us / 86400000000 == d), True, 2)
            return c
        div, mod = ((3600000000, 24), (60000000, 60), (1000000, 60), (1, 1000000))[k - 3]
        return mkint(c, simp((self.us / div) % mod))

    def replace(self, *a, **kw):
        c = [self.comp(k) for k in range(7)]
        c[:len(a)] = a
        for k, n in enumerate(_DTNAMES):
            c[k] = kw.get(n, c[k])
        return mkdatetime(*c)

    def _fixed(self):
        """the value in this run; the others are other paths"""
        if CUR.path is not None and not CUR.path.frozen:
            CUR.path.branch(self.us == us_of(self), True, 2)
        return plain_dt(self)

    def isoformat(self, sep="T", timespec="auto"):
        c = [self.comp(k) for k in range(7)]
        if timespec == "auto":
            timespec = "microseconds" if bool(c[6] != 0) else "seconds"
        if timespec not in ("seconds", "microseconds"):
            return self._fixed().isoformat(sep, timespec)
        p = [digits(c[0], 4), "-", digits(c[1], 2), "-", digits(c[2], 2), sep, digits(c[3], 2), ":", digits(c[4], 2), ":", digits(c[5], 2)]
        if timespec == "microseconds":
            p += [".", digits(c[6], 6)]
        return join_any(p)

    def __str__(self):
        return str(plain_dt(self))

    def strftime(self, fmt):
        if not isinstance(fmt, str):
            return self._fixed().strftime(fmt)
        w = dict(Y=(0, 4), m=(1, 2), d=(2, 2), H=(3, 2), M=(4, 2), S=(5, 2), f=(6, 6))
        out, i, fmt = [], 0, pin(fmt)
        while i < len(fmt):
            if fmt[i] == "%" and i + 1 < len(fmt):
                k = fmt[i + 1]
                if k == "%":
                    out.append("%")
                elif k in w:
                    out.append(digits(self.comp(w[k][0]), w[k][1]))
                elif k in "TF":
                    out.append(self.strftime("%H:%M:%S" if k == "T" else "%Y-%m-%d"))
                else:
                    return self._fixed().strftime(fmt)
                i += 2
            else:
                out.append(fmt[i])
                i += 1
        return join_any(out)

    def __format__(self, spec):
        return format(plain_dt(self), spec)

    def symformat(self, spec):
        return self.strftime(spec) if spec else self.isoformat(" ")

    def toordinal(self):
        return mkint(plain_dt(self).toordinal(), simp(self.us / 86400000000 + 719163))

    def weekday(self):
        return mkint(plain_dt(self).weekday(), simp((self.us / 86400000000 + 3) % 7))

    def isoweekday(self):
        return self.weekday() + 1

    def date(self):
        for k in range(3):
            pin(self.comp(k))
        return plain_dt(self).date()

    def time(self):
        return self._fixed().time()

    def timestamp(self):
        return self._fixed().timestamp()

    def timetuple(self):
        return self._fixed().timetuple()

    def astimezone(self, *a):
        return self._fixed().astimezone(*a)

    def __reduce_ex__(self, p):
        return plain_dt(self).__reduce_ex__(p)

    def __reduce__(self):
        return plain_dt(self).__reduce__()


def digits(x, w):
    """decimal digits of a number known to be in 0..10**w - 1"""
    if not isinstance(x, SymInt):
        return f"{int(x):0{w}d}"
    c = f"{iconc(x):0{w}d}"
    dom = frozenset(range(48, 58))
    return mkstr([Ch(simp(z3.IntVal(48) + (x.t / 10 ** (w - 1 - k)) % 10), ord(c[k]), dom) for k in range(w)])


def decimal(x, sign=""):
    """str() of an integer: its sign and number of digits are part of the path condition"""
    c = iconc(x)
    n = x
    if not bool(x >= 0):
        n, sign = -x, "-"
    w = len(str(abs(c)))
    if w > 1:
        bool(n >= 10 ** (w - 1))
    bool(n < 10 ** w)
    return join_any([sign, digits(n, w)])


def fmt_int(x, spec):
    import re

    m = re.fullmatch(r"(?:(.)?([<>^=]))?([+ ])?(0)?(\d+)?d?", spec)
    if not m:
        return format(pin(x), spec)
    fill, align, sign, z, w = m.groups()
    if align == "=" or (z and not align):
        if not bool(x >= 0) or sign:
            return format(pin(x), spec)
        align, fill = ">", fill or "0"
    s = decimal(x, sign or "")
    if w is None:
        return s
    return fmt_str(s, f"{fill or ' '}{align or '>'}{int(w)}")


def us_term(o):
    return o.us if isinstance(o, SymDatetime) else z3.IntVal(us_of(o))


def td_term(o):
    return o.us if isinstance(o, SymTimedelta) else z3.IntVal(us_of_td(o))


def mkdatetime(year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    comps = (year, month, day, hour, minute, second, microsecond)
    if not any(isinstance(c, SymInt) for c in comps):
        return datetime(*comps)
    ok = valid_date(*comps)
    if not ok:
        raise ValueError("date/time component out of range")
    return SymDatetime.make(datetime(*[iconc(c) for c in comps]), None, comps)


class SymTimedelta(timedelta):
    def comp(self, name):
        d = self.us
        if name == "days":
            return mkint(timedelta.days.__get__(self), simp(d / 86400000000))
        if name == "seconds":
            return mkint(timedelta.seconds.__get__(self), simp((d / 1000000) % 86400))
        return mkint(timedelta.microseconds.__get__(self), simp(d % 1000000))

    @staticmethod
    def make(plain, us):
        o = timedelta.__new__(SymTimedelta, days=plain.days, seconds=plain.seconds, microseconds=plain.microseconds)
        o.us = us
        return o

    def _cmp(self, o, fn, tf):
        if not isinstance(o, timedelta):
            return NotImplemented
        return SymBool(tf(self.us, td_term(o)), fn(us_of_td(self), us_of_td(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, _ltt)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, _let)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, _gtt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, _get)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, _eqt)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(plain_td(self))

    def __bool__(self):
        return CUR.path.branch(self.us != 0, us_of_td(self) != 0)

    def __add__(self, o):
        if isinstance(o, datetime):
            return SymDatetime.make(plain_dt(o) + plain_td(self), simp(us_term(o) + self.us))
        if isinstance(o, timedelta):
            return SymTimedelta.make(plain_td(self) + plain_td(o), self.us + td_term(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return SymTimedelta.make(plain_td(self) - plain_td(o), self.us - td_term(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, datetime):
            return SymDatetime.make(plain_dt(o) - plain_td(self), simp(us_term(o) - self.us))
        if isinstance(o, timedelta):
            return SymTimedelta.make(plain_td(o) - plain_td(self), td_term(o) - self.us)
        return NotImplemented

    def __neg__(self):
        return SymTimedelta.make(-plain_td(self), -self.us)

    def __abs__(self):
        return SymTimedelta.make(abs(plain_td(self)), z3.If(self.us >= 0, self.us, -self.us))

    def __mul__(self, o):
        if isinstance(o, int):
            return SymTimedelta.make(plain_td(self) * iconc(o), self.us * iterm(o))
        if isinstance(o, SymFloat):
            return mktimedelta(microseconds=SymFloat(us_of_td(self) * float(o), z3.ToReal(self.us) * o.exact(), 1e-6, 1e18))
        return plain_td(self) * o

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            n, d = us_of_td(self), us_of_td(o)
            if isinstance(o, SymTimedelta):
                # z3 div floors for positive divisors; fork on the sign, and introduce the quotient with its definition
                if o == timedelta(0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if not o > timedelta(0):
                    return n // d
                return div_pos(self.us, o.us, n // d)
            if d == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if d > 0:
                return SymInt(n // d, self.us / d)
            return n // d
        if isinstance(o, int):
            o = pin(o)
            if o > 0:
                return SymTimedelta.make(plain_td(self) // o, self.us / o)
        return plain_td(self) // o

    def __rfloordiv__(self, o):
        if isinstance(o, timedelta):
            return SymTimedelta.make(plain_td(o), td_term(o)) // self
        return NotImplemented

    def __mod__(self, o):
        q = self // o
        return self - o * q

    def __rmod__(self, o):
        return SymTimedelta.make(plain_td(o), td_term(o)) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            if isinstance(o, SymTimedelta):
                if o == timedelta(0):
                    raise ZeroDivisionError("division by zero")
                q = z3.Real(f"q!{self.us.get_id()}!{o.us.get_id()}")
                CUR.path.ex.keep(self.us)
                CUR.path.ex.keep(o.us)
                CUR.path.axiom(q * z3.ToReal(o.us) == z3.ToReal(self.us))
                c = plain_td(self) / plain_td(o)
                return SymFloat(c, q, math.ulp(1e6), 1e6)
            d = us_of_td(o)
            if d == 0:
                raise ZeroDivisionError("division by zero")
            return SymFloat(plain_td(self) / plain_td(o), z3.ToReal(self.us) / z3.RealVal(d), SymFloat._ulp(1e9), 1e9)
        if isinstance(o, int) and not isinstance(o, SymInt):
            return mktimedelta(microseconds=SymFloat(us_of_td(self) / o, z3.ToReal(self.us) / o, 0, 1e15))
        return plain_td(self) / o

    def __rtruediv__(self, o):
        if isinstance(o, timedelta):
            return SymTimedelta.make(plain_td(o), td_term(o)) / self
        return NotImplemented

    def total_seconds(self):
        return SymFloat(plain_td(self).total_seconds(), z3.ToReal(self.us) / z3.RealVal(1000000), SymFloat._ulp(1e9), 1e9)

    def __reduce__(self):
        return plain_td(self).__reduce__()

    def __reduce_ex__(self, p):
        return plain_td(self).__reduce__()


def div_pos(n, d, c):
    """floor(n/d), d > 0 both symbolic: fresh integer with its defining inequalities"""
    q = z3.Int(f"qi!{n.get_id()}!{d.get_id()}")
    CUR.path.ex.keep(n)
    CUR.path.ex.keep(d)
    CUR.path.axiom(z3.And(q * d <= n, n < q * d + d))
    return SymInt(c, q)


def mktimedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    args = dict(days=days, seconds=seconds, microseconds=microseconds, milliseconds=milliseconds, minutes=minutes, hours=hours, weeks=weeks)
    if not any(isinstance(v, (SymInt, SymFloat)) for v in args.values()):
        return timedelta(**args)
    scale = dict(days=86400000000, seconds=1000000, microseconds=1, milliseconds=1000, minutes=60000000, hours=3600000000, weeks=604800000000)
    plain = timedelta(**{k: (float.__float__(v) if isinstance(v, SymFloat) else iconc(v) if isinstance(v, SymInt) else v)
                         for k, v in args.items()})
    it = z3.IntVal(0)
    rt = None
    for k, v in args.items():
        if getattr(v, "it", None) is not None:
            it = it + v.it * scale[k]
        elif isinstance(v, float):
            term = (v.exact() if isinstance(v, SymFloat) else dval(v)) * scale[k]
            rt = term if rt is None else rt + term
        else:
            it = it + iterm(v) * scale[k]
    if rt is not None:
        # nearest microsecond: fresh integer within half a unit (+ rounding of the float product)
        rt = simp(rt)
        n = z3.Int(f"rn!{rt.get_id()}")
        CUR.path.ex.keep(rt)
        h = z3.RealVal("500001/1000000")
        CUR.path.axiom(z3.And(z3.ToReal(n) - rt <= h, rt - z3.ToReal(n) <= h))
        it = it + n
    return SymTimedelta.make(plain, simp(it))


# ------------------------------------------------------------------ strings
WS = frozenset(map(ord, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"))
DIG = frozenset(range(48, 58))
PRINTABLE = frozenset(range(32, 127))


class Ch:
    """symbolic character: code point term, value in this run, domain"""

    __slots__ = ("t", "c", "dom")

    def __init__(self, t, c, dom):
        self.t = t
        self.c = c
        self.dom = dom


def ch_in(ch, s):
    """is a character (int or Ch) in the set s: bool or SymBool"""
    if isinstance(ch, int):
        return ch in s
    i = ch.dom & s
    if not i:
        return False
    if len(i) == len(ch.dom):
        return True
    return SymBool(_in_term(ch.t, i), ch.c in s)


_INT = {}


def _in_term(t, vals):
    v = sorted(vals)
    # ranges
    parts = []
    lo = prev = v[0]
    for x in v[1:] + [None]:
        if x is not None and x == prev + 1:
            prev = x
            continue
        parts.append(t == lo if lo == prev else z3.And(t >= lo, t <= prev))
        if x is not None:
            lo = prev = x
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def ch_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if b not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return SymBool(a.t == b, a.c == b)
    if a is b:
        return True
    if not (a.dom & b.dom):
        return False
    return SymBool(a.t == b.t, a.c == b.c)


def cc(ch):
    return ch if isinstance(ch, int) else ch.c


def chars_of(s):
    if isinstance(s, SymStr):
        return s.chars
    return [ord(c) for c in s]


def mkstr(chars):
    """list of chars -> str if fully concrete else SymStr"""
    for c in chars:
        if not isinstance(c, int):
            return SymStr(chars)
    return "".join(map(chr, chars))


def join_any(parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, SymStr):
            sym = True
            out.extend(p.chars)
        elif isinstance(p, Ch):
            sym = True
            out.append(p)
        else:
            out.extend(map(ord, p))
    return SymStr(out) if sym else "".join(map(chr, out))


class SymStr(str):
    def __new__(cls, chars):
        o = str.__new__(cls, "".join([chr(c) if isinstance(c, int) else chr(c.c) for c in chars]))
        o.chars = chars
        o.pinned = False
        return o

    # -- basics
    def pin(self):
        if not self.pinned:
            conj = [c.t == c.c for c in self.chars if not isinstance(c, int) and len(c.dom) > 1]
            if conj:
                CUR.path.branch(conj[0] if len(conj) == 1 else z3.And(conj), True, 2)
            self.pinned = True

    def __hash__(self):
        self.pin()
        return str.__hash__(self)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self.pinned and (not isinstance(o, SymStr) or o.pinned):
            return str.__eq__(self, str.__str__(o))
        if str.__len__(self) != str.__len__(o):
            return False
        oc = chars_of(o)
        rs = []
        for a, b in zip(self.chars, oc):
            r = ch_eq(a, b)
            if r is False:
                return False
            if r is not True:
                rs.append(r)
        if not rs:
            return True
        return rs[0] if len(rs) == 1 else and_(*rs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _lex(self, o, strict):
        """self < o (strict) or self <= o as bool/SymBool"""
        a, b = self.chars, chars_of(o)
        n = min(len(a), len(b))
        tail = len(a) < len(b) if strict else len(a) <= len(b)
        res = z3.BoolVal(tail)
        for i in range(n - 1, -1, -1):
            x, y = _ct(a[i]), _ct(b[i])
            res = z3.Or(x < y, z3.And(x == y, res))
        sa, so = str.__str__(self), "".join(chr(cc(c)) for c in b)
        return SymBool(simp(res), sa < so if strict else sa <= so)

    def __lt__(self, o):
        return self._lex(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lex(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not_(self._lex(o, False)) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not_(self._lex(o, True)) if isinstance(o, str) else NotImplemented

    def __bool__(self):
        return len(self.chars) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[pin(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
            return mkstr(self.chars[i])
        return mkstr([self.chars[pin(i)]])

    def __iter__(self):
        for c in self.chars:
            yield mkstr([c])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(list(self.chars) + list(chars_of(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(list(chars_of(o)) + list(self.chars))

    def __mul__(self, n):
        return mkstr(list(self.chars) * pin(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        return str.__str__(self) % o

    def __rmod__(self, o):
        return str.__mod__(o, str.__str__(self))

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) >= 0

    def __str__(self):
        return self

    def __repr__(self):
        return str.__repr__(self)

    def __format__(self, spec):
        r = fmt_str(self, spec)
        return str.__str__(r)

    def __reduce__(self):
        return (str, (str.__str__(self),))

    # -- predicates
    def startswith(self, p, start=0, end=None):
        s = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            for q in p:
                if s.startswith(q):
                    return True
            return False
        n = len(p)
        if n > len(s):
            return False
        h = s[:n]
        return h == p

    def endswith(self, p, start=0, end=None):
        s = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return any(bool(s.endswith(q)) for q in p)
        n = len(p)
        if n > len(s):
            return False
        return s[len(s) - n:] == p

    def _all(self, pred_set):
        if not self.chars:
            return False
        return and_(*[ch_in(c, pred_set) for c in self.chars])

    def isdigit(self):
        return bool(self._all(DIG))

    isnumeric = isdecimal = isdigit

    def isspace(self):
        return bool(self._all(WS))

    def isalpha(self):
        return bool(self._all(_ALPHA))

    def isalnum(self):
        return bool(self._all(_ALPHA | DIG))

    def isupper(self):
        self.pin()
        return str.isupper(self)

    def islower(self):
        self.pin()
        return str.islower(self)

    def isprintable(self):
        return bool(self._all(PRINTABLE))

    def isascii(self):
        return True

    # -- searching
    def find(self, sub, start=0, end=None):
        n, m = len(self.chars), len(sub)
        start = pin(start) or 0
        if start < 0:
            start = max(0, n + start)
        stop = n if end is None else slice(None, pin(end)).indices(n)[1]
        sc = chars_of(sub)
        for i in range(start, stop - m + 1):
            ok = True
            conj = []
            for a, b in zip(self.chars[i:i + m], sc):
                r = ch_eq(a, b)
                if r is False:
                    ok = False
                    break
                if r is not True:
                    conj.append(r)
            if ok and (not conj or bool(and_(*conj))):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        last = -1
        i = self.find(sub, start, end)
        while i >= 0:
            last = i
            i = self.find(sub, i + 1, end)
        return last

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        n, i = 0, self.find(sub, *a)
        while i >= 0:
            n += 1
            i = self.find(sub, i + max(1, len(sub)))
        return n

    # -- transformation
    def _set(self, chars):
        if chars is None:
            return WS
        return frozenset(map(ord, chars if not isinstance(chars, SymStr) else pin(chars)))

    def lstrip(self, chars=None):
        s = self._set(chars)
        i = 0
        while i < len(self.chars) and bool(ch_in(self.chars[i], s)):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        s = self._set(chars)
        i = len(self.chars)
        while i > 0 and bool(ch_in(self.chars[i - 1], s)):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        old, new = pin(old), new
        if len(old) == 1 and isinstance(new, str) and not isinstance(new, SymStr) and len(new) == 1 and count < 0:
            o, n = ord(old), ord(new)
            out = []
            for c in self.chars:
                if isinstance(c, int):
                    out.append(n if c == o else c)
                elif o not in c.dom:
                    out.append(c)
                else:
                    out.append(Ch(z3.If(c.t == o, n, c.t), n if c.c == o else c.c, (c.dom - {o}) | {n}))
            return mkstr(out)
        if not old:
            return str.replace(pin(self), old, new, count)
        out = []
        i = 0
        done = 0
        m = len(old)
        nc = list(chars_of(new))
        while i < len(self.chars):
            if (count < 0 or done < count) and i + m <= len(self.chars):
                seg = mkstr(self.chars[i:i + m])
                if bool(seg == old):
                    out.extend(nc)
                    i += m
                    done += 1
                    continue
            out.append(self.chars[i])
            i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self.chars:
            hit = {}
            for v in ([c] if isinstance(c, int) else c.dom):
                try:
                    r = table[v]
                except LookupError:
                    continue
                hit[v] = "" if r is None else chr(r) if isinstance(r, int) else r
            if not hit:
                out.append(c)
            elif isinstance(c, int):
                out.extend(chars_of(hit[c]))
            elif all(len(r) == 1 for r in hit.values()):
                t = c.t
                for v, r in hit.items():
                    t = z3.If(c.t == v, ord(r), t)
                out.append(Ch(t, ord(hit[c.c]) if c.c in hit else c.c, (c.dom - set(hit)) | {ord(r) for r in hit.values()}))
            elif bool(ch_in(c, frozenset(hit))):
                CUR.path.branch(c.t == c.c, True, 2)
                out.extend(chars_of(hit[c.c]))
            else:
                out.append(c)
        return mkstr(out)

    def _map(self, f):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                out.append(ord(f(chr(c))))
            else:
                changed = [v for v in c.dom if f(chr(v)) != chr(v)]
                if not changed:
                    out.append(c)
                else:
                    t = c.t
                    for v in changed:
                        t = z3.If(c.t == v, ord(f(chr(v))), t)
                    out.append(Ch(t, ord(f(chr(c.c))), frozenset(ord(f(chr(v))) for v in c.dom)))
        return mkstr(out)

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    casefold = lower

    def swapcase(self):
        return self._map(str.swapcase)

    def title(self):
        return str.title(pin(self))

    def capitalize(self):
        return str.capitalize(pin(self))

    def ljust(self, w, fill=" "):
        w = pin(w)
        return mkstr(list(self.chars) + [ord(fill)] * max(0, w - len(self.chars)))

    def rjust(self, w, fill=" "):
        w = pin(w)
        return mkstr([ord(fill)] * max(0, w - len(self.chars)) + list(self.chars))

    def center(self, w, fill=" "):
        w = pin(w)
        pad = max(0, w - len(self.chars))
        left = pad // 2 + (pad & w & 1)
        return mkstr([ord(fill)] * left + list(self.chars) + [ord(fill)] * (pad - left))

    def zfill(self, w):
        w = pin(w)
        if self.chars and bool(ch_in(self.chars[0], frozenset(map(ord, "+-")))):
            return mkstr([self.chars[0]] + [48] * max(0, w - len(self.chars)) + list(self.chars[1:]))
        return self.rjust(w, "0")

    def expandtabs(self, n=8):
        return str.expandtabs(pin(self), n)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            k = 0
            n = len(self.chars)
            while k < n:
                while k < n and bool(ch_in(self.chars[k], WS)):
                    k += 1
                if k >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.chars[k:]).rstrip())
                    return out
                cur = []
                while k < n and not bool(ch_in(self.chars[k], WS)):
                    cur.append(self.chars[k])
                    k += 1
                out.append(mkstr(cur))
            return out
        s = self
        m = len(sep)
        pos = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(mkstr(self.chars[pos:i]))
            pos = i + m
        out.append(mkstr(self.chars[pos:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return str.rsplit(pin(self), sep, maxsplit)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + len(sep):])

    def splitlines(self, keepends=False):
        out, cur = [], []
        nl = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e"))
        i = 0
        while i < len(self.chars):
            c = self.chars[i]
            if bool(ch_in(c, nl)):
                e = [c]
                if cc(c) == 13 and i + 1 < len(self.chars) and cc(self.chars[i + 1]) == 10:
                    i += 1
                    e.append(10)
                out.append(mkstr(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def join(self, it):
        return join_str(self, it)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes.make(self)

    def format(self, *a, **k):
        return str.format(pin(self), *a, **k)


_ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))


def _ct(c):
    return z3.IntVal(c) if isinstance(c, int) else c.t


def join_str(sep, it):
    parts = []
    first = True
    for x in it:
        if not isinstance(x, str):
            raise TypeError("sequence item: expected str instance")
        if not first and len(sep):
            parts.append(sep)
        parts.append(x)
        first = False
    return join_any(parts)


def fmt_str(v, spec):
    import re

    if not spec:
        return v
    m = re.fullmatch(r"(?:(.)?([<>^=]))?(0)?(\d+)?(?:\.(\d+))?s?", spec)
    if not m:
        return format(pin(v), spec)
    fill, align, z, w, prec = m.groups()
    fill = fill or " "
    align = align or "<"
    s = v
    if prec is not None:
        s = s[: int(prec)]
    if w:
        w = int(w)
        if not isinstance(s, SymStr):
            return format(s, spec)
        s = s.ljust(w, fill) if align == "<" else s.rjust(w, fill) if align == ">" else s.center(w, fill)
    return s


class SymBytes(bytes):
    @staticmethod
    def make(s):
        o = bytes.__new__(SymBytes, str.__str__(s).encode("latin-1"))
        o.s = s
        return o

    def decode(self, *a, **k):
        return self.s

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = self.s[i]
            return r.encode() if isinstance(r, SymStr) else r.encode("latin-1")
        self.s[i:i + 1] and pin(self.s[i])
        return bytes.__getitem__(self, i)


# ------------------------------------------------------------------ number parsing
_SIGN = frozenset(map(ord, "+-"))
_DOT = frozenset([46])
_EXP = frozenset(map(ord, "eE"))
_US = frozenset([95])
_OTHER = frozenset(range(0, 128)) - DIG - _SIGN - _DOT - _EXP - _US


def _cls(ch, classes):
    """concrete class of a char; the class membership becomes part of the path condition"""
    c = cc(ch)
    for k, s in classes:
        if c in s:
            if not isinstance(ch, int):
                bool(ch_in(ch, s))
            return k
    return "?"


def digit_term(ch):
    if isinstance(ch, int):
        return z3.IntVal(ch - 48)
    return simp(ch.t - 48)


_SUMCACHE = {}


def num_term(chars):
    """integer value of a digit list; cached on the identity of the characters"""
    key = tuple(c if isinstance(c, int) else ("t", c.t.get_id()) for c in chars)
    r = _SUMCACHE.get(key)
    if r is None:
        const = 0
        terms = []
        n = len(chars)
        for i, c in enumerate(chars):
            k = 10 ** (n - 1 - i)
            if isinstance(c, int):
                const += (c - 48) * k
            else:
                terms.append(c.t * k)
                const -= 48 * k
        if terms:
            e = z3.Sum(terms + [z3.IntVal(const)]) if len(terms) + 1 > 1 else terms[0]
            e = simp(e)
        else:
            e = z3.IntVal(const)
        r = (e, [c.t for c in chars if not isinstance(c, int)])
        _SUMCACHE[key] = r
    return r[0]


_ICL = (("d", DIG), ("s", _SIGN), ("u", _US), ("w", WS), ("o", frozenset(range(128)) - DIG - _SIGN - _US - WS))


def parse_int(s, base=10):
    if base != 10:
        return int(pin(s), base)
    raw = s
    s = s.strip()
    if not isinstance(s, SymStr):
        return int(s)
    cs = s.chars
    neg = False
    i = 0
    k = _cls(cs[0], _ICL)
    if k == "s":
        # fork on which sign
        if bool(ch_in(cs[0], frozenset([45]))):
            neg = True
        i = 1
    digs = []
    prev_us = True
    if i >= len(cs):
        raise ValueError(f"invalid literal for int() with base 10: {str.__repr__(raw)}")
    for ch in cs[i:]:
        k = _cls(ch, _ICL)
        if k == "d":
            digs.append(ch)
            prev_us = False
        elif k == "u" and not prev_us:
            bool(ch_in(ch, _US))
            prev_us = True
        else:
            raise ValueError(f"invalid literal for int() with base 10: {str.__repr__(raw)}")
    if prev_us:
        raise ValueError(f"invalid literal for int() with base 10: {str.__repr__(raw)}")
    t = num_term(digs)
    v = int("".join(chr(cc(c)) for c in digs))
    if neg:
        return mkint(-v, simp(-t))
    return mkint(v, t)


_FCL = (("d", DIG), ("s", _SIGN), (".", _DOT), ("e", _EXP), ("o", frozenset(range(128)) - DIG - _SIGN - _DOT - _EXP))


_FCACHE = {}


def parse_float(s):
    raw = s
    s = s.strip()
    if not isinstance(s, SymStr):
        return float(s)

    def bad():
        raise ValueError(f"could not convert string to float: {str.__repr__(raw)}")

    cs = s.chars
    i = 0
    n = len(cs)
    neg = False
    conc = "".join(chr(cc(c)) for c in cs)
    if conc.lower().lstrip("+-") in ("nan", "inf", "infinity") or "_" in conc:
        s.pin()
        return float(conc)
    if _cls(cs[0], _FCL) == "s":
        neg = bool(ch_in(cs[0], frozenset([45])))
        i = 1
    ip, fp, ex = [], [], None
    while i < n and _cls(cs[i], _FCL) == "d":
        ip.append(cs[i])
        i += 1
    if i < n and _cls(cs[i], _FCL) == ".":
        i += 1
        while i < n and _cls(cs[i], _FCL) == "d":
            fp.append(cs[i])
            i += 1
    if not ip and not fp:
        bad()
    eneg = False
    if i < n and _cls(cs[i], _FCL) == "e":
        i += 1
        ex = []
        if i < n and _cls(cs[i], _FCL) == "s":
            eneg = bool(ch_in(cs[i], frozenset([45])))
            i += 1
        while i < n and _cls(cs[i], _FCL) == "d":
            ex.append(cs[i])
            i += 1
        if not ex:
            bad()
    if i < n:
        _cls(cs[i], _FCL)
        bad()
    c = float(conc)
    key = (neg, eneg, tuple(x if isinstance(x, int) else ("t", x.t.get_id()) for x in ip + [46] + fp + [69] + (ex or [])))
    r = _FCACHE.get(key)
    if r is None:
        m = num_term(ip + fp) if ip + fp else z3.IntVal(0)
        if neg:
            m = simp(-m)
        scale = -len(fp)
        nd = len(ip) + len(fp)
        if ex is None or all(isinstance(x, int) for x in ex):
            e = scale
            if ex is not None:
                ev = int("".join(chr(x) for x in ex))
                e += -ev if eneg else ev
            t = _pow10(z3.ToReal(m), e)
            mag = 10.0 ** min(300, len(ip) + (e - scale))
        else:
            t = _exp_term(z3.ToReal(m), ex, scale, eneg)
            mag = 10.0 ** min(300, len(ip) + 99)
        t = simp(t)
        r = (t, mag, (ip, fp, ex))
        _FCACHE[key] = r
    t, mag, _ = r
    err = 0.0 if (not fp and ex is None) else SymFloat._ulp(mag)
    return SymFloat(c, t, err, mag)


def _pow10(r, e):
    if e == 0:
        return r
    if e > 0:
        return r * z3.RealVal(10**e)
    return r / z3.RealVal(10**-e)


def _exp_term(m, ex, scale, eneg):
    ev = num_term(ex)
    # possible values of the exponent from the character domains
    vals = [0]
    for x in ex:
        ds = [x - 48] if isinstance(x, int) else [d - 48 for d in sorted(x.dom & DIG)]
        vals = [v * 10 + d for v in vals for d in ds]
    vals = sorted(set(vals))
    t = _pow10(m, scale + (-vals[-1] if eneg else vals[-1]))
    for v in reversed(vals[:-1]):
        t = z3.If(ev == v, _pow10(m, scale + (-v if eneg else v)), t)
    return t


# ------------------------------------------------------------------ files
import io  # noqa: E402


class SymFile(io.StringIO):
    """text stream over a (possibly symbolic) string"""

    kind = io.StringIO  # what the code under test takes it for

    def __init__(self, content, name=None, kind=None):
        super().__init__()
        if kind is not None:
            self.kind = kind
        self._content = content
        self._chars = None
        lines = []
        chars = chars_of(content) if isinstance(content, SymStr) else None
        if chars is None:
            lines = str(content).splitlines(keepends=True) if False else _nl_split(content)
        else:
            cur = []
            for c in chars:
                cur.append(c)
                if isinstance(c, int) and c == 10:
                    lines.append(mkstr(cur))
                    cur = []
            if cur:
                lines.append(mkstr(cur))
        self._lines = lines
        self._starts = [0]
        for l in lines:
            self._starts.append(self._starts[-1] + len(l))
        self._pos = 0
        if name is not None:
            self.name = name

    def _line_at(self, pos):
        import bisect

        i = bisect.bisect_right(self._starts, pos) - 1
        return i

    def readline(self, size=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        size = -1 if size is None else pin(size)
        if self._pos >= self._starts[-1] or not self._lines:
            return ""
        i = self._line_at(self._pos)
        off = self._pos - self._starts[i]
        l = self._lines[i]
        r = l[off:] if off else l
        if size >= 0:
            r = r[:size]
        self._pos += len(r)
        return r

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def __iter__(self):
        return self

    def read(self, size=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        size = -1 if size is None else pin(size)
        out = []
        left = size if size >= 0 else None
        while left is None or left > 0:
            l = self.readline(-1 if left is None else left)
            if len(l) == 0:
                break
            out.append(l)
            if left is not None:
                left -= len(l)
        return join_any(out)

    def readlines(self, hint=-1):
        return list(self)

    def getvalue(self):
        return join_any(self._lines)

    def tell(self):
        return self._pos

    def seek(self, pos, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        pos = pin(pos)
        if whence == 0:
            self._pos = pos
        elif whence == 1:
            self._pos = self._pos + pos
        else:
            self._pos = self._starts[-1] + pos
        return self._pos

    def write(self, s):
        raise io.UnsupportedOperation("write")

    def truncate(self, *a):
        raise io.UnsupportedOperation("truncate")


def _nl_split(s):
    out = []
    i = 0
    while i < len(s):
        j = s.find("\n", i)
        if j < 0:
            out.append(s[i:])
            break
        out.append(s[i:j + 1])
        i = j + 1
    return out
