"""
Real numbers for numeric code: arithmetic without rounding, trigonometric functions and roots as uninterpreted functions.
They travel in object arrays; the numpy functions called by the package work on them element by element.
"""
from __future__ import annotations
import math
from fractions import Fraction

import numpy as np

from . import core
from .poison import VALUE
from .core import CUR, SymBool, SymFloat, SymInt, dval, z3

R = z3.RealSort()
UF = {}


def ufn(name, n):
    k = (name, n)
    if k not in UF:
        UF[k] = z3.Function("r_" + name, *([R] * (n + 1)))
    return UF[k]


def norm(t):
    return z3.simplify(t, som=True, flat=True, arith_lhs=False, som_blowup=100000)


class Names:
    """applications of uninterpreted functions and quotients become variables: one for all with equal arguments"""

    def __init__(self):
        self.known = {}
        self.memo = {}
        self.hold = []

    def atom(self, key, args):
        for other, v in self.known.setdefault(key, []):
            if all(zero(a - b) for a, b in zip(args, other)):
                return v
        v = z3.Real(f"atom!{key[0]}!{sum(map(len, self.known.values()))}")
        self.known[key].append((args, v))
        return v

    def term(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.hold.append(t)
            st = [t]
            while st:
                x = st[-1]
                todo = [y for y in x.children() if y.get_id() not in self.memo]
                if todo:
                    st.extend(todo)
                    continue
                st.pop()
                if x.get_id() not in self.memo:
                    self.hold.append(x)
                    self.memo[x.get_id()] = self.node(x)
        return self.memo[k]

    def node(self, x):
        ch = [self.memo[y.get_id()] for y in x.children()]
        if not ch:
            return x
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            return self.atom((d.name(), len(ch)), [norm(y) for y in ch])
        if d.kind() == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return self.atom(("quotient", 2), [norm(y) for y in ch])
        if d.kind() == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if d.kind() == z3.Z3_OP_MUL:
            return z3.Product(ch)
        return d(*ch)


def zero(t):
    t = norm(t)
    return z3.is_rational_value(t) and t.as_fraction() == 0


def ratio(x):
    """the decimal a constant is written as"""
    f = Fraction(repr(float(x)))
    return z3.RatVal(f.numerator, f.denominator)


class Ideal(SymFloat):
    """c: the double of this run, t: real term, it: integer term when the value is an integer"""

    def __new__(cls, c, t, it=None):
        o = float.__new__(cls, c)
        o.t = norm(t)
        o.it = it
        o.err = 0.0
        o.mag = 1e15
        o.ie = True
        CUR.path.ex.keep(o.t)
        return o

    def exact(self):
        return self.t

    @staticmethod
    def of(x):
        if isinstance(x, Ideal):
            return x
        if isinstance(x, SymFloat):
            return Ideal(float.__float__(x), x.t)
        if isinstance(x, SymInt):
            return Ideal(float(core.iconc(x)), z3.ToReal(x.t), x.t)
        if isinstance(x, (bool, np.bool_)):
            x = int(x)
        if isinstance(x, (np.floating, np.integer)):
            x = x.item()
        if isinstance(x, int):
            return Ideal(float(x), z3.RealVal(x), z3.IntVal(x))
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf):
                return None
            return Ideal(x, ratio(x), z3.IntVal(int(x)) if x == int(x) else None)
        return None

    def _bin(self, o, fn, tf, rev=False, ints=True):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Ideal.of(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        it = tf(a.it, b.it) if ints and a.it is not None and b.it is not None else None
        return Ideal(fn(float.__float__(a), float.__float__(b)), tf(a.t, b.t), None if it is None else z3.simplify(it))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, lambda a, b: a / b, False, False)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: a / b, lambda a, b: a / b, True, False)

    def __mod__(self, o):
        o = Ideal.of(o)
        if o is None:
            return NotImplemented
        return Ideal(float.__float__(self) % float.__float__(o), self.t - o.t * z3.ToReal(z3.ToInt(self.t / o.t)))

    def __floordiv__(self, o):
        o = Ideal.of(o)
        if o is None:
            return NotImplemented
        it = z3.ToInt(self.t / o.t)
        return Ideal(float.__float__(self) // float.__float__(o), z3.ToReal(it), it)

    def __pow__(self, o, m=None):
        if isinstance(o, SymFloat) or o * 2 != int(o * 2) or abs(o) > 8:
            return float.__float__(self) ** float(o)
        n = abs(int(o * 2))
        t = z3.RealVal(1)
        for _ in range(n // 2):
            t = t * self.t
        if n % 2:
            t = t * self.sqrt().t
        return Ideal(float.__float__(self) ** float(o), t if o >= 0 else 1 / t, None)

    def __neg__(self):
        return Ideal(-float.__float__(self), -self.t, None if self.it is None else -self.it)

    def __abs__(self):
        return Ideal(abs(float.__float__(self)), z3.If(self.t >= 0, self.t, -self.t))

    def _f(self, name, fn, *more):
        more = [Ideal.of(m) for m in more]
        return Ideal(fn(float.__float__(self), *[float.__float__(m) for m in more]), ufn(name, 1 + len(more))(self.t, *[m.t for m in more]))

    def sqrt(self):
        return self._f("sqrt", math.sqrt)

    def sin(self):
        return self._f("sin", math.sin)

    def cos(self):
        return self._f("cos", math.cos)

    def tan(self):
        return self._f("tan", math.tan)

    def arctan(self):
        return self._f("arctan", math.atan)

    def arcsin(self):
        return self._f("arcsin", math.asin)

    def arccos(self):
        return self._f("arccos", math.acos)

    def arctan2(self, o):
        return self._f("arctan2", math.atan2, o)

    def hypot(self, o):
        return self._f("hypot", math.hypot, o)

    def conjugate(self):
        return self

    def trunc(self):
        it = self.it if self.it is not None else z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))
        return SymInt(int(float.__float__(self)), it)

    __trunc__ = trunc
    __int__ = trunc

    def rint(self):
        return self if self.it is not None else float.__float__(self)


MATH = {math.sin: "sin", math.cos: "cos", math.sqrt: "sqrt", math.atan2: "arctan2", math.tan: "tan", math.atan: "arctan", math.hypot: "hypot"}


def objs(x):
    return isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(y, (SymFloat, SymInt)) for y in x.ravel())


def lifted(x):
    """object array of real numbers"""
    a = np.empty(np.shape(x), dtype=object)
    for i, v in np.ndenumerate(np.asarray(x, dtype=object)):
        a[i] = Ideal.of(v) if isinstance(v, (int, float, np.number)) and v == v else v
    return a


def numeric(f, a, k):
    """numpy calls on real numbers -> (handled, result)"""
    if f in MATH and any(isinstance(x, Ideal) for x in a):
        return True, getattr(Ideal.of(a[0]), MATH[f])(*a[1:])
    if f in (np.empty, np.zeros, np.ones, np.full) and (k.get("dtype", float) in (float, np.float64, None)) and not any(isinstance(x, type) for x in a[1:]):
        if f is np.full:
            r = np.empty(a[0], dtype=object)
            r[...] = a[1] if len(a) > 1 else k["fill_value"]
            return True, r
        r = np.empty(a[0] if a else k["shape"], dtype=object)
        r[...] = 1.0 if f is np.ones else 0.0 if f is np.zeros else VALUE
        return True, r
    if f in (np.empty_like, np.zeros_like, np.ones_like) and objs(a[0]):
        r = np.empty(a[0].shape, dtype=object)
        r[...] = 1.0 if f is np.ones_like else 0.0 if f is np.zeros_like else VALUE
        return True, r
    if isinstance(f, np.ufunc) and any(isinstance(x, Ideal) or objs(x) for x in a):
        return True, f(*[lifted(x) if isinstance(x, (Ideal, int, float, np.number)) or isinstance(x, np.ndarray) and x.dtype.kind in "fiu" else x for x in a], **k)
    if f in (np.array, np.asarray, np.atleast_1d, np.asanyarray, np.ravel, np.squeeze, np.broadcast_to) and a and (
            objs(a[0]) or isinstance(a[0], Ideal) or isinstance(a[0], (list, tuple)) and any(isinstance(x, Ideal) for x in a[0])):
        x = a[0] if isinstance(a[0], np.ndarray) else lifted(a[0])
        if f in (np.array, np.asarray, np.asanyarray):
            return True, x.copy() if f is np.array else x
        return True, f(x, *a[1:])
    s = getattr(f, "__self__", None)
    if objs(s) and getattr(f, "__name__", "") == "astype":
        d = a[0] if a else k.get("dtype")
        if d in (float, np.float64, "float", "float64"):
            return True, lifted(s)
        if d in (int, np.int64, "int", "int64"):
            r = np.empty(s.shape, dtype=object)
            for i, v in np.ndenumerate(s):
                r[i] = v.trunc() if isinstance(v, SymFloat) else v
            return True, r
    if objs(s):
        return True, f(*a, **k)
    return False, None
