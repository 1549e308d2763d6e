"""regular expressions over symbolic text: what a pattern does depends on each character only through
the atoms (literals, classes) of the pattern it belongs to; that membership becomes part of the path condition"""
import re
from functools import lru_cache

try:
    import re._parser as sp
except ImportError:  # pragma: no cover
    import sre_parse as sp

from . import core
from .core import SymStr, pin

ALL = range(256)


@lru_cache(None)
def classes(pattern, flags):
    """partition of the characters, or None where it does not decide the match (back references)"""
    atoms = []
    tree = sp.parse(pattern, flags)

    def one(op, av):
        return frozenset(c for c in ALL if re.compile(op, flags & re.I).fullmatch(chr(c)))

    def walk(t):
        for op, av in t:
            n = str(op)
            if n in ("LITERAL", "NOT_LITERAL"):
                atoms.append(one(re.escape(chr(av)), None))
            elif n == "ANY":
                atoms.append(frozenset([10]))
            elif n == "IN":
                s = set()
                for o, v in av:
                    k = str(o)
                    if k == "LITERAL":
                        s |= one(re.escape(chr(v)), None)
                    elif k == "RANGE":
                        s |= one(f"[{re.escape(chr(v[0]))}-{re.escape(chr(v[1]))}]", None)
                    elif k == "CATEGORY":
                        d = {"DIGIT": r"\d", "SPACE": r"\s", "WORD": r"\w"}[str(v).split("_")[-1]]
                        s |= one(d, None)
                    elif k != "NEGATE":
                        raise ValueError(k)
                atoms.append(frozenset(s))
            elif n == "AT":
                atoms.append(frozenset([10]))
                if "BOUNDARY" in str(av):
                    atoms.append(one(r"\w", None))
            elif n == "BRANCH":
                for x in av[1]:
                    walk(x)
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2])
            elif n == "SUBPATTERN":
                walk(av[3])
            elif n in ("ASSERT", "ASSERT_NOT"):
                walk(av[1])
            elif n == "ATOMIC_GROUP":
                walk(av)
            else:
                raise ValueError(n)

    try:
        walk(tree)
    except (ValueError, KeyError):
        return None
    out = {}
    for c in range(128):
        out.setdefault(tuple(c in a for a in atoms), set()).add(c)
    return [(k, frozenset(v)) for k, v in out.items()]


def fix(p, s):
    """text of this run, its characters' classes being decided"""
    g = classes(p.pattern, p.flags & (re.I | re.S | re.M | re.X)) if isinstance(p.pattern, str) else None
    if g is None:
        return pin(s)
    if len(g) > 1:
        for c in s.chars:
            if not isinstance(c, int) and len(c.dom) > 1:
                core._cls(c, g)
    return "".join(chr(core.cc(c)) for c in s.chars)


class Match:
    def __init__(self, m, s):
        self.m, self.string, self.re, self.pos, self.endpos, self.lastindex, self.lastgroup = m, s, m.re, m.pos, m.endpos, m.lastindex, m.lastgroup

    def _one(self, k, default=None):
        a, b = self.m.span(k)
        return default if a < 0 else self.string[a:b]

    def group(self, *k):
        if len(k) < 2:
            return self._one(k[0] if k else 0)
        return tuple(self._one(x) for x in k)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k + 1, default) for k in range(self.m.re.groups))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.m.re.groupindex}

    def start(self, *a):
        return self.m.start(*a)

    def end(self, *a):
        return self.m.end(*a)

    def span(self, *a):
        return self.m.span(*a)

    def expand(self, t):
        return expand(self, t)


def expand(m, t):
    out = []
    parts = sp.parse_template(t, m.re)
    if isinstance(parts, tuple):  # older interpreters
        groups, lits = parts
        lits = list(lits)
        for i, g in groups:
            lits[i] = m._one(g, "")
        out = lits
    else:
        for x in parts:
            out.append(m._one(x, "") if isinstance(x, int) else x)
    return core.join_any([x for x in out if x is not None])


def method(p, name, a, k):
    """p.name(*a, **k) with a symbolic text among the arguments"""
    names = {"sub": ("repl", "string", "count"), "subn": ("repl", "string", "count"), "split": ("string", "maxsplit")}.get(name, ("string", "pos", "endpos"))
    args = dict(zip(names, a))
    args.update(k)
    s = args.pop("string")
    repl = args.get("repl")
    if not isinstance(s, SymStr):
        if isinstance(repl, SymStr):
            args["repl"] = pin(repl)
        return getattr(p, name)(string=s, **args)
    if name == "sub" and len(p.pattern) == 1 and re.escape(p.pattern) == p.pattern and isinstance(repl, str) and "\\" not in repl and not p.flags & re.I and not args.get("count"):
        return s.replace(p.pattern, repl)
    t = fix(p, s)
    args = {x: pin(v) if x != "repl" else v for x, v in args.items()}
    if name in ("match", "fullmatch", "search"):
        m = getattr(p, name)(t, **args)
        return None if m is None else Match(m, s)
    if name in ("finditer", "findall"):
        ms = [Match(m, s) for m in p.finditer(t, **args)]
        if name == "finditer":
            return iter(ms)
        return [m.group() if p.groups == 0 else m.group(1) if p.groups == 1 else m.groups("") for m in ms]
    if name == "split":
        n, out, i = args.get("maxsplit", 0), [], 0
        for m in p.finditer(t):
            if n and len(out) >= n * (1 + p.groups):
                break
            out.append(s[i:m.start()])
            out.extend(Match(m, s).groups())
            i = m.end()
        return out + [s[i:]]
    n, out, i, c = args.get("count", 0), [], 0, 0
    for m in p.finditer(t):
        if n and c >= n:
            break
        M = Match(m, s)
        out += [s[i:m.start()], repl(M) if callable(repl) else expand(M, pin(repl))]
        i = m.end()
        c += 1
    r = core.join_any(out + [s[i:]])
    return r if name == "sub" else (r, c)


def function(f):
    def g(pattern, *a, **k):
        flags = pin(k.pop("flags", 0))
        n = {"sub": 3, "subn": 3, "split": 2}.get(f.__name__, 1)
        if len(a) > n:
            a, flags = a[:n], a[n]
        p = pattern if isinstance(pattern, re.Pattern) else re.compile(pin(pattern), flags)
        return method(p, f.__name__, a, k)

    return g


FUNCS = {getattr(re, n): function(getattr(re, n)) for n in ("sub", "subn", "split", "match", "fullmatch", "search", "findall", "finditer")}
