"""Randomised equality of terms (random interpretation, in the sense of Gulwani and Necula).

The normal forms of terms.py do not identify all equal expressions (sqrt(a*b) and sqrt(a)*sqrt(b), say).  Before two terms are reported
as different they are interpreted over random values: arithmetic and the elementary functions keep their meaning, every other operator is
an uninterpreted function of its interpreted arguments.  Terms that agree for all samples are equal (with overwhelming probability) in
every interpretation.  Nothing of the analysed program is run."""
import cmath
import hashlib
import math
import random
from . import terms as tm

SAMPLES = 10


class Bad(Exception):
    pass


def _rnd(z):
    return "%.7e|%.7e" % (z.real + 0.0 if abs(z.real) > 1e-12 else 0.0, z.imag + 0.0 if abs(z.imag) > 1e-12 else 0.0)


class Nan(Exception):
    """the value is not a number"""


class Env:
    def __init__(self, seed):
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.bv = {}

    def fresh(self, key, t):
        h = hashlib.blake2b(("%s|%s" % (self.seed, key)).encode(), digest_size=16).digest()
        r = random.Random(h)
        if tm.is_int(t):
            if tm.is_pos(t):
                return complex(r.randint(1, 9))
            if tm.is_nonneg(t):
                return complex(r.randint(0, 9))
            return complex(r.randint(-6, 9))
        x = r.uniform(0.15, 2.5)
        if tm.is_pos(t) or tm.is_nonneg(t):
            return complex(x)
        if r.random() < 0.5:
            x = -x
        if tm.is_real(t):
            return complex(x)
        return complex(x, r.uniform(-2, 2))

    def ev(self, t):
        k = t
        if t.head != "bv" and k in self.memo:
            return self.memo[k]
        v = self._ev(t)
        if isinstance(v, complex) and (v != v or abs(v) > 1e200):
            raise Bad("overflow")
        if not any(True for _ in self.bv):
            self.memo[k] = v
        return v

    def _ev(self, t):
        h = t.head
        if h == "poly":
            s = 0j
            for c, m in t.args[0]:
                x = complex(float(c))
                for a, e in m:
                    b = self.ev(a)
                    if isinstance(b, str):
                        raise Bad("string in arithmetic")
                    if b == 0 and e < 0:
                        raise Bad("division by zero")
                    x *= b ** int(e) if e.denominator == 1 else (0j if b == 0 else (complex(b.real ** float(e)) if b.imag == 0 and b.real > 0 else b ** float(e)))
                s += x
            return s
        if h == "I":
            return 1j
        if h == "const":
            v = t.args[0]
            if isinstance(v, bool):
                return complex(v)
            return "c:" + repr(v)
        if h == "sym":
            if t.args[0] == "numpy.pi":
                return complex(math.pi)
            return self.fresh("sym:" + str(t.args[0]), t)
        if h == "ite":
            return self.ev(t.args[1] if self.ev(t.args[0]).real else t.args[2])
        if h == "and":
            return complex(all(self.ev(x).real for x in t.args))
        if h == "or":
            return complex(any(self.ev(x).real for x in t.args))
        if h == "not":
            return complex(not self.ev(t.args[0]).real)
        if h == "cmp" and t.args[1].head != "pair":
            v = self.ev(t.args[1])
            if isinstance(v, str):
                raise Bad("string compared")
            z = v.real
            if abs(v) < 1e-9:
                z = 0.0
            op = t.args[0]
            return complex(z < 0 if op == "<" else z <= 0 if op == "<=" else (abs(v) < 1e-9))
        if h in ("exp", "sin", "cos", "log", "log10", "abs", "conj", "real", "imag", "tan", "sign") and len(t.args) == 1:
            v = self.ev(t.args[0])
            if isinstance(v, str):
                raise Bad("string")
            try:
                if h == "abs":
                    return complex(abs(v))
                if h == "conj":
                    return v.conjugate()
                if h == "real":
                    return complex(v.real)
                if h == "imag":
                    return complex(v.imag)
                if h == "sign":         # numpy < 2: of the real part, unless it is zero
                    w = v.real or v.imag
                    return complex((w > 0) - (w < 0))
                return complex(getattr(cmath, h)(v))
            except (ValueError, OverflowError):
                raise Bad(h)
        if h in ("mod", "floordiv", "max2", "min2") and len(t.args) == 2:
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if isinstance(a, str) or isinstance(b, str) or a.imag or b.imag:
                raise Bad(h)
            if h in ("max2", "min2"):
                return complex((max if h == "max2" else min)(a.real, b.real))
            if b == 0:
                raise Bad(h)
            q = math.floor(a.real / b.real + 1e-11)
            return complex(q if h == "floordiv" else a.real - q * b.real)
        if h in ("floor", "ceil", "arccos", "arcsin", "arccosh", "cosh", "sinh", "arctan") and len(t.args) == 1:
            v = self.ev(t.args[0])
            if isinstance(v, str) or v.imag:
                raise Bad(h)
            x = v.real
            if h in ("arccos", "arcsin") and abs(x) > 1 or h == "arccosh" and x < 1:
                raise Nan(h)
            return complex({"floor": lambda: math.floor(x + 1e-11), "ceil": lambda: math.ceil(x - 1e-11), "arccos": lambda: math.acos(x), "arcsin": lambda: math.asin(x),
                            "arccosh": lambda: math.acosh(x), "cosh": lambda: math.cosh(x), "sinh": lambda: math.sinh(x), "arctan": lambda: math.atan(x)}[h]())
        if h == "pow" and len(t.args) == 2:
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if a == 0:
                raise Bad("0**x")
            return a ** b
        if h == "cast" and t.args[0] in ("complex", "float") and isinstance(t.args[1], tm.Term):
            v = self.ev(t.args[1])
            if t.args[0] == "complex" or tm.is_real(t.args[1]):
                return v
        if h == "bv":
            if t.args[0] in self.bv:
                return self.bv[t.args[0]]
            return self.fresh("bv:%s" % t.args[0], t)
        if h == "lam":
            out = []
            old = self.bv.get(t.args[0])
            for k in (0, 1, 2, 5):
                self.bv[t.args[0]] = complex(k)
                out.append(self.key(self.ev(t.args[1])))
            if old is None:
                del self.bv[t.args[0]]
            else:
                self.bv[t.args[0]] = old
            return "lam:" + hashlib.blake2b("|".join(out).encode(), digest_size=12).hexdigest()
        # uninterpreted
        key = h + "(" + ",".join(self.arg(a) for a in t.args) + ")"
        if tm.is_bool(t):
            return complex(hashlib.blake2b(("%s|%s" % (self.seed, key)).encode(), digest_size=4).digest()[0] & 1)
        return self.fresh(key, t)

    def arg(self, a):
        if isinstance(a, tm.Term):
            return self.key(self.ev(a))
        if isinstance(a, tuple):
            return "(" + ",".join(self.arg(x) for x in a) + ")"
        return repr(a)

    def key(self, v):
        return v if isinstance(v, str) else _rnd(v)


def close(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return abs(x - y) <= 1e-8 * (1 + max(abs(x), abs(y)))


def holds(e, fact):
    q, kind, lo, hi = fact
    v = e.ev(q).real
    if kind == "pt":
        return abs(v - float(lo)) < 1e-9
    if kind == "le":
        return (lo is None or v > float(lo[0]) - (0 if lo[1] else 1e-9)) and (hi is None or v < float(hi[0]) + (0 if hi[1] else 1e-9))
    return (lo is None or v > float(lo)) and (hi is None or v < float(hi))


def value(e, t):
    try:
        return e.ev(t)
    except Nan:
        return "nan"


KNOWN = {"poly", "I", "const", "ite", "and", "or", "not", "cmp", "exp", "sin", "cos", "log", "log10", "abs", "conj", "real", "imag", "tan", "sign", "pow", "mod", "floordiv",
         "floor", "ceil", "arccos", "arcsin", "arccosh", "cosh", "sinh", "arctan", "max2", "min2", "sym", "tuple"}


def known(t):
    """only operations whose meaning is known, on inputs"""
    for x in tm.subterms(t):
        if x.head in KNOWN:
            if x.head == "cmp" and x.args[1].head == "pair":
                return False
            if x.head == "sym" and not x.props:
                return False
        elif x.head == "getitem" and x.args[0].head == "sym" or x.head == "cast" and x.args[0] in ("complex", "float") and (x.args[0] == "complex" or tm.is_real(x.args[1])):
            pass
        else:
            return False
    return True


def differ(a, b, assume=None):
    """values of the inputs for which the terms differ, if sampling finds some; None if the terms have operations of unknown meaning"""
    if not (known(a) and known(b)):
        return None
    n = 0
    for k in range(1, 600):
        e = Env(k)
        try:
            if assume is not None and assume is not tm.TRUE and not e.ev(assume).real:
                continue
            x, y = value(e, a), value(e, b)
        except (Bad, Nan, ZeroDivisionError, OverflowError, RecursionError, AttributeError, TypeError, ValueError):
            continue
        n += 1
        if not close(x, y):
            return True
    return False if n else None


def delicate(t):
    """constants that sampling in double precision cannot tell from 0 or from an integer"""
    out = set()
    for x in tm.subterms(t):
        if x.head == "poly":
            for c, m in x.args[0]:
                d = abs(c - round(c))
                if c and d and d < 1e-5 or abs(c) > 1e5:
                    out.add(abs(c))
    return out


def agree(a, b, assume=None, facts=()):
    """do the terms agree on all samples (in which assumption and facts hold)?"""
    if delicate(a) != delicate(b):
        return False
    if any(x.head in ("opaque", "loopval") for x in tm.subterms(a)):
        return False
    n = tries = 0
    while n < SAMPLES and tries < 400:
        tries += 1
        e = Env(tries)
        try:
            if assume is not None and assume is not tm.TRUE and not e.ev(assume).real:
                continue
            if not all(holds(e, f) for f in facts if f[1] != "pt"):
                continue
            x, y = value(e, a), value(e, b)
        except (Bad, ZeroDivisionError, OverflowError, RecursionError, AttributeError, TypeError, ValueError):
            continue
        if not close(x, y):
            return False
        n += 1
    return n >= SAMPLES
