"""Term algebra of the value-flow analysis.

Every value computed by the analysed program is abstracted to a hash-consed term.  Arithmetic is
kept in a canonical polynomial form over atoms (rational exponents allowed), boolean conditions in a
small normal form, and conditional values as gated nodes ``ite(c, a, b)``.  `compare` decides
equality of two terms: syntactic identity of normal forms, cross multiplication for quotients, and a
finite enumeration of the truth values / sign regions of the gating conditions.  No solver is
involved and nothing of the analysed program is executed.
"""
import time
from fractions import Fraction
import itertools

Fr = Fraction


def _fast_fractions():
    """fast paths for the common cases (integers, equal denominators); everything else goes to the library"""
    eq0, add0, mul0, sub0, hash0, cmp0 = Fr.__eq__, Fr.__add__, Fr.__mul__, Fr.__sub__, Fr.__hash__, Fr.__bool__
    new = object.__new__

    def mk(n):
        r = new(Fr)
        r._numerator, r._denominator = n, 1
        return r

    def eq(a, b):
        t = type(b)
        if t is Fr:
            return a._numerator == b._numerator and a._denominator == b._denominator
        if t is int:
            return a._denominator == 1 and a._numerator == b
        return eq0(a, b)

    def add_(a, b):
        t = type(b)
        if a._denominator == 1:
            if t is Fr and b._denominator == 1:
                return mk(a._numerator + b._numerator)
            if t is int:
                return mk(a._numerator + b)
        return add0(a, b)

    def sub_(a, b):
        t = type(b)
        if a._denominator == 1:
            if t is Fr and b._denominator == 1:
                return mk(a._numerator - b._numerator)
            if t is int:
                return mk(a._numerator - b)
        return sub0(a, b)

    def mul_(a, b):
        t = type(b)
        if a._denominator == 1:
            if t is Fr and b._denominator == 1:
                return mk(a._numerator * b._numerator)
            if t is int:
                return mk(a._numerator * b)
        return mul0(a, b)

    def hash_(a):
        return hash(a._numerator) if a._denominator == 1 else hash0(a)
    Fr.__eq__, Fr.__add__, Fr.__sub__, Fr.__mul__, Fr.__hash__ = eq, add_, sub_, mul_, hash_


_fast_fractions()
_table = {}
_count = itertools.count()


class Term:
    __slots__ = ("id", "head", "args", "props", "_heads", "_ites")

    def __init__(self, head, args):
        self.id = next(_count)
        self.head = head
        self.args = args
        self.props = None
        self._heads = None
        self._ites = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _key(a):
    if isinstance(a, Term):
        return ("t", a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def _pkey(items):
    k = ["poly"]
    for c, m in items:
        k += (c.numerator, c.denominator, len(m))
        for a, e in m:
            k += (a.id, e.numerator, e.denominator)
    return tuple(k)


def node(head, *args):
    k = _pkey(args[0]) if head == "poly" else (head, _key(args))
    t = _table.get(k)
    if t is None:
        t = Term(head, args)
        _table[k] = t
    return t


def sym(name, **props):
    t = node("sym", name)
    if props:
        t.props = dict(t.props or {}, **props)
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return node("const", v)
    if isinstance(v, int):
        return num(Fr(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return node("const", repr(v))
        return num(Fr(repr(v)))
    if isinstance(v, complex):
        return add(const(v.real), mul(I, const(v.imag)))
    return node("const", repr(v))


TRUE = node("const", True)
FALSE = node("const", False)
NONE = node("const", None)
I = node("I")
PI = sym("numpy.pi", real=True, pos=True, scalar=True)

ONE_M = ()


def num(fr):
    fr = Fr(fr)
    return node("poly", ((fr, ONE_M),)) if fr != 0 else node("poly", ())


def is_num(t):
    return t.head == "poly" and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][1] == ()))


def num_val(t):
    return t.args[0][0][0] if t.args[0] else Fr(0)


def int_val(t):
    if isinstance(t, Term) and is_num(t) and num_val(t).denominator == 1:
        return int(num_val(t))
    return None


def poly(t):
    if t.head == "poly":
        return {m: c for c, m in t.args[0]}
    if t is TRUE:
        return {(): Fr(1)}
    if t is FALSE:
        return {}
    return {((t, Fr(1)),): Fr(1)}


def from_poly(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][0] == 1 and len(items[0][1]) == 1 and items[0][1][0][1] == 1:
        return items[0][1][0][0]
    items.sort(key=lambda cm: tuple((a.id, e) for a, e in cm[1]))
    return node("poly", tuple(items))


def _padd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        v = d.get(m, 0) + s * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return d


def add(a, b):
    return from_poly(_padd(poly(a), poly(b)))


def sub(a, b):
    return from_poly(_padd(poly(a), poly(b), -1))


def neg(a):
    return from_poly({m: -c for m, c in poly(a).items()})


def _factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 10000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _mono(pairs, coef):
    """Normalise a product of powers of atoms into a polynomial (dict)."""
    exps = {}
    for a, e in pairs:
        exps[a] = exps.get(a, Fr(0)) + e
    expand = []
    out = []
    for a, e in exps.items():
        if e == 0:
            continue
        if a is I and e.denominator == 1:
            k = int(e) % 4
            if k in (2, 3):
                coef = -coef
            if k in (1, 3):
                out.append((I, Fr(1)))
            continue
        if is_num(a):
            v = num_val(a)
            w = e.numerator // e.denominator
            f = e - w
            coef = coef * (v ** w if w >= 0 else 1 / (v ** -w))
            if f:
                out.append((a, f))
            continue
        if a.head == "poly" and e.denominator == 1 and e > 0:
            expand.append((poly(a), int(e)))
            continue
        if a.head == "abs" and e.denominator == 1 and abs(e) >= 2:
            k = int(abs(e)) // 2 * (1 if e > 0 else -1)
            inner = a.args[0]
            q = mul(inner, conj(inner))
            r = e - 2 * k
            expand.append((poly(power(q, num(k))), 1))
            if r:
                out.append((a, Fr(r)))
            continue
        out.append((a, e))
    out.sort(key=lambda p: p[0].id)
    d = {tuple(out): coef}
    for p, k in expand:
        for _ in range(k):
            d = _pmul(d, p)
    return d


def _pmul(a, b):
    if len(a) * len(b) > 4000:
        raise Blowup()
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1 or not m2:
                m = {m1 + m2: c1 * c2}
            else:
                m = _mono(m1 + m2, c1 * c2)
            for k, v in m.items():
                s = d.get(k, 0) + v
                if s == 0:
                    d.pop(k, None)
                else:
                    d[k] = s
    return d


class Blowup(Exception):
    pass


def mul(a, b):
    try:
        return from_poly(_pmul(poly(a), poly(b)))
    except Blowup:
        return node("bigmul", *sorted((a, b), key=lambda t: t.id))


def div(a, b):
    return mul(a, power(b, num(-1)))


def power(a, b):
    if is_num(b):
        e = num_val(b)
        if e == 0:
            return num(1)
        if e == 1:
            return a
        return _pow(a, e)
    if is_num(a) and num_val(a) == 1:
        return a
    return node("pow", a, b)


def _pow(a, e):
    p = poly(a)
    if not p:
        return num(0) if e > 0 else node("pow", a, num(e))
    if e.denominator == 1 and e > 0 and (len(p) == 1 or (e <= 4 and len(p) ** int(e) <= 400)):
        try:
            d = {(): Fr(1)}
            for _ in range(int(e)):
                d = _pmul(d, p)
            return from_poly(d)
        except Blowup:
            pass
    if len(p) == 1:
        (m, c), = p.items()
        pairs = []
        coef = Fr(1)
        if e.denominator == 1:
            coef = c ** int(e)
        else:
            if c < 0:
                return node("pow", a, num(e))
            for q, k in _factor(c.numerator).items():
                pairs.append((num(q), k * e))
            for q, k in _factor(c.denominator).items():
                pairs.append((num(q), -k * e))
        for at, ex in m:
            if e.denominator != 1 and ex.denominator == 1 and ex % 2 == 0 and not is_nonneg(at):
                pairs.append((absv(at), ex * e))
            else:
                pairs.append((at, ex * e))
        return from_poly(_mono(pairs, coef))
    # sum base: take out the content
    lead = min(p, key=lambda m: tuple((x.id, k) for x, k in m))
    c = p[lead]
    if e.denominator != 1:
        c = abs(c)
    common = None
    for m in p:
        mm = dict(m)
        common = mm if common is None else {x: min(k, mm[x]) for x, k in common.items() if x in mm}
    common = {x: k for x, k in common.items() if e.denominator == 1 or is_nonneg(x)}
    base = {}
    for m, v in p.items():
        mm = dict(m)
        for x, k in common.items():
            mm[x] = mm.get(x, Fr(0)) - k
        for mk_, ck in _mono(list(mm.items()), v / c).items():
            base[mk_] = base.get(mk_, 0) + ck
    b = from_poly(base)
    rest = from_poly(_mono([(x, k * e) for x, k in common.items()], Fr(1)))
    rest = mul(rest, _pow(num(c), e)) if c != 1 else rest
    if b.head != "poly" or len(b.args[0]) < 2:
        return mul(rest, _pow(b, e))
    return mul(rest, from_poly({((b, e),): Fr(1)}))


# ---------------------------------------------------------------- properties of terms
def prop(t, name):
    return bool(t.props and t.props.get(name))


SCALAR_HEADS = {"len", "sumall", "size", "uniform", "idx", "bv", "iter", "cmp", "eqc", "isnone", "and", "or", "not",
                "sample_length", "ndim", "I", "psum", "argmax", "argmin", "count"}
REAL_HEADS = {"abs", "real", "imag", "len", "size", "idx", "bv", "iter", "uniform", "normal", "laplace", "cmp", "floordiv",
              "mod", "norm", "angle", "ndim", "psum_r", "sample_length", "argmax", "argmin", "count"}


def is_scalar(t):
    if t.head == "poly":
        return all(is_scalar(a) for _, m in t.args[0] for a, _ in m)
    if t.head in ("const",):
        return True
    if t.head in ("uniform", "normal", "laplace"):
        return t.args[0] is NONE
    if t.head in SCALAR_HEADS:
        return True
    if t.head in ("amax", "amin", "mean") and len(t.args) == 1:
        return True
    if t.head in ("floordiv", "mod", "pow", "abs", "real", "conj", "log", "exp", "sin", "cos", "sqrt", "log10", "imag", "sign", "floor", "ceil",
                  "rint", "round", "tan", "arccos", "arcsin", "arctan", "cosh", "sinh", "tanh", "arccosh", "log1p", "expm1", "log2"):
        return all(is_scalar(a) for a in t.args if isinstance(a, Term))
    if t.head == "ite":
        return is_scalar(t.args[1]) and is_scalar(t.args[2]) and not array_cond(t.args[0])
    return prop(t, "scalar")


def array_cond(c):
    """the condition is known to hold or fail entry by entry"""
    if c.head in ("and", "or", "not"):
        return any(array_cond(x) for x in c.args)
    if c.head == "cmp" and NDIM:
        for p in (c.args[1].args if c.args[1].head == "pair" else (c.args[1],)):
            if isinstance(p, Term) and not is_scalar(p) and (NDIM(p) or 0) > 0:
                return True
    return False


def is_real(t):
    if t.head == "poly":
        for _, m in t.args[0]:
            bad = [(a, e) for a, e in m if a is I or not is_real(a)]
            if bad:
                # x * conj(x) is real
                d = dict(bad)
                for a, e in bad:
                    if a is I or a.head == "poly":
                        return False
                    if d.get(a.args[0] if a.head == "conj" else node("conj", a)) != e:
                        return False
        return True
    if t.head == "const":
        return True
    if t.head in REAL_HEADS:
        return True
    if t.head in ("sumall", "sum", "exp", "sin", "cos", "log", "log10", "pow", "getitem", "zeros", "T", "row", "col"):
        return all(is_real(a) for a in t.args[:1] if isinstance(a, Term))
    if t.head in ("matmul", "outer"):
        return all(is_real(a) for a in t.args)
    if t.head == "full":
        return is_real(t.args[1])
    if t.head == "store":
        return is_real(t.args[0]) and is_real(t.args[2])
    if t.head == "fstore":
        return is_real(t.args[0]) and _stores_real(t.args[2].args[1])
    if t.head == "eye":
        return True
    if t.head in ("diag", "inv", "real", "imag", "abs"):
        return t.head in ("real", "imag", "abs") or is_real(t.args[0])
    if t.head == "self":
        return True
    if t.head in ("append", "concat", "list", "array", "stack", "vstack", "listcat", "flat", "reshape", "cumsum", "sort"):
        return all(is_real(a) for a in t.args if isinstance(a, Term) and a.head != "tuple")
    if t.head == "ite":
        return is_real(t.args[1]) and is_real(t.args[2])
    if t.head in ("map", "concatmap", "arr", "psum") and t.args[1].head == "lam":
        return is_real(t.args[1].args[1])
    return prop(t, "real")


def _stores_real(b):
    if b.head == "stores":
        return all(is_real(x.args[1]) for x in b.args)
    if b.head == "inner":
        return _stores_real(b.args[1].args[1])
    return False


def is_nonneg(t):
    if t.head == "poly":
        return all(c > 0 and all(is_nonneg(a) or (e.denominator == 1 and e % 2 == 0 and is_real(a)) for a, e in m)
                   for c, m in t.args[0])
    if t.head in ("abs", "len", "size", "idx", "bv", "norm", "iter", "sample_length", "argmax", "argmin", "count"):
        return True
    if t.head == "mod":
        return True
    if t.head == "pow":
        return is_nonneg(t.args[0])
    if t.head == "exp":
        return is_real(t)
    if t.head == "getitem" and is_nonneg(t.args[0]):
        return True
    return prop(t, "pos") or prop(t, "nonneg")


def is_pos(t):
    if t.head == "poly":
        return bool(t.args[0]) and is_nonneg(t) and any(c > 0 and all(is_pos(a) for a, e in m) for c, m in t.args[0])
    if t.head == "getitem" and is_pos(t.args[0]):
        return True
    return prop(t, "pos")


def is_int(t):
    if t.head == "poly":
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)
                   for c, m in t.args[0])
    if t.head in ("len", "size", "idx", "bv", "iter", "ndim", "sample_length", "argmax", "argmin", "count"):
        return True
    if t.head in ("mod", "floordiv"):
        return all(is_int(a) for a in t.args)
    if t.head in ("amax", "amin") and isinstance(t.args[0], Term):
        return is_int(t.args[0])
    if t.head == "proj" and t.args[0].head == "nonzero":
        return True
    if t.head == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    return prop(t, "integer")


# ---------------------------------------------------------------- algebraic function heads
def split_scalar(m, pred):
    a = [x for x in m if pred(x[0])]
    b = [x for x in m if not pred(x[0])]
    return a, b


def linear(head, t, extra=(), pull=is_scalar):
    """head is linear in t: distribute over sums and pull scalar factors out."""
    out = {}
    for m, c in poly(t).items():
        sc, rest = split_scalar(m, pull)
        inner = from_poly({tuple(rest): Fr(1)})
        base = node(head, inner, *extra)
        out = _padd(out, _pmul(_mono(sc, c) if sc else {(): c}, poly(base)))
    return from_poly(out)


def conj(t):
    if is_real(t):
        return t
    if t.head == "poly":
        out = {}
        for c, m in t.args[0]:
            d = {(): c}
            for a, e in m:
                d = _pmul(d, poly(_pow(conj(a), e)))
            out = _padd(out, d)
        return from_poly(out)
    if t is I:
        return neg(I)
    if t.head == "conj":
        return t.args[0]
    if t.head in ("sumall",):
        return sumall(conj(t.args[0]))
    if t.head == "matmul":
        return matmul(conj(t.args[0]), conj(t.args[1]))
    if t.head == "T":
        return transpose(conj(t.args[0]))
    if t.head == "ite":
        return ite(t.args[0], conj(t.args[1]), conj(t.args[2]))
    if t.head in ("diag", "inv"):
        return node(t.head, conj(t.args[0]))
    return node("conj", t)


def realpart(t):
    if is_real(t):
        return t
    out = {}
    for m, c in poly(t).items():
        sc, rest = split_scalar(m, lambda a: a is not I and is_real(a))
        hasI = any(a is I for a, _ in rest)
        rest = [(a, e) for a, e in rest if a is not I]
        inner = from_poly(_mono(rest, Fr(1))) if rest else num(1)
        if hasI:
            base = neg(node("imag", inner)) if rest else num(0)
        elif not rest:
            base = num(1)
        else:
            cj = conj(inner)
            inner = min(inner, cj, key=lambda x: x.id)
            if inner.head == "ite":
                base = ite(inner.args[0], realpart(inner.args[1]), realpart(inner.args[2]))
            else:
                base = node("real", inner)
        out = _padd(out, _pmul(_mono(sc, c) if sc else {(): c}, poly(base)))
    return from_poly(out)


def imagpart(t):
    if is_real(t):
        return num(0)
    return realpart(mul(neg(I), t))


def absv(t):
    if is_nonneg(t):
        return t
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        out = num(abs(c))
        for a, e in m:
            if a is I:
                continue
            if is_nonneg(a):
                out = mul(out, _pow(a, e))
            elif a.head == "conj":
                out = mul(out, _pow(node("abs", a.args[0]), e))
            else:
                out = mul(out, _pow(node("abs", a), e))
        return out
    lead = min(p, key=lambda m: tuple((x.id, k) for x, k in m))
    c = p[lead]
    q = from_poly({m: v / c for m, v in p.items()})
    return mul(num(abs(c)), node("abs", q))


def sumall(t):
    return linear("sumall", t)


def matmul(a, b):
    out = {}
    for m1, c1 in poly(a).items():
        s1, r1 = split_scalar(m1, is_scalar)
        for m2, c2 in poly(b).items():
            s2, r2 = split_scalar(m2, is_scalar)
            x = from_poly({tuple(r1): Fr(1)})
            y = from_poly({tuple(r2): Fr(1)})
            base = _matmul1(x, y)
            out = _padd(out, _pmul(_mono(s1 + s2, c1 * c2) if (s1 or s2) else {(): c1 * c2}, poly(base)))
    return from_poly(out)


def is_vec(t):
    if t.head == "poly":
        return any(is_vec(a) for _, m in t.args[0] for a, _ in m)
    if t.head == "conj":
        return is_vec(t.args[0])
    if prop(t, "vec") or (t.head == "matmul" and is_vec(t.args[1])) or (t.head == "normal" and t.args[0] is not NONE):
        return True
    return t.head in ("flat", "concat", "concatmap", "getitem", "cumsum", "sort", "fstore", "store", "abs", "map") and bool(NDIM) and NDIM(t) == 1


def _matmul1(x, y):
    if y.head == "col":
        return node("col", matmul(x, y.args[0]))
    if x.head == "eye" and x.args[0] is x.args[1]:
        return y
    if x.head == "diag":
        return mul(x.args[0], y)
    if is_vec(x) and is_vec(y):
        return sumall(mul(x, y))
    return node("matmul", x, y)


def transpose(t):
    p = poly(t)
    if t.head != "poly" and (prop(t, "vec") or prop(t, "scalar") or (NDIM and NDIM(t) in (0, 1))):
        return t
    if len(p) == 1 and t.head != "poly":
        if t.head == "eye" and len(t.args) == 2:
            return node("eye", t.args[1], t.args[0])
        if t.head == "eyek":
            return node("eyek", t.args[1], t.args[0], neg(t.args[2]))
        if t.head == "diag":
            return t
        if t.head == "T":
            return t.args[0]
        if t.head == "conj" and t.args[0].head in ("row", "col"):
            return transpose(node(t.args[0].head, conj(t.args[0].args[0])))
        if t.head == "row":
            return node("col", t.args[0])
        if t.head == "col":
            return node("row", t.args[0])
        return node("T", t)
    # transposition distributes over elementwise products and sums; a vector in a product of matrices is a row
    nd = NDIM(t) if NDIM else None
    if nd == 1:
        return t
    out = {}
    for m, c in p.items():
        d = {(): c}
        for a, e in m:
            if is_scalar(a):
                d = _pmul(d, {((a, e),): Fr(1)})
            else:
                d = _pmul(d, poly(_pow(node("col", a) if nd == 2 and NDIM(a) == 1 else transpose(a), e)))
        out = _padd(out, d)
    return from_poly(out)


NDIM = None


def poly_divmod(p, b):
    """p = q*b + r by the leading monomial of b; None if b is no proper divisor"""
    db = poly(b)
    mons = [m for m in db if m]
    if not mons:
        return None
    lead = max(mons, key=lambda m: (sum(e for _, e in m), tuple(-x.id for x, _ in m)))
    if any(e < 0 for _, e in lead):
        return None
    lm = dict(lead)
    r = dict(poly(p))
    q = {}
    for _ in range(40):
        hit = None
        for m in r:
            dm = dict(m)
            if all(dm.get(x, 0) >= e for x, e in lm.items()):
                hit = m
                break
        if hit is None:
            return from_poly(q), from_poly(r)
        dm = dict(hit)
        fac = tuple((x, e - lm.get(x, 0)) for x, e in dm.items() if e - lm.get(x, 0) != 0)
        c = r[hit] / db[lead]
        f = _mono(list(fac), c) if fac else {(): c}
        q = _padd(q, f)
        r = _padd(r, _pmul(f, db), -1)
    return None


# ---------------------------------------------------------------- booleans
def cmp_(op, a, b):
    """op in < <= > >= == !="""
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "==":
        if a is b:
            return TRUE
        ca, cb = a.head in ("const", "tuple"), b.head in ("const", "tuple")
        if ca and cb and not (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            if a.head == "const" and b.head == "const":
                return TRUE if a is b else FALSE
        elif (ca and a.head == "const" and not isinstance(a.args[0], bool)) or (cb and b.head == "const" and not isinstance(b.args[0], bool)):
            if ca:
                a, b = b, a
            if is_num(a):
                return FALSE
            if a.head == "ite":
                return ite_bool(a.args[0], cmp_("==", a.args[1], b), cmp_("==", a.args[2], b))
            return node("eqc", a, b)
    try:
        p = sub(a, b)
    except Exception:
        return node("cmp", op, node("pair", a, b))
    d = poly(p)
    # clear denominators made of non-negative atoms (values are assumed finite)
    negs = {}
    for m in d:
        for x, e in m:
            if e < 0 and is_nonneg(x):
                negs[x] = min(negs.get(x, 0), e)
    if negs:
        d = _pmul(d, _mono([(x, -e) for x, e in negs.items()], Fr(1)))
        p = from_poly(d)
    if is_num(p):
        v = num_val(p)
        return TRUE if (v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0) else FALSE
    # divide out positive common factors and positive content
    common = None
    for m in d:
        mm = dict(m)
        common = mm if common is None else {x: min(k, mm[x]) for x, k in common.items() if x in mm}
    common = {x: k for x, k in (common or {}).items() if is_pos(x)}
    if common:
        d = _pmul(d, _mono([(x, -k) for x, k in common.items()], Fr(1)))
    nonconst = [m for m in d if m]
    if nonconst:
        lead = min(nonconst, key=lambda m: tuple((x.id, k) for x, k in m))
        c = abs(d[lead])
        d = {m: v / c for m, v in d.items()}
    p = from_poly(d)
    if is_num(p):
        v = num_val(p)
        return TRUE if (v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0) else FALSE
    if op == "==" and nonconst and d[lead] < 0:
        p = neg(p)
    if op == "<" and is_nonneg(p):
        return FALSE
    if op == "<=" and is_pos(p):
        return FALSE
    if op in ("<", "<=") and is_pos(neg(p)):
        return TRUE
    if op == "<=" and is_nonneg(neg(p)):
        return TRUE
    if op == "==" and (is_pos(p) or is_pos(neg(p))):
        return FALSE
    if op == "<=" and is_nonneg(p):
        return cmp_("==", p, num(0))
    if op == "<" and is_int(p):
        return node("cmp", "<=", add(p, num(1)))
    return node("cmp", op, p)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.head == "not":
        return c.args[0]
    if c.head == "cmp" and c.args[0] == "<":
        return cmp_("<=", neg(c.args[1]), num(0)) if c.args[1].head != "pair" else node("not", c)
    if c.head == "cmp" and c.args[0] == "<=":
        return cmp_("<", neg(c.args[1]), num(0)) if c.args[1].head != "pair" else node("not", c)
    if c.head == "and":
        return or_(*[not_(x) for x in c.args])
    if c.head == "or":
        return and_(*[not_(x) for x in c.args])
    return node("not", c)


def _flat(head, cs, unit, zero):
    s = {}
    for c in cs:
        if c is zero:
            return [zero]
        if c is unit:
            continue
        for x in (c.args if c.head == head else (c,)):
            s[x] = 1
    for x in s:
        if not_(x) in s:
            return [zero]
    return sorted(s, key=lambda x: x.id)


def and_(*cs):
    s = _flat("and", cs, TRUE, FALSE)
    if not s:
        return TRUE
    return s[0] if len(s) == 1 else node("and", *s)


def or_(*cs):
    s = _flat("or", cs, FALSE, TRUE)
    if not s:
        return FALSE
    return s[0] if len(s) == 1 else node("or", *s)


BOOL_HEADS = {"cmp", "eqc", "isnone", "and", "or", "not", "bool"}


def is_bool(t):
    return t.head in BOOL_HEADS or t in (TRUE, FALSE)


def truth(t):
    """truthiness of a value as a condition"""
    if is_bool(t) or t in (TRUE, FALSE):
        return t
    if t is NONE:
        return FALSE
    if t.head == "const":
        return TRUE if t.args[0] else FALSE
    if t.head == "ite":
        return ite_bool(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.head == "sym" and prop(t, "boolean"):
        return node("bool", t)
    if t.head == "poly" or is_int(t) or is_real(t) and is_scalar(t):
        return not_(cmp_("==", t, num(0)))
    return node("bool", t)


def ite_bool(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.head == "not":
        c, a, b = c.args[0], b, a
    elif c.head == "cmp" and c.args[0] == "<=":
        n = not_(c)
        if n.head == "cmp" and n.args[0] == "<" :
            c, a, b = n, b, a
    if is_bool(a) and is_bool(b) and a.head != "poly":
        return ite_bool(c, a, b)
    if a.head == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.head == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return node("ite", c, a, b)


# ---------------------------------------------------------------- traversal
_REB = {}


def rebuild(head, args):
    f = _REB.get(head)
    if f is not None:
        return f(*args)
    return node(head, *args)


_REB.update({
    "conj": conj, "real": realpart, "imag": imagpart, "abs": absv, "sumall": sumall, "matmul": matmul, "T": transpose,
    "ite": ite, "and": and_, "or": or_, "not": not_,
    "cmp": lambda op, p: cmp_(op, p, num(0)) if p.head != "pair" else node("cmp", op, p),
    "eqc": lambda a, b: cmp_("==", a, b), "pow": power, "bool": truth,
    "isnone": lambda a: isnone(a),
})


def isnone(t):
    if t is NONE:
        return TRUE
    if t.head == "ite":
        return ite_bool(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.head == "sym" and prop(t, "maynone"):
        return node("isnone", t)
    if t.head == "mu":
        if str(t.args[1]).startswith("mut") and str(t.args[1])[3:].isdigit() or prop(t, "ndim"):      # contents of an array
            return FALSE
        return node("isnone", t)
    return FALSE


def walk_args(t):
    """child terms of t"""
    if t.head == "poly":
        for _, m in t.args[0]:
            for a, _ in m:
                yield a
    else:
        st = list(t.args)
        while st:
            x = st.pop()
            if isinstance(x, Term):
                yield x
            elif isinstance(x, tuple):
                st.extend(x)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(walk_args(x))
    return seen


def _map_arg(a, f):
    if isinstance(a, Term):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, f) for x in a)
    return a


def transform(t, f, memo):
    """bottom-up rebuild; f(term) may return a replacement (checked top-down first)"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        if t.head == "poly":
            out = num(0)
            changed = False
            newm = []
            for c, m in t.args[0]:
                row = []
                for a, e in m:
                    na = transform(a, f, memo)
                    if na is not a:
                        changed = True
                    row.append((na, e))
                newm.append((c, row))
            if not changed:
                r = t
            else:
                for c, row in newm:
                    x = num(c)
                    for a, e in row:
                        x = mul(x, _pow(a, e) if e != 1 else a)
                    out = add(out, x)
                r = out
        elif t.head in ("const", "sym", "I"):
            r = t
        else:
            na = tuple(_map_arg(a, lambda y: transform(y, f, memo)) for a in t.args)
            r = t if all(x is y or x == y for x, y in zip(na, t.args)) and na == t.args else rebuild(t.head, na)
            if r is not t and r.props is None and t.props and r.head == t.head and t.head in KEEP_PROPS:
                memo[t] = r
                r.props = {}
                r.props = {k: _map_arg(v, lambda y: transform(y, f, memo)) for k, v in t.props.items()}
    memo[t] = r
    return r


KEEP_PROPS = {"meth", "rec", "apply", "ext", "attr", "proj", "cheb"}


def rewrite(t, g, memo=None):
    """bottom-up rewriting: g(term with rewritten arguments) -> term"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.head in ("const", "sym", "I"):
        r = g(t)
    elif t.head == "poly":
        out = num(0)
        changed = False
        rows = []
        for c, m in t.args[0]:
            row = []
            for a, e in m:
                na = rewrite(a, g, memo)
                changed = changed or na is not a
                row.append((na, e))
            rows.append((c, row))
        if not changed:
            r = g(t)
        else:
            for c, row in rows:
                x = num(c)
                for a, e in row:
                    x = mul(x, _pow(a, e) if e != 1 else a)
                out = add(out, x)
            r = g(out)
    else:
        na = tuple(_map_arg(a, lambda y: rewrite(y, g, memo)) for a in t.args)
        n = t if na == t.args else rebuild(t.head, na)
        if n is not t and n.props is None and t.props and n.head == t.head and t.head in KEEP_PROPS:
            n.props = {}
            n.props = {k: _map_arg(v, lambda y: rewrite(y, g, memo)) for k, v in t.props.items()}
        r = g(n)
    memo[t] = r
    return r


def subst(t, mapping):
    if not mapping:
        return t
    return transform(t, lambda x: mapping.get(x), {})


def subst_fix(t, mapping, limit=6):
    for _ in range(limit):
        n = subst(t, mapping)
        if n is t:
            return t
        t = n
    return t


def heads(t):
    if t._heads is None:
        s = set()
        for x in subterms(t):
            s.add(head_name(x))
        t._heads = frozenset(s)
    return t._heads


def head_name(x):
    if x.head in ("ext", "meth", "rec", "opaque", "cast"):
        return x.head + ":" + str(x.args[0])
    return x.head


def close(var, body):
    """lambda-abstract the atom `var` in body, with canonical bound variable"""
    lvl = 0
    for x in subterms(body):
        if x.head == "lam":
            lvl = max(lvl, x.args[0])
    lvl += 1
    bv = node("bv", lvl)
    return node("lam", lvl, subst(body, {var: bv}))


def open_(lam, val):
    return subst(lam.args[1], {node("bv", lam.args[0]): val})


# ---------------------------------------------------------------- equality
def poly_zero(d):
    """is the polynomial zero, after clearing sum denominators"""
    for _ in range(12):
        if not d:
            return True
        negs = {}
        for m in d:
            for x, e in m:
                if e < 0 and x.head == "poly":
                    negs[x] = min(negs.get(x, 0), e)
        if not negs:
            break
        x, e = min(negs.items(), key=lambda kv: kv[0].id)
        d2 = {}
        try:
            for m, c in d.items():
                d2 = _padd(d2, _mono(list(m) + [(x, -e)], c))
        except Blowup:
            return False
        d = d2
    return not d


def same(a, b):
    """unconditional equality modulo the algebra (no case split)"""
    if a is b:
        return True
    if a.head == "poly" or b.head == "poly" or is_scalar(a):
        d = _padd(poly(a), poly(b), -1)
        if poly_zero(d):
            return True
        # congruence: unify atoms of equal head whose arguments are the same
        ra, rb = unify_atoms(a, b)
        if ra is not a or rb is not b:
            d = _padd(poly(ra), poly(rb), -1)
            return poly_zero(d)
        return False
    return cong(a, b)


def cong(a, b):
    if a is b:
        return True
    if a.head != b.head or len(a.args) != len(b.args):
        return False
    if a.head in ("sym", "const", "bv", "idx", "mu"):
        return False
    return all(_same_arg(x, y) for x, y in zip(a.args, b.args))


def _same_arg(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        return same(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same_arg(p, q) for p, q in zip(x, y))
    return type(x) is type(y) and x == y


def unify_atoms(a, b):
    la = {x for _, m in _items(a) for x, _ in m}
    lb = {x for _, m in _items(b) for x, _ in m}
    mp = {}
    for y in lb - la:
        for x in la - lb:
            if x.head == y.head and x not in mp.values() and (
                    cong(x, y) if x.head != "poly" else same(x, y)):
                mp[y] = x
                break
    if not mp:
        return a, b
    out = num(0)
    for c, m in _items(b):
        t = num(c)
        for x, e in m:
            t = mul(t, _pow(mp.get(x, x), e))
        out = add(out, t)
    return a, out


def _items(t):
    return t.args[0] if t.head == "poly" else ((Fr(1), ((t, Fr(1)),)),)


def cond_atoms(t):
    """atomic gating conditions occurring in t (as ite conditions or boolean structure)"""
    if t._ites is None:
        s = {}
        for x in sorted(subterms(t), key=lambda y: y.id):
            if x.head == "ite" or x.head in ("and", "or", "not") or x is t:
                st = [x.args[0]] if x.head == "ite" else ([x] if is_bool(x) else [])
                while st:
                    c = st.pop()
                    if c.head in ("and", "or", "not"):
                        st.extend(c.args)
                    elif c.head in ("cmp", "eqc", "isnone", "bool"):
                        s[c] = 1
        t._ites = tuple(s)
    return t._ites


def eval_bool(c, assign):
    """replace the conditions decided by `assign` inside term c"""
    return transform(c, lambda x: assign.get(x), {})


def _linform(p):
    """p = k*q + c with q normalised: returns (q, sign, threshold) such that p <op> 0  <=>  sign*(q - thr) <op> 0"""
    d = poly(p)
    c = d.get((), Fr(0))
    nc = {m: v for m, v in d.items() if m}
    if not nc:
        return None
    lead = min(nc, key=lambda m: tuple((x.id, k) for x, k in m))
    k = nc[lead]
    q = from_poly({m: v / k for m, v in nc.items()})
    return q, (1 if k > 0 else -1), -c / k


class Split:
    """a way to split on one group of conditions: list of (assignment, substitution, description)"""


def regions(atoms, first):
    """all cases for the group of condition atoms that `first` belongs to"""
    if first.head == "cmp" and first.args[1].head != "pair":
        lf = _linform(first.args[1])
        q = lf[0]
        thr = set()
        grp = []
        for a in atoms:
            if a.head == "cmp" and a.args[1].head != "pair":
                l2 = _linform(a.args[1])
                if l2 and l2[0] is q:
                    grp.append((a, l2))
                    thr.add(l2[2])
        thr = sorted(thr)
        pts = []
        nn = is_nonneg(q)
        isint = is_int(q)
        # regions: (-inf,t0), t0, (t0,t1), t1, ..., (tn, inf)
        for i, t in enumerate(thr):
            lo = thr[i - 1] if i else None
            pts.append(("iv", lo, t))
            pts.append(("pt", t, t))
        pts.append(("iv", thr[-1], None))
        out = []
        for kind, lo, hi in pts:
            if kind == "pt":
                if nn and lo < 0:
                    continue
                if isint and lo.denominator != 1:
                    continue
                if lo == 0 and is_pos(q):
                    continue
                v = lo
            else:
                if lo is None and hi is not None:
                    v = hi - 1
                    if nn and hi <= 0:
                        continue
                elif hi is None:
                    v = lo + 1
                else:
                    v = (lo + hi) / 2
                    if isint:
                        import math
                        z = math.floor(lo) + 1
                        if z >= hi:
                            continue
                        v = Fr(z)
                if nn and v < 0:
                    v = Fr(0) if (lo is None or lo < 0) else v
            asg = {}
            for a, (_, s, t) in grp:
                w = s * (v - t)
                op = a.args[0]
                asg[a] = TRUE if (w < 0 if op == "<" else w <= 0 if op == "<=" else w == 0) else FALSE
            sb = None
            if kind == "pt":
                sb = (q, lo)
            desc = "%s %s" % (show(q), ("= %s" % lo) if kind == "pt" else "in (%s, %s)" % (lo, hi))
            out.append((asg, sb, desc, (q, kind, lo, hi)))
        return out
    if first.head in ("eqc", "isnone"):
        t = first.args[0]
        grp = [a for a in atoms if a.head in ("eqc", "isnone") and a.args[0] is t]
        out = []
        for g in grp:
            asg = {a: (TRUE if a is g else FALSE) for a in grp}
            val = NONE if g.head == "isnone" else g.args[1]
            out.append((asg, None, "%s is %s" % (show(t), show(val)), None))
        out.append(({a: FALSE for a in grp}, None, "%s is none of these" % show(t), None))
        return out
    return [({first: TRUE}, None, show(first), None), ({first: FALSE}, None, "not " + show(first), None)]


def solve_point(q, v):
    """q == v: a substitution {atom: term} if q is linear in some atom with constant coefficient"""
    d = poly(q)
    cands = []
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sum(1 for mm in d for x, _ in mm if x is a or a in subterms(x)) == 1:
                cands.append((a, c))
    if not cands:
        return None
    a, c = max(cands, key=lambda ac: ac[0].id)
    rest = {m: x for m, x in d.items() if m != ((a, Fr(1)),)}
    val = from_poly({m: -x / c for m, x in _padd(rest, {(): -v} if v else {}).items()})
    return {a: val}


class Result:
    def __init__(self, eq, a=None, b=None, case=()):
        self.eq, self.a, self.b, self.case = eq, a, b, case


def complexify(t, memo):
    """real and imaginary parts written out with conjugates, so that |z|^2, z conj z and re^2 + im^2 are one polynomial"""
    def g(x):
        if x.head == "real":
            z = x.args[0]
            return mul(num(Fr(1, 2)), add(z, conj(z)))
        if x.head == "imag":
            z = x.args[0]
            return mul(mul(num(Fr(-1, 2)), I), sub(z, conj(z)))
        return x
    return rewrite(t, g, memo)


START = time.monotonic()
TOTAL = 420         # seconds of comparisons in one run; the current tree needs a few
_LIMIT = [None]


def compare(a, b, assume=TRUE, budget=None, seconds=60):
    """Result(eq=True) or Result(False, a', b', case): the terms in a case in which they differ"""
    old = _LIMIT[0]
    now = time.monotonic()
    _LIMIT[0] = min(now + seconds, max(START + TOTAL, now + 2), old or now + seconds)
    try:
        return _compare3(a, b, assume, budget)
    finally:
        _LIMIT[0] = old


def _compare3(a, b, assume, budget):
    b0 = budget[0] if budget else 6000
    r = _compare(a, b, assume, budget=[b0])
    if not r.eq:
        for form in (complexify, signs):
            try:
                memo = {}
                a2, b2 = form(a, memo), form(b, memo)
                if (a2 is not a or b2 is not b) and _compare(a2, b2, form(assume, memo), budget=[b0]).eq:
                    return Result(True)
            except Blowup:
                pass
    return r


def signs(t, memo):
    """absolute values of real numbers as cases"""
    def g(x):
        if x.head == "abs" and is_real(x.args[0]) and is_scalar(x.args[0]):
            z = x.args[0]
            return ite(cmp_("<", z, num(0)), neg(z), z)
        return x
    return rewrite(t, g, memo)


def _compare(a, b, assume=TRUE, case=(), budget=None, facts=()):
    if budget is None:
        budget = [6000]
    budget[0] -= 1
    if budget[0] < 0 or (_LIMIT[0] is not None and time.monotonic() > _LIMIT[0]):
        raise Blowup("case split budget")
    if a is b or same(a, b):
        return Result(True)
    atoms = []
    seen = set()
    for t in (assume, a, b):
        for c in cond_atoms(t):
            if c not in seen:
                seen.add(c)
                atoms.append(c)
    inner = [c for c in atoms if c in cond_atoms(a) or c in cond_atoms(b)]
    if not inner:
        fs = assumed(assume)
        if fs and contradictory(facts + fs):
            return Result(True)
        from .numeric import agree
        if agree(a, b, assume, facts):
            return Result(True)
        return Result(False, a, b, case)
    # split on a condition whose own terms are free of other conditions
    first = None
    for c in inner:
        if not any(x.head == "ite" for x in subterms(c)):
            first = c
            break
    first = first or inner[0]
    for c in inner:
        if c.head == "bool" and c.args[0].head == "ext" and c.args[0].args[0] == "numpy.iscomplexobj":
            first = c
            break
    if first.head == "bool" and first.args[0].head == "ext" and first.args[0].args[0] == "numpy.iscomplexobj":
        x = first.args[0].args[1]
        for val, desc in ((TRUE, "complex " + show(x)), (FALSE, "real " + show(x))):
            mp = {first: val}
            a2, b2, s2 = (eval_bool(t, mp) for t in (a, b, assume))
            if val is FALSE:
                r_ = sym("real part of " + show(x))
                if r_.props is None:
                    r_.props = dict(x.props or {})
                    for k, f in (("scalar", is_scalar), ("nonneg", is_nonneg)):
                        if f(x):
                            r_.props[k] = True
                    nd = NDIM(x) if NDIM else None
                    if nd is not None:
                        r_.props["ndim"] = nd
                    r_.props["real"] = True
                a2, b2, s2 = (subst(t, {x: r_}) for t in (a2, b2, s2))
            if s2 is FALSE:
                continue
            r = _compare(a2, b2, s2, case + (desc,), budget, facts)
            if not r.eq:
                return r
        return Result(True)
    for asg, sb, desc, info in regions(atoms, first):
        a2, b2, s2 = eval_bool(a, asg), eval_bool(b, asg), eval_bool(assume, asg)
        if sb is not None:
            mp = solve_point(*sb)
            if mp:
                a2, b2, s2 = subst(a2, mp), subst(b2, mp), subst(s2, mp)
        if s2 is FALSE:
            continue
        nf = facts
        if info:
            nf = facts + (info,)
            if contradictory(nf + assumed(s2)):
                continue
        r = _compare(a2, b2, s2, case + (desc,), budget, nf)
        if not r.eq:
            return r
    return Result(True)


def assumed(assume):
    """interval facts stated by a conjunction of linear conditions"""
    out = []
    for c in (assume.args if assume.head == "and" else (assume,)):
        if c.head == "cmp" and c.args[1].head != "pair":
            lf = _linform(c.args[1])
            if lf is None:
                continue
            q, s, t = lf
            if c.args[0] == "==":
                out.append((q, "pt", t, t))
            else:
                strict = c.args[0] == "<"
                out.append((q, "le", None if s > 0 else (t, strict), (t, strict) if s > 0 else None))
    return tuple(out)


def contradictory(facts):
    """are the interval facts  lo < q < hi  (or q = lo) linearly infeasible (Fourier-Motzkin on monomials)?"""
    cons = []
    monos = set()
    for q, kind, lo, hi in facts:
        d = poly(q)
        monos.update(m for m in d if m)
        if kind == "pt":
            cons.append((_padd(d, {(): -lo} if lo else {}), False))
            cons.append((_padd({}, _padd(d, {(): -lo} if lo else {}), -1), False))
        elif kind == "le":
            if lo is not None:
                cons.append((_padd(d, {(): -lo[0]} if lo[0] else {}), lo[1]))
            if hi is not None:
                cons.append((_padd({}, _padd(d, {(): -hi[0]} if hi[0] else {}), -1), hi[1]))
        else:
            if lo is not None:
                cons.append((_padd(d, {(): -lo} if lo else {}), True))
            if hi is not None:
                cons.append((_padd({}, _padd(d, {(): -hi} if hi else {}), -1), True))
    for m in monos:
        t = from_poly({m: Fr(1)})
        if is_pos(t):
            cons.append(({m: Fr(1)}, True))
        elif is_nonneg(t):
            cons.append(({m: Fr(1)}, False))
    for m in sorted(monos, key=lambda mm: tuple((x.id, e) for x, e in mm)):
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        neg_ = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if c[0].get(m, 0) == 0]
        if len(pos) * len(neg_) > 400:
            return False
        for p, sp in pos:
            for n, sn in neg_:
                k1, k2 = -n[m], p[m]
                d = {x: v * k1 for x, v in p.items()}
                d = _padd(d, {x: v * k2 for x, v in n.items()})
                rest.append((d, sp or sn))
        cons = rest
    for d, strict in cons:
        v = d.get((), Fr(0))
        if v < 0 or (strict and v == 0):
            return True
    return False


def equivalent(c1, c2, assume=TRUE):
    return compare(c1, c2, assume)


def implied(c, assume=TRUE):
    return compare(c, TRUE, assume).eq


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t) if not isinstance(t, tuple) else "(" + ", ".join(show(x, depth) for x in t) + ")"
    if depth > 9:
        return "..."
    h = t.head
    if h == "poly":
        if not t.args[0]:
            return "0"
        parts = []
        for c, m in t.args[0]:
            s = "*".join(show(a, depth + 1) + ("" if e == 1 else "^%s" % e) if a.head != "poly" else "(" + show(a, depth + 1) + ")" + ("" if e == 1 else "^%s" % e) for a, e in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append("%s*%s" % (c, s))
        return " + ".join(parts).replace("+ -", "- ")
    if h == "sym":
        return str(t.args[0])
    if h == "const":
        return repr(t.args[0])
    if h == "I":
        return "1j"
    if h == "mu":
        return "@%s" % (t.args[1],)
    if h == "cmp":
        return "(%s %s 0)" % (show(t.args[1], depth + 1), t.args[0])
    if h == "ite":
        return "[%s ? %s : %s]" % tuple(show(x, depth + 1) for x in t.args)
    if h in ("ext", "meth", "rec", "call"):
        return "%s(%s)" % (t.args[0], ", ".join(show(x, depth + 1) for x in t.args[1:]))
    return "%s(%s)" % (h, ", ".join(show(x, depth + 1) for x in t.args))
