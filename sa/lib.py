"""Abstract semantics of builtins, numpy, scipy.sparse and of the sphere libraries.

Library functions are either given their algebraic meaning in the term domain (numpy arithmetic,
reductions, indexing, thresholding idioms, sparse matrices, random draws) or stay uninterpreted
functions `ext(name, args)` whose calls are recorded as events.  Nothing is executed.
"""
import ast
from fractions import Fraction as Fr
from . import terms as tm
from .terms import (Term, TRUE, FALSE, NONE, I, PI, node, sym, const, num, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg,
                    power, conj, realpart, imagpart, absv, sumall, matmul, transpose, is_num, int_val, is_scalar, is_vec)

HALF = num(Fr(1, 2))
SLICE_ALL = node("slice", NONE, NONE, NONE)


def V():
    from . import interp
    return interp


# ---------------------------------------------------------------- names
ALIAS = {"np": "numpy"}
CONSTS = {
    "numpy.pi": PI, "math.pi": PI, "scipy.pi": PI, "scipy.constants.pi": PI, "numpy.nan": node("const", "nan"), "numpy.NaN": node("const", "nan"),
    "math.nan": node("const", "nan"), "numpy.inf": node("const", "inf"), "numpy.newaxis": NONE, "math.inf": node("const", "inf"),
    "os.devnull": sym("os.devnull"),
}
BUILTINS = set("""len range enumerate zip print int float complex bool str abs sum max min isinstance issubclass hasattr getattr
setattr delattr callable list tuple dict set frozenset reversed sorted any all map filter open super type round pow divmod vars iter next
object property staticmethod classmethod repr id hash format slice bytes input exec eval globals locals dir
ValueError TypeError RuntimeError NotImplementedError AssertionError KeyError IndexError Exception BaseException StopIteration
ModuleNotFoundError ImportError AttributeError OSError IOError FileNotFoundError Warning UserWarning ArithmeticError ZeroDivisionError
FloatingPointError DeprecationWarning RuntimeWarning NotImplemented Ellipsis __name__ __file__ __import__ memoryview bytearray ord chr""".split())


def lib_value(dotted):
    if dotted in CONSTS:
        return V().Data(CONSTS[dotted])
    return V().LibFn(dotted)


def builtin(name):
    if name in ("__name__", "__file__"):
        return V().Data(sym(name))
    if name in BUILTINS:
        return V().LibFn("builtins." + name)
    return None


# ---------------------------------------------------------------- small constructors
def mk_slice(lo, hi, step):
    if lo is not NONE and is_num(lo) and tm.num_val(lo) == 0 and step is NONE:
        lo = NONE
    if step is not NONE and is_num(step) and tm.num_val(step) == 1:
        step = NONE
    return node("slice", lo, hi, step)


def mk_map(n, lam):
    body = lam.args[1]
    bv = node("bv", lam.args[0])
    # eta: map(len(x), k -> x[k]) is x
    if body.head == "getitem" and body.args[1] is bv and bv not in tm.subterms(body.args[0]) and mk_len(body.args[0]) is n:
        return body.args[0]
    k = int_val(n) if n is not None else None
    if k is not None and 0 <= k <= 64:
        return node("list", *[tm.open_(lam, num(i)) for i in range(k)])
    gs = [x for x in tm.subterms(body) if x.head == "getitem" and x.args[1] is bv]
    if len(gs) == 1 and gs[0].args[0].head in ("listcat", "append") and (n is None or mk_len(gs[0].args[0]) is n):
        # f over a concatenated list: concatenation of the parts
        t = gs[0].args[0]
        v = node("idx", "mc")
        hole = node("idx", "mc0")
        f = tm.subst(tm.open_(lam, v), {node("getitem", t, v): hole})
        if v not in tm.subterms(f):
            def over(u):
                if u.head in ("list", "tuple"):
                    return node("list", *[tm.subst(f, {hole: x}) for x in u.args])
                if u.head == "append":
                    return node("append", over(u.args[0]), tm.subst(f, {hole: u.args[1]}))
                if u.head == "listcat":
                    return node("listcat", over(u.args[0]), over(u.args[1]))
                return mk_map(mk_len(u), tm.close(v, tm.subst(f, {hole: mk_getitem(u, v)})))
            return over(t)
    return node("map", n, lam)


def elementwise_atoms(t):
    return [a for _, m in tm._items(t) for a, _ in m]


def ndim_of(t):
    """number of array dimensions if known, else None"""
    p = t.props or {}
    if "ndim" in p:
        return p["ndim"]
    if is_scalar(t):
        return 0
    if t.head == "poly":
        ds = [ndim_of(a) for _, m in t.args[0] for a, _ in m]
        if any(d is None for d in ds):
            return None
        return max(ds) if ds else 0
    if p.get("vec"):
        return 1
    if t.head in ("conj", "abs", "real", "imag", "exp", "log", "sin", "cos", "log10", "sort", "cast", "isnan", "sign", "floor", "ceil", "rint", "round", "tan", "arccos", "arcsin",
                  "arctan", "sqrt", "nan_to_num", "cosh", "sinh", "tanh", "arccosh", "log1p", "expm1", "log2"):
        a = [x for x in t.args if isinstance(x, Term)]
        return ndim_of(a[0]) if a else None
    if t.head == "ite":
        ds = {ndim_of(t.args[1]), ndim_of(t.args[2])} - {0}
        if not ds:
            return bool_ndim(t.args[0]) or 0
        return ds.pop() if len(ds) == 1 else None
    if t.head in ("flat", "diag_of"):
        return 1
    if t.head == "quantile" and t.args[2] is not NONE and is_scalar(t.args[1]):
        d = ndim_of(t.args[0])
        return d - 1 if d else None
    if t.head == "stack":
        d = ndim_of(t.args[0]) if t.args else None
        return d + 1 if d is not None else None
    if t.head in ("sum", "red"):
        d = ndim_of(t.args[0] if t.head == "sum" else t.args[1])
        return d - 1 if d else None
    if t.head in ("outer", "eye", "diag", "inv", "row", "col", "vstack"):
        return 2
    if t.head == "full":
        s = t.args[0]
        if s.head in ("tuple", "list"):
            return len(s.args)
        return 1 if is_scalar(s) else None
    if t.head in ("concat", "concatmap"):
        return 1
    if t.head == "map":
        k = node("idx", "cm")
        if k.props is None:
            k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        d = ndim_of(tm.open_(t.args[1], k))
        return 1 + (d or 0)
    if t.head == "T":
        return ndim_of(t.args[0])
    if t.head == "matmul":
        b = ndim_of(t.args[1])
        return b if b in (1, 2) else None
    if t.head in ("normal", "uniform", "laplace"):
        s = t.args[0]
        return 0 if s is NONE else (len(s.args) if s.head == "tuple" else 1)
    if t.head in ("getitem",):
        b = ndim_of(t.args[0])
        if b is None:
            return None
        ix = t.args[1]
        ixs = ix.args if ix.head == "tuple" else (ix,)
        d = b
        for x in ixs:
            if x.head == "slice":
                continue
            if is_scalar(x) and not tm.is_bool(x):
                d -= 1
            elif tm.is_bool(x) or x.head == "cast" or (x.head == "full" and x.args[2] is const("bool")):
                return 1
            elif len(ixs) == 1 and ndim_of(x) == 1:
                continue
            else:
                return None
        return d
    if t.head == "reshape" and t.args[1].head == "tuple":
        return len(t.args[1].args)
    if t.head in ("store", "fstore"):
        return ndim_of(t.args[0])
    if t.head == "ext" and t.args[0] in SAME_SHAPE:
        return ndim_of(t.args[1])
    if t.head == "ext" and t.args[0] in EXT_NDIM:
        return EXT_NDIM[t.args[0]]
    if t.head == "ext" and t.args[0] == "numpy.arange":
        return 1
    k = skycoord(t)
    return ndim_of(k) if k is not None else None


def skycoord(t):
    """a coordinate array of the SkyCoord this attribute chain starts from"""
    while t.head == "attr" and t.args[1] in ("b", "l", "ra", "dec", "degree", "deg", "radian", "rad", "value") \
            or t.head == "meth" and t.args[0] in ("transform_to", "to"):
        t = t.args[0] if t.head == "attr" else t.args[1]
    return t.args[1] if t.head == "ext" and str(t.args[0]).endswith("SkyCoord") and len(t.args) > 1 and t.args[1].head != "kw" else None


tm.NDIM = ndim_of


TUPLE_EXT = {"pyssht.sample_positions": 2, "pys2let.analysis_px2wav": 2, "pys2let.synthesis_adjoint_px2wav": 2, "pys2let.analysis_lm2lmn": 2,
             "pys2let.synthesis_adjoint_lm2lmn": 2, "pys2let.wavelet_tiling": 2, "pyssht.mollweide_projection": 2, "matplotlib.pyplot.subplots": 2}
MW = const("MW")


def proj_shape(t, k):
    """shape (tuple of terms) of component k of a tuple-valued library call, or None"""
    if t.head != "ext":
        return None
    n, a = t.args[0], t.args[1:]
    if n == "pyssht.sample_positions" and len(a) == 3 and a[1] is MW:
        L = a[0]
        w = sub(mul(num(2), L), num(1))
        if a[2] is FALSE:
            return (L,) if k == 0 else (w,)
        if a[2] is TRUE:
            return (L, w)
    if n == "pys2let.wavelet_tiling" and len(a) == 6:
        L = a[1]
        if k == 0:
            return (L,)
        nw = node("nscales", a[0], L, a[3])
        if nw.props is None:
            nw.props = {"scalar": True, "integer": True, "nonneg": True, "real": True}
        return (mul(L, L), nw)
    if n in ("pys2let.analysis_px2wav", "pys2let.synthesis_adjoint_px2wav", "pys2let.analysis_lm2lmn", "pys2let.synthesis_adjoint_lm2lmn"):
        ln = node("ncoefs", n.split("_")[-1], k, *a[1:])
        if ln.props is None:
            ln.props = {"scalar": True, "integer": True, "nonneg": True, "real": True}
        return (ln,)
    return None


def mk_proj(t, k):
    r = node("proj", t, k)
    if r.props is None:
        s = proj_shape(t, k)
        r.props = {}
        if s is not None:
            r.props.update(ndim=len(s), shape=node("tuple", *s), len=s[0])
            if len(s) == 1:
                r.props["vec"] = True
        if t.head == "ext" and t.args[0] == "matplotlib.pyplot.subplots" and k == 1:
            d = [int_val(x) for x in t.args[1:] if x.head != "kw"] + [int_val(x.args[1]) for x in t.args[1:] if x.head == "kw" and x.args[0] in ("nrows", "ncols")]
            if None not in d and len([x for x in d if x != 1]) == 1:
                r.props.update(axes=True, len=num([x for x in d if x != 1][0]))
        if t.head == "ext" and t.args[0] == "pyssht.sample_positions":
            r.props["real"] = True
        if t.head == "nonzero":
            r.props.update(ndim=1, vec=True, real=True)
    return r


tm._REB["proj"] = mk_proj
SAME_SHAPE = {"numpy.fft.fft", "numpy.fft.ifft", "numpy.fft.fftshift", "numpy.fft.ifftshift"}
EXT_NDIM = {"pyssht.sample_length": 0, "pyssht.sample_shape": None, "pys2let.mw_size": 0, "pys2let.pys2let_j_max": 0}


def mk_len(t):
    h = t.head
    if h in ("tuple", "list", "array"):
        return num(len(t.args))
    if h == "const" and isinstance(t.args[0], str):
        return num(len(t.args[0]))
    if h == "map":
        return t.args[0] if t.args[0] is not None else node("len", t)
    if h == "shape":
        d = ndim_of(t.args[0])
        return num(d) if d is not None else node("ndim", t.args[0])
    if h == "full":
        s = t.args[0]
        return s.args[0] if s.head in ("tuple", "list") else (s if is_scalar(s) else mk_getitem(s, num(0)))
    if h in ("normal", "uniform", "laplace") and t.args[0] is not NONE and t.args[0].head != "tuple":
        return t.args[0]
    if h == "append":
        return add(mk_len(t.args[0]), num(1))
    if h in ("store", "fstore", "conj", "abs", "real", "imag", "exp", "sin", "cos", "log", "sort"):
        return mk_len(t.args[0])
    if h == "concat":
        r = num(0)
        for x in t.args:
            r = add(r, mk_len(x))
        return r
    if h == "getitem" and t.args[1].head == "slice":
        lo, hi, st = t.args[1].args
        if st is NONE:
            n = mk_len(t.args[0])
            l = num(0) if lo is NONE else (add(n, lo) if is_num(lo) and tm.num_val(lo) < 0 else lo)
            if hi is NONE:
                u = n
            elif is_num(hi) and tm.num_val(hi) < 0:
                u = add(n, hi)
            else:
                u = hi
            return sub(u, l)
    if h == "getitem" and t.args[1].head not in ("slice", "tuple") and not is_scalar(t.args[1]) and not is_boolarr(t.args[1]) and ndim_of(t.args[1]) == 1:
        return mk_len(t.args[1])
    if h == "getitem" and t.args[1].head == "tuple" and t.args[1].args and t.args[1].args[0].head == "slice" \
            and all(is_scalar(x) for x in t.args[1].args[1:]):
        return mk_len(mk_getitem(t.args[0], t.args[1].args[0]))
    if h == "poly":
        gen = None
        for _, m in t.args[0]:
            for a, _ in m:
                if not is_scalar(a):
                    n = mk_len(a)
                    if n.head != "len":
                        return n
                    gen = gen or n
        if gen is not None:
            return gen
    if h == "ite" and not is_scalar(t):
        a, b = t.args[1], t.args[2]
        if is_scalar(a):
            return mk_len(b)
        if is_scalar(b):
            return mk_len(a)
        la, lb = mk_len(a), mk_len(b)
        return la if la is lb else ite(t.args[0], la, lb)
    if h == "T":
        return mk_getitem(node("shape", t.args[0]), num(1))
    if h == "vstack":
        r = num(0)
        for x in t.args:
            d = ndim_of(x)
            if d == 1:
                r = add(r, num(1))
            elif d == 2:
                r = add(r, mk_len(x))
            else:
                return node("len", t)
        return r
    if h == "eye":
        return t.args[0]
    if h == "cast" or h == "ext" and t.args[0] in SAME_SHAPE:
        return mk_len(t.args[1])
    if t.props and "len" in t.props:
        return t.props["len"]
    return node("len", t)


def bool_base(t):
    """an operand with the dimensions of a condition on arrays"""
    if tm.is_bool(t):
        d = bool_ndim(t)
        from .arrays import operands
        for p in operands(t) if d else ():
            if isinstance(p, Term) and ndim_of(p) == d:
                return p
    return None


def mk_shape(t):
    b = bool_base(t)
    if b is not None:
        t = b
    h = t.head
    if h == "full":
        s = t.args[0]
        return s if s.head == "tuple" else (node("tuple", s) if is_scalar(s) else s)
    if h in ("store", "fstore", "conj", "abs", "real", "imag", "exp", "sin", "cos"):
        return mk_shape(t.args[0])
    if h == "cast" or (h == "ext" and t.args[0] in SAME_SHAPE):
        return mk_shape(t.args[1])
    if t.props and "shape" in t.props:
        return t.props["shape"]
    if h == "reshape" and t.args[1].head == "tuple":
        return t.args[1]
    if h in ("eye", "eyek"):
        return node("tuple", t.args[0], t.args[1])
    k = skycoord(t)
    if k is not None and k is not t:
        return mk_shape(k)
    if h == "ite" and not is_scalar(t):
        a, b = t.args[1], t.args[2]
        if is_scalar(a) and is_scalar(b):
            for p in tm.subterms(t.args[0]):
                if p.head == "cmp" and p.args[1].head != "pair" and ndim_of(p.args[1]) == ndim_of(t):
                    return mk_shape(p.args[1])
            return node("shape", t)
        sa, sb = mk_shape(a), mk_shape(b)
        if sa is sb or is_scalar(b):
            return sa
        return sb if is_scalar(a) else ite(t.args[0], sa, sb)
    if h == "poly":
        for _, m in t.args[0]:
            for a, _ in m:
                if not is_scalar(a):
                    return mk_shape(a)
    if is_scalar(t):
        return node("tuple")
    if ndim_of(t) == 1:
        return node("tuple", mk_len(t))
    if h == "T" and ndim_of(t) == 2:
        s = mk_shape(t.args[0])
        if s.head == "tuple" and len(s.args) == 2:
            return node("tuple", s.args[1], s.args[0])
    if h == "getitem" and t.args[1].head not in ("slice", "tuple") and not is_scalar(t.args[1]) and not is_boolarr(t.args[1]) and ndim_of(t.args[1]) == 1:
        s = mk_shape(t.args[0])
        if s.head == "tuple":
            return node("tuple", mk_len(t.args[1]), *s.args[1:])
    return node("shape", t)


def mk_size(t):
    t = bool_base(t) or t
    if ndim_of(t) == 1:
        return mk_len(t)
    if h_shape(t) is not None:
        r = num(1)
        for x in h_shape(t):
            r = mul(r, x)
        return r
    return node("size", t)


def mk_mean(t):
    if t.head not in ("list", "append", "listcat", "mu", "array") and ndim_of(t) == 1:
        return div(sumall(t), mk_len(t))
    return scal(node("mean", t))


def h_shape(t):
    s = mk_shape(t)
    return s.args if s.head == "tuple" else None


def mk_ndim(t):
    t = bool_base(t) or t
    d = ndim_of(t)
    return num(d) if d is not None else node("ndim", t)


def mk_str(parts):
    out = []
    for p in parts:
        if p.head == "fstr":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if is_num(q) and tm.num_val(q).denominator == 1:
                q = const(str(int(tm.num_val(q))))
            if q.head == "const" and not isinstance(q.args[0], str):
                q = const(str(q.args[0]))
            if out and q.head == "const" and out[-1].head == "const":
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif not (q.head == "const" and q.args[0] == ""):
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].head == "const":
        return out[0]
    return node("fstr", *out)


# ---------------------------------------------------------------- indexing
def idx_list(ix):
    return list(ix.args) if ix.head == "tuple" else [ix]


def is_int_index(x):
    return is_scalar(x) and not tm.is_bool(x) and x.head not in ("const", "slice", "tuple")


def is_boolarr(p):
    return tm.is_bool(p) or p.head == "cast" and p.args[0] == "bool" or p.head == "full" and p.args[2] is const("bool")


def mk_count(p):
    """number of true entries"""
    r = node("count", p)
    if r.props is None:
        r.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
    return r


tm._REB["count"] = mk_count


def mask_index(ix, t):
    """nonzero(mask) used as an index is the mask itself"""
    p = None
    if ix.head == "nonzero":
        p = ix.args[0]
    elif ix.head == "tuple" and len(ix.args) == 2 and all(x.head in ("getitem", "proj") and x.args[0].head == "nonzero" and
                                                          (x.args[1] if isinstance(x.args[1], int) else int_val(x.args[1])) == i for i, x in enumerate(ix.args)) \
            and ix.args[0].args[0] is ix.args[1].args[0]:
        p = ix.args[0].args[0].args[0]
    if p is not None:
        if is_boolarr(p):
            return p
        return castnode("bool", p)
    return ix


def to_col(t):
    out = num(0)
    for m, k in tm.poly(t).items():
        r = num(k)
        for a, e in m:
            r = mul(r, tm._pow(a if is_scalar(a) else node("col", a), e))
        out = add(out, r)
    return out


def mk_getitem(t, ix):
    h = t.head
    if ix.head in ("nonzero", "tuple"):
        ix = mask_index(ix, t)
    if h == "flat" and ix.head == "flat" and ndim_of(t.args[0]) == ndim_of(ix.args[0]) == 2 and is_boolarr(ix.args[0]):
        return mk_getitem(t.args[0], ix.args[0])
    if h == "full" and is_boolarr(ix) and is_scalar(t.args[1]) and ndim_of(t) == (bool_ndim(ix) if tm.is_bool(ix) else ndim_of(ix)):
        return node("full", mk_count(ix), t.args[1], t.args[2])
    if ix is SLICE_ALL:
        return t
    if ix.head == "const" and ix.args[0] is Ellipsis:
        return t
    if ix.head == "tuple" and len(ix.args) == 2 and ix.args[0] is SLICE_ALL and int_val(ix.args[1]) == 0 \
            and (h == "col" or h == "poly" and all(sum(a.head == "col" for a, _ in m) == 1 and all(a.head == "col" or is_scalar(a) for a, _ in m) for _, m in t.args[0])):
        return mk_flat(t)
    if ix.head == "tuple" and ix.args:
        args = list(ix.args)
        while len(args) > 1 and args[-1] is SLICE_ALL:
            args.pop()
        if len(args) == 1:
            return mk_getitem(t, args[0])
        ix = node("tuple", *args)
        if args == [SLICE_ALL, NONE] and ndim_of(t) == 1:
            return to_col(t)
        if args == [NONE] or args == [NONE, SLICE_ALL]:
            return node("row", t) if ndim_of(t) == 1 else node("getitem", t, ix)
    k = int_val(ix) if ix.head == "poly" else None
    if h == "ite":
        if ix.head in ("slice", "tuple") or is_scalar(ix) and is_scalar(t.args[0]):
            if is_scalar(t.args[1]) or is_scalar(t.args[2]):
                pass
            elif not elementwise_cond(t.args[0]):
                return ite(t.args[0], mk_getitem(t.args[1], ix), mk_getitem(t.args[2], ix))
        elif t.args[1].head in ("tuple", "list", "stack", "dict") or t.args[2].head in ("tuple", "list"):
            return ite(t.args[0], mk_getitem(t.args[1], ix), mk_getitem(t.args[2], ix))
    if h == "ext" and t.args[0] in TUPLE_EXT and k is not None and -TUPLE_EXT[t.args[0]] <= k < TUPLE_EXT[t.args[0]]:
        return mk_proj(t, k % TUPLE_EXT[t.args[0]])
    if h == "nonzero" and k is not None and k >= 0:
        return mk_proj(t, k)
    if h == "proj" and t.args[0].head == "nonzero" and ndim_of(t.args[0].args[0]) in (1, None) and k in (0, -1):
        # positions come in increasing order
        return scal(node("amax" if k == -1 else "amin", t))
    if h in ("tuple", "list") and k is not None:
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
        return node("opaque", "index out of range")
    if h in ("tuple", "list") and ix.head == "slice":
        b = [int_val(x) if x is not NONE else None for x in ix.args]
        if all((x is NONE) == (y is None) for x, y in zip(ix.args, b)):
            return node(h, *t.args[slice(*b)])
    if h == "stack" and k is not None and -len(t.args) <= k < len(t.args):
        return t.args[k]
    if h == "dict":
        for kt, vt in t.args[0]:
            if kt is ix:
                return vt
    if h == "quantile" and ix.head == "slice" and ndim_of(t.args[0]) == 2 and int_val(t.args[2]) == 0:
        return node("quantile", mk_getitem(t.args[0], node("tuple", SLICE_ALL, ix)), *t.args[1:])
    if h == "stack" and ix.head == "slice" and all(x is NONE or int_val(x) is not None for x in ix.args):
        return node("stack", *t.args[slice(*[None if x is NONE else int_val(x) for x in ix.args])])
    if h == "poly" and ix.head == "slice" and all(is_scalar(a) or a.head in ("quantile", "stack") for _, m in t.args[0] for a, _ in m):
        out = num(0)
        for cf, m in t.args[0]:
            r = num(cf)
            for a, e in m:
                r = mul(r, power(a if is_scalar(a) else mk_getitem(a, ix), num(e)))
            out = add(out, r)
        return out
    if h in ("sum", "red") and is_int_index(ix):
        a, ax = t.args if h == "sum" else t.args[1:]
        ax = int_val(ax)
        if ndim_of(a) == 2 and ax in (0, 1, -1):
            sl = mk_getitem(a, node("tuple", SLICE_ALL, ix) if ax == 0 else ix)
            return sumall(sl) if h == "sum" else mk_red(t.args[0], sl, NONE)
    if h == "map" and is_int_index(ix):
        if k is not None and k < 0 and t.args[0] is not None:
            return tm.open_(t.args[1], add(t.args[0], ix))
        return tm.open_(t.args[1], ix)
    if h == "map" and ix.head == "slice" and ix.args[2] is NONE and t.args[0] is not None:
        lo, hi, _ = ix.args
        n = mk_len(node("getitem", t, ix))
        l = num(0) if lo is NONE else lo
        if not (is_num(l) and tm.num_val(l) < 0):
            v = node("idx", "slice")
            return mk_map(n, tm.close(v, tm.open_(t.args[1], add(v, l))))
    if h == "listcat":
        pass
    if h == "append" and is_int_index(ix):
        if k == -1:
            return t.args[1]
        n = mk_len(t.args[0])
        if n is ix:
            return t.args[1]
    if h == "shape":
        if k == 0:
            return mk_len(t.args[0])
        s = mk_shape(t.args[0])
        if s is not t:
            return mk_getitem(s, ix)
    if h == "store":
        b, i, v = t.args
        if i is ix:
            return v
        if distinct(i, ix):
            return mk_getitem(b, ix)
        if i.head == "slice" and k is not None and k >= 0 and i.args[2] is NONE and ndim_of(t) == 1:
            lo = 0 if i.args[0] is NONE else int_val(i.args[0])
            hi = None if i.args[1] is NONE else int_val(i.args[1])
            if lo is not None and lo >= 0 and (i.args[1] is NONE or hi is not None and hi >= 0):
                if k < lo or hi is not None and k >= hi:
                    return mk_getitem(b, ix)
                return v if is_scalar(v) else mk_getitem(v, num(k - lo))
        # row of an element store
        li, lx = idx_list(i), idx_list(ix)
        if len(lx) < len(li) and all(p is q for p, q in zip(li, lx)):
            rest = li[len(lx):]
            return mk_store(mk_getitem(b, ix), rest[0] if len(rest) == 1 else node("tuple", *rest), v)
    if h == "full" and all(is_int_index(x) for x in idx_list(ix)):
        s = t.args[0]
        if (len(idx_list(ix)) == len(s.args) if s.head == "tuple" else is_scalar(s)):
            return t.args[1]
    if h == "poly" and k is not None and all(is_scalar(a) or a.head in ("list", "array") and all(is_scalar(x) for x in a.args) and -len(a.args) <= k < len(a.args)
                                             for _, m in t.args[0] for a, _ in m):
        r = num(0)
        for c, m in t.args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, tm._pow(a if is_scalar(a) else a.args[k], e))
            r = add(r, x)
        return r
    if h == "poly" and is_basic(ix) and all(is_scalar(a) or ndim_of(a) is not None for _, m in t.args[0] for a, _ in m):
        ds = {ndim_of(a) for _, m in t.args[0] for a, _ in m} - {0}
        if len(ds) == 1:
            r = num(0)
            for c, m in t.args[0]:
                x = num(c)
                for a, e in m:
                    x = mul(x, tm._pow(a if is_scalar(a) else mk_getitem(a, ix), e))
                r = add(r, x)
            return r
    if h in ("conj", "abs", "real", "imag", "exp", "sin", "cos", "log") and is_basic(ix):
        return tm.rebuild(h, (mk_getitem(t.args[0], ix),))
    if h == "T" and is_basic(ix):
        l = idx_list(ix)
        if ndim_of(t.args[0]) in (2, None) and len(l) <= 2:
            l = (l + [SLICE_ALL])[:2]
            return mk_getitem(t.args[0], node("tuple", l[1], l[0]))
    if h == "outer" and ix.head == "tuple" and len(ix.args) == 2:
        return mul(mk_getitem(t.args[0], ix.args[0]), mk_getitem(t.args[1], ix.args[1]))
    if h == "getitem":
        b, i = t.args
        li, lx = idx_list(i), idx_list(ix)
        if is_basic(i) and is_basic(ix):
            # compose: integer indices of i consume dimensions, slices keep them
            out = []
            rest = list(lx)
            ok = True
            for p in li:
                if p.head == "slice":
                    if not rest:
                        out.append(p)
                        continue
                    q = rest.pop(0)
                    lo, hi, stp = p.args
                    if p is SLICE_ALL:
                        out.append(q)
                    elif stp is NONE and (lo is NONE or not (is_num(lo) and tm.num_val(lo) < 0)):
                        l0 = num(0) if lo is NONE else lo
                        if is_int_index(q):
                            kq = int_val(q)
                            if kq is not None and kq < 0:
                                if hi is NONE:
                                    out.append(q)
                                else:
                                    ok = False
                            else:
                                out.append(add(l0, q))
                        elif q.head == "slice" and q.args[2] is NONE and not any(
                                x is not NONE and is_num(x) and tm.num_val(x) < 0 for x in q.args):
                            a = l0 if q.args[0] is NONE else add(l0, q.args[0])
                            e = hi if q.args[1] is NONE else add(l0, q.args[1])
                            out.append(mk_slice(a, e, NONE))
                        else:
                            ok = False
                    else:
                        ok = False
                elif is_int_index(p):
                    out.append(p)
                else:
                    ok = False
            if ok:
                out += rest
                return mk_getitem(b, node("tuple", *out) if len(out) > 1 else out[0])
    return node("getitem", t, ix)


def elementwise_cond(c):
    """does the truth value of c vary over array elements"""
    return not is_scalar_cond(c)


def is_scalar_cond(c):
    if c.head in ("and", "or", "not"):
        return all(is_scalar_cond(x) for x in c.args)
    if c.head == "cmp":
        return c.args[1].head == "pair" or is_scalar(c.args[1])
    if c.head in ("eqc", "isnone"):
        return True
    if c.head == "bool":
        x = c.args[0]
        return not (is_vec(x) or ndim_of(x) not in (0, None) or x.head in ("cast", "isnan"))
    return True


def is_basic(ix):
    return all(x.head == "slice" or is_int_index(x) for x in idx_list(ix))


def distinct(i, j):
    """provably different index positions"""
    li, lj = idx_list(i), idx_list(j)
    for a, b in zip(li, lj):
        if is_int_index(a) and is_int_index(b):
            d = sub(a, b)
            if is_num(d) and tm.num_val(d) != 0 and not (is_num(a) and is_num(b) and (tm.num_val(a) < 0) != (tm.num_val(b) < 0)):
                return True
        if a.head == "const" and b.head == "const" and a is not b:
            return True
    return False


def mk_store(t, ix, v):
    if ix.head in ("nonzero", "tuple"):
        ix = mask_index(ix, t)
    if ix is SLICE_ALL or (ix.head == "const" and ix.args[0] is Ellipsis):
        if is_scalar(v) and not is_scalar(t):
            return node("full", mk_shape(t), v, dtype_of(t)) if t.head == "full" else node("store", t, ix, v)
        return v
    if ix.head == "tuple" and ix.args:
        args = list(ix.args)
        while len(args) > 1 and args[-1] is SLICE_ALL:
            args.pop()
        ix = args[0] if len(args) == 1 else node("tuple", *args)
    if tm.is_bool(ix) and (is_scalar(v)):
        d, n = bool_ndim(ix), ndim_of(t)
        if d is not None and n is not None and 0 < d < n:
            c = bool_col(ix) if (d, n) == (1, 2) else None
            return node("store", t, ix, v) if c is None else ite(c, v, t)
        return ite(ix, v, t)
    if tm.is_bool(ix) and v.head == "getitem" and v.args[1] is ix:
        return ite(ix, v.args[0], t)
    if v.head == "store" and v.args[0] is mk_getitem(t, ix):
        return mk_store(t, node("tuple", *(idx_list(ix) + idx_list(v.args[1]))), v.args[2])
    if v.head == "ite":
        # conditional element update
        c, a, b = v.args
        g = mk_getitem(t, ix)
        if a is g and b.head == "store" and b.args[0] is g:
            return mk_store(t, node("tuple", *(idx_list(ix) + idx_list(b.args[1]))), ite(c, mk_getitem(g, b.args[1]), b.args[2]))
        if b is g and a.head == "store" and a.args[0] is g:
            return mk_store(t, node("tuple", *(idx_list(ix) + idx_list(a.args[1]))), ite(c, a.args[2], mk_getitem(g, a.args[1])))
    if v.head == "poly" and False:
        pass
    if t.head == "store" and t.args[1] is ix:
        return node("store", t.args[0], ix, v)
    if v is mk_getitem(t, ix):
        return t
    return node("store", t, ix, v)


def join_store(c, a, b):
    """merge of two array versions under condition c"""
    if a.head == "append" and b.head == "append" and a.args[0] is b.args[0]:
        return node("append", a.args[0], ite(c, a.args[1], b.args[1]))
    if a.head == "store" and a.args[0] is b:
        return mk_store(b, a.args[1], ite(c, a.args[2], mk_getitem(b, a.args[1]))) if is_elem(a) else ite(c, a, b)
    if b.head == "store" and b.args[0] is a:
        return mk_store(a, b.args[1], ite(c, mk_getitem(a, b.args[1]), b.args[2])) if is_elem(b) else ite(c, a, b)
    if a.head == "store" and b.head == "store" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return mk_store(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    return ite(c, a, b)


def is_elem(s):
    return all(is_int_index(x) for x in idx_list(s.args[1])) or s.args[1].head == "const"


tm._REB.update({
    "getitem": mk_getitem, "store": mk_store, "len": mk_len, "shape": mk_shape, "map": lambda n, l: mk_map(n, l),
    "ndim": mk_ndim, "size": mk_size, "fstr": lambda *a: mk_str(list(a)),
})


def index_term(interp, st, idx):
    return interp.T(idx, st)


def getitem(interp, st, base, idx, nd):
    vv = V()
    base = interp.record_items(base, st)
    if isinstance(base, vv.Choice):
        return interp.merge_val(base.c, getitem(interp, st, base.a, idx, nd), getitem(interp, st, base.b, idx, nd), st, st, st)
    it = index_term(interp, st, idx)
    k = int_val(it) if it.head == "poly" else None
    if it in (TRUE, FALSE):
        k = 1 if it is TRUE else 0
    if isinstance(base, vv.Tup):
        if k is not None and -len(base.items) <= k < len(base.items):
            return base.items[k]
        if it.head == "slice":
            b = [int_val(x) if x is not NONE else None for x in it.args]
            return vv.Tup(base.items[slice(*b)])
        if it.head == "ite" and tm.is_bool(it.args[0]):
            return interp.choose(it.args[0], getitem(interp, st, base, vv.Data(it.args[1]), nd), getitem(interp, st, base, vv.Data(it.args[2]), nd), st)
        if tm.is_bool(it) and len(base.items) == 2:
            return interp.choose(it, base.items[1], base.items[0], st)
    if isinstance(base, vv.Seq):
        if base.items is not None and k is not None:
            return base.items[k]
        if is_int_index(it):
            return base.item(it, st)
    if isinstance(base, vv.Ref):
        c = st.heap.get(base.loc)
        if isinstance(c, vv.ListCell) and c.items is not None:
            if k is not None and -len(c.items) <= k < len(c.items):
                return c.items[k]
            if it.head == "slice":
                b = [int_val(x) if x is not NONE else None for x in it.args]
                if all((x is NONE) == (y is None) for x, y in zip(it.args, b)):
                    return interp.new_list(st, c.items[slice(*b)])
            if tm.is_bool(it) and len(c.items) == 2:
                return interp.choose(it, c.items[1], c.items[0], st)
        if isinstance(c, vv.DictCell):
            if it in c.items:
                x = c.items[it]
                if isinstance(x, vv.Choice) and (x.a is vv.UNBOUND or x.b is vv.UNBOUND):
                    interp.event("maybe_nokey", st, nd, name=tm.show(it))
                    x = x.b if x.a is vv.UNBOUND else x.a
                return x
            if it.head == "ite":
                return interp.choose(it.args[0], getitem(interp, st, base, vv.Data(it.args[1]), nd), getitem(interp, st, base, vv.Data(it.args[2]), nd), st)
            if it.head != "const" and c.items and all(x.head == "const" for x in c.items):
                # dispatch table: gate on equality with each key
                ks = list(c.items)
                if tm.is_bool(it) and set(ks) <= {TRUE, FALSE}:
                    return interp.choose(it, c.items.get(TRUE, interp.data(node("opaque", "KeyError"))), c.items.get(FALSE, interp.data(node("opaque", "KeyError"))), st)
                conds = [tm.cmp_("==", it, q) for q in ks]
                conds = [interp.decide(x, st) for x in conds]
                none = and_(*[not_(x) for x in conds])
                if interp.decide(none, st) is not FALSE and none is not FALSE:
                    s2 = st.copy()
                    s2.pc = and_(st.pc, none)
                    interp.event("raise", s2, nd, exc="KeyError")
                r = c.items[ks[-1]]
                for q, cd in list(zip(ks, conds))[-2::-1]:
                    r = interp.choose(cd, c.items[q], r, st)
                return r
            interp.event("nokey", st, nd, name=tm.show(it))
            return interp.data(node("getitem", interp.T(base, st), it))
    bt = interp.T(base, st)
    r = mk_getitem(bt, it)
    if isinstance(base, vv.Data) and base.loc is not None and is_basic(it):
        if is_scalar(r) and not any(x.head == "slice" for x in idx_list(it)):
            return vv.Data(r)
        loc = interp.newloc()
        return vv.Data(r, loc, frozenset([loc]) | base.al, (base, it))
    if isinstance(base, vv.Data) and is_basic(it):
        loc = interp.newloc()
        return vv.Data(r, loc, frozenset([loc]) | base.al)
    return interp.data(r)


def store_term(interp, st, base_term, it, vt):
    return mk_store(base_term, it, vt)


def setitem(interp, st, base, idx, val, nd):
    vv = V()
    it = index_term(interp, st, idx)
    vt = interp.T(val, st)
    interp.event("store", st, nd, target=base, base=interp.T(base, st) if not isinstance(base, vv.Choice) else NONE, idx=it, val=vt, aug=False,
                 al=interp.aliases(base, st), value=val)
    if isinstance(base, vv.Choice):
        for x, c in ((base.a, base.c), (base.b, not_(base.c))):
            if isinstance(x, vv.Data) and x.loc is not None:
                interp.set_mut(st, x, join_store(c, mk_store(interp.T(x, st), it, vt), interp.T(x, st)))
        return
    if isinstance(base, vv.Ref):
        c = st.heap.get(base.loc)
        if isinstance(c, vv.DictCell):
            own = interp.dict_owner.get(base.loc)
            if own is not None and it.head == "const":
                interp.setattr_(own, it.args[0], val, st, nd)
                return
            f = dict(c.items)
            f[it] = val
            st.heap[base.loc] = vv.DictCell(f, c.open)
            return
        if isinstance(c, vv.ListCell):
            k = int_val(it) if it.head == "poly" else None
            if c.items is not None and k is not None and -len(c.items) <= k < len(c.items):
                l = list(c.items)
                l[k] = val
                st.heap[base.loc] = vv.ListCell(tuple(l))
            else:
                st.heap[base.loc] = vv.ListCell(None, mk_store(interp.T(base, st), it, vt))
            return
        if isinstance(c, vv.ObjCell) and c.cls is not None:
            m, _ = c.cls.find("__setitem__")
            if m is not None:
                interp.call(m.bind(base), [idx, val], {}, st, nd)
        return
    if isinstance(base, vv.Data) and base.loc is not None:
        bt = interp.T(base, st)
        vt = stored_as(dtype_of(bt), vt)
        interp.set_mut(st, base, mk_store(bt, it, vt))


def stored_as(dt, v):
    """what an array of that type keeps of a value stored in it"""
    if dt is const("int") and not tm.is_int(v) and not tm.is_bool(v) and (fractional(v) or not any(
            x.head in ("opaque", "loopval", "ext", "meth", "mu") for x in tm.subterms(v))):
        return castnode("int", v)
    if dt is const("float") and not tm.is_real(v) and any(x.head == "I" for x in tm.subterms(v)):
        return realpart(v)
    return v


def fractional(v):
    """does the value have a form that is not that of an integer?"""
    return v.head == "poly" and any(k.denominator != 1 or any(e.denominator != 1 or e < 0 or a.head in ("cos", "sin", "exp", "log") or a is PI for a, e in m)
                                    for k, m in v.args[0] if not isinstance(k, complex))


def list_extend(interp, st, ref, rhs, nd):
    vv = V()
    c = st.heap[ref.loc]
    seq = as_seq(interp, st, rhs, nd)
    interp.event("store", st, nd, target=ref, base=NONE, idx=NONE, val=interp.T(rhs, st), aug=True, al=frozenset([ref.loc]), how="extend")
    if c.items is not None and seq.items is not None:
        st.heap[ref.loc] = vv.ListCell(tuple(c.items) + tuple(seq.items))
    elif seq.items is not None:
        t = interp.T(ref, st)
        for x in seq.items:
            t = node("append", t, interp.T(x, st))
        st.heap[ref.loc] = vv.ListCell(None, t)
    else:
        st.heap[ref.loc] = vv.ListCell(None, node("listcat", interp.T(ref, st), interp.T(rhs, st)))


# ---------------------------------------------------------------- sequences
def mk_red(head, t, axis):
    """reduction of an array along an axis"""
    if axis is NONE or ndim_of(t) == 1 and int_val(axis) in (0, -1):
        return argext(head, t) if head.startswith("arg") else scal(node(head, t))
    if ndim_of(t) == 2 and int_val(axis) in (0, 1, -1):
        return node("red", head, t, num(int_val(axis) % 2))
    return None


def argext(head, t):
    r = scal(node(head, t))
    r.props.update(integer=True, nonneg=True, real=True)
    return r


def axes_grid(t):
    """(rows, columns) of the axes made by fig.subplots(rows, columns), or None"""
    if t.head != "meth" or t.args[0] != "subplots":
        return None
    g = {"nrows": num(1), "ncols": num(1)}
    for n, a in zip(("nrows", "ncols"), [x for x in t.args[2:] if x.head != "kw"]):
        g[n] = a
    for x in t.args[2:]:
        if x.head == "kw" and x.args[0] == "squeeze":
            return None
        if x.head == "kw":
            g[str(x.args[0])] = x.args[1]
    r, c = int_val(g["nrows"]), int_val(g["ncols"])
    return (r, c) if r and c and 1 <= r <= 12 and 1 <= c <= 12 else None


def as_seq(interp, st, v, nd):
    vv = V()
    v = interp.record_items(v, st)
    if isinstance(v, vv.Seq):
        return v
    if isinstance(v, vv.Tup):
        return vv.Seq(num(len(v.items)), lambda k, s: vv.Data(mk_getitem(interp.T(v, s), k)), items=v.items)
    if isinstance(v, vv.Ref):
        c = st.heap.get(v.loc)
        if isinstance(c, vv.ListCell):
            if c.items is not None:
                return vv.Seq(num(len(c.items)), lambda k, s: vv.Data(mk_getitem(interp.T(v, s), k)), items=c.items)
            t = c.term
            return vv.Seq(mk_len(t), lambda k, s: interp.data(mk_getitem(t, k)), term=t)
        if isinstance(c, vv.DictCell):
            if c.open is None:
                return vv.Seq(num(len(c.items)), None, items=tuple(vv.Data(k) for k in c.items))
            t = interp.T(v, st)
            return vv.Seq(node("len", t), lambda k, s: interp.data(node("getitem", node("keys", t), k)), term=node("keys", t))
    if isinstance(v, vv.Choice):
        t = interp.T(v, st)
        return vv.Seq(mk_len(t), lambda k, s: interp.data(mk_getitem(t, k)), term=t)
    t = interp.T(v, st)
    if t.head == "array" and t.args and all(isinstance(x, tm.Term) and is_scalar(x) for x in t.args):
        return vv.Seq(num(len(t.args)), lambda k, s: vv.Data(mk_getitem(t, k)), items=tuple(vv.Data(x) for x in t.args), term=t)
    if t.head == "shape" and ndim_of(t.args[0]) is not None:
        return vv.Seq(num(ndim_of(t.args[0])), lambda k, s: vv.Data(mk_getitem(t, k)),
                      items=tuple(vv.Data(mk_getitem(t, num(i))) for i in range(ndim_of(t.args[0]))), term=t)
    g = axes_grid(t)
    if g is not None and min(g) == 1 and max(g) > 1:
        return vv.Seq(num(max(g)), lambda k, s: vv.Data(mk_getitem(t, k)), items=tuple(vv.Data(mk_getitem(t, num(i))) for i in range(max(g))), term=t)
    if tm.prop(t, "axes"):
        n = t.props["len"]
        return vv.Seq(n, lambda k, s: vv.Data(mk_getitem(t, k)), items=tuple(vv.Data(mk_getitem(t, num(k))) for k in range(int_val(n))), term=t)
    if t.head in ("list", "tuple", "stack"):
        return vv.Seq(num(len(t.args)), lambda k, s: vv.Data(mk_getitem(t, k)), items=tuple(vv.Data(x) for x in t.args), term=t)
    if t.head == "const" and isinstance(t.args[0], str):
        return vv.Seq(num(len(t.args[0])), None, items=tuple(vv.Data(const(ch)) for ch in t.args[0]))

    def item(k, s):
        if isinstance(v, vv.Data) and v.loc is not None:
            return getitem(interp, s, v, vv.Data(k), nd)
        return interp.data(mk_getitem(interp.T(v, s), k))
    return vv.Seq(mk_len(t), item, term=t)


def mk_range(interp, lo, hi, step):
    vv = V()
    a, b, s = int_val(lo), int_val(hi), int_val(step)
    if a is not None and b is not None and s:
        its = list(range(a, b, s))
        if len(its) <= 64:
            return vv.Seq(num(len(its)), lambda k, st: vv.Data(add(lo, mul(step, k))), items=tuple(vv.Data(num(x)) for x in its))
    if s == 1:
        n = sub(hi, lo)
    elif s == -1:
        n = sub(lo, hi)
    else:
        n = node("rangelen", lo, hi, step)
    v = node("idx", "range")
    return vv.Seq(n, lambda k, st: vv.Data(add(lo, mul(step, k))), term=node("map", n, tm.close(v, add(lo, mul(step, v)))))


# ---------------------------------------------------------------- operators
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def numify(t):
    """boolean terms used as numbers"""
    if t is TRUE:
        return num(1)
    if t is FALSE:
        return num(0)
    if tm.is_bool(t):
        return ite(t, num(1), num(0))
    return t


def is_strterm(t):
    return t.head == "fstr" or (t.head == "const" and isinstance(t.args[0], str) and t.args[0] not in ("nan", "inf")) \
        or (t.head == "ite" and is_strterm(t.args[1]) and is_strterm(t.args[2])) or tm.prop(t, "string") or t.head == "fmt"


def arith(op, a, b):
    a, b = numify(a), numify(b)
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "**":
        return power(a, b)
    if op == "%":
        return mk_mod(a, b)
    if op == "//":
        x, y = (tm.num_val(a) if is_num(a) else None), (tm.num_val(b) if is_num(b) else None)
        if x is not None and y:
            return num(x // y)
        if y == 1 and tm.is_int(a):
            return a
        if y is None and is_scalar(b) and is_scalar(a):
            dm = tm.poly_divmod(a, b)
            if dm is not None and is_num(dm[1]) and tm.num_val(dm[1]) == 0 and tm.is_int(dm[0]):
                return dm[0]
        return node("floordiv", a, b)
    if op == "@":
        return mk_matmul(a, b)
    raise KeyError(op)


def mk_mod(a, b):
    if a.head == "const" and isinstance(a.args[0], str):
        ps = a.args[0].split("%s")
        vs = b.args if b.head == "tuple" else (b,)
        if "%" not in "".join(ps) and len(vs) == len(ps) - 1:
            return mk_str([x for i, p in enumerate(ps) for x in ([vs[i - 1]] if i else []) + [const(p)]])
        return node("strformat", a, b)
    if a.head in ("fstr", "fmt"):
        return node("strformat", a, b)
    x, y = (tm.num_val(a) if is_num(a) else None), (tm.num_val(b) if is_num(b) else None)
    if x is not None and y:
        return num(x % y)
    if y == 1 and tm.is_int(a):
        return num(0)
    if is_num(a) and x == 0:
        return num(0)
    if y is not None and y > 0 and y.denominator == 1 and tm.is_int(a):
        # drop multiples of the modulus
        d = {}
        for m, c in tm.poly(a).items():
            r = c % y if m else c % y
            if r:
                d[m] = r
        a = tm.from_poly(d)
        if is_num(a):
            return num(tm.num_val(a) % y)
    return node("mod", a, b)


tm._REB.update({"mod": mk_mod, "floordiv": lambda a, b: arith("//", a, b)})


def mk_matmul(a, b):
    if is_scalar(a) or is_scalar(b):
        return mul(a, b)
    return matmul(a, b)


def binop(interp, st, op, a, b, nd):
    vv = V()
    o = OPS[type(op)]
    for x, y, left in ((a, b, True), (b, a, False)):
        if isinstance(x, vv.Ref) and isinstance(st.heap.get(x.loc), vv.ObjCell):
            names = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "@": "matmul", "**": "pow", "%": "mod"}
            c = st.heap[x.loc].cls
            m = c.find("__%s%s__" % ("" if left else "r", names.get(o, "?")))[0] if c else None
            if m is not None:
                return interp.call(m.bind(x), [y], {}, st, nd)
    if isinstance(a, vv.Choice) and not isinstance(b, vv.Choice):
        return interp.merge_val(a.c, binop(interp, st, op, a.a, b, nd), binop(interp, st, op, a.b, b, nd), st, st, st)
    if o == "/" and isinstance(a, vv.Data) and a.term.head == "ext" and a.term.args[0] in ("pathlib.Path", "pathlib.PurePath"):
        return vv.Data(node("ext", *(a.term.args + (interp.T(b, st),))))
    la = isinstance(a, vv.Ref) and isinstance(st.heap.get(a.loc), vv.ListCell)
    lb = isinstance(b, vv.Ref) and isinstance(st.heap.get(b.loc), vv.ListCell)
    if o == "+" and (la or isinstance(a, vv.Tup)) and (lb or isinstance(b, vv.Tup)):
        sa, sb = as_seq(interp, st, a, nd), as_seq(interp, st, b, nd)
        if sa.items is not None and sb.items is not None:
            its = tuple(sa.items) + tuple(sb.items)
            return vv.Tup(its) if isinstance(a, vv.Tup) else interp.new_list(st, its)
        if sb.items is not None:
            t = interp.T(a, st)
            for x in sb.items:
                t = node("append", t, interp.T(x, st))
            return interp.new_list(st, term=t)
        return interp.new_list(st, term=node("listcat", interp.T(a, st), interp.T(b, st)))
    if o == "*" and (la or lb):
        l, k = (a, b) if la else (b, a)
        c = st.heap[l.loc]
        kt = interp.T(k, st)
        if not (isinstance(k, vv.Data) and not is_scalar(kt)):
            if c.items is not None and int_val(kt) is not None and len(c.items) * int_val(kt) <= 64:
                return interp.new_list(st, tuple(c.items) * int_val(kt))
            if c.items is not None and len(c.items) == 1:
                v = node("idx", "rep")
                return interp.new_list(st, term=mk_map(kt, tm.close(v, interp.T(c.items[0], st))))
    ta, tb = interp.T(a, st), interp.T(b, st)
    if o == "|" and ta.head == "dict" and tb.head == "dict":
        ca, cb = st.heap.get(getattr(a, "loc", None)), st.heap.get(getattr(b, "loc", None))
        if isinstance(ca, vv.DictCell) and isinstance(cb, vv.DictCell):
            return interp.new_dict(st, {**ca.items, **cb.items}, ca.open or cb.open)
    if o == "+" and (is_strterm(ta) or is_strterm(tb)):
        return vv.Data(mk_str([ta, tb]))
    if o == "%" and is_strterm(ta):
        r = mk_mod(ta, tb)
        return vv.Data(node("strmod", ta, tb) if r.head == "strformat" else r)
    if o in "&|^" and (tm.is_bool(ta) or tm.is_bool(tb)):
        x, y = tm.truth(ta), tm.truth(tb)
        r = and_(x, y) if o == "&" else or_(x, y) if o == "|" else or_(and_(x, not_(y)), and_(not_(x), y))
        return interp.data(r)
    if o in ("&", "|", "^", "<<", ">>"):
        return interp.data(node("bitop", o, ta, tb))
    ta, tb = listarr(ta), listarr(tb)
    if o in ("%", "/", "//") and is_num(tb) and tm.num_val(tb) == 0 and is_scalar(ta):
        interp.event("divzero", st, nd, term=ta)
    if o == "/" and not is_num(tb) and not is_scalar(tb):
        interp.event("div", st, nd, term=tb)
    return wrap(interp, arith(o, ta, tb))


def wrap(interp, t):
    """Data with a location for array-valued terms only"""
    return V().Data(t) if is_scalar(t) else interp.data(t)


def listarr(t):
    return t


def compare(interp, st, op, a, b, nd):
    vv = V()
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_op(interp, st, a, b)
        return r if isinstance(op, ast.Is) else not_(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = in_op(interp, st, a, b, nd)
        return r if isinstance(op, ast.In) else not_(r)
    o = CMPS[type(op)]
    for x in (a, b):
        if isinstance(x, vv.Choice):
            y = b if x is a else a
            f = (lambda p: compare(interp, st, op, p, b, nd)) if x is a else (lambda p: compare(interp, st, op, a, p, nd))
            return tm.ite_bool(x.c, f(x.a), f(x.b))
    if o in ("==", "!=") and isinstance(a, vv.Tup) and isinstance(b, vv.Tup):
        r = FALSE if len(a.items) != len(b.items) else and_(*[compare(interp, st, ast.Eq(), x, y, nd) for x, y in zip(a.items, b.items)])
        return r if o == "==" else not_(r)
    ta, tb = interp.T(a, st), interp.T(b, st)
    if o in ("==", "!="):
        for x, y in ((ta, tb), (tb, ta)):
            if y is TRUE and tm.is_bool(x):
                return x if o == "==" else not_(x)
            if y is FALSE and tm.is_bool(x):
                return not_(x) if o == "==" else x
        if ta.head == "tuple" and tb.head == "tuple":
            r = FALSE if len(ta.args) != len(tb.args) else and_(*[cmp_("==", x, y) for x, y in zip(ta.args, tb.args)])
            return r if o == "==" else not_(r)
    if ta.head == "const" and ta.args[0] in ("nan",) or tb.head == "const" and tb.args[0] in ("nan",):
        return node("bool", node("ext", "cmpnan", ta, tb))
    for x in (ta, tb):
        if x.head in ("list", "tuple", "shape", "fstr", "ext_obj", "dict", "obj", "fn") and o in ("==", "!="):
            if ta is tb:
                return TRUE if o == "==" else FALSE
            r = node("cmp", "==", node("pair", *sorted((ta, tb), key=lambda t: t.id)))
            return r if o == "==" else not_(r)
    return cmp_(o, numify(ta), numify(tb)) if not (ta.head == "const" or tb.head == "const") else cmp_(o, ta, tb)


def is_op(interp, st, a, b):
    vv = V()
    for x, y in ((a, b), (b, a)):
        if isinstance(x, vv.Choice):
            return tm.ite_bool(x.c, is_op(interp, st, x.a, y), is_op(interp, st, x.b, y))
    na = isinstance(a, vv.Data) and interp.T(a, st) is NONE
    nb = isinstance(b, vv.Data) and interp.T(b, st) is NONE
    if na and nb:
        return TRUE
    if na or nb:
        o = b if na else a
        if isinstance(o, vv.Data):
            return tm.isnone(interp.T(o, st))
        return FALSE
    if isinstance(a, vv.Ref) and isinstance(b, vv.Ref):
        return TRUE if a.loc == b.loc else FALSE
    if isinstance(a, vv.Data) and isinstance(b, vv.Data):
        ta, tb = interp.T(a, st), interp.T(b, st)
        if a.loc is not None and a.loc == b.loc:
            return TRUE
        for x, y in ((ta, tb), (tb, ta)):
            if y is TRUE and tm.is_bool(x):
                return x
            if y is FALSE and tm.is_bool(x):
                return not_(x)
            if y in (TRUE, FALSE) and x.head == "sym" and tm.prop(x, "boolean"):
                return tm.truth(x) if y is TRUE else not_(tm.truth(x))
        if ta.head == "const" and tb.head == "const":
            return TRUE if ta is tb else FALSE
    if isinstance(a, (vv.LibFn, vv.Cls, vv.Fn)) and isinstance(b, (vv.LibFn, vv.Cls, vv.Fn)):
        return TRUE if interp.T(a, st) is interp.T(b, st) else FALSE
    return node("bool", node("ext", "is", interp.T(a, st), interp.T(b, st)))


def in_op(interp, st, a, b, nd):
    vv = V()
    ta = interp.T(a, st)
    if isinstance(b, vv.Choice):
        return tm.ite_bool(b.c, in_op(interp, st, a, b.a, nd), in_op(interp, st, a, b.b, nd))
    items = None
    if isinstance(b, vv.Tup):
        items = b.items
    elif isinstance(b, vv.Ref):
        c = st.heap.get(b.loc)
        if isinstance(c, vv.ListCell):
            items = c.items
        elif isinstance(c, vv.DictCell):
            r = []
            for k, x in c.items.items():
                e = cmp_("==", ta, k)
                if isinstance(x, vv.Choice) and x.a is vv.UNBOUND:
                    e = and_(e, not_(x.c))
                elif isinstance(x, vv.Choice) and x.b is vv.UNBOUND:
                    e = and_(e, x.c)
                r.append(e)
            if c.open is not None and TRUE not in r:
                r.append(node("bool", node("ext", "in", ta, c.open)))
            return or_(*r)
    elif isinstance(b, vv.Seq):
        items = b.items
    if items is not None:
        return or_(*[compare(interp, st, ast.Eq(), a, x, nd) for x in items])
    tb = interp.T(b, st)
    if tb.head in ("list", "tuple"):
        return or_(*[cmp_("==", ta, x) for x in tb.args])
    if tb.head == "const" and ta.head == "const" and isinstance(tb.args[0], str) and isinstance(ta.args[0], str):
        return TRUE if ta.args[0] in tb.args[0] else FALSE
    return node("bool", node("ext", "in", ta, tb))


# ---------------------------------------------------------------- dtypes
def dtype_term(interp, st, v):
    vv = V()
    if v is None:
        return const("float")
    if isinstance(v, vv.Choice):
        return ite(v.c, dtype_term(interp, st, v.a), dtype_term(interp, st, v.b))
    if isinstance(v, vv.LibFn):
        return const(dtname(v.name))
    t = interp.T(v, st)
    return _dt(t)


def _dt(t):
    if t.head == "ite":
        return ite(t.args[0], _dt(t.args[1]), _dt(t.args[2]))
    if t is NONE:
        return const("float")
    if t.head == "const" and isinstance(t.args[0], str):
        return const(dtname(t.args[0]))
    if t.head == "fn":
        return const(dtname(t.args[0]))
    return t


def dtname(n):
    n = n.split(".")[-1]
    if n in ("float", "float64", "double", "float_", "f8", "d", "longdouble", "float128"):
        return "float"
    if n in ("complex", "complex128", "complex_", "cdouble", "c16", "D"):
        return "complex"
    if n in ("int", "int64", "int_", "intp", "i8", "int32", "uint64"):
        return "int"
    if n in ("bool", "bool_"):
        return "bool"
    return n


def dtype_of(t):
    if t.head == "full":
        return t.args[2]
    if t.head in ("store", "fstore"):
        return dtype_of(t.args[0])
    if t.head == "ite":
        a, b = dtype_of(t.args[1]), dtype_of(t.args[2])
        return a if a is b else ite(t.args[0], a, b)
    if t.props and "dtype" in t.props:
        return t.props["dtype"]
    return node("dtype", t)


def pytype(t):
    """python type name of a value term if known"""
    p = t.props or {}
    if "pytype" in p:
        return p["pytype"]
    if t is NONE:
        return "NoneType"
    if t in (TRUE, FALSE) or tm.is_bool(t):
        return "bool" if is_scalar(t) else None
    if t.head == "const":
        return type(t.args[0]).__name__
    if is_strterm(t):
        return "str"
    if t.head in ("tuple",):
        return "tuple"
    if t.head in ("list", "map", "append", "listcat"):
        return "list"
    if t.head == "dict":
        return "dict"
    if is_num(t):
        return "int" if tm.num_val(t).denominator == 1 else "float"
    if t.head == "poly":
        ts = {pytype(a) for _, m in t.args[0] for a, _ in m}
        if "ndarray" in ts:
            return "ndarray"
        if len(ts) == 1:
            r = ts.pop()
            if r == "int" and not tm.is_int(t):
                return "float"
            return r
        if ts <= {"int", "float"}:
            return "float"
        return None
    if ndim_of(t) not in (0, None) and t.head not in ("eye", "diag"):
        return "ndarray"
    if t.head in ("T", "conj", "abs", "real"):
        return pytype(t.args[0])
    if t.head in ("ite",):
        a, b = pytype(t.args[1]), pytype(t.args[2])
        return a if a == b else None
    return None


NUMERIC = {"int": {"int", "Number", "Real", "Integral", "object"}, "float": {"float", "Number", "Real", "object"},
           "complex": {"complex", "Number", "object"}, "bool": {"bool", "int", "Number", "object"},
           "ndarray": {"ndarray", "object"}, "str": {"str", "object"}, "list": {"list", "object", "Sequence"}, "tuple": {"tuple", "object", "Sequence"},
           "NoneType": {"NoneType", "object"}, "dict": {"dict", "object"}}


def isinstance_(interp, st, v, c, nd):
    vv = V()
    if isinstance(c, vv.Tup):
        return or_(*[isinstance_(interp, st, v, x, nd) for x in c.items])
    if isinstance(v, vv.Choice):
        return tm.ite_bool(v.c, isinstance_(interp, st, v.a, c, nd), isinstance_(interp, st, v.b, c, nd))
    if isinstance(v, vv.Ref):
        cell = st.heap.get(v.loc)
        if isinstance(cell, vv.ObjCell) and cell.cls is not None:
            if isinstance(c, vv.Cls):
                return TRUE if c in cell.cls.mro() else FALSE
            if isinstance(c, vv.LibFn):
                return TRUE if c.name == "builtins.object" or c in [b for k in cell.cls.mro() for b in k.bases] else FALSE
        if isinstance(c, vv.LibFn):
            nm = c.name.split(".")[-1]
            ty = "list" if isinstance(cell, vv.ListCell) else "dict" if isinstance(cell, vv.DictCell) else None
            if ty:
                return TRUE if nm in NUMERIC[ty] else FALSE
        return FALSE
    if isinstance(v, vv.Tup):
        return TRUE if isinstance(c, vv.LibFn) and c.name.split(".")[-1] in NUMERIC["tuple"] else FALSE
    t = interp.T(v, st)
    cn = c.name if isinstance(c, (vv.LibFn, vv.Cls)) else tm.show(interp.T(c, st))
    short = cn.split(".")[-1]

    def ask(x):
        if x.head == "ite":
            return tm.ite_bool(x.args[0], ask(x.args[1]), ask(x.args[2]))
        py = pytype(x)
        if py is not None:
            if py in NUMERIC:
                return TRUE if short in NUMERIC[py] else FALSE
            return TRUE if py == short else FALSE
        if tm.prop(x, "obj"):
            return node("bool", node("ext", "isinstance", x, const(short)))
        return node("bool", node("ext", "isinstance", x, const(short)))
    return ask(t)


# ---------------------------------------------------------------- attributes
ARR_ATTRS = {"T", "real", "imag", "shape", "size", "ndim", "dtype", "A", "H", "flat", "nnz"}
METHODS = set("""conj conjugate copy sum mean min max argmax argmin astype reshape flatten ravel dot transpose getH toarray todense
squeeze item tolist any all std var nonzero sort cumsum prod fill round clip repeat tobytes conjugate view trace diagonal take put
swapaxes swapaxes power multiply tocsr tocsc tocoo tobsr searchsorted ptp""".split())


def data_attr(interp, st, v, name, nd):
    vv = V()
    if not isinstance(v, vv.Data):
        return vv.LibFn(name, v)
    t = interp.T(v, st)
    if isinstance(t, Term) and (is_strterm(t) or t.head == "dict"):
        return vv.LibFn(name, v)
    if not tm.prop(t, "obj") and not (t.head in ("ext", "meth", "attr") and not arrayish(t)):
        if name == "T":
            return mk_view(interp, v, transpose(t), node("viewT"))
        if name == "H":
            return interp.data(transpose(conj(t)))
        if name == "real":
            return vv.Data(realpart(t), *fresh(interp, v))
        if name == "imag":
            return vv.Data(imagpart(t), *fresh(interp, v))
        if name == "shape":
            return vv.Data(mk_shape(t))
        if name == "size":
            return vv.Data(mk_size(t))
        if name == "ndim":
            return vv.Data(mk_ndim(t))
        if name == "dtype":
            return vv.Data(dtype_of(t))
        if name == "A":
            return v
        if name in METHODS or t.head in ("list", "append", "map"):
            return vv.LibFn(name, v)
    if name in ("shape", "size", "ndim", "T", "real", "imag", "dtype") and not tm.prop(t, "obj") and not tm.prop(t, "extobj"):
        if name == "shape":
            return vv.Data(mk_shape(t))
        if name == "T":
            return mk_view(interp, v, transpose(t), node("viewT"))
        if name == "real":
            return vv.Data(realpart(t), *fresh(interp, v))
        if name == "imag":
            return vv.Data(imagpart(t), *fresh(interp, v))
        if name == "size":
            return vv.Data(mk_size(t))
        if name == "ndim":
            return vv.Data(mk_ndim(t))
    if name in METHODS and not tm.prop(t, "obj"):
        return vv.LibFn(name, v)
    a = node("attr", t, name)
    pr = interp.attr_props.get((tm.show(t), name))
    if pr and a.props is None:
        a.props = dict(pr)
    key = ("attr", a.id)
    loc = interp.attr_locs.setdefault(a, None)
    if loc is None:
        loc = interp.attr_locs[a] = interp.newloc()
        own = [interp.roots[l] for l in v.al if l in interp.roots]
        if own:
            interp.roots[loc] = own[0] + "." + name
    return vv.Data(a, loc, frozenset([loc]))


def arrayish(t):
    return ndim_of(t) is not None or t.head == "getitem" or (t.head == "ext" and t.args[0] in ARRAY_EXT) or \
        (t.head == "meth" and (t.props or {}).get("vec"))


ARRAY_EXT = {"pyssht.forward", "pyssht.inverse", "pyssht.inverse_adjoint", "pyssht.forward_adjoint", "numpy.fft.fft", "numpy.fft.ifftshift",
             "numpy.fft.fftshift", "numpy.fft.ifft", "pys2let.synthesis_wav2px", "pys2let.analysis_adjoint_wav2px"}


def view_read(bt, ix):
    """what a view of an array with value bt shows"""
    if ix.head == "viewT":
        return transpose(bt)
    if ix.head == "viewflat":
        return mk_flat(bt)
    if ix.head == "viewshape":
        return mk_reshape(bt, ix.args[0])
    return mk_getitem(bt, ix)


def view_write(bt, ix, t):
    """value of the array after its view was given the value t"""
    if ix.head == "viewT":
        return transpose(t)
    if ix.head in ("viewflat", "viewshape"):
        return mk_reshape(t, mk_shape(bt)) if ndim_of(bt) != 1 else mk_flat(t)
    return mk_store(bt, ix, t)


def mk_view(interp, v, term, ix):
    """a view of the array v; of a view which need not be contiguous, a copy or a view"""
    vv = V()
    if isinstance(v, vv.Data) and v.loc is not None and (v.view is None or ix.head == "viewT" or v.view[1].head == "viewflat"):
        return interp.data(term, v.al, (v, ix))
    return interp.data(term, v.al if isinstance(v, vv.Data) else frozenset())


def fresh(interp, v):
    loc = interp.newloc()
    return loc, frozenset([loc]) | v.al


# ---------------------------------------------------------------- calls
SIGS = {
    "pyssht.forward": (["f", "L", "Spin", "Method", "Reality", "backend"], {"Spin": num(0), "Method": const("MW"), "Reality": FALSE, "backend": const("SSHT")}),
    "pyssht.inverse": (["f", "L", "Spin", "Method", "Reality", "backend"], {"Spin": num(0), "Method": const("MW"), "Reality": FALSE, "backend": const("SSHT")}),
    "pyssht.inverse_adjoint": (["f", "L", "Spin", "Method", "Reality", "backend"], {"Spin": num(0), "Method": const("MW"), "Reality": FALSE, "backend": const("SSHT")}),
    "pyssht.forward_adjoint": (["f", "L", "Spin", "Method", "Reality", "backend"], {"Spin": num(0), "Method": const("MW"), "Reality": FALSE, "backend": const("SSHT")}),
    "pyssht.sample_length": (["L", "Method"], {"Method": const("MW")}),
    "pyssht.sample_shape": (["L", "Method"], {"Method": const("MW")}),
    "pyssht.sample_positions": (["L", "Method", "Grid"], {"Method": const("MW"), "Grid": FALSE}),
    "pys2let.analysis_px2wav": (["f", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.synthesis_adjoint_px2wav": (["f", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.analysis_lm2lmn": (["f", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.synthesis_adjoint_lm2lmn": (["f", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.synthesis_wav2px": (["f_wav", "f_scal", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.analysis_adjoint_wav2px": (["f_wav", "f_scal", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.synthesis_lmn2lm": (["f_wav", "f_scal", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.analysis_adjoint_lmn2lm": (["f_wav", "f_scal", "B", "L", "J_min", "N", "spin", "upsample", "spin_lowered", "original_spin"], {"spin_lowered": FALSE, "original_spin": num(0)}),
    "pys2let.wavelet_tiling": (["B", "L", "N", "J_min", "spin", "original_spin"], {"original_spin": num(0)}),
    "pys2let.pys2let_j_max": (["B", "L", "J_min"], {}),
    "pys2let.mw_size": (["L"], {}),
    "healpy.map2alm": (["maps", "lmax"], {}),
    "healpy.alm2map": (["alms", "nside"], {}),
}
EXT_PROPS = {
    "pyssht.sample_length": dict(scalar=True, integer=True, pos=True, real=True),
    "pys2let.mw_size": dict(scalar=True, integer=True, pos=True, real=True),
    "pys2let.pys2let_j_max": dict(scalar=True, integer=True, real=True),
    "builtins.int": dict(scalar=True, integer=True, real=True),
}

RANDOM_OK = {"numpy.random.randn", "numpy.random.standard_normal", "numpy.random.normal", "numpy.random.rand", "numpy.random.random",
             "numpy.random.random_sample", "numpy.random.uniform", "numpy.random.laplace", "scipy.stats.laplace.rvs", "scipy.stats.norm.rvs",
             "scipy.stats.uniform.rvs", "numpy.random.randint", "numpy.random.ranf", "numpy.random.sample", "scipy.stats.laplace", "numpy.random.exponential",
             "numpy.random.multivariate_normal"}

COPYING = {"numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy"}
ALIASING = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.require", "numpy.asfarray", "numpy.asfortranarray",
            "numpy.asarray_chkfinite"}
ELEMENTWISE = {"exp": "exp", "log": "log", "log10": "log10", "sin": "sin", "cos": "cos", "tan": "tan", "arccos": "arccos", "arcsin": "arcsin",
               "isnan": "isnan", "isfinite": "isfinite", "floor": "floor", "ceil": "ceil", "rint": "rint", "round": "round", "around": "round", "log1p": "log1p", "expm1": "expm1",
               "sign": "sign", "log2": "log2", "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "arccosh": "arccosh", "arctan": "arctan"}


def kwnodes(interp, st, kwargs):
    return [node("kw", k, interp.T(v, st)) for k, v in sorted(kwargs.items(), key=lambda kv: kv[0])]


VIEWS = {"matplotlib.pyplot.get_cmap", "matplotlib.cm.get_cmap",        # an instance is handed back as it is
         "numpy.swapaxes", "numpy.moveaxis", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.diagonal", "numpy.broadcast_to", "numpy.expand_dims",
         "numpy.atleast_2d", "numpy.ndarray.view", "numpy.rollaxis", "numpy.nan_to_num_view", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
         "numpy.atleast_1d", "numpy.require", "numpy.asfarray", "numpy.asfortranarray", "numpy.asarray_chkfinite", "numpy.lib.stride_tricks.as_strided"}
INPLACE = {"numpy.random.shuffle", "random.shuffle", "numpy.put_along_axis", "heapq.heapify", "bisect.insort", "numpy.ndarray.sort", "numpy.ndarray.fill",
           "builtins.list.sort", "builtins.list.append", "builtins.delattr", "numpy.ndarray.resize", "numpy.ndarray.put"}


def ext(interp, st, name, args, kwargs, nd, al=frozenset()):
    ts = [interp.T(a, st) for a in args]
    if args and (name in INPLACE or (name.startswith("numpy.") and name.endswith(".at")) or
                 (name == "numpy.nan_to_num" and "copy" in kwargs and interp.T(kwargs["copy"], st) is FALSE)):
        interp.event("store", st, nd, target=args[0], base=ts[0], idx=SLICE_ALL, val=node("opaque", name), aug=False, al=interp.aliases(args[0], st))
        if isinstance(args[0], V().Data) and args[0].loc is not None:
            interp.set_mut(st, args[0], node("ext", name, *ts))
    if name in VIEWS and args:
        al = al | interp.aliases(args[0], st)
    if name in SIGS:
        names, dfl = SIGS[name]
        bound = dict(zip(names, ts))
        extra = {k: v for k, v in kwargs.items() if k not in names}
        for k, v in kwargs.items():
            if k in names:
                bound[k] = interp.T(v, st)
        for k, d in dfl.items():
            bound.setdefault(k, d)
        if not extra and all(n in bound for n in names) and len(args) <= len(names):
            r = node("ext", name, *[bound[n] for n in names])
        else:
            r = node("ext", name, *(ts + kwnodes(interp, st, kwargs)))
    else:
        r = node("ext", name, *(ts + kwnodes(interp, st, kwargs)))
    if name in EXT_PROPS and r.props is None:
        r.props = dict(EXT_PROPS[name])
    r = mw_sizes(r)
    if r.head == "ext" and name in ("pyssht.inverse", "pyssht.forward_adjoint") and len(r.args) == 7 and r.args[4] is MW:
        sh = node("tuple", r.args[2], sub(mul(num(2), r.args[2]), num(1)))
        r.props = dict(r.props or {}, ndim=2, shape=sh, len=sh.args[0])
    if r.head == "ext" and name in ("pyssht.forward", "pyssht.inverse_adjoint") and len(r.args) == 7 and r.args[4] is MW:
        r.props = dict(r.props or {}, ndim=1, vec=True, len=mul(r.args[2], r.args[2]))
    interp.event("call", st, nd, name=name, args=tuple(ts), kwargs={k: interp.T(v, st) for k, v in kwargs.items()}, vals=tuple(args), term=r)
    return interp.data(r, al)


def mw_sizes(r):
    """sizes of the MW sampling are known: (L, 2L-1) samples"""
    n, a = r.args[0], r.args[1:]
    if n == "pys2let.mw_size" and len(a) == 1 or n == "pyssht.sample_length" and len(a) == 2 and a[1] is MW:
        return sub(mul(num(2), mul(a[0], a[0])), a[0])
    if n == "pyssht.sample_shape" and len(a) == 2 and a[1] is MW:
        return node("tuple", a[0], sub(mul(num(2), a[0]), num(1)))
    return r


tm._REB["ext"] = lambda *a: mw_sizes(node("ext", *a)) if a[0] in ("pys2let.mw_size", "pyssht.sample_length", "pyssht.sample_shape") else node("ext", *a)


def argmap(names, args, kwargs):
    """positional/keyword normalisation; None when something does not fit"""
    out = dict(zip(names, args))
    if len(args) > len(names):
        return None
    for k, v in kwargs.items():
        if k not in names or k in out:
            return None
        out[k] = v
    return out


def draw(interp, st, kind, size, nd, name):
    uid = (interp.where(nd), getattr(nd, "col_offset", 0), tuple("%s@%s:%s" % (f.qual, getattr(s, "lineno", 0), getattr(s, "col_offset", 0)) for f, s in interp.callstack),
           tuple(interp.unroll))
    loops = tuple(l.id for l in interp.loopstack)
    key = (kind, uid, loops)
    n = interp.draw_ids.setdefault(key, len(interp.draw_ids))
    r = node(kind, size, n, loops)
    interp.draws[r] = key
    interp.event("draw", st, nd, name=name, draw=kind, size=size, term=r)
    return r


def size_term(interp, st, v):
    if v is None:
        return NONE
    t = interp.T(v, st)
    if t.head == "tuple" and len(t.args) == 1:
        return t.args[0]
    if t.head == "tuple" and not t.args:
        return NONE
    return t


def random_call(interp, st, name, args, kwargs, nd):
    vv = V()
    fn = name.split(".")[-1] if not name.endswith(".rvs") else name.split(".")[-2] + ".rvs"
    T = lambda v: interp.T(v, st)
    if fn in ("randn", "rand"):
        if kwargs:
            return None
        size = NONE if not args else (T(args[0]) if len(args) == 1 else node("tuple", *[T(a) for a in args]))
        return draw(interp, st, "normal" if fn == "randn" else "uniform", size, nd, name)
    if fn in ("standard_normal", "random", "random_sample", "ranf", "sample"):
        m = argmap(["size"], args, kwargs)
        if m is None:
            return None
        return draw(interp, st, "normal" if fn == "standard_normal" else "uniform", size_term(interp, st, m.get("size")), nd, name)
    if fn in ("normal", "laplace", "norm.rvs", "laplace.rvs", "uniform", "uniform.rvs"):
        names = ["loc", "scale", "size"] if fn != "uniform" else ["low", "high", "size"]
        if fn.endswith(".rvs"):
            names = names + ["random_state"]
        m = argmap(names, args, kwargs)
        if m is None or "random_state" in m:
            return None
        kind = {"normal": "normal", "norm.rvs": "normal", "laplace": "laplace", "laplace.rvs": "laplace"}.get(fn, "uniform")
        sz = size_term(interp, st, m.get("size"))
        d = draw(interp, st, kind, sz, nd, name)
        if fn == "uniform":
            lo = T(m["low"]) if "low" in m else num(0)
            hi = T(m["high"]) if "high" in m else num(1)
            return add(lo, mul(sub(hi, lo), d))
        loc = T(m["loc"]) if "loc" in m else num(0)
        sc = T(m["scale"]) if "scale" in m else num(1)
        return add(loc, mul(sc, d))
    return None


def axis_of(interp, st, kwargs, args, pos):
    v = kwargs.get("axis", args[pos] if len(args) > pos else None)
    return NONE if v is None else interp.T(v, st)


def mk_sum(t, axis):
    if t.head in ("list", "tuple") and axis is NONE:
        r = num(0)
        for x in t.args:
            r = add(r, x if is_scalar(x) else sumall(x))
        return r
    if axis is NONE:
        return sumall(t)
    if ndim_of(t) == 1 and int_val(axis) in (0, -1):
        return sumall(t)
    return node("sum", t, axis)


def mk_max(a, b):
    return ite(cmp_("<", a, b), b, a)


def mk_min(a, b):
    return ite(cmp_("<", b, a), b, a)


def mk_flat(t):
    if ndim_of(t) == 1:
        return t
    if t.head in ("row", "col"):
        return t.args[0]
    if t.head == "flat":
        return t
    if t.head == "reshape":
        return mk_flat(t.args[0])
    if t.head == "poly" and len(t.args[0]) == 1 and t.args[0][0][1]:
        # pull scalar factors out
        c, m = t.args[0][0]
        sc = [(a, e) for a, e in m if is_scalar(a)]
        rest = [(a, e) for a, e in m if not is_scalar(a)]
        if rest and (sc or c != 1):
            return mul(tm.from_poly(tm._mono(sc, c)), mk_flat(tm.from_poly({tuple(rest): Fr(1)})))
    if t.head == "poly" and all(any(not is_scalar(a) for a, _ in m) for _, m in t.args[0]) and len(t.args[0]) > 1 \
            and all(a.head in ("row", "col") or is_scalar(a) for _, m in t.args[0] for a, _ in m):
        r = num(0)
        for c, m in t.args[0]:
            r = add(r, mk_flat(tm.from_poly({m: c})))
        return r
    if is_scalar(t):
        return t
    if t.head == "ite":
        return ite(t.args[0], mk_flat(t.args[1]), mk_flat(t.args[2]))
    return node("flat", t)


def mk_reshape(t, shape):
    if is_num(shape) and tm.num_val(shape) == -1:
        return mk_flat(t)
    if shape.head in ("tuple", "list") and len(shape.args) == 1:
        if is_num(shape.args[0]) and tm.num_val(shape.args[0]) == -1:
            return mk_flat(t)
        return mk_flat(t)
    if shape.head == "list":
        shape = node("tuple", *shape.args)
    if t.head in ("flat", "reshape"):
        return mk_reshape(t.args[0], shape) if t.head == "reshape" else node("reshape", t, shape)
    if mk_shape(t) is shape:
        return t
    if t.head == "store" and t.args[0].head == "flat" and mk_shape(t.args[0].args[0]) is shape and t.args[1].head == "flat" and mk_shape(t.args[1].args[0]) is shape:
        return mk_store(t.args[0].args[0], t.args[1].args[0], t.args[2])       # by a mask
    if shape.head == "tuple" and len(shape.args) == 2 and ndim_of(t) == 1:
        r, k = shape.args
        if int_val(k) == 1 and (int_val(r) == -1 or r is mk_len(t)):
            return to_col(t)
        if int_val(r) == 1 and (int_val(k) == -1 or k is mk_len(t)):
            return transpose(to_col(t))
    return node("reshape", t, shape)


def mk_diag(v):
    """diag(v), a multiple of the identity for constant v"""
    if v.head == "poly" and len(v.args[0]) == 1:
        c, m = v.args[0][0]
        fs = [a for a, e in m if not is_scalar(a)]
        if len(fs) == 1 and fs[0].head == "full" and is_num(fs[0].args[1]) and is_scalar(fs[0].args[0]):
            k = num(c)
            for a, e in m:
                k = mul(k, power(a, num(e)) if a is not fs[0] else power(a.args[1], num(e)))
            return mul(k, node("eye", fs[0].args[0], fs[0].args[0]))
    if v.head == "full" and is_scalar(v.args[0]) and is_scalar(v.args[1]):
        return mul(v.args[1], node("eye", v.args[0], v.args[0]))
    return node("diag", v)


def reshape_order(t, shape, order):
    o = order.args[0] if order.head == "const" else None
    if o == "C" or o is None and order is NONE:
        return mk_reshape(t, shape)
    if o == "F" and shape.head in ("tuple", "list"):
        # first index fastest: lay the reversed shape out in C order and transpose
        if len(shape.args) == 1:
            return mk_flat(transpose(t))
        return transpose(mk_reshape(mk_flat(transpose(t)), node("tuple", *reversed(shape.args))))
    return node("ext", "reshape", t, shape, node("kw", "order", order))


def bool_ndim(c):
    """dimension of a condition on arrays, None if not known"""
    if c.head in ("and", "or", "not"):
        ds = [bool_ndim(x) for x in c.args]
        return None if None in ds else max(ds)
    if c.head == "cmp":
        ps = c.args[1].args if c.args[1].head == "pair" else (c.args[1],)
        ds = [ndim_of(x) for x in ps if isinstance(x, Term)]
        return None if None in ds else max(ds)
    if c.head == "bool":
        return ndim_of(c.args[0])
    return None


def bool_col(c):
    """a condition on a vector, as a condition on the rows of a matrix"""
    def col(p):
        out = num(0)
        for m, k in tm.poly(p).items():
            r = num(k)
            for a, e in m:
                r = mul(r, tm._pow(a if is_scalar(a) else node("col", a), e))
            out = add(out, r)
        return out
    if c.head in ("and", "or"):
        return (and_ if c.head == "and" else or_)(*[bool_col(x) for x in c.args])
    if c.head == "not":
        return tm.not_(bool_col(c.args[0]))
    if c.head == "cmp" and c.args[1].head != "pair":
        return tm.cmp_(c.args[0], col(c.args[1]), num(0))
    return None


tm._REB.update({"flat": mk_flat, "reshape": mk_reshape})


def mk_concat(ts):
    out = []
    ts = list(ts)
    if len(ts) == 2 and ts[0].head in ("array", "list") and len(ts[0].args) == 1 and is_num(ts[0].args[0]) and tm.num_val(ts[0].args[0]) == 0 and ts[1].head == "map":
        # 0 followed by prefix sums: the sums before each entry
        v = node("idx", "cc")
        if v.props is None:
            v.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        ps = [x for x in tm.subterms(tm.open_(ts[1].args[1], v)) if x.head == "psum" and x.args[0] is v]
        if len(ps) == 1 and ts[1] is mk_cumsum(node("map", ts[1].args[0], ps[0].args[1])):
            return node("map", add(ts[1].args[0], num(1)), tm.close(v, mk_psum(v, ps[0].args[1])))
    for t in ts:
        if t.head == "concat":
            out.extend(t.args)
        else:
            out.append(t)
    return out[0] if len(out) == 1 else node("concat", *out)


tm._REB["concat"] = lambda *a: mk_concat(a)


def seq_terms(interp, st, v, nd):
    """list of item terms of a python sequence, or None and its symbolic term"""
    s = as_seq(interp, st, v, nd)
    if s.items is not None:
        return [interp.T(x, st) for x in s.items], None
    return None, interp.T(v, st)


def int_literal(nd, i, name):
    """is that argument of the call written as an integer?"""
    if not isinstance(nd, ast.Call) or any(isinstance(x, ast.Starred) for x in nd.args):
        return False
    e = nd.args[i] if i < len(nd.args) else next((k.value for k in nd.keywords if k.arg == name), None)
    if isinstance(e, ast.UnaryOp):
        e = e.operand
    return isinstance(e, ast.Constant) and type(e.value) is int


def mk_full(shape, v, dt):
    if shape.head == "list":
        shape = node("tuple", *shape.args)
    if shape.head == "tuple" and len(shape.args) == 1:
        shape = shape.args[0]
    if is_num(v) and tm.num_val(v) in (0, 1):
        return node("full", shape, v, dt)
    if is_scalar(v) and not v.head == "const":
        return mul(v, node("full", shape, num(1), const("float")))
    return node("full", shape, v, dt)


def named_tuple(interp, st, args, kwargs, nd):
    vv = V()
    nm, fs = interp.T(args[0], st), interp.T(args[1], st)
    if fs.head == "const" and isinstance(fs.args[0], str):
        names = fs.args[0].replace(",", " ").split()
    elif fs.head in ("list", "tuple") and all(x.head == "const" and isinstance(x.args[0], str) for x in fs.args):
        names = [x.args[0] for x in fs.args]
    else:
        return None
    if kwargs:
        return None
    cls = vv.Cls(str(nm.args[0]) if nm.head == "const" else "namedtuple", None, None, [], {})
    cls.attrs["$tuple"] = True
    cls.attrs["$dataclass"] = [(n, None) for n in names]
    cls.attrs["$frame"] = None
    return cls


def call(interp, st, fn, args, kwargs, nd):
    vv = V()
    if fn.recv is not None:
        return call_method(interp, st, fn, args, kwargs, nd)
    name = fn.name
    mod, _, short = name.rpartition(".")
    T = lambda v: interp.T(v, st)
    r = None
    if mod == "builtins":
        r = call_builtin(interp, st, short, args, kwargs, nd)
        if r is not None:
            return r
        return ext(interp, st, name, args, kwargs, nd)
    if name == "object.__init__":
        return vv.Data(NONE)
    if name == "collections.namedtuple" and len(args) >= 2 and not set(kwargs) - {"defaults"}:
        return named_tuple(interp, st, args, kwargs, nd)
    if name in ("dataclasses.replace", "copy.replace") and len(args) == 1 and isinstance(args[0], vv.Ref) and isinstance(st.heap.get(args[0].loc), vv.ObjCell):
        c = st.heap[args[0].loc]
        return interp.new_obj(st, c.cls, dict(c.fields, **kwargs))
    if name in ("functools.partial",):
        return vv.Partial(args[0], list(args[1:]), dict(kwargs))
    if name in ("itertools.count",):
        lo = T(args[0]) if args else num(0)
        return vv.Seq(None, lambda k, s: vv.Data(add(lo, k)))
    if name in ("itertools.product",) and not kwargs:
        return product_seq(interp, st, args, nd)
    if name.startswith("numpy.random.") or name in RANDOM_OK:
        r = random_call(interp, st, name, args, kwargs, nd)
        if r is not None:
            return wrap(interp, r)
        return ext(interp, st, name, args, kwargs, nd)
    if name in ("copy.copy", "copy.deepcopy") and args:
        if isinstance(args[0], vv.Ref):
            return copy_ref(interp, st, args[0], name.endswith("deepcopy"))
        return interp.data(T(args[0])) if not ext_object(T(args[0])) else interp.data(node("ext", "copy", T(args[0])))
    if mod in ("numpy", "math", "cmath", "numpy.linalg", "scipy.linalg", "numpy.ma", "operator"):
        r = call_numpy(interp, st, mod, short, args, kwargs, nd)
        if r is not None:
            return r
    if mod in ("scipy.sparse", "scipy.sparse.linalg"):
        r = call_sparse(interp, st, short, args, kwargs, nd)
        if r is not None:
            return r
    return ext(interp, st, name, args, kwargs, nd)


def ext_object(t):
    return t.head in ("ext", "meth", "attr") and not arrayish(t)


def copy_ref(interp, st, ref, deep):
    vv = V()
    c = st.heap.get(ref.loc)
    f = (lambda x: copy_ref(interp, st, x, True) if deep and isinstance(x, vv.Ref) else (interp.data(interp.T(x, st)) if deep and isinstance(x, vv.Data) and x.loc else x))
    if isinstance(c, vv.ListCell):
        return interp.new_list(st, [f(x) for x in c.items]) if c.items is not None else interp.new_list(st, term=c.term)
    if isinstance(c, vv.DictCell):
        return interp.new_dict(st, {k: f(x) for k, x in c.items.items()}, c.open)
    if isinstance(c, vv.ObjCell):
        return interp.new_obj(st, c.cls, {k: f(x) for k, x in c.fields.items()})
    return ref


def product_seq(interp, st, args, nd):
    vv = V()
    seqs = [as_seq(interp, st, a, nd) for a in args]
    if all(s.items is not None for s in seqs):
        import itertools
        its = [vv.Tup(x) for x in itertools.product(*[s.items for s in seqs])]
        if len(its) <= 64:
            return vv.Seq(num(len(its)), None, items=tuple(its))
    interp.unsupported("itertools.product", nd)
    n = num(1)
    for s in seqs:
        n = mul(n, s.n)

    def item(k, s_):
        out = []
        rest = k
        for j, s in enumerate(seqs):
            m = num(1)
            for q in seqs[j + 1:]:
                m = mul(m, q.n)
            out.append(s.item(arith("//", rest, m) if j < len(seqs) - 1 else arith("%", rest, s.n), s_))
        return vv.Tup(out)
    return vv.Seq(n, item)


def call_builtin(interp, st, f, args, kwargs, nd):
    vv = V()
    T = lambda v: interp.T(v, st)
    D = vv.Data
    if f == "len":
        a = args[0]
        if isinstance(a, vv.Tup):
            return D(num(len(a.items)))
        if isinstance(a, vv.Seq):
            return D(a.n)
        if isinstance(a, vv.Ref):
            c = st.heap.get(a.loc)
            if isinstance(c, vv.ListCell):
                return D(num(len(c.items))) if c.items is not None else D(mk_len(c.term))
            if isinstance(c, vv.DictCell) and c.open is None:
                return D(num(len(c.items)))
            if isinstance(c, vv.ObjCell) and c.cls is not None and c.cls.find("__len__")[0] is not None:
                return interp.call(c.cls.find("__len__")[0].bind(a), [], {}, st, nd)
        return D(mk_len(T(a)))
    if f == "range":
        ts = [T(a) for a in args]
        lo, hi, s = (num(0), ts[0], num(1)) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else num(1))
        return mk_range(interp, lo, hi, s)
    if f == "enumerate":
        seq = as_seq(interp, st, args[0], nd)
        start = T(args[1]) if len(args) > 1 else (T(kwargs["start"]) if "start" in kwargs else num(0))
        items = None
        if seq.items is not None:
            items = tuple(vv.Tup([D(add(start, num(i))), x]) for i, x in enumerate(seq.items))
        return vv.Seq(seq.n, lambda k, s: vv.Tup([D(add(start, k)), seq.item(k, s)]), items=items)
    if f == "zip":
        seqs = [as_seq(interp, st, a, nd) for a in args]
        if seqs and all(s.items is not None for s in seqs):
            its = tuple(vv.Tup(x) for x in zip(*[s.items for s in seqs]))
            return vv.Seq(num(len(its)), None, items=its)
        n = None
        for s in seqs:
            if s.n is None:
                continue
            if n is None or (n is not s.n and is_num(sub(n, s.n)) and tm.num_val(sub(n, s.n)) > 0):
                n = s.n
        for s in seqs:
            if s.items is not None and s.item is None:
                return None
        return vv.Seq(n, lambda k, s_: vv.Tup([s.item(k, s_) for s in seqs]))
    if f == "reversed":
        seq = as_seq(interp, st, args[0], nd)
        if seq.items is not None:
            return vv.Seq(seq.n, None, items=tuple(reversed(seq.items)))
        return vv.Seq(seq.n, lambda k, s: seq.item(sub(sub(seq.n, num(1)), k), s))
    if f == "map" and len(args) == 2:
        seq = as_seq(interp, st, args[1], nd)
        if seq.items is not None:
            return vv.Seq(seq.n, None, items=tuple(interp.call(args[0], [x], {}, st, nd) for x in seq.items))
        return vv.Seq(seq.n, lambda k, s: interp.call(args[0], [seq.item(k, s)], {}, s, nd))
    if f == "print":
        interp.event("call", st, nd, name="builtins.print", args=tuple(T(a) for a in args), kwargs={k: T(v) for k, v in kwargs.items()}, vals=args, term=NONE)
        return D(NONE)
    if f in ("int", "float", "complex", "bool", "str", "round"):
        if not args:
            return D({"int": num(0), "float": num(0), "complex": num(0), "bool": FALSE, "str": const("")}.get(f, num(0)))
        t = T(args[0])
        if f == "bool":
            return D(interp.truth(args[0], st))
        t = numify(t)
        if f == "int":
            if tm.is_int(t):
                return D(t)
            if is_num(t):
                return D(num(int(tm.num_val(t))))
            return D(castnode("int", t))
        if f == "float":
            return D(t if tm.is_real(t) else castnode("float", t))
        if f == "complex":
            return D(t if len(args) == 1 else add(t, mul(I, T(args[1]))))
        if f == "str":
            return D(mk_str([t]) if is_strterm(t) else node("fstr", t))
        return D(node("round", *[T(a) for a in args]))
    if f == "abs":
        return wrap(interp, absv(numify(T(args[0]))))
    if f == "sum":
        s = as_seq(interp, st, args[0], nd)
        if s.items is not None:
            r = T(args[1]) if len(args) > 1 else num(0)
            for x in s.items:
                r = add(r, T(x))
            return wrap(interp, r)
        t = T(args[0])
        if t.head == "map":
            return wrap(interp, mk_sum_map(t))
        return wrap(interp, mk_sum(t, NONE))
    if f in ("max", "min"):
        if "key" in kwargs:
            return None
        its = None
        if len(args) == 1:
            s = as_seq(interp, st, args[0], nd)
            if s.items is not None:
                its = [T(x) for x in s.items]
        else:
            its = [T(a) for a in args]
        if its:
            r = its[0]
            for x in its[1:]:
                r = mk_max(r, x) if f == "max" else mk_min(r, x)
            return D(r)
        t = T(args[0])
        return D(scal(node("amax" if f == "max" else "amin", t)))
    if f == "isinstance":
        return D(isinstance_(interp, st, args[0], args[1], nd))
    if f == "issubclass":
        if isinstance(args[0], vv.Cls) and isinstance(args[1], vv.Cls):
            return D(TRUE if args[1] in args[0].mro() else FALSE)
        return None
    if f == "hasattr":
        return D(hasattr_(interp, st, args[0], T(args[1])))
    if f == "getattr":
        nm = T(args[1])
        if nm.head != "const":
            interp.unsupported("getattr with a computed name", nd)
            return interp.data(node("opaque", "getattr", interp.where(nd)))
        if len(args) > 2:
            c = hasattr_(interp, st, args[0], nm)
            if c is FALSE:
                return args[2]
            if c is not TRUE:
                return interp.choose(c, interp.getattr_(quiet(args[0]), nm.args[0], st, nd), args[2], st)
        return interp.getattr_(args[0], nm.args[0], st, nd)
    if f == "setattr":
        nm = T(args[1])
        if nm.head != "const":
            interp.unsupported("setattr with a computed name", nd)
            interp.event("setattr", st, nd, target=args[0], name=None, val=args[2], al=interp.aliases(args[0], st), term=T(args[2]))
            return D(NONE)
        interp.setattr_(args[0], nm.args[0], args[2], st, nd)
        return D(NONE)
    if f == "vars" and args:
        return interp.getattr_(args[0], "__dict__", st, nd)
    if f == "callable":
        return D(TRUE if isinstance(args[0], (vv.Fn, vv.LibFn, vv.Cls, vv.Partial)) else node("bool", node("ext", "callable", T(args[0]))))
    if f in ("list", "tuple", "set", "frozenset"):
        if not args:
            return vv.Tup([]) if f == "tuple" else interp.new_list(st, [])
        s = as_seq(interp, st, args[0], nd)
        if s.items is not None:
            return vv.Tup(s.items) if f == "tuple" else interp.new_list(st, s.items)
        return interp.new_list(st, term=T(s))
    if f == "dict":
        its = {}
        op = None
        if args:
            c = st.heap.get(args[0].loc) if isinstance(args[0], vv.Ref) else None
            if isinstance(c, vv.DictCell):
                its.update(c.items)
                op = c.open
            else:
                s = as_seq(interp, st, args[0], nd)
                if s.items is not None and all(isinstance(x, vv.Tup) and len(x.items) == 2 for x in s.items):
                    for x in s.items:
                        its[T(x.items[0])] = x.items[1]
                else:
                    op = T(args[0])
        for k, v in kwargs.items():
            its[const(k)] = v
        return interp.new_dict(st, its, op)
    if f == "type" and len(args) == 1:
        a = args[0]
        if isinstance(a, vv.Ref) and isinstance(st.heap.get(a.loc), vv.ObjCell):
            return st.heap[a.loc].cls
        py = pytype(T(a))
        if py is not None:
            return vv.LibFn(("numpy." if py == "ndarray" else "builtins.") + py)
        return interp.data(node("ext", "type", T(a)))
    if f == "pow":
        return wrap(interp, power(T(args[0]), T(args[1])))
    if f == "divmod":
        return vv.Tup([D(arith("//", T(args[0]), T(args[1]))), D(arith("%", T(args[0]), T(args[1])))])
    if f in ("any", "all"):
        s = as_seq(interp, st, args[0], nd)
        if s.items is not None:
            cs = [interp.truth(x, st) for x in s.items]
            return D(or_(*cs) if f == "any" else and_(*cs))
        t = T(args[0])
        return D(mk_any(t) if f == "any" else not_(mk_any(not_(tm.truth(t)))) if tm.is_bool(t) else mk_all(t))
    if f == "slice":
        ts = [T(a) for a in args]
        lo, hi, stp = (NONE, ts[0], NONE) if len(ts) == 1 else (ts + [NONE])[:3]
        return D(mk_slice(lo, hi, stp))
    if f == "iter":
        return as_seq(interp, st, args[0], nd)
    if f == "sorted":
        s = as_seq(interp, st, args[0], nd)
        if s.items is not None and not kwargs and all(T(x).head == "const" for x in s.items):
            return interp.new_list(st, [D(const(x)) for x in sorted(T(y).args[0] for y in s.items)])
        return interp.data(node("sort", T(args[0]), *kwnodes(interp, st, kwargs)))
    if f == "super":
        return None
    return None


def quiet(v):
    return v


def scal(t):
    if t.props is None:
        t.props = {"scalar": True}
    return t


def mk_any(t):
    if t.head == "isnan":
        return node("bool", scal(node("any", t)))
    if is_scalar(t):
        return tm.truth(t)
    return node("bool", scal(node("any", t)))


def mk_all(t):
    return node("bool", scal(node("all", t)))


def castnode(kind, t):
    if kind == "int" and tm.is_int(t) or kind == "float" and tm.is_real(t):
        return t
    r = node("cast", kind, t)
    if r.props is None:
        p = {}
        if is_scalar(t):
            p["scalar"] = True
        if kind in ("int", "float", "bool"):
            p["real"] = True
        if kind == "int":
            p["integer"] = True
        if ndim_of(t) is not None:
            p["ndim"] = ndim_of(t)
        if is_vec(t):
            p["vec"] = True
        r.props = p
    return r


def mk_repeat(v, counts):
    if is_scalar(counts):
        return mk_flat(mk_outer(v, mk_full(counts, num(1), const("float"))))
    n = mk_len(v) if ndim_of(v) == 1 else None
    if n is not None and ndim_of(counts) == 1:
        k = node("idx", "rp")
        if k.props is None:
            k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        from .arrays import entry, NoPoint
        try:
            e, m = entry(v, [k])[0], entry(counts, [k])[0]
            return node("concatmap", n, tm.close(k, mk_full(m, e, const("float"))))
        except NoPoint:
            pass
    return node("opaque", "repeat", v, counts)


def mk_sum_map(t):
    return mk_psum(*t.args)


POINTWISE = {"abs", "conj", "real", "imag", "exp", "log", "log10", "sin", "cos", "tan", "isnan", "sign", "pow", "floor", "ceil"}


def unpoint(t, bv, n):
    """the array whose entry k is t, for a body t that is an elementwise expression in entries x[k] of vectors of length n; None otherwise"""
    hit = [False]

    def go(x):
        if x is bv or x.head == "bv":
            raise ValueError
        if x.head == "getitem" and x.args[1] is bv and bv not in tm.subterms(x.args[0]):
            a = x.args[0]
            ln = mk_len(a)
            if ndim_of(a) == 1 and ln is not None and (ln is n or tm.same(ln, n)):
                hit[0] = True
                return a
            if ndim_of(a) == 1 and a.head in ("concat", "concatmap", "sym", "apply", "ext"):
                return a
            raise ValueError
        if bv not in tm.subterms(x):
            if not is_scalar(x):
                raise ValueError
            return x
        if x.head == "poly":
            out = num(0)
            for c, m in x.args[0]:
                y = num(c)
                for a, e in m:
                    y = mul(y, power(go(a), num(e)))
                out = add(out, y)
            return out
        if x.head in POINTWISE:
            return tm.rebuild(x.head, tuple(go(a) if isinstance(a, Term) else a for a in x.args))
        raise ValueError
    try:
        r = go(t)
    except ValueError:
        return None
    return r if hit[0] else None


def mk_cumsum(t):
    """prefix sums of a comprehension"""
    v = node("idx", "cs")
    if v.props is None:
        v.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
    if t.head == "map" and (is_scalar(t.args[1].args[1]) or ndim_of(t) == 1):
        return node("map", t.args[0], tm.close(v, mk_psum(add(v, num(1)), t.args[1])))
    return node("cumsum", t)


def mk_psum(n, lam):
    if n is not None and int_val(n) == 0:
        return num(0)
    f = faul(n, lam)
    if f is not None:
        return f
    if n is not None and n.head == "poly":
        # sum_{k <= m} = sum_{k < m} + term m
        c = dict((m, c) for c, m in n.args[0]).get((), 0)
        if c.denominator == 1 and c > 0 and c <= 4 and tm.is_nonneg(sub(n, num(c))) and tm.is_int(n):
            m = sub(n, num(1))
            return add(mk_psum(m, lam), tm.open_(lam, m))
    v = unpoint(lam.args[1], node("bv", lam.args[0]), n) if n is not None else None
    if v is not None:
        return sumall(v)
    return scal(node("psum", n, lam))


tm._REB["psum"] = mk_psum


def faul(n, lam):
    """closed form of sum_{k<n} p(k) for a polynomial body of degree <= 3 in k, else None"""
    if n is None:
        return None
    bv = node("bv", lam.args[0])
    out = num(0)
    for c, m in tm._items(lam.args[1]) if lam.args[1].head == "poly" else tm._items(lam.args[1]):
        e = 0
        rest = []
        for a, x in m:
            if a is bv:
                if x.denominator != 1 or x < 0 or x > 3:
                    return None
                e = int(x)
            elif bv in tm.subterms(a):
                return None
            else:
                rest.append((a, x))
        if not all(is_scalar(a) for a, _ in rest):
            return None
        if e == 0:
            s = n
        elif e == 1:
            s = div(mul(n, sub(n, num(1))), num(2))
        elif e == 2:
            s = div(mul(mul(n, sub(n, num(1))), sub(mul(num(2), n), num(1))), num(6))
        else:
            s = power(div(mul(n, sub(n, num(1))), num(2)), num(2))
        out = add(out, mul(tm.from_poly(tm._mono(rest, c)), s))
    return out


def hasattr_(interp, st, v, nm):
    vv = V()
    if isinstance(v, vv.Choice):
        return tm.ite_bool(v.c, hasattr_(interp, st, v.a, nm), hasattr_(interp, st, v.b, nm))
    if nm.head != "const":
        return node("bool", node("ext", "hasattr", interp.T(v, st), nm))
    n = nm.args[0]
    if isinstance(v, vv.Ref) and isinstance(st.heap.get(v.loc), vv.ObjCell):
        c = st.heap[v.loc]
        x = c.fields.get(n)
        if x is None:
            return TRUE if c.cls is not None and (c.cls.find(n)[0] is not None) else FALSE
        if x is vv.UNBOUND:
            return TRUE if c.cls is not None and c.cls.find(n)[0] is not None else FALSE
        if isinstance(x, vv.Choice):
            if x.a is vv.UNBOUND:
                return not_(x.c)
            if x.b is vv.UNBOUND:
                return x.c
        return TRUE
    if isinstance(v, vv.Data):
        return node("bool", node("ext", "hasattr", interp.T(v, st), nm))
    return TRUE if isinstance(v, vv.Cls) and v.find(n)[0] is not None else node("bool", node("ext", "hasattr", interp.T(v, st), nm))


def call_numpy(interp, st, mod, f, args, kwargs, nd):
    vv = V()
    T = lambda v: interp.T(v, st)
    W = lambda t, al=frozenset(): (vv.Data(t) if is_scalar(t) else interp.data(t, al))
    a0 = T(args[0]) if args else None
    n0 = numify(a0) if a0 is not None else None
    kw = dict(kwargs)
    if "out" in kw and f not in ("zeros",):
        interp.event("store", st, nd, target=kw["out"], base=NONE, idx=SLICE_ALL, val=node("opaque", "out"), aug=False, al=interp.aliases(kw["out"], st))
        if isinstance(kw["out"], vv.Data):
            k2 = dict(kw)
            k2.pop("out")
            w = tm.truth(T(k2.pop("where"))) if "where" in k2 else TRUE
            n_ev = len(interp.events)
            r = call_numpy(interp, st, mod, f, args, k2, nd)
            if w is not TRUE:
                interp.events[n_ev:] = [e for e in interp.events[n_ev:] if e.kind not in ("div", "divzero")]
            if r is not None and kw["out"].loc is not None:
                interp.set_mut(st, kw["out"], ite(w, T(r), T(kw["out"])))
                return kw["out"]
            if r is not None:
                return W(ite(w, T(r), T(kw["out"])))
        interp.unsupported("out= argument", nd)
        return None
    one = len(args) == 1 and not kw
    two = len(args) == 2 and not kw
    b0 = T(args[1]) if len(args) > 1 else None
    nb = numify(b0) if b0 is not None else None
    if mod in ("numpy.linalg", "scipy.linalg"):
        if f == "inv" and one:
            return interp.data(node("inv", a0))
        if f == "norm" and one:
            return vv.Data(power(sumall(mul(a0, conj(a0))), HALF))
        if f == "norm" and args and ndim_of(a0) == 1 and (len(args) == 2 and not kw or len(args) == 1 and set(kw) == {"ord"}):
            o = T(args[1]) if len(args) == 2 else T(kw["ord"])
            if is_num(o) and tm.num_val(o) == 1:
                return vv.Data(sumall(tm.absv(a0)))
            if o is NONE or is_num(o) and tm.num_val(o) == 2:
                return vv.Data(power(sumall(mul(a0, conj(a0))), HALF))
        return None
    if mod == "operator":
        if f in ("add", "sub", "mul", "truediv", "pow", "mod", "matmul") and two:
            return binop(interp, st, {"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "truediv": ast.Div(), "pow": ast.Pow(), "mod": ast.Mod(), "matmul": ast.MatMult()}[f], args[0], args[1], nd)
        return None
    if f == "sqrt" and one:
        return W(power(n0, HALF))
    if f in ELEMENTWISE and one:
        h = ELEMENTWISE[f]
        if h == "exp" and is_num(n0) and tm.num_val(n0) == 0:
            return W(num(1))
        if h == "log" and is_num(n0) and tm.num_val(n0) == 1:
            return W(num(0))
        if h in ("isnan", "isfinite"):
            return interp.data(node(h, n0))
        return W(mk_fun(h, n0))
    if f in ("abs", "absolute", "fabs") and one:
        return W(absv(n0))
    if f == "hypot" and two:
        return W(power(add(mul(n0, conj(n0)), mul(nb, conj(nb))), HALF))
    if f == "square" and one:
        return W(power(n0, num(2)))
    if f in ("degrees", "rad2deg") and one:
        return W(div(mul(n0, num(180)), PI))
    if f in ("radians", "deg2rad") and one:
        return W(div(mul(n0, PI), num(180)))
    if f in ("real", "real_if_close") and one:
        if f == "real_if_close":
            return None
        return W(realpart(n0), interp.aliases(args[0], st))
    if f == "imag" and one:
        return W(imagpart(n0), interp.aliases(args[0], st))
    if f in ("conj", "conjugate") and one:
        return W(conj(n0))
    if f == "angle" and one:
        return W(node("angle", n0))
    if f in ("add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "remainder", "floor_divide", "matmul", "float_power") and two:
        o = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "float_power": "**", "mod": "%", "remainder": "%",
             "floor_divide": "//", "matmul": "@"}[f]
        if o == "/" and not is_num(nb) and not is_scalar(nb):
            interp.event("div", st, nd, term=nb)
        return W(arith(o, n0, nb))
    if f == "pow" and two:
        return W(power(n0, nb))
    if f == "negative" and one:
        return W(neg(n0))
    if f == "reciprocal" and one:
        return W(power(n0, num(-1)))
    if f == "dot" and two:
        return W(mk_matmul(n0, nb))
    if f == "vdot" and two:
        return W(sumall(mul(conj(n0), nb)))
    if f == "inner" and two:
        return W(sumall(mul(n0, nb)))
    if f == "outer" and two:
        return interp.data(mk_outer(mk_flat(n0), mk_flat(nb)))
    if f in ("sum", "nansum"):
        if set(kw) <= {"axis"} and len(args) <= 2 and f == "sum":
            lst = seq_terms(interp, st, args[0], nd)[0] if isinstance(args[0], (vv.Ref, vv.Tup)) else None
            if lst is not None:
                r = num(0)
                for x in lst:
                    r = add(r, numify(x))
                return W(r)
            if n0.head == "map" and axis_of(interp, st, kw, args, 1) is NONE:
                return W(mk_sum_map(n0))
            return W(mk_sum(n0, axis_of(interp, st, kw, args, 1)))
        return None
    if f == "pad" and two and set(kw) <= {"mode", "constant_values"} and ndim_of(n0) == 1 and T(kw.get("mode", vv.Data(const("constant")))) is const("constant") \
            and T(kw.get("constant_values", vv.Data(num(0)))) is num(0):
        w = b0
        if w.head in ("list", "tuple", "array") and len(w.args) == 1 and w.args[0].head in ("list", "tuple", "array"):
            w = w.args[0]
        if w.head in ("list", "tuple", "array") and len(w.args) == 2:
            ps = [node("full", w.args[0], num(0), const("float")), n0, node("full", w.args[1], num(0), const("float"))]
            return interp.data(mk_concat([x for x in ps if x is n0 or x.args[0] is not num(0)]))
    if f == "cumsum":
        its, _ = seq_terms(interp, st, args[0], nd) if one else (None, None)
        if its is not None and len(its) <= 64 and all(is_scalar(x) for x in its):
            acc, out = num(0), []
            for x in its:
                acc = add(acc, numify(x))
                out.append(acc)
            return interp.data(node("array", *out))
        return interp.data(mk_cumsum(n0) if not kw else node("cumsum", n0, *kwnodes(interp, st, kw)))
    if f == "mean" and one:
        return W(mk_mean(n0))
    if f in ("max", "amax", "min", "amin") and one:
        n0 = entries_of(n0)
    if f in ("max", "amax", "min", "amin") and one:
        if isinstance(args[0], (vv.Ref, vv.Tup)):
            its, _ = seq_terms(interp, st, args[0], nd)
            if its and all(is_scalar(x) for x in its):
                r = its[0]
                for x in its[1:]:
                    r = mk_max(r, x) if "max" in f else mk_min(r, x)
                return W(r)
        return W(scal(node("amax" if "max" in f else "amin", n0)))
    if f == "count_nonzero" and one:
        return vv.Data(mk_count(a0))
    if f in ("argmax", "argmin", "mean", "max", "amax", "min", "amin") and args and set(kw) <= {"axis"} and (kw or len(args) == 2):
        r = mk_red({"max": "amax", "min": "amin"}.get(f, f), n0, axis_of(interp, st, kw, args, 1))
        if r is not None:
            return W(r) if is_scalar(r) else interp.data(r)
    if f in ("argmax", "argmin") and one:
        return W(argext(f, n0))
    if f in ("maximum", "fmax") and two:
        return W(mk_max(n0, nb))
    if f in ("minimum", "fmin") and two:
        return W(mk_min(n0, nb))
    if f == "clip":
        m = argmap(["a", "a_min", "a_max"], args, {{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()})
        if m and "a" in m:
            lo, hi = T(m["a_min"]) if "a_min" in m else NONE, T(m["a_max"]) if "a_max" in m else NONE
            t = T(m["a"])
            if lo is not NONE:
                t = mk_max(t, lo)
            if hi is not NONE:
                t = mk_min(t, hi)
            return W(t)
        return None
    if f == "where":
        if len(args) == 3 and not kw:
            c = tm.truth(a0)
            x, y = numify(T(args[1])), numify(T(args[2]))
            return W(ite(c, x, y))
        if one:
            return interp.data(mk_nonzero(a0))
    if f in ("nonzero",) and one:
        return interp.data(mk_nonzero(a0))
    if f == "extract" and two:
        return interp.data(mk_getitem(mk_flat(b0), mk_flat(a0)) if not tm.is_bool(a0) else mk_getitem(b0, a0))
    if f == "argwhere" and one and (bool_ndim(a0) if tm.is_bool(a0) else ndim_of(a0)) == 1:
        return W(node("col", mk_getitem(mk_nonzero(a0), num(0))))
    if f == "flatnonzero" and one:
        return interp.data(mk_getitem(mk_nonzero(mk_flat(a0) if not tm.is_bool(a0) else a0), num(0)))
    if f in ("logical_and", "logical_or") and two:
        x, y = tm.truth(a0), tm.truth(b0)
        return W(and_(x, y) if f == "logical_and" else or_(x, y))
    if f == "logical_not" and one:
        return W(not_(tm.truth(a0)))
    if f in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal") and two:
        o = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[f]
        return W(cmp_(o, n0, nb))
    if f in ("zeros", "ones", "empty", "full"):
        names = {"full": ["shape", "fill_value", "dtype", "order"]}.get(f, ["shape", "dtype", "order"])
        m = argmap(names, args, kw)
        if m is None:
            return None
        dt = dtype_term(interp, st, m.get("dtype"))
        v = {"zeros": num(0), "ones": num(1), "empty": node("opaque", "empty")}.get(f)
        if f == "full":
            v = T(m["fill_value"])
            if m.get("dtype") is None:
                dt = const("bool") if v in (TRUE, FALSE) else const("int") if int_literal(nd, 1, "fill_value") else dt
            v = numify(v)
        return interp.data(mk_full(T(m["shape"]), v, dt))
    if f in ("zeros_like", "ones_like", "empty_like", "full_like"):
        m = argmap(["a", "fill_value", "dtype"] if f == "full_like" else ["a", "dtype"], args, kw)
        if m is None:
            return None
        dt = dtype_term(interp, st, m["dtype"]) if "dtype" in m else dtype_of(T(m["a"]))
        v = {"zeros_like": num(0), "ones_like": num(1), "empty_like": node("opaque", "empty")}.get(f)
        if f == "full_like":
            v = T(m["fill_value"])
        return interp.data(mk_full(mk_shape(T(m["a"])), v, dt))
    if f in ("array", "copy", "asarray", "ascontiguousarray", "asanyarray", "atleast_1d", "require", "asfarray"):
        m = argmap(["a", "dtype", "copy", "order", "ndmin"], args, kw)
        if m is None:
            return None
        src = m["a"]
        t = T(src)
        if isinstance(src, vv.Ref):
            t = arr_of(t)
        if "dtype" in m:
            dt = dtype_term(interp, st, m["dtype"])
            t = cast_to(t, dt)
        if isinstance(src, vv.Ref):
            return interp.data(t)
        cp = f in ("array", "copy") and not ("copy" in m and T(m["copy"]) is FALSE)
        if cp or not isinstance(src, vv.Data) or t is not T(src):
            keep = src.al if not cp and isinstance(src, vv.Data) else frozenset()
            return interp.data(arr_of(t), keep) if not is_scalar(t) or f in ("array", "asarray") else W(t)
        return src
    if f == "astype" and two:
        return W(cast_to(n0, dtype_term(interp, st, args[1])))
    if f in ("float64", "float_", "double"):
        return W(n0)
    if f in ("complex128", "complex_"):
        return W(cast_to(n0, const("complex")))
    if f in ("int64", "intp", "int_") and one:
        return W(n0 if tm.is_int(n0) else castnode("int", n0))
    if f in ("concatenate", "hstack", "append"):
        if f == "append":
            if not two:
                return None
            x = arr_of(b0)
            its = [arr_of(a0)]
            if b0.head in ("list", "tuple"):
                its.append(node("array", *b0.args) if True else x)
            else:
                its.append(x if not is_scalar(b0) else node("array", b0))
            return interp.data(mk_concat(its))
        if not one and not (set(kw) <= {"axis"} and int_val(T(kw.get("axis", vv.Data(num(0))))) == 0):
            return None
        its, t = seq_terms(interp, st, args[0], nd)
        if its is not None:
            return interp.data(mk_concat([arr_of(x) for x in its]))
        ps = cat_list(t)
        if ps:
            return interp.data(mk_concat(ps) if len(ps) > 1 else ps[0])
        return interp.data(node("concatseq", t))
    if f in ("stack", "column_stack") and len(args) == 1 and set(kw) <= {"axis"}:
        ax = int_val(T(kw["axis"])) if "axis" in kw else (0 if f == "stack" else 1)
        its, t = seq_terms(interp, st, args[0], nd)
        if ax in (1, -1):
            if its is not None and all(ndim_of(x) == 1 for x in its):
                return interp.data(transpose(node("vstack", *its)))
            if its is None and t.head == "map" and ndim_of(t) == 2:
                return interp.data(transpose(t))
            return None
        if ax != 0:
            return None
        if its is None and t.head == "map":
            return interp.data(t)
    if f in ("split", "array_split") and two:
        cuts = b0.args if b0.head in ("list", "tuple") else None
        if cuts is not None and ndim_of(n0) == 1:
            al = interp.aliases(args[0], st)
            ends = [NONE] + list(cuts) + [NONE]
            return vv.Tup([interp.data(mk_getitem(n0, node("slice", lo, hi, NONE)), al) for lo, hi in zip(ends, ends[1:])])
        return None
    if f in ("vstack", "stack"):
        if not (one or len(args) == 1 and f == "stack" and set(kw) == {"axis"}):
            return None
        its, t = seq_terms(interp, st, args[0], nd)
        if its is not None:
            return interp.data(node("vstack", *its))
        return interp.data(node("vstack_seq", t))
    if f == "reshape" and len(args) == 2 and set(kw) <= {"order"}:
        if not kw and isinstance(args[0], vv.Data):
            return mk_view(interp, args[0], mk_reshape(n0, b0), node("viewshape", b0))
        return interp.data(reshape_order(n0, b0, T(kw["order"]) if kw else const("C")), interp.aliases(args[0], st))
    if f == "ravel" and args and set(kw) <= {"order"}:
        o = T(kw["order"]).args[0] if "order" in kw else (b0.args[0] if b0 is not None else "C")
        if o != "F" and isinstance(args[0], vv.Data):
            return mk_view(interp, args[0], mk_flat(n0), node("viewflat"))
        return interp.data(mk_flat(transpose(n0)) if o == "F" else mk_flat(n0), interp.aliases(args[0], st))
    if f == "transpose" and one and isinstance(args[0], vv.Data):
        return mk_view(interp, args[0], transpose(n0), node("viewT"))
    if f == "transpose" and one:
        return interp.data(transpose(n0), interp.aliases(args[0], st))
    if f in ("squeeze",) and one:
        return interp.data(mk_squeeze(n0), interp.aliases(args[0], st))
    if f == "shape" and one:
        return vv.Data(mk_shape(a0))
    if f == "size" and one:
        return vv.Data(mk_size(a0))
    if f == "ndim" and one:
        return vv.Data(mk_ndim(a0))
    if f == "isscalar" and one:
        py = pytype(a0)
        if py is not None:
            return vv.Data(TRUE if py in ("int", "float", "complex", "bool", "str") else FALSE)
        return vv.Data(node("bool", node("ext", "numpy.isscalar", a0)))
    if f in ("iscomplexobj", "isrealobj") and one:
        if tm.is_real(a0):
            c = FALSE
        elif a0.props and "iscomplex" in a0.props:
            c = TRUE if a0.props["iscomplex"] else FALSE
        else:
            c = node("bool", scal(node("ext", "numpy.iscomplexobj", a0)))
        return vv.Data(c if f == "iscomplexobj" else not_(c))
    if f in ("any", "all") and one:
        if f == "any":
            return vv.Data(mk_any(a0))
        return vv.Data(not_(mk_any(not_(a0))) if tm.is_bool(a0) and not is_scalar(a0) else mk_all(a0))
    if f == "sort" and one:
        return interp.data(node("sort", n0))
    if f == "arange":
        ts = [T(a) for a in args]
        if kw and set(kw) - {"dtype"}:
            return None
        lo, hi, s = (num(0), ts[0], num(1)) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else num(1))
        return interp.data(T(mk_range(interp, lo, hi, s)))
    if f == "diff":
        m = argmap(["a", "n", "axis"], args, kw)
        if m and "n" not in m and n0.head == "stack" and ("axis" not in m or int_val(T(m["axis"])) == 0) and (
                "axis" in m or all(is_scalar(x) for x in n0.args)):
            return interp.data(node("stack", *[sub(y, x) for x, y in zip(n0.args, n0.args[1:])]))
        return None
    if f in ("quantile", "percentile", "nanquantile", "nanpercentile"):
        kw = {"method" if k == "interpolation" else k: v for k, v in kw.items() if not (k == "keepdims" and T(v) is FALSE)}
        m = argmap(["a", "q", "axis", "out", "overwrite_input", "method"], args, kw)
        if m is None or "q" not in m:
            return None
        if "overwrite_input" in m and T(m.pop("overwrite_input")) is not FALSE:
            interp.event("store", st, nd, target=m["a"], base=NONE, idx=SLICE_ALL, val=node("opaque", f), aug=False, al=interp.aliases(m["a"], st))
        q = T(m["q"])
        sc = num(1) if f.endswith("quantile") else num(Fr(1, 100))
        ax = T(m["axis"]) if "axis" in m else NONE
        how = (T(m["method"]),) if "method" in m and T(m["method"]) is not const("linear") else ()
        if f.startswith("nan"):
            how += (const("ignoring nan"),)

        def one_q(x):
            r = node("quantile", arr_of(T(m["a"])), mul(x, sc), ax, *how)
            if ax is NONE and r.props is None:
                r.props = {"scalar": True, "real": True}
            return r
        if q.head in ("tuple", "list", "array"):
            return interp.data(node("stack", *[one_q(x) for x in q.args]))
        return W(one_q(q))
    if f in ("median", "quantile", "percentile", "partition") and "overwrite_input" in kw and T(kw["overwrite_input"]) is not FALSE and args:
        interp.event("store", st, nd, target=args[0], base=NONE, idx=SLICE_ALL, val=node("opaque", f), aug=False, al=interp.aliases(args[0], st))
        kw.pop("overwrite_input")
    if f in ("median",) and args and set(kw) <= {"axis"}:
        ax = axis_of(interp, st, kw, args, 1)
        r = node("quantile", n0, HALF, ax)
        return interp.data(r)
    if f == "repeat" and two:
        return interp.data(mk_repeat(n0, nb))
    if f == "tile" and two:
        if is_scalar(nb):
            return interp.data(mk_flat(mk_outer(mk_full(nb, num(1), const("float")), n0))) if ndim_of(n0) == 1 else None
        if b0.head in ("tuple", "list") and len(b0.args) == 2:
            a, b = b0.args
            if n0.head == "col" and int_val(a) == 1:
                return interp.data(mk_outer(n0.args[0], mk_full(b, num(1), const("float"))))
            if (n0.head == "row" or ndim_of(n0) == 1) and int_val(b) == 1:
                return interp.data(mk_outer(mk_full(a, num(1), const("float")), n0.args[0] if n0.head == "row" else n0))
        return None
    if f in ("eye", "identity"):
        if f == "eye" and (len(args) > 2 or set(kw) - {"N", "M", "dtype", "order", "like"}):
            m = argmap(["N", "M", "k", "dtype", "order"], args, kw)
            return interp.data(mk_eye(T(m["N"]), T(m["M"]) if "M" in m and T(m["M"]) is not NONE else T(m["N"]), T(m["k"]) if "k" in m else num(0))) if m else None
        if "M" in kw:
            nb = T(kw["M"])
        return interp.data(node("eye", n0, nb if nb is not None and nb is not NONE and f == "eye" else n0))
    if f == "diag" and one:
        return interp.data(mk_diag(n0)) if ndim_of(n0) == 1 else interp.data(node("diag_of", n0))
    if f == "roll":
        return interp.data(node("roll", *([T(a) for a in args] + kwnodes(interp, st, kw))))
    if f in ("copyto", "put", "place", "putmask", "fill_diagonal"):
        interp.event("store", st, nd, target=args[0], base=a0, idx=SLICE_ALL, val=b0 if b0 is not None else NONE, aug=False, al=interp.aliases(args[0], st))
        if isinstance(args[0], vv.Data) and args[0].loc is not None:
            if f == "copyto" and two:
                interp.set_mut(st, args[0], nb)
            elif f == "place" and len(args) == 3 and is_boolarr(b0):
                interp.set_mut(st, args[0], mk_store(a0, b0, T(args[2])))       # vals are repeated when too short
            elif f == "putmask" and len(args) == 3 and is_scalar(T(args[2])):
                interp.set_mut(st, args[0], mk_store(a0, tm.truth(b0), T(args[2])))
            elif f == "putmask" and len(args) == 3 and mk_shape(T(args[2])) is mk_shape(a0):
                interp.set_mut(st, args[0], ite(tm.truth(b0), T(args[2]), a0))
            else:
                interp.set_mut(st, args[0], node("ext", "numpy." + f, a0, *[T(a) for a in args[1:]]))
        return vv.Data(NONE)
    if f == "random":
        return None
    return None


def entries_of(t):
    """the same entries in whatever arrangement"""
    while t.head in ("col", "row", "flat", "reshape", "T") and not is_scalar(t.args[0]) and isinstance(t.args[0], Term):
        t = t.args[0]
    return t


def mk_nonzero(t):
    """positions of the non-zero entries; nonzero(x != 0) = nonzero(x) = nonzero(|x|) = nonzero(|x| > 0)"""
    if t.head == "ite" and t.args[1] is num(1) and t.args[2] is num(0):
        t = t.args[0]
    if t.head == "not" and t.args[0].head == "cmp" and t.args[0].args[0] == "==" and t.args[0].args[1].head != "pair":
        return node("nonzero", nz_core(t.args[0].args[1]))
    if t.head == "cmp" and t.args[0] == "<" and t.args[1].head == "poly" and len(t.args[1].args[0]) == 1:
        (k, m), = t.args[1].args[0]
        if not isinstance(k, complex) and k < 0 and m and all(a.head == "abs" or (a.head in ("real", "imag") and e % 2 == 0) for a, e in m):
            return node("nonzero", nz_core(t.args[1]))
    if not tm.is_bool(t):
        t = nz_core(t)
    return node("nonzero", t)


def nz_core(p):
    """a term with the same non-zero entries, without absolute values, conjugates, powers and factors"""
    if p.head in ("abs", "conj"):
        return nz_core(p.args[0])
    if p.head == "poly" and len(p.args[0]) == 1:
        (k, m), = p.args[0]
        arr = [(a, e) for a, e in m if not is_scalar(a)]
        if k != 0 and len(arr) == 1 and len(m) == 1 and arr[0][1] > 0:
            return nz_core(arr[0][0])
    return p


def mk_fun(h, t):
    """elementwise function with sign symmetries"""
    if is_num(t) and tm.num_val(t) == 0 and h in ("cos", "exp", "sin", "tan"):
        return num(1) if h in ("cos", "exp") else num(0)
    if h in ("cos", "sin") and t.head == "poly" and t.args[0] and all(c < 0 for c, _ in t.args[0]):
        return node("cos", neg(t)) if h == "cos" else neg(node("sin", neg(t)))
    if h in ("log", "log10", "log2") and t.head == "poly" and len(t.args[0]) == 1 and is_scalar(t):
        (c, m), = t.args[0]
        if c == 1 and m and (len(m) > 1 or m[0][1] != 1) and all(tm.is_nonneg(a) or square_sum(a) for a, _ in m):
            return add_all([mul(tm.num(e), node(h, a)) for a, e in m])
    return node(h, t)


def square_sum(t):
    """is t a sum of |x|^2?"""
    if t.head != "sumall":
        return False
    p = t.args[0]
    if p.head != "poly" or len(p.args[0]) != 1 or p.args[0][0][0] <= 0:
        return False
    m = dict(p.args[0][0][1])
    return all(m.get(conj(a)) == e for a, e in m.items())


def add_all(ts):
    out = num(0)
    for t in ts:
        out = add(out, t)
    return out


tm._REB["cast"] = lambda kind, t, *a: castnode(kind, t) if not a and isinstance(kind, str) else node("cast", kind, t, *a)
tm._REB.update({h: (lambda t, h=h: mk_fun(h, t)) for h in ("cos", "sin", "log", "log10", "log2")})


def mk_outer(a, b):
    # pull scalars out of both factors
    out = num(0)
    for m1, c1 in tm.poly(a).items():
        s1, r1 = tm.split_scalar(m1, is_scalar)
        for m2, c2 in tm.poly(b).items():
            s2, r2 = tm.split_scalar(m2, is_scalar)
            x, y = tm.from_poly({tuple(r1): Fr(1)}), tm.from_poly({tuple(r2): Fr(1)})
            out = add(out, mul(tm.from_poly(tm._mono(s1 + s2, c1 * c2)), node("outer", x, y)))
    return out


tm._REB["outer"] = mk_outer


def mk_squeeze(t):
    if t.head in ("row", "col"):
        return t.args[0]
    if t.head == "stack" and len(t.args) == 1:
        return t.args[0]
    if ndim_of(t) == 1:
        return t
    return node("squeeze", t)


def mk_eye(a, b, k):
    if k.head == "ite":
        return ite(k.args[0], mk_eye(a, b, k.args[1]), mk_eye(a, b, k.args[2]))
    return node("eye", a, b) if int_val(k) == 0 else node("eyek", a, b, k)


def arr_of(t):
    """array holding the items of a list term"""
    if t.head == "sym" and t.props and t.props.get("pytype") in ("list", "tuple"):
        return tm.sym("array:" + str(t.args[0]), **dict(t.props, pytype="ndarray"))
    if t.head in ("listcat", "append", "listcatmap"):
        ps = flat_list(t)
        if ps is not None:
            return mk_concat(ps)
    if t.head == "getitem" and t.args[1].head == "slice" and t.args[0].head in ("listcat", "append", "listcatmap"):
        a = arr_of(t.args[0])
        if a is not t.args[0]:
            return mk_getitem(a, t.args[1])
    return t


def flat_list(t):
    """arrays whose concatenation holds the scalar items of a list term"""
    if t.head in ("list", "tuple"):
        return ([node("array", *t.args)] if t.args else []) if all(is_scalar(x) for x in t.args) else None
    if t.head == "map":
        return [t] if is_scalar(t.args[1].args[1]) else None
    if t.head == "append":
        a = flat_list(t.args[0])
        return a + [node("array", t.args[1])] if a is not None and is_scalar(t.args[1]) else None
    if t.head == "listcat":
        a, b = flat_list(t.args[0]), flat_list(t.args[1])
        return a + b if a is not None and b is not None else None
    if t.head == "listcatmap":
        v = node("idx", "lcm")
        if v.props is None:
            v.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        ps = flat_list(tm.open_(t.args[1], v))
        return [node("concatmap", t.args[0], tm.close(v, ps[0] if len(ps) == 1 else mk_concat(ps)))] if ps else None
    return None


def cat_list(t):
    """the arrays of a list of arrays, in order (concatmap for a run of them)"""
    if t.head in ("list", "tuple"):
        return list(t.args)
    if t.head == "map":
        return [node("concatmap", t.args[0], t.args[1])]
    if t.head == "append":
        a = cat_list(t.args[0])
        return a + [t.args[1]] if a is not None else None
    if t.head == "listcat":
        a, b = cat_list(t.args[0]), cat_list(t.args[1])
        return a + b if a is not None and b is not None else None
    return None


KEEP_COMPLEX = [False]          # conversions to complex stay visible (they do not change values)


def cast_to(t, dt):
    if dt is const("complex"):
        if KEEP_COMPLEX[0]:
            r = node("cast", "complex", t)
            if r.props is None:
                r.props = {k: v for k, v in dict(castnode("float", t).props or {}, real=None).items() if v is not None}
            return r
        return t
    if dt is const("float"):
        return t if tm.is_real(t) else castnode("float", t)
    if dt is const("int"):
        return t if tm.is_int(t) else castnode("int", t)
    if dt is const("bool"):
        return t if tm.is_bool(t) else castnode("bool", t)
    if dt.head == "ite":
        return ite(dt.args[0], cast_to(t, dt.args[1]), cast_to(t, dt.args[2]))
    if dt in (const("object"), const("list"), const("O")):
        return t
    if dt.head == "const":
        return castnode(str(dt.args[0]), t)
    if dt.head == "dtype":
        return t
    return castnode(tm.show(dt), t)


def call_sparse(interp, st, f, args, kwargs, nd):
    vv = V()
    T = lambda v: interp.T(v, st)
    if f in ("identity", "eye", "eye_array"):
        m = argmap(["m", "n", "k", "dtype", "format"] if f != "identity" else ["n", "dtype", "format"], args, kwargs)
        if m is None:
            return None
        if f == "identity":
            n = T(m["n"])
            return interp.data(node("eye", n, n))
        a = T(m["m"])
        return interp.data(mk_eye(a, T(m["n"]) if "n" in m and T(m["n"]) is not NONE else a, T(m["k"]) if "k" in m else num(0)))
    if f in ("diags", "diags_array", "spdiags"):
        if len(args) == 1 and set(kwargs) <= {"format", "dtype"}:
            return interp.data(mk_diag(T(args[0])))
        if f == "diags" and len(args) == 2 and int_val(T(args[1])) == 0:
            return interp.data(mk_diag(T(args[0])))
        return None
    if f in ("csr_matrix", "csc_matrix", "coo_matrix", "bsr_matrix", "csr_array", "csc_array", "lil_matrix", "dok_matrix"):
        if len(args) != 1 or set(kwargs) - {"dtype"}:
            return None
        t = T(args[0])
        if is_vec(t) or ndim_of(t) == 1:
            return interp.data(node("row", t))
        if t.head == "row":
            return interp.data(t)
        return interp.data(t)
    if f == "inv" and len(args) == 1:
        return interp.data(node("inv", T(args[0])))
    return None


def call_method(interp, st, fn, args, kwargs, nd):
    vv = V()
    v, m = fn.recv, fn.name
    T = lambda x: interp.T(x, st)
    if m in ("$_replace", "$_asdict") and isinstance(v, vv.Ref):
        c = st.heap[v.loc]
        if m == "$_asdict":
            return interp.new_dict(st, {const(n): c.fields.get(n, vv.Data(NONE)) for n, _ in c.cls.attrs["$dataclass"]})
        return interp.new_obj(st, c.cls, dict(c.fields, **kwargs))
    if isinstance(v, vv.Choice):
        return interp.merge_val(v.c, interp.call(interp.getattr_(v.a, m, st, nd), args, kwargs, st, nd),
                                interp.call(interp.getattr_(v.b, m, st, nd), args, kwargs, st, nd), st, st, st)
    if isinstance(v, vv.Ref):
        c = st.heap.get(v.loc)
        if isinstance(c, vv.ListCell):
            r = list_method(interp, st, v, c, m, args, kwargs, nd)
            if r is not None:
                return r
        if isinstance(c, vv.DictCell):
            r = dict_method(interp, st, v, c, m, args, kwargs, nd)
            if r is not None:
                return r
        if isinstance(c, vv.ObjCell) and m in ("__init__",):
            return vv.Data(NONE)
    if isinstance(v, vv.Tup):
        if m == "index" or m == "count":
            return interp.data(node("meth", m, T(v), *[T(a) for a in args]))
    if isinstance(v, vv.Seq):
        t = T(v)
        v = interp.data(t)
    t = T(v)
    if is_strterm(t):
        r = str_method(interp, st, t, m, args, kwargs, nd)
        if r is not None:
            return r
    r = array_method(interp, st, v, t, m, args, kwargs, nd) if isinstance(v, vv.Data) and not tm.prop(t, "obj") else None
    if r is not None:
        return r
    return meth_call(interp, st, v, t, m, args, kwargs, nd)


def meth_call(interp, st, v, t, m, args, kwargs, nd):
    ts = [interp.T(a, st) for a in args]
    if m in ("set_bad", "set_under", "set_over", "set_extremes") and getattr(v, "al", None):
        interp.event("store", st, nd, target=v, base=t, idx=SLICE_ALL, val=node("opaque", m), aug=False, al=v.al)
    r = node("meth", m, t, *(ts + kwnodes(interp, st, kwargs)))
    pr = interp.attr_props.get((tm.show(t), m + "()"))
    if pr and r.props is None:
        r.props = dict(pr)
    interp.event("call", st, nd, name="." + m, recv=t, recv_val=v, args=tuple(ts), kwargs={k: interp.T(x, st) for k, x in kwargs.items()},
                 vals=tuple(args), term=r)
    return interp.data(r)


def call_data(interp, st, fn, args, kwargs, nd):
    """call of a value held in a variable: attribute of an external object, or a function handle"""
    t = interp.T(fn, st)
    if t.head == "attr":
        return meth_call(interp, st, fn, t.args[0], t.args[1], args, kwargs, nd)
    if t.head == "boundm":
        return meth_call(interp, st, fn, t.args[0], t.args[1], args, kwargs, nd)
    if t.head == "ite":
        vv = V()
        a, b = st.copy(), st.copy()
        ra = call_data(interp, a, vv.Data(t.args[1]), args, kwargs, nd)
        rb = call_data(interp, b, vv.Data(t.args[2]), args, kwargs, nd)
        return interp.merge_val(t.args[0], ra, rb, a, b, st)
    if t.head == "fn" and t.args[1] is None:
        return call(interp, st, V().LibFn(t.args[0]), args, kwargs, nd)
    ts = [interp.T(a, st) for a in args]
    r = node("apply", t, *(ts + kwnodes(interp, st, kwargs)))
    pr = interp.attr_props.get((tm.show(t), "()"))
    if pr and r.props is None:
        r.props = dict(pr)
    interp.event("call", st, nd, name="apply", recv=t, args=tuple(ts), kwargs={k: interp.T(x, st) for k, x in kwargs.items()}, vals=tuple(args), term=r)
    return interp.data(r)


def str_method(interp, st, t, m, args, kwargs, nd):
    vv = V()
    T = lambda x: interp.T(x, st)
    if m == "join" and len(args) == 1:
        its, s = seq_terms(interp, st, args[0], nd)
        if its is not None:
            out = []
            for i, x in enumerate(its):
                if i:
                    out.append(t)
                out.append(x)
            return vv.Data(mk_str(out))
        return vv.Data(node("join", t, s))
    if m == "format" and t.head == "const":
        import re
        ps = re.split(r"(\{\w*\})", t.args[0])
        if "{{" not in t.args[0] and not any(c in "{}" for p in ps[::2] for c in p):
            out, i = [], 0
            for p in ps:
                if p[:1] == "{":
                    k = p[1:-1]
                    if k == "":
                        k, i = str(i), i + 1
                    v = args[int(k)] if k.isdigit() and int(k) < len(args) else kwargs.get(k)
                    if v is None:
                        break
                    out.append(T(v))
                else:
                    out.append(const(p))
            else:
                return vv.Data(mk_str(out))
        return vv.Data(node("strformat", t, *([T(a) for a in args] + kwnodes(interp, st, kwargs))))
    if t.head == "const" and m in ("upper", "lower", "strip") and not args:
        return vv.Data(const(getattr(t.args[0], m)()))
    if t.head == "const" and m in ("split",) and all(T(a).head == "const" for a in args):
        return interp.new_list(st, [vv.Data(const(x)) for x in t.args[0].split(*[T(a).args[0] for a in args])])
    if t.head == "const" and m in ("startswith", "endswith") and len(args) == 1 and T(args[0]).head == "const":
        return vv.Data(const(getattr(t.args[0], m)(T(args[0]).args[0])))
    return vv.Data(node("meth", m, t, *[T(a) for a in args]))


def list_method(interp, st, v, c, m, args, kwargs, nd):
    vv = V()
    T = lambda x: interp.T(x, st)
    D = vv.Data
    if m == "append":
        interp.event("store", st, nd, target=v, base=T(v), idx=NONE, val=T(args[0]), aug=True, al=frozenset([v.loc]), how="append", value=args[0])
        if c.items is not None:
            st.heap[v.loc] = vv.ListCell(tuple(c.items) + (args[0],))
        else:
            st.heap[v.loc] = vv.ListCell(None, node("append", c.term, T(args[0])))
        return D(NONE)
    if m == "extend":
        list_extend(interp, st, v, args[0], nd)
        return D(NONE)
    if m in ("insert", "remove", "clear", "sort", "reverse", "pop"):
        interp.event("store", st, nd, target=v, base=T(v), idx=NONE, val=NONE, aug=True, al=frozenset([v.loc]), how=m)
        if c.items is not None and m == "insert" and int_val(T(args[0])) is not None:
            l = list(c.items)
            l.insert(int_val(T(args[0])), args[1])
            st.heap[v.loc] = vv.ListCell(tuple(l))
            return D(NONE)
        if c.items is not None and m == "clear":
            st.heap[v.loc] = vv.ListCell(())
            return D(NONE)
        if c.items is not None and m == "reverse":
            st.heap[v.loc] = vv.ListCell(tuple(reversed(c.items)))
            return D(NONE)
        if c.items is not None and m == "pop":
            k = int_val(T(args[0])) if args else -1
            if k is not None and c.items:
                l = list(c.items)
                x = l.pop(k)
                st.heap[v.loc] = vv.ListCell(tuple(l))
                return x
        old = T(v)
        st.heap[v.loc] = vv.ListCell(None, node("meth", "list." + m, old, *[T(a) for a in args]))
        return interp.data(node("meth", "list." + m + ".ret", old, *[T(a) for a in args]))
    if m == "copy":
        return copy_ref(interp, st, v, False)
    if m in ("index", "count"):
        if c.items is not None and m == "index" and T(args[0]) in [T(x) for x in c.items] and all(T(x).head == "const" for x in c.items):
            return D(num([T(x) for x in c.items].index(T(args[0]))))
        return interp.data(node("meth", m, T(v), *[T(a) for a in args]))
    if m == "add":   # sets are kept as lists
        return list_method(interp, st, v, c, "append", args, kwargs, nd)
    return None


def dict_method(interp, st, v, c, m, args, kwargs, nd):
    vv = V()
    T = lambda x: interp.T(x, st)
    D = vv.Data
    if m in ("keys", "values", "items"):
        if c.open is None or True:
            its = []
            for k, x in c.items.items():
                its.append(D(k) if m == "keys" else x if m == "values" else vv.Tup([D(k), x]))
            if c.open is None:
                return vv.Seq(num(len(its)), None, items=tuple(its))
            t = T(v)
            kk = node("keys", t)
            if m == "keys":
                return vv.Seq(scal(node("len", t)), lambda k, s: D(node("getitem", kk, k)))
            if m == "values":
                return vv.Seq(scal(node("len", t)), lambda k, s: D(node("getitem", t, node("getitem", kk, k))))
            return vv.Seq(scal(node("len", t)), lambda k, s: vv.Tup([D(node("getitem", kk, k)), D(node("getitem", t, node("getitem", kk, k)))]))
    if m == "get":
        k = T(args[0])
        if k in c.items:
            x = c.items[k]
            dflt = args[1] if len(args) > 1 else D(NONE)
            if isinstance(x, vv.Choice) and x.a is vv.UNBOUND:
                return interp.choose(x.c, dflt, x.b, st)
            if isinstance(x, vv.Choice) and x.b is vv.UNBOUND:
                return interp.choose(x.c, x.a, dflt, st)
            return x
        if c.open is None and (k.head == "const"):
            return args[1] if len(args) > 1 else D(NONE)
        if c.open is None and all(x.head == "const" for x in c.items):
            r = args[1] if len(args) > 1 else D(NONE)
            for q, x in reversed(list(c.items.items())):
                r = interp.choose(interp.decide(cmp_("==", k, q), st), x, r, st)
            return r
        if c.open is not None:
            cond = node("bool", node("ext", "in", k, c.open))
            return interp.choose(cond, D(node("getitem", T(v), k)), args[1] if len(args) > 1 else D(NONE), st)
    if m == "update":
        interp.event("store", st, nd, target=v, base=T(v), idx=NONE, val=T(args[0]) if args else NONE, aug=True, al=frozenset([v.loc]), how="update")
        f = dict(c.items)
        op = c.open
        if args:
            o = st.heap.get(args[0].loc) if isinstance(args[0], vv.Ref) else None
            if isinstance(o, vv.DictCell):
                f.update(o.items)
                op = op or o.open
            else:
                op = T(args[0])
        for k, x in kwargs.items():
            f[const(k)] = x
        own = interp.dict_owner.get(v.loc)
        if own is not None:
            for k, x in f.items():
                if c.items.get(k) is not x and k.head == "const":
                    interp.setattr_(own, k.args[0], x, st, nd)
        else:
            st.heap[v.loc] = vv.DictCell(f, op)
        return D(NONE)
    if m in ("pop", "setdefault", "clear", "popitem"):
        interp.event("store", st, nd, target=v, base=T(v), idx=T(args[0]) if args else NONE, val=NONE, aug=True, al=frozenset([v.loc]), how=m)
        f = dict(c.items)
        if m == "clear":
            st.heap[v.loc] = vv.DictCell({}, None)
            return D(NONE)
        k = T(args[0]) if args else NONE
        dflt = args[1] if len(args) > 1 else D(NONE)
        if m == "setdefault":
            if k in f:
                return f[k]
            if c.open is not None:
                dflt = interp.choose(node("bool", node("ext", "in", k, c.open)), D(node("getitem", T(v), k)), dflt, st)
            f[k] = dflt
            st.heap[v.loc] = vv.DictCell(f, c.open)
            return dflt
        if m == "pop":
            x = f.pop(k, None)
            st.heap[v.loc] = vv.DictCell(f, c.open)
            if x is None and c.open is not None:
                return interp.choose(node("bool", node("ext", "in", k, c.open)), D(node("getitem", T(v), k)), dflt, st)
            return x if x is not None else dflt
    if m == "copy":
        return copy_ref(interp, st, v, False)
    return None


def array_method(interp, st, v, t, m, args, kwargs, nd):
    vv = V()
    T = lambda x: interp.T(x, st)
    W = lambda x, al=frozenset(): (vv.Data(x) if is_scalar(x) else interp.data(x, al))
    al = v.al
    if t.head in ("ext", "meth", "attr") and not arrayish(t) and m not in (
            "flatten", "ravel", "reshape", "astype", "conj", "conjugate", "sum", "dot", "copy", "toarray", "getH", "transpose", "max", "min", "mean"):
        return None
    if m in ("conj", "conjugate") and not args:
        return W(conj(t))
    if m == "copy":
        return interp.data(t) if not ext_object(t) or True else None
    if m == "astype":
        mm = argmap(["dtype", "order", "casting", "subok", "copy"], args, kwargs)
        if mm is None or "dtype" not in mm:
            return None
        keep = "copy" in mm and T(mm["copy"]) is not TRUE
        return interp.data(cast_to(t, dtype_term(interp, st, mm["dtype"])), al if keep else frozenset())
    if m == "sum":
        if set(kwargs) <= {"axis"}:
            return W(mk_sum(t, axis_of(interp, st, kwargs, args, 0))) if t.head != "map" or kwargs or args else W(mk_sum_map(t))
    if m in ("argmax", "argmin", "mean", "max", "min") and set(kwargs) <= {"axis"} and (kwargs or len(args) == 1):
        r = mk_red({"max": "amax", "min": "amin"}.get(m, m), t, axis_of(interp, st, kwargs, args, 0))
        if r is not None:
            return vv.Data(r) if is_scalar(r) else interp.data(r)
    if m in ("max", "min") and not args and not kwargs:
        return vv.Data(scal(node("a" + m, entries_of(t))))
    if m in ("argmax", "argmin") and not args and not kwargs:
        return vv.Data(argext(m, t))
    if m == "mean" and not args and not kwargs:
        return vv.Data(mk_mean(t))
    if m == "reshape":
        ts = [T(a) for a in args]
        if not kwargs:
            sh = ts[0] if len(ts) == 1 else node("tuple", *ts)
            return mk_view(interp, v, mk_reshape(t, sh), node("viewshape", sh))
        if set(kwargs) == {"order"}:
            return interp.data(reshape_order(t, ts[0] if len(ts) == 1 else node("tuple", *ts), T(kwargs["order"])), al)
    if m in ("flatten", "ravel"):
        o = "C"
        x = args[0] if args else kwargs.get("order")
        if x is not None:
            o = T(x).args[0] if T(x).head == "const" else "?"
        if o not in ("C", "F", "K", "A"):       # K and A: the order in memory, which is C unless arranged otherwise
            return interp.data(node("ext", "ravel", t, const(o)), al)
        r = mk_flat(t) if o != "F" else mk_flat(transpose(t))
        if m == "ravel" and o != "F":
            return mk_view(interp, v, r, node("viewflat"))
        return interp.data(r, al if m == "ravel" else frozenset())
    if m == "dot" and len(args) == 1:
        return W(mk_matmul(t, numify(T(args[0]))))
    if m == "multiply" and len(args) == 1:
        return W(mul(t, numify(T(args[0]))))
    if m == "transpose" and not args:
        return mk_view(interp, v, transpose(t), node("viewT"))
    if m in ("view", "swapaxes", "diagonal") and m != "diagonal":
        return interp.data(t if m == "view" and not args and not kwargs else node("meth", m, t, *[T(a) for a in args]), al)
    if m == "getH" and not args:
        return interp.data(transpose(conj(t)))
    if m in ("toarray", "todense", "tocsr", "tocsc", "tocoo", "tobsr"):
        return interp.data(t)
    if m == "squeeze" and not args:
        return interp.data(mk_squeeze(t), al)
    if m == "nonzero" and not args:
        return interp.data(mk_nonzero(t))
    if m in ("any", "all") and not args and not kwargs:
        if m == "any":
            return vv.Data(mk_any(t))
        return vv.Data(not_(mk_any(not_(t))) if tm.is_bool(t) and not is_scalar(t) else mk_all(t))
    if m == "item" and not args:
        return vv.Data(t)
    if m == "tolist":
        return interp.new_list(st, term=t)
    if m == "clip":
        b = argmap(["min", "max"], args, {{"a_min": "min", "a_max": "max"}.get(k, k): x for k, x in kwargs.items()})
        if b:
            for nm, g in (("min", mk_max), ("max", mk_min)):
                if nm in b and T(b[nm]) is not NONE:
                    t = g(t, T(b[nm]))
            return W(t)
        return None
    if m == "round":
        return W(node("round", t, *[T(a) for a in args]))
    if m == "fill" and len(args) == 1:
        interp.event("store", st, nd, target=v, base=t, idx=SLICE_ALL, val=T(args[0]), aug=False, al=al)
        interp.set_mut(st, v, mk_full(mk_shape(t), numify(T(args[0])), dtype_of(t)))
        return vv.Data(NONE)
    if m == "sort":
        interp.event("store", st, nd, target=v, base=t, idx=SLICE_ALL, val=node("sort", t), aug=False, al=al)
        interp.set_mut(st, v, node("sort", t))
        return vv.Data(NONE)
    if m in ("put", "resize", "partition", "itemset", "byteswap", "setfield", "setflags"):
        interp.event("store", st, nd, target=v, base=t, idx=SLICE_ALL, val=node("opaque", m), aug=False, al=al)
        return vv.Data(NONE)
    if m == "append" and t.head in ("list", "append", "map", "mu", "listcat"):
        interp.event("store", st, nd, target=v, base=t, idx=NONE, val=T(args[0]), aug=True, al=al, how="append", value=args[0])
        interp.set_mut(st, v, node("append", t, T(args[0])))
        return vv.Data(NONE)
    if m == "repeat" and len(args) == 1:
        return interp.data(mk_repeat(t, numify(T(args[0]))))
    if m == "cumsum" and not args:
        return interp.data(mk_cumsum(t))
    return None


# ---------------------------------------------------------------- loop summaries
def close_loop(interp, lp):
    """closed forms of loop-carried values: lp.at[name] (value at iteration k) and lp.final[name]"""
    lp.final = {}
    lp.at = {}
    mus = lp.mus
    back = dict(lp.back)
    k = lp.idx if lp.idx is not None else node("iter", lp.id)
    lp.k = k
    n = lp.n
    clean = not lp.breaks and not lp.returns
    known = {}
    mset = set(mus.values())
    changed = True
    while changed:
        changed = False
        for name, m in mus.items():
            if m in known:
                continue
            b = tm.subst(back.get(name, m), known)
            e = lp.entry[name]
            f = None
            if b is m:
                f = e
            elif e.head != "unbound" and b.head == "poly" or b.head == "sym":
                try:
                    d = sub(b, m)
                except Exception:
                    d = None
                if d is not None and is_scalar_like(e) and not any(x in mset for x in tm.subterms(d)):
                    if k not in tm.subterms(d):
                        f = add(e, mul(k, d))
                    else:
                        v = node("idx", "ps")
                        lam = tm.close(v, tm.subst(d, {k: v}))
                        s = faul(k, lam)
                        f = add(e, s if s is not None else scal(node("psum", k, lam)))
            if f is None and b.head == "append" and b.args[0] is m and not any(x in mset for x in tm.subterms(b.args[1])):
                v = node("idx", "ap")
                lam = tm.close(v, tm.subst(b.args[1], {k: v}))
                f = mk_map(k, lam) if e.head == "list" and not e.args else node("listcat", e, node("map", k, lam))
            if f is None and b.head == "listcat" and b.args[0] is m and not any(x in mset for x in tm.subterms(b.args[1])):
                v = node("idx", "ap")
                f = node("listcat", e, node("listcatmap", k, tm.close(v, tm.subst(b.args[1], {k: v}))))
            if f is None and e.head not in ("unbound", "opaque") and b.head != "opaque" and is_scalar(e) and (is_scalar(b) or ndim_of(b) == 0 or scalar_poly(b)) \
                    and not any(x in mset for x in tm.subterms(b)):
                f = ite(cmp_("==", k, num(0)), e, tm.subst(b, {k: sub(k, num(1))}))     # what the iteration before left
            if f is not None:
                known[m] = f
                lp.at[name] = f
                changed = True
    # array folds
    for name, m in mus.items():
        if m in known:
            continue
        b = tm.subst(back.get(name, m), known)
        e = lp.entry[name]
        chain = []
        x = b
        while x.head == "store":
            chain.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is m and chain:
            others = set(mus.values()) - {m} - set(known)
            body = [t for p in chain for t in p]
            if not any(y in others for t in body for y in tm.subterms(t)):
                v = node("idx", "fs")
                ok = True
                cur = []
                for i, val in reversed(chain):
                    if m in tm.subterms(i):
                        ok = False
                    val2 = tm.subst(val, {m: node("self")}) if m in tm.subterms(val) else val
                    cur.append(node("tuple", tm.subst(i, {k: v}), tm.subst(val2, {k: v})))
                if ok:
                    lp.at[name] = None
                    lam = tm.close(v, node("stores", *cur))
                    known_f = node("fstore", e, n if n is not None else k, lam)
                    lp.folds = getattr(lp, "folds", {})
                    lp.folds[name] = lam
                    lp.final[name] = (known_f if clean else node("loopval", lp.id, name)) if n is not None else None
                    continue
        # nested fold: the body leaves an fstore over the header value
        if b.head == "fstore" and b.args[0] is m and clean and n is not None:
            v = node("idx", "fs")
            lam = tm.close(v, tm.subst(node("inner", b.args[1], b.args[2]), {k: v}))
            lp.final[name] = node("fstore", e, n, lam)
            continue
        # last value
        if not any(y in mset for y in tm.subterms(b)) and n is not None and clean:
            last = tm.subst(b, {k: sub(n, num(1))})
            if e.head == "unbound":
                lp.final[name] = last
            else:
                lp.final[name] = ite(cmp_("<", num(0), n), last, e)
            continue
        lv = node("loopval", lp.id, name)
        if m.props and lv.props is None:
            lv.props = dict(m.props)
        lp.final[name] = lv
    for name, m in mus.items():
        if m in known:
            f = known[m]
            if n is not None and clean:
                lp.final[name] = tm.subst(f, {k: n}) if k in tm.subterms(f) else f
            elif n is None and k not in tm.subterms(f):
                lp.final[name] = f
            else:
                lv = node("loopval", lp.id, name)
                if m.props and lv.props is None:
                    lv.props = dict(m.props)
                lp.final[name] = lv
    lp.known = known


def scalar_poly(b):
    return b.head == "poly" and all(is_scalar(a) or ndim_of(a) == 0 or a.head == "getitem" and is_scalar(a.args[1]) and ndim_of(a.args[0]) == 1
                                    for _, m in b.args[0] for a, _ in m)


def is_scalar_like(e):
    return is_scalar(e) or e.head == "full" or ndim_of(e) is not None or e.head in ("mu", "fstore")
