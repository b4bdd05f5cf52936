"""Properties of forward operators, measurements, transforms (C08-C12)."""
import os
from . import terms as tm
from .terms import (sym, const, num, node, TRUE, FALSE, NONE, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg, power, conj, realpart,
                    absv, sumall, matmul, subst, subterms, show, transpose)
from .model import Session, SamplerRun, scalar, integer, Gone, symbolic_objects, params, TRACKS
from .interp import Data, Ref, Tup, ObjCell, AnalysisError
from .check import clip, raising, raise_conds
from . import samplers as sp

L, B, J = integer("L", pos=True), scalar("B", pos=True), integer("J_min", nonneg=True)
DIRS, SPIN = integer("dirs", pos=True), integer("spin", nonneg=True)
ND = integer("ndata", pos=True)
W = sub(mul(num(2), L), num(1))
NPIX = sub(mul(num(2), mul(L, L)), L)
SHAPE = node("tuple", L, W)
b2t = sp.bool2term


def vec(n, **k):
    return sym(n, vec=True, ndim=1, **k)


def attempt(c, name, f):
    """run one part of a check; what the analysis cannot follow stays undecided"""
    try:
        return f()
    except Gone:
        raise
    except (AnalysisError, RecursionError, tm.Blowup) as e:
        c.open(name, "outside the analysed fragment: %s" % clip(str(e), 200))


# ---------------------------------------------------------------- C08
def c08(c, root):
    c.assumptions += ["measurement.adjoint and transform.inverse_adjoint are the adjoints of measurement.forward and transform.inverse (C10, C11)"]
    for cls in ("MYULA", "PxMALA", "SKROCK"):
        for cx in (False, True):
            def part():
                r = SamplerRun(root, cls, cx, run=False)
                s = r.s
                tag = cls + ("/complex" if cx else "/real")
                x, p = vec("xc" if cx else "xr", real=not cx), vec("predc")
                v = s.method(r.obj, "logpi", x, p)
                c.seen(s)
                t = s.T(v)
                want = (sp.logpi(x, p), sp.misfit(p), sp.prior(x))
                for nm, k in (("log posterior is -mu*prior - L2/2", 0), ("L2 is (d-p)^H C^-1 (d-p)", 1), ("prior is that of the state", 2)):
                    got = t.args[k] if t.head == "tuple" and len(t.args) == 3 else s.it.lib.mk_getitem(t, num(k))
                    c.eq("%s: %s" % (tag, nm), got, want[k], where="pxmcmc/mcmc.py logpi")
                    c.sites += 1
                if s.has(r.obj, "_gradlogpi"):
                    for pr in (None, vec("predg")):
                        g = s.T(s.method(r.obj, "_gradlogpi", x) if pr is None else s.method(r.obj, "_gradlogpi", x, pr))
                        spec = sub(neg(div(sub(x, sp.prox(x)), sp.LM)), sp.grad(sp.fwd(x) if pr is None else pr))
                        nf = (lambda q: q) if cx else sp.unreal
                        c.eq("%s: gradient of the log posterior is -(x-prox(x))/lmda - grad" % tag, nf(g), nf(spec), where="pxmcmc/mcmc.py _gradlogpi")
            attempt(c, cls + ": log posterior", part)
    for setting in ("analysis", "synthesis"):
        for kind in ("scalar", "vector", "matrix"):
            for cplx in (False, True):
                def part():
                    s = Session(root)
                    d = vec("data" + ("c" if cplx else "r"), len=ND, real=not cplx, pytype="ndarray")
                    sig = errors(kind)
                    A, Tr = sym("measurement", obj=True), sym("transform", obj=True)
                    s.it.attr_props[("measurement", "adjoint()")] = dict(vec=True, ndim=1)
                    s.it.attr_props[("transform", "inverse()")] = dict(vec=True, ndim=1)
                    s.it.attr_props[("measurement", "forward()")] = dict(vec=True, ndim=1, len=ND)
                    o = s.call(s.get("forward", "ForwardOperator"), d, sig, setting, transform=A_(s, Tr), measurement=A_(s, A), nparams=integer("npar", pos=True))
                    x, p = vec("xx"), vec("pp", len=ND)
                    tag = "%s/%s errors/%s data" % (setting, kind, "complex" if cplx else "real")
                    f = s.T(s.method(o, "forward", x))
                    inner = x if setting == "analysis" else node("meth", "inverse", Tr, x)
                    c.eq(tag + ": predictions", f, node("meth", "forward", A, inner), where="pxmcmc/forward.py forward")
                    g = s.T(s.method(o, "calc_gradg", p))
                    ic = s.T(s.attr(o, "invcov"))
                    w = node("meth", "adjoint", A, matmul(ic, sub(p, d)))
                    if setting == "synthesis":
                        w = node("meth", "inverse_adjoint", Tr, w)
                    if not tm.same(g, w):
                        g, w = linear_norm(g), linear_norm(w)
                    c.eq(tag + ": gradient is A^H C^-1 (p - d) of the full forward map", g, w, where="pxmcmc/forward.py calc_gradg")
                    c.seen(s)
                    c.sites += 2
                attempt(c, setting + ": gradient", part)


def A_(s, t):
    return Data(t, s.it.newloc())


def errors(kind):
    if kind == "scalar":
        return sym("sig_f", scalar=True, real=True, pytype="float", pos=True)
    if kind == "int":
        return sym("sig_i", scalar=True, real=True, integer=True, pytype="int", pos=True)
    if kind == "vector":
        return vec("sig_v", real=True, pytype="ndarray", len=ND, pos=True)
    if kind == "vector_m":
        return vec("sig_w", real=True, pytype="ndarray", len=integer("m", pos=True), pos=True)
    if kind == "matrix":
        return sym("Sigma", ndim=2, mat=True, pytype="ndarray", shape=node("tuple", ND, ND), len=ND)
    if kind == "matrix_mk":
        m, k = integer("m", pos=True), integer("k", pos=True)
        return sym("Sigma_mk", ndim=2, mat=True, pytype="ndarray", shape=node("tuple", m, k), len=m)


def pinv_cut(t):
    """a pseudo-inverse with a cutoff of its own is not the inverse"""
    return ("ext:numpy.linalg.pinv",) if any(x.head == "ext" and x.args[0] == "numpy.linalg.pinv" and len(x.args) > 2 for x in subterms(t)) else ()


# ---------------------------------------------------------------- C09
def c09(c, root):
    c.assumptions += ["errors are positive; covariance matrices are invertible"]
    for cplx in (False, True):
        tag = "complex data" if cplx else "real data"

        def build(kind, setting="analysis"):
            s = Session(root)
            d = vec("data" + ("c" if cplx else "r"), len=ND, real=not cplx, pytype="ndarray")
            ev0 = len(s.it.events)
            sig = errors(kind)
            o = s.call(s.get("forward", "ForwardOperator"), d, sig, setting)
            c.seen(s)
            return s, o, sig, ev0

        def part(kind, want, label):
            s, o, sig, ev0 = build(kind)
            c.sites += 1
            r = raising(s.it, ev0)
            st = c.eq("%s, %s: accepted" % (tag, label), b2t(r), num(0), where="pxmcmc/forward.py")
            got = s.T(s.attr(o, "invcov"))
            c.eq("%s, %s: inverse covariance" % (tag, label), got, want(sig), where="pxmcmc/forward.py invcov", soft_ok=("diag_of",) + pinv_cut(got))
        for kind, label in (("scalar", "scalar error"), ("int", "integer error")):
            attempt(c, tag + label, lambda: part(kind, lambda v: mul(power(v, num(-2)), node("eye", ND, ND)), label))
        attempt(c, tag, lambda: part("vector", lambda v: node("diag", power(v, num(-2))), "vector of errors"))
        attempt(c, tag, lambda: part("matrix", lambda v: node("inv", v), "covariance matrix"))

        def rej():
            s, o, sig, ev0 = build("vector_m")
            c.eq("%s: a vector of errors is rejected exactly when its length differs from the data" % tag, b2t(raising(s.it, ev0)),
                 b2t(not_(cmp_("==", integer("m", pos=True), ND))), where="pxmcmc/forward.py")
            s, o, sig, ev0 = build("matrix_mk")
            bad = not_(cmp_("==", integer("m", pos=True), integer("k", pos=True)))
            rc = raising(s.it, ev0)
            c.eq("%s: a non-square covariance is rejected" % tag, b2t(and_(rc, bad)), b2t(bad), where="pxmcmc/forward.py")
            c.sites += 2
        attempt(c, tag + ": rejection", rej)


# ---------------------------------------------------------------- C10
SWAP = {"pyssht.forward": "pyssht.forward_adjoint", "pyssht.inverse": "pyssht.inverse_adjoint",
        "pyssht.forward_adjoint": "pyssht.forward", "pyssht.inverse_adjoint": "pyssht.inverse"}


class NotLinear(Exception):
    pass


class Nonlinear(Exception):
    """certainly not a complex linear map"""


def adjoint_word(lib, t, x, y):
    """the adjoint of the linear map x -> t, applied to y"""
    if t is x:
        return y
    has = lambda u: isinstance(u, tm.Term) and x in set(subterms(u))
    h = t.head
    if h == "poly":
        out = num(0)
        for cf, m in t.args[0]:
            fac = [(a, e) for a, e in m if has(a)]
            if len(fac) != 1 or fac[0][1] != 1:
                raise NotLinear(show(t))
            k = num(cf)
            for a, e in m:
                if a is not fac[0][0]:
                    k = mul(k, power(a, num(e)))
            out = add(out, adjoint_word(lib, fac[0][0], x, mul(conj(k), y)))
        return out
    if h == "flat":
        e = t.args[0]
        nd = lib.ndim_of(e)
        if nd == 1:
            return adjoint_word(lib, e, x, y)
        return adjoint_word(lib, e, x, lib.mk_reshape(y, lib.mk_shape(e)))
    if h == "reshape":
        return adjoint_word(lib, t.args[0], x, lib.mk_flat(y))
    if h == "getitem" and not has(t.args[1]):
        e = t.args[0]
        return adjoint_word(lib, e, x, lib.mk_store(lib.mk_full(lib.mk_shape(e), num(0), const("complex")), t.args[1], y))
    if h == "store" and not has(t.args[1]) and tm.is_num(t.args[2]) and tm.num_val(t.args[2]) == 0:
        return adjoint_word(lib, t.args[0], x, lib.mk_store(y, t.args[1], num(0)))
    if h == "store" and not has(t.args[1]):
        b = t.args[0]
        if b.head == "full" and tm.is_num(b.args[1]) and tm.num_val(b.args[1]) == 0:      # x may stand in its shape
            return adjoint_word(lib, t.args[2], x, lib.mk_getitem(y, t.args[1]))
    if h == "matmul" and not has(t.args[0]):
        return adjoint_word(lib, t.args[1], x, matmul(transpose(conj(t.args[0])), y))
    if h == "cast" and t.args[0] in ("complex",):
        return adjoint_word(lib, t.args[1], x, y)
    if h == "ext" and t.args[0] in SWAP:
        r = node("ext", SWAP[t.args[0]], y, *t.args[2:])
        props_like(r, lib)
        return adjoint_word(lib, t.args[1], x, r)
    if h == "ite" and not has(t.args[0]):
        return ite(t.args[0], adjoint_word(lib, t.args[1], x, y), adjoint_word(lib, t.args[2], x, y))
    if h in ("real", "imag", "abs", "conj", "clip", "round", "sign") and has(t.args[0]) and not tm.is_real(t.args[0]):
        raise Nonlinear(show(t))
    raise NotLinear(h)


def props_like(r, lib):
    n = r.args[0]
    if r.props is None and len(r.args) == 7:
        Lt = r.args[2]
        if n in ("pyssht.inverse", "pyssht.forward_adjoint"):
            sh = node("tuple", Lt, sub(mul(num(2), Lt), num(1)))
            r.props = dict(ndim=2, shape=sh, len=Lt)
        else:
            r.props = dict(ndim=1, vec=True, len=mul(Lt, Lt))


def word_norm(lib):
    """k * store(e, ix, 0) = store(k*e, ix, 0) for elementwise factors k"""
    def f(t):
        if t.head == "poly" and len(t.args[0]) == 1:
            cf, m = t.args[0][0]
            zs = [a for a, e in m if e == 1 and a.head == "store" and tm.is_num(a.args[2]) and tm.num_val(a.args[2]) == 0]
            if len(zs) == 1 and not (cf == 1 and len(m) == 1):
                k = num(cf)
                for a, e in m:
                    if a is not zs[0]:
                        k = mul(k, power(a, num(e)))
                return lib.mk_store(tm.rewrite(mul(k, zs[0].args[0]), f), zs[0].args[1], num(0))
        if t.head == "reshape" and t.args[0].head == "flat":
            return t.args[0].args[0]
        if t.head == "dtype" and t.args[0].head in ("sym", "ext"):           # zeros_like of the (possibly complex) argument itself
            return const("complex")
        return t
    return lambda t: tm.rewrite(t, f)


def linear_norm(t):
    """linear maps distributed over sums, scalar factors pulled out"""
    def f(u):
        if u.head == "meth" and len(u.args) == 3 and u.args[0] in ("forward", "adjoint", "inverse", "inverse_adjoint", "forward_adjoint"):
            out = num(0)
            for cf, m in tm._items(u.args[2]):
                k, rest = num(cf), num(1)
                for a, e in m:
                    if tm.is_scalar(a):
                        k = mul(k, power(a, num(e)))
                    else:
                        rest = mul(rest, power(a, num(e)))
                out = add(out, mul(k, node("meth", u.args[0], u.args[1], rest)))
            return out
        return u
    return tm.rewrite(t, f)


def pair(c, name, s, o, x, y, where):
    lib = s.it.lib
    f = s.T(s.method(o, "forward", x))
    a = s.T(s.method(o, "adjoint", y))
    c.seen(s)
    c.sites += 2
    xt, yt = s.T(x), s.T(y)
    try:
        want = adjoint_word(lib, f, xt, yt)
    except Nonlinear as e:
        c.bad(name + ": adjoint is the conjugate transpose of the forward map", "the forward map is not linear for complex inputs: %s" % clip(str(e), 200), where)
        return
    except NotLinear as e:
        c.open(name + ": adjoint", "forward map not followed: %s" % clip(str(e), 120), where)
        return
    nf = word_norm(lib)
    c.eq(name + ": adjoint is the conjugate transpose of the forward map", nf(a), nf(want), where=where, soft_ok=tuple("ext:" + n for n in SWAP))


def wl_cases(s):
    mask = sym("mask", ndim=2, shape=SHAPE, len=L, pytype="ndarray", real=True)
    ngal = sym("ngal", ndim=2, shape=SHAPE, len=L, pytype="ndarray", real=True, nonneg=True)
    return (("no mask", {}), ("mask", dict(mask=mask)), ("mask and galaxies", dict(mask=mask, ngal=ngal)), ("galaxies", dict(ngal=ngal)))


def c10(c, root):
    c.assumptions += ["library pairs pyssht.inverse/inverse_adjoint and forward/forward_adjoint are adjoint pairs (C30)"]
    m, n = integer("m", pos=True), integer("n", pos=True)
    lx, ly = integer("lx", nonneg=True), integer("ly", nonneg=True)

    def part(cls, mk, dom, ran, rej):
        s = Session(root)
        o = mk(s)
        pair(c, cls, s, o, vec("x_" + cls, len=dom), vec("y_" + cls, len=ran), "pxmcmc/measurements.py " + cls)
        if rej:
            for meth, want in (("forward", dom), ("adjoint", ran)):
                s = Session(root)
                o = mk(s)
                ev0 = len(s.it.events)
                s.method(o, meth, vec("z_any", len=lx))
                c.eq("%s.%s rejects exactly the inputs of the wrong length" % (cls, meth), b2t(raising(s.it, ev0)), b2t(not_(cmp_("==", lx, want))),
                     where="pxmcmc/measurements.py " + cls)
                c.sites += 1
    attempt(c, "Identity", lambda: part("Identity", lambda s: s.call(s.get("measurements", "Identity"), m, n), n, m, True))
    for nm, cx in (("real", False), ("complex", True)):
        P = sym("paths_" + nm, ndim=2, mat=True, shape=node("tuple", m, n), len=m, real=not cx, sparse=True)
        attempt(c, "PathIntegral", lambda: part("PathIntegral", lambda s: s.call(s.get("measurements", "PathIntegral"), P), n, m, True))
    attempt(c, "WeakLensingHarmonic", lambda: part("WeakLensingHarmonic", lambda s: s.call(s.get("measurements", "WeakLensingHarmonic"), L), mul(L, L), mul(L, L), False))
    for label, kw in wl_cases(None):
        def wl():
            s = Session(root)
            o = s.call(s.get("measurements", "WeakLensing"), L, **kw)
            pair(c, "WeakLensing/" + label, s, o, vec("kappa", len=NPIX), vec("gamma"), "pxmcmc/measurements.py WeakLensing")
        attempt(c, "WeakLensing/" + label, wl)


# ---------------------------------------------------------------- C11
PX = {"forward": "pys2let.analysis_px2wav", "inverse": "pys2let.synthesis_wav2px", "inverse_adjoint": "pys2let.synthesis_adjoint_px2wav",
      "forward_adjoint": "pys2let.analysis_adjoint_wav2px"}
LM_ = {"forward": "pys2let.analysis_lm2lmn", "inverse": "pys2let.synthesis_lmn2lm", "inverse_adjoint": "pys2let.synthesis_adjoint_lm2lmn",
       "forward_adjoint": "pys2let.analysis_adjoint_lmn2lm"}


ROUTINE_NAMES = ("pys2let.analysis_px2wav", "pys2let.analysis_lm2lmn", "pys2let.synthesis_adjoint_px2wav", "pys2let.synthesis_adjoint_lm2lmn")
ROUTINES = tuple("ext:" + n for d in (PX, LM_) for n in d.values())


def wav_params(dirs=DIRS, spin=SPIN, L_=L, B_=B, J_=J):
    return (B_, L_, J_, dirs, spin, num(0), FALSE, num(0))


def ncoef(kind, k, ps):
    t = node("ncoefs", kind, k, *ps)
    if t.props is None:
        t.props = {"scalar": True, "integer": True, "nonneg": True, "real": True}
    return t


def wavelet_spec(lib, meth, x, harmonic, ps):
    name = (LM_ if harmonic else PX)[meth]
    if meth in ("forward", "inverse_adjoint"):
        e = node("ext", name, x, *ps)
        return lib.mk_concat([lib.mk_proj(e, 1), lib.mk_proj(e, 0)])
    ns = ncoef("lm2lmn" if harmonic else "px2wav", 1, ps)
    wav = lib.mk_getitem(x, lib.mk_slice(ns, NONE, NONE))
    scal = lib.mk_getitem(x, lib.mk_slice(NONE, ns, NONE))
    return node("ext", name, wav, scal, *ps)


def complex_arguments(c, root):
    """the wavelet library takes complex arrays only: vectors of real numbers are converted before they are handed over"""
    import ast
    from . import lib as lb
    from .effects import trees
    tree = next((t for p, t in trees(root) if os.path.basename(p) == "transforms.py"), None)
    makers = ("zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like", "require", "ascontiguousarray", "asfortranarray", "view", "frombuffer", "result_type")
    if tree is None:
        return
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef) and x.name == "_get_ncoefs":
            x.body = [ast.Pass()]
    if any(isinstance(x, ast.Constant) and isinstance(x.value, complex) or isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in makers for x in ast.walk(tree)):
        return                      # other ways to make complex arrays are not followed here
    for harmonic in (False, True):
        s = Session(root)
        o = s.call(s.get("transforms", "SphericalWaveletTransform"), L, B, J, harmonic=harmonic, dirs=DIRS, spin=SPIN)
        for meth in ("forward", "inverse", "inverse_adjoint", "forward_adjoint"):
            x = vec("w_" + meth, real=True, pytype="ndarray")
            lb.KEEP_COMPLEX[0] = True
            try:
                got = s.T(s.method(o, meth, x))
            finally:
                lb.KEEP_COMPLEX[0] = False
            for y in tm.subterms(got):
                if y.head != "ext" or "ext:" + str(y.args[0]) not in ROUTINES:
                    continue
                for a in y.args[1:3]:
                    if not isinstance(a, tm.Term) or x not in tm.subterms(a):
                        continue
                    sub_ = list(tm.subterms(a))
                    where = "pxmcmc/transforms.py " + meth
                    name = "wavelets/%s: %s hands real vectors to the library as complex arrays" % ("harmonic" if harmonic else "pixel", meth)
                    c.sites += 1
                    if any(z.head == "cast" and z.args[0] == "complex" for z in sub_):
                        c.ok(name, "", where)
                    elif all(z.head in ("getitem", "slice", "tuple", "const", "num", "poly", "sym", "reshape", "concat", "ncoefs", "arr") or z.head == "proj" or z is x for z in sub_ if not is_size(z)):
                        c.bad(name, "argument %s stays real" % clip(show(a), 150), where)
                    else:
                        c.open(name, "argument %s" % clip(show(a), 150), where)
        c.seen(s)


def is_size(z):
    return bool(z.props and z.props.get("integer")) or z.head in ("ncoefs", "ext")


def c11(c, root):
    attempt(c, "complex arguments", lambda: complex_arguments(c, root))
    for harmonic in (False, True):
        for real in (True, False):
            for dflt in (False, True):
                if dflt and not real:
                    continue

                def part():
                    s = Session(root)
                    lib = s.it.lib
                    kw = {} if dflt else dict(dirs=DIRS, spin=SPIN)
                    ps = wav_params(num(1), num(0)) if dflt else wav_params()
                    o = s.call(s.get("transforms", "SphericalWaveletTransform"), L, B, J, harmonic=harmonic, **kw)
                    for e in s.it.events:
                        if e.kind == "call" and e.name in ROUTINE_NAMES and e.args and isinstance(e.args[0], tm.Term) and e.args[0].head == "full":
                            less = [tm.subst(sub(e.args[0].args[0], mul(L, L) if harmonic else NPIX), {L: num(k), B: num(2), J: num(0), DIRS: num(1), SPIN: num(0)}) for k in range(2, 8)]
                            if all(tm.is_num(x) for x in less):
                                c.fact("wavelets/%s: the coefficients are counted with a signal of the transform's size" % ("harmonic" if harmonic else "pixel"),
                                       all(tm.num_val(x) >= 0 for x in less), "the library reads past the %s entries it is given" % show(e.args[0].args[0]), e.where)
                    tag = "wavelets/%s/%s%s" % ("harmonic" if harmonic else "pixel", "real" if real else "complex", "/default dirs, spin" if dflt else "")
                    kind = "lm2lmn" if harmonic else "px2wav"
                    nw, ns = ncoef(kind, 0, ps), ncoef(kind, 1, ps)
                    for nm, w in (("nscal", ns), ("nwav", nw), ("ncoefs", add(nw, ns))):
                        c.eq("%s: %s is what the transform produces" % (tag, nm), s.T(s.attr(o, nm)), w, where="pxmcmc/transforms.py SphericalWaveletTransform")
                    jm = node("ext", "pys2let.pys2let_j_max", B, L, J)
                    if s.has(o, "nscales"):
                        c.eq(tag + ": number of scales", s.T(s.attr(o, "nscales")), add(sub(s.T(s.call_ext("pys2let.pys2let_j_max", B, L, J)), J), num(1)), where="pxmcmc/transforms.py")
                    for meth in ("forward", "inverse", "inverse_adjoint", "forward_adjoint"):
                        x = vec("v_%s%s" % (meth, "r" if real else "c"), real=real, pytype="ndarray")
                        got = s.T(s.method(o, meth, x))
                        c.eq("%s: %s calls its own routine with the common parameters and layout" % (tag, meth), got, wavelet_spec(lib, meth, x, harmonic, ps),
                             where="pxmcmc/transforms.py " + meth, soft_ok=ROUTINES)
                        c.sites += 1
                    c.seen(s)
                attempt(c, "wavelets", part)

    def ident():
        s = Session(root)
        o = s.call(s.get("transforms", "IdentityTransform"))
        for meth in ("forward", "inverse", "inverse_adjoint", "forward_adjoint"):
            x = vec("xi_" + meth)
            c.eq("IdentityTransform.%s returns its input" % meth, s.T(s.method(o, meth, x)), x, where="pxmcmc/transforms.py IdentityTransform")
            c.sites += 1
        c.seen(s)
    attempt(c, "IdentityTransform", ident)


# ---------------------------------------------------------------- C12
BAD = ("Analysis", "synth", "", "SYNTHESIS", "analysis ", "foo")


def c12(c, root):
    setting = sym("setting", pytype="str", scalar=True)
    okcond = or_(node("eqc", setting, const("analysis")), node("eqc", setting, const("synthesis")))
    sig = errors("scalar")
    d = vec("datar", len=ND, real=True, pytype="ndarray")
    P = sym("paths", ndim=2, mat=True, shape=node("tuple", ND, NPIX), len=ND)
    fw, ad, T = sym("fwd_handle"), sym("adj_handle"), scalar("T", pos=True, pytype="float")
    makers = {
        "ForwardOperator": lambda s, st: s.call(s.get("forward", "ForwardOperator"), d, sig, st),
        "SphericalWaveletTransformOperator": lambda s, st: s.call(s.get("forward", "SphericalWaveletTransformOperator"), d, sig, st, L, B, J, DIRS, SPIN),
        "PathIntegralOperator": lambda s, st: s.call(s.get("forward", "PathIntegralOperator"), P, d, sig, st, L, B, J, DIRS, SPIN),
        "L1": lambda s, st: s.call(s.get("prior", "L1"), st, fw, ad, T),
        "S2_Wavelets_L1": lambda s, st: s.call(s.get("prior", "S2_Wavelets_L1"), st, fw, ad, T, L, B, J, DIRS, SPIN),
        "S2_Wavelets_L1_Power_Weights": lambda s, st: s.call(s.get("prior", "S2_Wavelets_L1_Power_Weights"), st, fw, ad, T, L, B, J, DIRS, SPIN),
    }
    for cls, mk in makers.items():
        where = "constructor of " + cls

        def part():
            for st in BAD + (None, 1):
                s = Session(root)
                ev0 = len(s.it.events)
                mk(s, const(st))
                c.sites += 1
                c.eq("%s(setting=%r) raises" % (cls, st), b2t(raising(s.it, ev0)), num(1), where=where)
            for st in ("analysis", "synthesis"):
                if cls.startswith("S2") and st == "analysis":
                    continue
                s = Session(root)
                ev0 = len(s.it.events)
                mk(s, const(st))
                c.seen(s)
                c.eq("%s(setting=%r) is accepted" % (cls, st), b2t(raising(s.it, ev0)), num(0), where=where)
            if not cls.startswith("S2"):
                s = Session(root)
                ev0 = len(s.it.events)
                mk(s, setting)
                c.eq("%s raises exactly for settings other than analysis and synthesis" % cls, b2t(raising(s.it, ev0)), b2t(not_(okcond)), where=where)
        attempt(c, cls, part)
    # ready-made operators
    for cls in ("SphericalWaveletTransformOperator", "PathIntegralOperator"):
        for st in ("analysis", "synthesis"):
            for dflt, cx in ((False, False), (True, False), (False, True)):
                def part():
                    s = Session(root)
                    lib = s.it.lib
                    ps = wav_params(num(1), num(0)) if dflt else wav_params()
                    kw = {} if dflt else dict(dirs=DIRS, spin=SPIN)
                    C = s.get("forward", cls)
                    dd = vec("datar", len=ND, real=True, pytype="ndarray") if not cx else vec("datac", len=ND, pytype="ndarray")
                    o = s.call(C, dd, sig, st, L, B, J, **kw) if cls.startswith("Sph") else s.call(C, P, dd, sig, st, L, B, J, **kw)
                    tag = "%s/%s%s" % (cls, st, "/default dirs, spin" if dflt else "/complex data" if cx else "")
                    where = "pxmcmc/forward.py " + cls
                    np_ = NPIX if st == "analysis" else add(ncoef("px2wav", 0, ps), ncoef("px2wav", 1, ps))
                    c.eq(tag + ": number of parameters", s.T(s.attr(o, "nparams")), np_, where=where)
                    c.eq(tag + ": data are passed on", s.T(s.attr(o, "data")), dd, where=where)
                    c.eq(tag + ": errors are passed on", s.T(s.attr(o, "invcov")), mul(power(sig, num(-2)), node("eye", ND, ND)), where=where)
                    c.eq(tag + ": setting is passed on", s.T(s.attr(o, "setting")), const(st), where=where)
                    x = vec("xx_%s%s%d%d" % (st, cls, dflt, cx), len=np_, real=True, pytype="ndarray")
                    img = x if st == "analysis" else wavelet_spec(lib, "inverse", x, False, ps)
                    M = node("eye", ND, NPIX) if cls.startswith("Sph") else P
                    c.eq(tag + ": predictions", s.T(s.method(o, "forward", x)), matmul(M, img), where=where)
                    p = vec("pp_" + st, len=ND)
                    g = matmul(transpose(conj(M)), matmul(s.T(s.attr(o, "invcov")), sub(p, dd)))
                    if st == "synthesis":
                        g = wavelet_spec(lib, "inverse_adjoint", g, False, ps)
                    c.eq(tag + ": gradient", s.T(s.method(o, "calc_gradg", p)), g, where=where)
                    c.seen(s)
                    c.sites += 6
                attempt(c, cls, part)
    # base operator
    for st in ("analysis", "synthesis"):
        def part():
            s = Session(root)
            A, Tr = sym("measurement", obj=True), sym("transform", obj=True)
            o = s.call(s.get("forward", "ForwardOperator"), d, sig, st, Data(Tr, s.it.newloc()), Data(A, s.it.newloc()), integer("npar", pos=True))
            x = vec("xx")
            inner = x if st == "analysis" else node("meth", "inverse", Tr, x)
            c.eq("ForwardOperator/%s: predictions" % st, s.T(s.method(o, "forward", x)), node("meth", "forward", A, inner), where="pxmcmc/forward.py forward")
            c.eq("ForwardOperator/%s: number of parameters" % st, s.T(s.attr(o, "nparams")), integer("npar", pos=True), where="pxmcmc/forward.py")
        attempt(c, "ForwardOperator", part)
