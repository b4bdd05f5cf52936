"""Properties of thresholding, priors, layout, uncertainty, Chebyshev, geometry, lensing and mask helpers (C13, C14, C22-C26, C28)."""
import os
from . import terms as tm
from .terms import (sym, const, num, node, TRUE, FALSE, NONE, I, PI, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg, power, conj, realpart,
                    absv, sumall, matmul, subst, subterms, show, transpose)
from .model import Session, scalar, integer, Gone
from .interp import Data, Ref, Tup, AnalysisError
from .check import SOFT_PREFIX, clip, raising, raise_conds
from . import lib
from .lib import mk_getitem, ndim_of, mk_slice
from .arrays import Points, NoPoint, ixsym, inrange
from .operators import L, B, J, DIRS, SPIN, ND, W, NPIX, SHAPE, vec, attempt, A_, b2t

N = integer("n", pos=True)


def entries(c, name, t, idx, spec, assume=None, hints=(), where="", canon=False, alt=None, soft_ok=()):
    """the entry of array term t at idx is spec (both for all index values in range)"""
    if assume is None:
        assume = inrange(*[i for i in idx if i.head == "sym"])
    P = Points(assume, hints)
    try:
        got = P.read(t, idx)
        if canon:
            got = P.canon(got)
            spec = P.canon(spec)
            alt = [P.canon(a) for a in alt or ()]
    except NoPoint as e:
        c.open(name, "entry not resolved: %s" % clip(str(e), 150), where)
        return "undecided"
    return c.eq(name, got, spec, assume=assume, where=where, alt=alt, soft_ok=soft_ok)


def small(c, name, gen, where=""):
    """one particular size followed entry by entry, where the general case stays undecided: only a difference counts"""
    try:
        for label, t, idx, spec in gen():
            try:
                got = Points().read(t, idx)
            except NoPoint:
                continue
            v, d = c.verdict(got, spec)
            if v == "violation":
                c.bad("%s (%s)" % (name, label), d, where)
                return
    except (AnalysisError, RecursionError, tm.Blowup, NoPoint):
        pass


def shape_is(c, name, t, dims, where="", assume=TRUE):
    try:
        got = Points().dims(t)
    except NoPoint as e:
        c.open(name, "shape not resolved: %s" % clip(str(e), 120), where)
        return
    if len(got) != len(dims):
        c.bad(name, "shape (%s)" % ", ".join(show(x) for x in got), where)
        return
    return c.eq(name, node("tuple", *got), node("tuple", *dims), assume=assume, where=where)


def soft_entry(x, T):
    return ite(cmp_("<=", absv(x), T), num(0), sub(x, mul(T, div(x, absv(x)))))


# ---------------------------------------------------------------- C13
def c13(c, root):
    c.assumptions += ["thresholds are non-negative", "entries are finite"]
    i = ixsym("i", N)
    for cx in (False, True):
        for tv in (False, True):
            tag = "%s entries, %s threshold" % ("complex" if cx else "real", "vector" if tv else "scalar")

            def triple():
                s = Session(root)
                X = vec("X3", real=not cx, iscomplex=cx, len=num(3), pytype="ndarray")
                T = vec("T3", real=True, nonneg=True, len=num(3), pytype="ndarray") if tv else scalar("T", nonneg=True)
                t = s.T(s.call(s.get("utils", "soft"), A_(s, X), A_(s, T)))
                for k in range(3):
                    yield "three entries, entry %d" % k, t, [num(k)], soft_entry(mk_getitem(X, num(k)), mk_getitem(T, num(k)) if tv else T)

            def part():
                s = Session(root)
                X = vec("Xc" if cx else "Xr", real=not cx, iscomplex=cx, len=N, pytype="ndarray")
                T = vec("Tv", real=True, nonneg=True, len=N, pytype="ndarray") if tv else scalar("T", nonneg=True)
                n0 = len(s.it.events)
                t = s.T(s.call(s.get("utils", "soft"), A_(s, X), A_(s, T)))
                c.seen(s)
                c.sites += 1
                x, Ti = mk_getitem(X, i), (mk_getitem(T, i) if tv else T)
                name = "soft, %s: x/|x|*(|x|-T) where |x|>T, else 0" % tag
                if entries(c, name, t, [i], soft_entry(x, Ti), where="pxmcmc/utils.py soft") == "undecided":
                    small(c, name, triple, "pxmcmc/utils.py soft")
                for e in s.events("div", n0):
                    P = Points(inrange(i))
                    try:
                        d = P.read(e.term, [i])
                    except NoPoint as ex:
                        c.open("soft, %s: divisor" % tag, str(ex), e.where)
                        continue
                    c.eq("soft, %s: never divides by zero" % tag, b2t(cmp_("==", d, num(0))), num(0), where=e.where,
                         assume=and_(inrange(i), s.it.full_pc(e)))
            attempt(c, "soft, " + tag, part)
        tag = "complex" if cx else "real"

        def hard():
            s = Session(root)
            X = vec("Xc" if cx else "Xr", real=not cx, iscomplex=cx, len=N, pytype="ndarray")
            T = scalar("fraction", pos=True)
            t = s.T(s.call(s.get("utils", "hard"), A_(s, X), A_(s, T)))
            c.seen(s)
            c.sites += 1
            k = node("cast", "int", mul(N, T))
            x = mk_getitem(X, i)
            srt = node("sort", absv(X))

            def want(pos):
                v = mk_getitem(srt, pos)
                if v.props is None:
                    v.props = dict(scalar=True, real=True)
                return ite(cmp_("<", absv(x), v), num(0), x)
            entries(c, "hard, %s: keeps what reaches the int(T*n)-th largest magnitude, zeroes the rest" % tag, t, [i], want(neg(k)),
                    alt=[want(sub(N, k))], where="pxmcmc/utils.py hard")
        attempt(c, "hard, " + tag, hard)


# ---------------------------------------------------------------- C24
def cheb_terms(n, z):
    T, U = [num(1), z], [num(1), mul(num(2), z)]
    for k in range(2, n + 1):
        T.append(sub(mul(mul(num(2), z), T[-1]), T[-2]))
        U.append(sub(mul(mul(num(2), z), U[-1]), U[-2]))
    return T, U


def cheb_loops(it, z):
    """final values of loops that run the three-term recurrence, by induction over the iterations"""
    out = {}
    T, U = cheb_terms(4, z)
    for lp in it.loops.values():
        if lp.breaks or lp.returns:
            continue
        k = lp.k
        if lp.n is not None:
            N = lp.n
        else:
            N = iterations(lp)
            if N is None:
                continue
        for kind, vals in (("T", T), ("U", U)):
            hyp = {}
            for name, e in lp.entry.items():
                for off in range(4):
                    if name not in hyp and tm.same(e, vals[off]) and lp.mus[name] not in lp.known:
                        hyp[name] = off
            while hyp:
                mp = {lp.mus[x]: chebn(kind, add(k, num(off)), z) for x, off in hyp.items()}
                low = min(hyp.values())
                bad = []
                for x, off in hyp.items():
                    b = subst(subst(lp.back[x], mp), lp.known)
                    want = chebn(kind, add(k, num(off + 1)), z)
                    step = {chebn(kind, add(k, num(j + 2)), z): sub(mul(mul(num(2), z), chebn(kind, add(k, num(j + 1)), z)), chebn(kind, add(k, num(j)), z))
                            for j in range(low, low + 3)}
                    if not tm.same(tm.subst_fix(b, step), tm.subst_fix(want, step)):
                        bad.append(x)
                if not bad:
                    break
                for x in bad:
                    del hyp[x]
            for x, off in hyp.items():
                f = lp.final.get(x)
                if f is not None and f.head == "loopval" and f not in out:
                    out[f] = ite(cmp_("<=", num(0), N), chebn(kind, add(N, num(off)), z), lp.entry[x])
    return out


def iterations(lp):
    """number of iterations of  while counter < bound  with a counter that goes up by one"""
    c = lp.cond
    if c.head != "cmp" or c.args[1].head == "pair" or c.args[0] == "==":
        return None
    for name, m in lp.mus.items():
        if m in subterms(c.args[1]) and lp.back[name] is add(m, num(1)):
            p0 = subst(c.args[1], {m: lp.entry[name]})
            d = sub(subst(c.args[1], {m: add(m, num(1))}), c.args[1])
            if tm.is_num(d) and tm.num_val(d) == 1 and tm.is_int(p0):
                return neg(p0) if c.args[0] == "<" else sub(num(1), p0)
    return None


def c24(c, root):
    import os
    top = 12 if os.environ.get("VERIF_TIER") == "thorough" else 9
    z = scalar("z")
    T, U = cheb_terms(top, z)
    dT = [num(0)] + [mul(num(k), U[k - 1]) for k in range(1, top + 1)]
    names = {"chebyshev1": T, "chebyshev2": U, "cheb1der": dT}
    for fn, want in names.items():
        where = "pxmcmc/utils.py " + fn
        for k in range(top):
            def part():
                s = Session(root)
                n0 = len(s.it.events)
                v = s.T(s.call(s.get("utils", fn), z, num(k)))
                c.seen(s)
                c.sites += 1
                c.eq("%s order %d" % (fn, k), v, want[k], where=where)
                c.eq("%s order %d is accepted" % (fn, k), b2t(raising(s.it, n0)), num(0), where=where)
            attempt(c, "%s order %d" % (fn, k), part)

        def general():
            s = Session(root)
            n = integer("order", nonneg=True)
            v = s.T(s.call(s.get("utils", fn), z, n))
            recs = [x for x in subterms(v) if x.head == "rec"]
            sp = cheb_loops(s.it, z)
            for x in recs:
                f = str(x.args[0]).split(".")[-1]
                if f in ("chebyshev1", "chebyshev2") and len(x.args) == 3 and x.args[1] is z:
                    sp[x] = chebn("T" if f == "chebyshev1" else "U", x.args[2], z)
                    continue
                # a shared helper: the other arguments are the same in every call, one is the order
                od = [k for k, a in enumerate(x.args[1:], 1) if isinstance(a, tm.Term) and tm.is_num(sub(a, n))]
                rest = {tuple(a for k, a in enumerate(y.args) if k not in od) for y in recs if y.args[0] == x.args[0]}
                if len(od) == 1 and len(rest) == 1 and fn != "cheb1der" or len(od) == 1 and len(rest) == 1 and mul(num(2), z) in x.args:
                    sp[x] = chebn("U" if fn != "chebyshev1" else "T", x.args[od[0]], z)
            if fn == "cheb1der":
                spec = ite(cmp_("==", n, num(0)), num(0), mul(n, chebn("U", sub(n, num(1)), z)))
            else:
                k = "T" if fn == "chebyshev1" else "U"
                spec = ite(cmp_("==", n, num(0)), num(1), ite(cmp_("==", n, num(1)), z if k == "T" else mul(num(2), z),
                                                             sub(mul(mul(num(2), z), chebn(k, sub(n, num(1)), z)), chebn(k, sub(n, num(2)), z))))
            v2 = subst(v, sp) if sp else v
            if any(x.head in ("rec", "loopval", "opaque") for x in subterms(v2)):
                c.open("%s: every order" % fn, "not in recursive form; orders 0..%d are decided" % (top - 1), where)
                return
            if fn == "cheb1der":
                # U_{n-1} as unfolded by the code for orders 1 and 2
                u = lambda m: ite(cmp_("==", m, num(0)), num(1), ite(cmp_("==", m, num(1)), mul(num(2), z),
                                  sub(mul(mul(num(2), z), chebn("U", sub(m, num(1)), z)), chebn("U", sub(m, num(2)), z))))
                alt = [ite(cmp_("==", n, num(0)), num(0), mul(n, u(sub(n, num(1)))))]
                alt += [mul(n, chebn("U", sub(n, num(1)), z)), ite(cmp_("==", n, num(0)), num(0), mul(n, chebn("U", sub(n, num(1)), z))),
                        ite(cmp_("==", n, num(0)), num(0), ite(cmp_("==", n, num(1)), num(1), mul(n, chebn("U", sub(n, num(1)), z))))]
            else:
                first = z if k == "T" else mul(num(2), z)
                cn = chebn(k, n, z)
                alt = [cn, ite(cmp_("==", n, num(0)), num(1), cn), ite(cmp_("==", n, num(0)), num(1), ite(cmp_("==", n, num(1)), first, cn))]
            # the recurrence by itself, with smaller orders taken as given (induction over the order)
            c.eq("%s: recurrence for every order" % fn, v2, spec, alt=alt, where=where)
        attempt(c, fn + ": every order", general)

        def negative():
            s = Session(root)
            n = integer("order_any")
            n0 = len(s.it.events)
            s.call(s.get("utils", fn), z, n)
            cs = [x for x in raise_conds(s.it, n0)]
            r = or_(*[g for names, g, w, ii, e in cs if "ValueError" in names])
            neg_ = cmp_("<", n, num(0))
            c.eq("%s: negative orders raise ValueError" % fn, b2t(and_(r, neg_)), b2t(neg_), where=where)
        attempt(c, fn + ": negative", negative)


def chebn(kind, n, z):
    k = tm.int_val(n) if tm.is_num(n) else None
    if k is not None and k >= 0:
        T, U = cheb_terms(max(k, 1), z)
        return (T if kind == "T" else U)[k]
    t = node("cheb", kind, n, z)
    if t.props is None:
        t.props = dict(scalar=True, real=True)
    return t


# ---------------------------------------------------------------- C25
def positions(s, Lt, k, grid=False):
    t = s.T(s.call_ext("pyssht.sample_positions", Lt)) if not grid else None
    return lib.mk_proj(t, k)


def c25(c, root):
    r = scalar("r", pos=True)
    t1, t2, p1, p2 = (scalar(x) for x in ("theta1", "theta2", "phi1", "phi2"))
    where = "pxmcmc/utils.py "
    cos = lambda x: tm.rebuild("cos", (x,))

    def areas():
        s = Session(root)
        v = s.T(s.call(s.get("utils", "pixel_area"), r, t1, t2, p1, p2))
        c.eq("pixel_area", v, mul(mul(mul(r, r), sub(node("cos", t1), node("cos", t2))), sub(p2, p1)), where=where + "pixel_area")
        v = s.T(s.call(s.get("utils", "polar_cap_area"), r, t1))
        c.eq("polar_cap_area", v, mul(mul(num(2), mul(PI, mul(r, r))), sub(num(1), node("cos", t1))), where=where + "polar_cap_area")
        c.seen(s)
        c.sites += 2
    attempt(c, "areas", areas)

    def three(spec, i, j, n):
        s = Session(root)
        t = s.T(s.call(s.get("utils", "calc_pixel_areas"), num(n), r))
        for a in range(n):
            for b in range(2 * n - 1):
                yield "L = %d, pixel %d, %d" % (n, a, b), t, [num(a), num(b)], subst(spec, {i: num(a), j: num(b), L: num(n)})

    def pixmap():
        s = Session(root)
        t = s.T(s.call(s.get("utils", "calc_pixel_areas"), L, r))
        c.seen(s)
        c.sites += 1
        i, j = ixsym("i", L), ixsym("j", W)
        th, ph = positions(s, L, 0), positions(s, L, 1)
        shape_is(c, "pixel area map has shape (L, 2L-1)", t, (L, W), where + "calc_pixel_areas")
        thi = lambda k: node("cos", mk_getitem(th, k))
        nxt = ite(cmp_("<", add(j, num(1)), W), mk_getitem(ph, add(j, num(1))), mul(num(2), PI))
        spec = ite(cmp_("==", i, num(0)),
                   div(mul(mul(mul(num(2), PI), mul(r, r)), sub(num(1), thi(num(0)))), W),
                   mul(mul(mul(r, r), sub(thi(sub(i, num(1))), thi(i))), sub(nxt, mk_getitem(ph, j))))
        name = "pixel areas: first cap split over its ring, then rings between consecutive samples, last longitude closed at 2*pi"
        if entries(c, name, t, [i, j], spec, where=where + "calc_pixel_areas") == "undecided":
            for n in (3, 4, 6):
                small(c, name, lambda: three(spec, i, j, n), where + "calc_pixel_areas")
    attempt(c, "calc_pixel_areas", pixmap)

    m = integer("m")

    def mww(x):
        return ite(cmp_("==", x, num(1)), div(mul(I, PI), num(2)), ite(cmp_("==", x, num(-1)), neg(div(mul(I, PI), num(2))),
                   ite(cmp_("==", lib.mk_mod(x, num(2)), num(0)), div(num(2), sub(num(1), mul(x, x))), num(0))))

    def w1():
        s = Session(root)
        v = s.T(s.call(s.get("utils", "mw_weights"), m))
        c.seen(s)
        c.sites += 1
        for case, asm in (("m = 1", cmp_("==", m, num(1))), ("m = -1", cmp_("==", m, num(-1))),
                          ("other m", and_(not_(cmp_("==", m, num(1))), not_(cmp_("==", m, num(-1)))))):
            c.eq("mw_weights, %s" % case, v, mww(m), assume=asm, where=where + "mw_weights")
    attempt(c, "mw_weights", w1)

    def wth(s, k, Lt):
        """theta weights, entry k"""
        Wt = sub(mul(num(2), Lt), num(1))
        q = node("idx", "arr0")
        if q.props is None:
            q.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        mm = sub(q, sub(Lt, num(1)))
        body = mul(mww(mm), tm.rebuild("exp", (neg(div(mul(mul(I, mm), PI), Wt)),)))
        a = node("arr", node("tuple", Wt), tm.close(q, body))
        if a.props is None:
            a.props = dict(ndim=1, vec=True, shape=node("tuple", Wt), len=Wt)
        f = s.T(s.call_ext("numpy.fft.fft", s.val(s.T(s.call_ext("numpy.fft.ifftshift", a)))))
        e = mk_getitem(f, k)
        return div(mul(mul(num(2), PI), realpart(e)), mul(Wt, Wt))

    def w2():
        s = Session(root)
        t = s.T(s.call(s.get("utils", "weights_theta"), L))
        c.seen(s)
        c.sites += 1
        k = ixsym("k", W)
        entries(c, "weights_theta: real part of the transformed shifted weights", t, [k], wth(s, k, L), where=where + "weights_theta", canon=True)
    attempt(c, "weights_theta", w2)

    def w33(n):
        s = Session(root)
        w = 2 * n - 1
        wt = vec("wr%d" % n, real=True, len=num(w), pytype="ndarray")
        s.it.summaries["utils.weights_theta"] = lambda interp, st, args, nd: interp.data(wt)
        t = s.T(s.call(s.get("utils", "mw_map_weights"), num(n)))
        for i in range(n):
            for j in range(w):
                yield "L = %d, ring %d" % (n, i), t, [num(w * i + j)], add(mk_getitem(wt, num(i)), mk_getitem(wt, num(w - 1 - i)) if i < n - 1 else num(0))

    def w3():
        s = Session(root)
        wt = vec("wr", real=True, len=W, pytype="ndarray")
        s.it.summaries["utils.weights_theta"] = lambda interp, st, args, nd: interp.data(wt)
        t = s.T(s.call(s.get("utils", "mw_map_weights"), L))
        c.seen(s)
        c.sites += 1
        i, j = ixsym("i", L), ixsym("j", W)
        fold = add(mk_getitem(wt, i), ite(cmp_("<", i, sub(L, num(1))), mk_getitem(wt, sub(sub(mul(num(2), L), num(2)), i)), num(0)))
        shape_is(c, "map weights have L(2L-1) entries", t, (NPIX,), where + "mw_map_weights")
        name = "map weights: theta weights folded onto the L rings, constant along rings"
        if entries(c, name, t, [add(mul(i, W), j)], fold, assume=inrange(i, j), where=where + "mw_map_weights") == "undecided":
            for n in (3, 4, 6):
                small(c, name, lambda: w33(n), where + "mw_map_weights")
        f = vec("f", len=NPIX, pytype="ndarray")
        v = s.T(s.call(s.get("utils", "s2_integrate"), A_(s, f), L))
        c.eq("s2_integrate is the sum of weight times value", v, sumall(mul(t, f)), where=where + "s2_integrate")
    attempt(c, "mw_map_weights", w3)

    def w4():
        s = Session(root)
        a, b = vec("sig"), vec("noi")
        n2 = lambda x: power(sumall(mul(x, conj(x))), num("1/2") if False else div(num(1), num(2)))
        v = s.T(s.call(s.get("utils", "norm"), A_(s, a)))
        c.eq("norm is the 2-norm", v, n2(a), where=where + "norm")
        v = s.T(s.call(s.get("utils", "snr"), A_(s, a), A_(s, b)))
        c.seen(s)
        c.eq("snr is 20*log10(||signal||/||noise||)", v, mul(num(20), tm.rebuild("log10", (div(n2(a), n2(b)),))), where=where + "snr")
        c.sites += 2
    attempt(c, "snr", w4)


# ---------------------------------------------------------------- C26
def c26(c, root):
    where = "pxmcmc/measurements.py "
    l = ixsym("l", L)
    m = sym("mm", scalar=True, real=True, integer=True)
    pos = add(add(mul(l, l), l), m)
    asm = and_(inrange(l), cmp_("<=", neg(l), m), cmp_("<=", m, l), cmp_("<", pos, mul(L, L)))     # l^2+l+m <= l^2+2l < (l+1)^2 <= L^2
    hints = [[sub(l, num(d)) for d in range(4)]]
    high = and_(cmp_("<=", num(2), l), cmp_("<=", num(4), pos))     # l^2+l+m >= l^2 >= 4
    kern = neg(power(div(mul(add(l, num(2)), sub(l, num(1))), mul(add(l, num(1)), l)), div(num(1), num(2))))
    low = sym("p", scalar=True, real=True, integer=True, nonneg=True)
    lowasm = and_(cmp_("<=", low, num(3)), cmp_("<", low, mul(L, L)))

    def four(cls, meth, want, top=4):
        s = Session(root)
        o = s.call(s.get("measurements", cls), num(top))
        x = vec("flm", len=num(top * top), pytype="ndarray")
        t = s.T(s.method(o, meth, A_(s, x)))
        ref = vec("flm", len=mul(L, L), pytype="ndarray")
        for ll in range(2, top):
            for mm in range(-ll, ll + 1):
                yield "L = %d, l = %d, m = %d" % (top, ll, mm), t, [num(ll * ll + ll + mm)], subst(subst(want, {l: num(ll), m: num(mm)}), {ref: x})

    def kernel(cls):
        s = Session(root)
        n0 = len(s.it.events)
        o = s.call(s.get("measurements", cls), L)
        c.seen(s)
        x = vec("flm", len=mul(L, L), pytype="ndarray")
        base = "WeakLensingHarmonic"
        f = s.T(s.method(o, "harmonic_mapping", A_(s, x))) if cls != base else s.T(s.method(o, "forward", A_(s, x)))
        g = s.T(s.method(o, "sks_estimate", A_(s, x)))
        c.sites += 2
        e = mk_getitem(x, pos)
        for name, meth, t, want, at in ((": coefficients of degree >= 2 are multiplied by -sqrt((l+2)(l-1)/((l+1)l))", "harmonic_mapping", f, mul(kern, e), "harmonic_mapping"),
                                        (": the Kaiser-Squires estimate divides by the same kernel", "sks_estimate", g, div(e, kern), "harmonic_inverse_mapping")):
            if entries(c, cls + name, t, [pos], want, assume=and_(asm, high), hints=hints, where=where + at) == "undecided":
                for top in (4, 7):
                    small(c, cls + name, lambda: four(cls, meth, want, top), where + at)
        for nm, t in (("lensing", f), ("Kaiser-Squires", g)):
            entries(c, "%s: %s removes monopole and dipole" % (cls, nm), t, [low], num(0), assume=lowasm, where=where + "harmonic_mapping")
            shape_is(c, "%s: %s keeps L^2 coefficients" % (cls, nm), t, (mul(L, L),), where + "harmonic_mapping")
    for cls in ("WeakLensingHarmonic", "WeakLensing"):
        attempt(c, cls + ": kernel", lambda: kernel(cls))

    def lraise(cls):
        s = Session(root)
        Lx = integer("Lany")
        n0 = len(s.it.events)
        s.call(s.get("measurements", cls), Lx)
        bad = cmp_("<", Lx, num(1))
        r = raising(s.it, n0, "ValueError")
        c.eq("%s: bandlimits below 1 raise ValueError" % cls, b2t(and_(r, bad)), b2t(bad), where=where + "__init__")
        rr = raising(s.it, n0)
        if cls == "WeakLensingHarmonic":
            c.eq("%s: bandlimits of 1 and more are accepted" % cls, b2t(and_(rr, not_(bad))), num(0), where=where + "__init__")
        c.seen(s)
    for cls in ("WeakLensingHarmonic", "WeakLensing"):
        attempt(c, cls + ": bandlimit", lambda: lraise(cls))

    a, b = integer("rows", pos=True), integer("cols", pos=True)
    anyshape = node("tuple", a, b)
    fits = and_(cmp_("==", a, L), cmp_("==", b, W))

    def masks():
        s = Session(root)
        mk = sym("mask_any", ndim=2, shape=anyshape, len=a, pytype="ndarray", real=True)
        n0 = len(s.it.events)
        s.call(s.get("measurements", "WeakLensing"), L, mask=A_(s, mk))
        c.seen(s)
        r = raising(s.it, n0, "ValueError")
        c.eq("masks of the wrong shape raise ValueError", b2t(and_(r, not_(fits))), b2t(not_(fits)), where=where + "WeakLensing.__init__")
        c.sites += 1
    attempt(c, "mask shape", masks)

    def nanless(s, n0, t):
        """condition under which NaN checks fire are atoms on the signal itself"""
        return s

    for mode in ("no mask", "mask"):
        def part():
            s = Session(root)
            mask = sym("mask", ndim=2, shape=SHAPE, len=L, pytype="ndarray", real=True)
            o = s.call(s.get("measurements", "WeakLensing"), L, **({"mask": A_(s, mask)} if mode == "mask" else {}))
            M = s.T(s.attr(o, "mask"))
            if mode == "mask":
                nm = "mask, %s: kept as given, as booleans" % mode
                if tm.is_bool(M):
                    i0, i1 = ixsym("r0", L), ixsym("r1", SHAPE.args[1])
                    c.eq(nm, b2t(Points().cond(M, [i0, i1])), b2t(not_(cmp_("==", mk_getitem(mask, node("tuple", i0, i1)), num(0)))), where=where + "WeakLensing.__init__")
                else:
                    c.eq(nm, M, node("cast", "bool", mask), where=where + "WeakLensing.__init__", alt=[tm.truth(mask)])
            f = sym("f", ndim=2, shape=SHAPE, len=L, pytype="ndarray")
            n0 = len(s.it.events)
            t = s.T(s.method(o, "mask_forward", A_(s, f)))
            c.eq("mask_forward, %s: the unmasked pixels in order" % mode, t, mk_getitem(f, M), where=where + "mask_forward")
            isnan = nan_any(s, f)
            rr = raise_conds(s.it, n0)
            r = or_(*[g for names, g, w, ii, e in rr if "ValueError" in names])
            c.eq("mask_forward, %s: NaN signals raise ValueError" % mode, b2t(and_(r, isnan)), b2t(isnan), where=where + "mask_forward")
            c.eq("mask_forward, %s: other signals of the right shape are accepted" % mode, b2t(and_(or_(*[g for _, g, _, _, _ in rr]), not_(isnan))), num(0),
                 where=where + "mask_forward")
            y = vec("y", pytype="ndarray")
            n0 = len(s.it.events)
            t = s.T(s.method(o, "mask_adjoint", A_(s, y)))
            c.eq("mask_adjoint, %s: puts the pixels back, zeros elsewhere" % mode, t, node("store", node("full", SHAPE, num(0), const("complex")), M, y),
                 where=where + "mask_adjoint")
            isnan = nan_any(s, y)
            rr = raise_conds(s.it, n0)
            r = or_(*[g for names, g, w, ii, e in rr if "ValueError" in names])
            c.eq("mask_adjoint, %s: NaN signals raise ValueError" % mode, b2t(and_(r, isnan)), b2t(isnan), where=where + "mask_adjoint")
            c.eq("mask_adjoint, %s: other signals are accepted" % mode, b2t(and_(or_(*[g for _, g, _, _, _ in rr]), not_(isnan))), num(0),
                 where=where + "mask_adjoint")
            f2 = sym("f_any", ndim=2, shape=anyshape, len=a, pytype="ndarray")
            n0 = len(s.it.events)
            s.method(o, "mask_forward", A_(s, f2))
            r = raising(s.it, n0, "ValueError")
            c.eq("mask_forward, %s: signals of the wrong shape raise ValueError" % mode, b2t(and_(r, not_(fits))), b2t(not_(fits)), where=where + "mask_forward")
            c.seen(s)
            c.sites += 3
            ng = sym("ngal", ndim=2, shape=SHAPE, len=L, pytype="ndarray", real=True, nonneg=True)
            kw = {"mask": A_(s, mask)} if mode == "mask" else {}
            o2 = s.call(s.get("measurements", "WeakLensing"), L, ngal=A_(s, ng), **kw)
            wgt = power(div(mul(num(2), mk_getitem(ng, M)), const(0.37 ** 2) if False else mul(const(0.37), const(0.37))), div(num(1), num(2)))
            v = vec("v", pytype="ndarray")
            t = s.T(s.method(o2, "cov_weight", A_(s, v)))
            c.eq("galaxy weights, %s: sqrt(2 n / 0.37^2)" % mode, evenly(t), mul(v, wgt), where=where + "ngal_to_inv_cov", soft_ok=("mean", "amax", "amin", "sumall", "cast"))
            t = s.T(s.method(o, "cov_weight", A_(s, v)))
            one = mk_getitem(node("full", SHAPE, num(1), const("float")), M)
            c.eq("galaxy weights, %s: unit weights without galaxy counts" % mode, t, mul(v, one), where=where + "cov_weight", alt=[v])
        attempt(c, "masking, " + mode, part)


def evenly(t):
    """entrywise products with arrays of one repeated number"""
    ones = {a: a.args[1] for m in tm.poly(t) for a, e in m if a.head == "full" and isinstance(a.args[1], tm.Term) and tm.is_num(a.args[1])}
    return subst(t, ones) if ones and len([m for m in tm.poly(t)]) == 1 else t


def nan_any(s, f):
    """the condition np.any(np.isnan(f)) as the analysis represents it"""
    v = lib.call_numpy(s.it, s.st, "numpy", "any", [lib.call_numpy(s.it, s.st, "numpy", "isnan", [Data(f)], {}, None)], {}, None)
    return tm.truth(s.T(v))


# ---------------------------------------------------------------- C28
def c28(c, root):
    where = "pxmcmc/utils.py build_mask"

    def part():
        s = Session(root)
        size = scalar("size")
        t = s.T(s.call(s.get("utils", "build_mask"), L, size))
        c.seen(s)
        c.sites += 1
        i, j = ixsym("i", L), ixsym("j", W)
        shape_is(c, "the mask has shape (L, 2L-1)", t, (L, W), where)
        P = Points(inrange(i, j))
        try:
            e = P.read(t, [i, j])
        except NoPoint as ex:
            c.open("mask entries", "entry not resolved: %s" % ex, where)
            return
        th = mk_getitem(positions(s, L, 0), i)
        deg = lambda x: div(mul(num(180), x), PI)
        band = cmp_("<", absv(sub(num(90), deg(th))), size)
        # the galactic band: the condition on the galactic latitude the code uses
        gal = [x for x in subterms(e) if x.head == "getitem" and is_gal(x.args[0])]
        if not gal:
            att = [x for x in subterms(e) if x.head == "attr"]
            if att:
                c.open("galactic latitude", "form of the coordinate transform not recognised", where)
            elif any(x.head in ("loopval", "opaque") for x in subterms(e)):
                c.open("galactic latitude", "mask not resolved", where)
            else:
                c.bad("pixels close to the galactic plane are masked", "the mask does not depend on a galactic latitude", where)
            return
        # pixel positions handed to the coordinate transform
        tg = lib.mk_proj(s.T(s.call_ext("pyssht.sample_positions", L, const("MW"), TRUE)), 0)
        pg = lib.mk_proj(s.T(s.call_ext("pyssht.sample_positions", L, const("MW"), TRUE)), 1)
        th2, ph2 = grid_entry(i, j, positions(s, L, 0), positions(s, L, 1), tg, pg)
        u = None
        for x in gal:
            ix = x.args[1]
            c.eq("the galactic band is applied pixel by pixel", ix, node("tuple", i, j), where=where)
            sc = gal_coord(x.args[0])
            if isinstance(sc, str):
                c.bad("the position of every pixel (up to its antipode) is transformed", sc, where)
                return
            if x.args[0].args[0].args[1] != "b":
                c.bad("pixels close to the galactic plane are masked", "uses the galactic longitude", where)
                return
            if sc is None:
                c.open("galactic latitude", "form of the coordinate transform not recognised", where)
                return
            lon, lat, unit, frame = sc
            try:
                lo, la = P.read(lon, [i, j]), P.read(lat, [i, j])
            except NoPoint as ex:
                c.open("galactic latitude", str(ex), where)
                return
            lo, la = subst(lo, gridmap(lo, tg, pg, positions(s, L, 0), positions(s, L, 1), i, j)), subst(la, gridmap(la, tg, pg, positions(s, L, 0), positions(s, L, 1), i, j))
            ph, tt = mk_getitem(positions(s, L, 1), j), th
            if unit in ("deg", "degree"):
                opts = [(deg(ph), sub(num(90), deg(tt))), (sub(deg(ph), num(180)), sub(deg(tt), num(90))), (add(deg(ph), num(180)), sub(deg(tt), num(90)))]
            elif unit in ("rad", "radian"):
                h = div(PI, num(2))
                opts = [(ph, sub(h, tt)), (sub(ph, PI), sub(tt, h)), (add(ph, PI), sub(tt, h))]
            else:
                c.open("galactic latitude", "unit not recognised", where)
                return
            opts = [node("tuple", *o) for o in opts]
            c.eq("the position of every pixel (up to its antipode) is transformed", node("tuple", lo, la), opts[0], alt=opts[1:], where=where)
            g = cmp_("<", absv(x if x.args[0].args[1] in ("degree", "deg", "value") else deg(x)), size)
            c.eq("0 in the equatorial and in the galactic band, 1 elsewhere", e, ite(or_(band, g), num(0), num(1)), assume=inrange(i, j), where=where)
    attempt(c, "build_mask", part)


def is_gal(t):
    return t.head == "attr" and t.args[1] in ("degree", "deg", "value", "radian", "rad") and t.args[0].head == "attr" and t.args[0].args[1] in ("b", "l")


def gal_coord(t):
    """(longitude, latitude, unit, frame) of the transformed SkyCoord"""
    x = t.args[0].args[0]
    if x.head == "meth" and x.args[0] == "transform_to" and len(x.args) == 3 and x.args[2].head == "const" and str(x.args[2].args[0]).lower() == "galactic":
        x = x.args[1]
    elif x.head == "attr" and x.args[1] == "galactic":
        x = x.args[0]
    else:
        return None
    if x.head != "ext" or not str(x.args[0]).endswith("SkyCoord"):
        return None
    a = [y for y in x.args[1:] if not (isinstance(y, tm.Term) and y.head == "kw")]
    kw = {y.args[0]: y.args[1] for y in x.args[1:] if isinstance(y, tm.Term) and y.head == "kw"}
    kw = {(k if isinstance(k, str) else k.args[0]): v for k, v in kw.items()}
    lon = a[0] if len(a) > 0 else kw.get("ra")
    lat = a[1] if len(a) > 1 else kw.get("dec")
    u = kw.get("unit")
    fr = kw.get("frame")
    if fr is not None and not (fr.head == "const" and fr.args[0] == "icrs"):
        return "positions taken as %s coordinates" % fr.args[0] if fr.head == "const" and isinstance(fr.args[0], str) else None
    if lon is None or lat is None or u is None or u.head != "const" or set(kw) - {"unit", "ra", "dec", "frame"}:
        return None
    return lon, lat, u.args[0], "icrs"


def grid_entry(i, j, th, ph, tg, pg):
    return mk_getitem(tg, node("tuple", i, j)), mk_getitem(pg, node("tuple", i, j))


def gridmap(t, tg, pg, th, ph, i, j):
    """entries of the gridded positions are those of the separate position vectors"""
    out = {}
    for x in subterms(t):
        if x.head == "getitem" and x.args[1].head == "tuple" and len(x.args[1].args) == 2:
            if x.args[0] is tg:
                out[x] = mk_getitem(th, x.args[1].args[0])
            elif x.args[0] is pg:
                out[x] = mk_getitem(ph, x.args[1].args[1])
    return out


# ---------------------------------------------------------------- C14, C22, C23: layout of coefficient vectors
ETA = scalar("eta")
NSC = node("nscales", B, L, J)
if NSC.props is None:
    NSC.props = {"scalar": True, "integer": True, "nonneg": True, "real": True}
NTOT = add(num(1), NSC)


def counter(name):
    k = node("idx", name)
    if k.props is None:
        k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
    return k


class Pieces:
    """the consecutive pieces of a concatenation: [(count or None, function of the piece number)]"""

    def __init__(self, t):
        self.segs = []
        self.add(t)

    def add(self, t, f=lambda x: x):
        h = t.head
        if h == "concat":
            for a in t.args:
                self.add(a, f)
        elif h == "concatmap":
            lam = t.args[1]
            self.segs.append((t.args[0], lambda k, lam=lam: f(tm.open_(lam, k))))
        elif h == "flat" and t.args[0].head in ("concat", "concatmap"):
            self.add(t.args[0], f)
        elif h == "poly" and len(t.args[0]) == 1:
            cf, m = t.args[0][0]
            arr = [(a, e) for a, e in m if not tm.is_scalar(a)]
            if len(arr) == 1 and arr[0][1] == 1 and arr[0][0].head in ("concat", "concatmap"):
                k = num(cf)
                for a, e in m:
                    if a is not arr[0][0]:
                        k = mul(k, power(a, num(e)))
                self.add(arr[0][0], lambda x: mul(k, f(x)))
            else:
                self.segs.append((None, lambda k: f(t)))
        elif h == "fstore":
            n, lam = t.args[1], t.args[2]
            k = counter("pc")
            b = tm.open_(lam, k)
            if b.head == "stores" and len(b.args) == 1 and b.args[0].args[0].head == "slice":
                lo, hi, st = b.args[0].args[0].args
                val = b.args[0].args[1]
                if st is NONE and lo.head == "psum" and lo.args[0] is k and tm.same(sub(hi, lo), tm.open_(lo.args[1], k)):
                    self.segs.append((n, lambda q: f(subst(val, {k: q}))))
                    return
            raise NoPoint("fold into a vector")
        else:
            self.segs.append((None, lambda k: f(t)))

    def scale(self, which, q):
        """piece of scale 0 (which=0) or of scale q+1 (which=1) out of 1 + nscales; None if not that many"""
        s = self.segs
        if len(s) == 1 and s[0][0] is not None:
            if not tm.same(s[0][0], NTOT):
                return None
            return s[0][1](num(0) if which == 0 else add(q, num(1)))
        if len(s) == 2 and s[0][0] is None and s[1][0] is not None:
            if not tm.same(s[1][0], NSC):
                return None
            return s[0][1](num(0)) if which == 0 else s[1][1](q)
        if len(s) == 2 and s[1][0] is None and s[0][0] is not None and tm.same(s[0][0], NSC):
            return s[0][1](num(0)) if which == 0 else None
        return None


def wrong_origin(s, which, pc):
    """is the piece made from the other family of functions of the tiling?"""
    own, other = tiling(s, which), tiling(s, 1 - which)
    PT = Points(inrange(ixsym("q", NSC)))
    try:
        pc = PT.canon(PT.resolve(pc))
    except NoPoint:
        return False
    sub_ = set(subterms(pc))
    return other in sub_ and own not in sub_


def tiling(s, k, dirs=DIRS, spin=SPIN):
    return lib.mk_proj(s.T(s.call_ext("pys2let.wavelet_tiling", B, L, dirs, J, spin)), k)


def same_tiling(c, s, w, name, where):
    """every tiling the array is made of is the one of the given bandlimit, scale parameter, minimum scale, directions and spin"""
    ref = s.T(s.call_ext("pys2let.wavelet_tiling", B, L, DIRS, J, SPIN))
    ok = True
    for x in sorted({y for y in subterms(w) if y.head == ref.head and y.args[:1] == ref.args[:1]}, key=lambda y: y.id):
        if len(x.args) == len(ref.args):
            ok = c.eq(name, node("tuple", *x.args[1:]), node("tuple", *ref.args[1:]), where=where) == "ok" and ok
    return ok


def gamma_arr(s, which, q, dirs=DIRS, spin=SPIN):
    """harmonic line of scale 0 or q+1 of the tiling, as an array over l < L"""
    phi, psi = tiling(s, 0, dirs, spin), tiling(s, 1, dirs, spin)
    if which == 0:
        return phi
    el = counter("arr0")
    a = node("arr", node("tuple", L), tm.close(el, mk_getitem(psi, node("tuple", add(mul(el, el), el), q))))
    if a.props is None:
        a.props = dict(ndim=1, vec=True, shape=node("tuple", L), len=L)
    return a


def bandlimit(s, which, q, dirs=DIRS, spin=SPIN):
    g = gamma_arr(s, which, q, dirs, spin)
    nz = lib.mk_proj(node("nonzero", g), 0)
    v = node("amax", nz)
    if v.props is None:
        v.props = dict(scalar=True, real=True, integer=True, nonneg=True)
    return add(num(1), v)


def nsamp(bl):
    return sub(mul(num(2), mul(bl, bl)), bl)


def build_prior(s, cls, setting, extra=()):
    fw, ad = sym("fwd", obj=True), sym("adj", obj=True)
    a = [setting, A_(s, fw), A_(s, ad), scalar("T", pos=True)]
    if cls != "L1":
        a += [L, B, J, DIRS, SPIN]
    return s.call(s.get("prior", cls), *(a + list(extra))), fw, ad


def mws_summary(interp, st, args, nd):
    """mw_map_weights(L) as an array of L(2L-1) weights (what C25 establishes)"""
    if len(args) != 1:
        return None
    t = interp.T(args[0], st)
    r = node("ext", "mw_map_weights", t)
    if r.props is None:
        r.props = dict(vec=True, ndim=1, real=True, len=nsamp(t), shape=node("tuple", nsamp(t)))
    return interp.data(r)


def c14(c, root):
    c.assumptions += ["threshold T > 0", "fwd and adj are the functions given by the user"]
    T = scalar("T", pos=True)
    i = ixsym("i", N)
    where = "pxmcmc/prior.py "
    X = vec("X", len=N, pytype="ndarray")

    def plain():
        s = Session(root)
        o, fw, ad = build_prior(s, "L1", "synthesis")
        c.eq("L1 synthesis: prior is the 1-norm", s.T(s.method(o, "prior", A_(s, X))), sumall(absv(X)), where=where + "L1.prior")
        entries(c, "L1 synthesis: prox is soft thresholding by T", s.T(s.method(o, "proxf", A_(s, X))), [i], soft_entry(mk_getitem(X, i), T),
                where=where + "L1.proxf")
        c.seen(s)
        c.sites += 2
    attempt(c, "L1 synthesis", plain)

    def ana():
        s = Session(root)
        s.it.attr_props[("adj", "()")] = dict(vec=True, ndim=1, len=N)
        o, fw, ad = build_prior(s, "L1", "analysis")
        aX = node("apply", ad, X)
        if aX.props is None:
            aX.props = dict(vec=True, ndim=1, len=N)
        c.eq("L1 analysis: prior is the 1-norm of adj(x)", s.T(s.method(o, "prior", A_(s, X))), sumall(absv(aX)), where=where + "L1.prior")
        v = s.T(s.method(o, "proxf", A_(s, X)))
        # v = X + fwd(u): read u entry by entry
        ap = [x for x in subterms(v) if x.head == "apply" and x.args[0] is fw]
        if len(ap) != 1:
            c.fact("L1 analysis: prox is x + fwd(soft(adj(x), T) - adj(x))", None if any(x.head in ("opaque", "loopval") for x in subterms(v)) else False,
                   clip(show(v), 300), where + "L1.proxf")
        else:
            c.eq("L1 analysis: prox adds fwd(...) to x", v, add(X, ap[0]), where=where + "L1.proxf")
            y = mk_getitem(aX, i)
            entries(c, "L1 analysis: prox applies fwd to soft(adj(x), T) - adj(x)", ap[0].args[1], [i], sub(soft_entry(y, T), y), where=where + "L1.proxf")
        c.seen(s)
        c.sites += 2
    attempt(c, "L1 analysis", ana)
    for cls in ("S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"):
        extra = (ETA,) if "Power" in cls else ()

        def refuse():
            s = Session(root)
            n0 = len(s.it.events)
            build_prior(s, cls, "analysis", extra)
            c.eq(cls + ": the analysis setting is refused", b2t(raising(s.it, n0)), num(1), where=where + cls)
            c.seen(s)
        attempt(c, cls + ": analysis", refuse)

        def weights():
            s = Session(root)
            s.it.summaries["utils.mw_map_weights"] = mws_summary
            n0 = len(s.it.events)
            o, fw, ad = build_prior(s, cls, "synthesis", extra)
            c.eq(cls + ": the synthesis setting is accepted", b2t(raising(s.it, n0)), num(0), where=where + cls)
            w = s.T(s.attr(o, "map_weights"))
            pr = s.T(s.method(o, "prior", A_(s, X)))
            wi = vec("w", real=True, len=N, nonneg=True)
            c.eq(cls + ": prior is sum_i |w_i x_i| with the prior's weights", subst(pr, {w: wi}), sumall(absv(mul(wi, X))), where=where + cls + ".prior",
                 alt=[sumall(mul(wi, absv(X)))])
            px = s.T(s.method(o, "proxf", A_(s, X)))
            if w in subterms(px):
                px2 = subst(px, {w: wi})
                entries(c, cls + ": prox is soft thresholding by T*w with the same weights", px2, [i], soft_entry(mk_getitem(X, i), mul(T, mk_getitem(wi, i))),
                        where=where + cls + ".proxf")
            else:
                c.fact(cls + ": prox is soft thresholding by T*w with the same weights",
                       None if any(x.head in ("opaque", "loopval") for x in subterms(px)) else False,
                       "the weights of the prior value do not occur in the prox: " + clip(show(px), 200), where + cls + ".proxf")
            c.seen(s)
            c.sites += 3
            same_tiling(c, s, w, cls + ": weights of the given wavelets", where + cls)
            q = ixsym("q", NSC)
            try:
                P = Pieces(w)
            except NoPoint as e:
                c.open(cls + ": weights", str(e), where + cls)
                return
            for which, nm in ((0, "scaling function"), (1, "wavelet scale q")):
                pc = P.scale(which, q)
                name = "%s: weights of the %s" % (cls, nm)
                if pc is None:
                    c.open(name, "weights are not laid out scale by scale in a form that is followed", where + cls)
                    continue
                if wrong_origin(s, which, pc):
                    c.bad(name, "the weights at its place are made from the other functions of the tiling: " + clip(show(pc), 200), where + cls)
                    continue
                bl = bandlimit(s, which, q)
                PT = Points(inrange(q))
                if not extra:
                    spec = node("ext", "mw_map_weights", bl)
                    got = PT.canon(PT.resolve(pc))
                    c.eq(name + " are the quadrature weights of its bandlimit", got, spec, assume=inrange(q), where=where + cls)
                    continue
                ii, jj = ixsym("i", bl), ixsym("j", sub(mul(num(2), bl), num(1)))
                phi, psi = tiling(s, 0), tiling(s, 1)
                if which == 0:
                    pw = realpart(sumall(mul(phi, conj(phi))))
                    amp = num(1)
                else:
                    col = mk_getitem(psi, node("tuple", lib.SLICE_ALL, q))
                    pw = realpart(sumall(mul(col, conj(col))))
                    am = node("argmax", gamma_arr(s, 1, q))
                    if am.props is None:
                        am.props = dict(scalar=True, real=True, integer=True, nonneg=True)
                    amp = tm.rebuild("pow", (am, ETA)) if False else power(am, ETA)
                th = mk_getitem(lib.mk_proj(s.T(s.call_ext("pyssht.sample_positions", bl)), 0), ii)
                spec = div(mul(mul(mul(num(2), mul(PI, PI)), tm.rebuild("sin", (th,))), amp), mul(pw, nsamp(bl)))
                pcc = PT.canon(PT.resolve(pc))
                try:
                    if ndim_of(pcc) == 2:
                        sz, idx = PT.dims(pcc), [ii, jj]
                        c.eq(name + ": one weight per pixel of the bandlimit", node("tuple", *sz), node("tuple", bl, sub(mul(num(2), bl), num(1))), where=where + cls)
                    else:
                        idx = [add(mul(ii, sub(mul(num(2), bl), num(1))), jj)]
                        c.eq(name + ": one weight per pixel of the bandlimit", PT.size(pcc), nsamp(bl), assume=inrange(q), where=where + cls)
                except NoPoint as e:
                    c.open(name, str(e), where + cls)
                    continue
                entries(c, name + ": 2 pi^2 sin(theta) peak^eta / (power nsamples)", pcc, idx, spec, assume=inrange(q, ii, jj), where=where + cls, canon=True,
                        soft_ok=("ext:mw_map_weights",))
        attempt(c, cls + ": weights", weights)


def bl_summary(s, log):
    """_multires_bandlimits replaced by a vector of bandlimits; the arguments are recorded"""
    def f(interp, st, args, nd):
        ts = [interp.T(a, st) for a in args]
        while len(ts) < 5:
            ts.append(num(1) if len(ts) == 3 else num(0))
        log.append(ts)
        r = node("ext", "bandlimits", *ts)
        if r.props is None:
            n = add(num(1), node("nscales", ts[1], ts[0], ts[2]))
            for x in subterms(n):
                if x.head == "nscales" and x.props is None:
                    x.props = {"scalar": True, "integer": True, "nonneg": True, "real": True}
            r.props = dict(vec=True, ndim=1, real=True, pos=True, integer=True, len=n, shape=node("tuple", n))
        return interp.data(r)
    s.it.summaries["utils._multires_bandlimits"] = f


def BLV(dirs=num(1), spin=num(0)):
    r = node("ext", "bandlimits", L, B, J, dirs, spin)
    if r.props is None:
        r.props = dict(vec=True, ndim=1, real=True, pos=True, integer=True, len=NTOT, shape=node("tuple", NTOT))
    return r


WAVELET_USERS = (("transforms", "SphericalWaveletTransform"), ("forward", "SphericalWaveletTransformOperator"), ("forward", "PathIntegralOperator"),
                 ("prior", "S2_Wavelets_L1"), ("prior", "S2_Wavelets_L1_Power_Weights"), ("plotting", "plot_wavelet_maps"))


def wavelet_defaults(c, root):
    """directions and spin that are left out mean the same wavelets in every part of the package"""
    import ast
    from .effects import trees
    mods = {os.path.splitext(os.path.basename(p))[0]: (p, t) for p, t in trees(root)}
    for mod, name in WAVELET_USERS:
        if mod not in mods:
            continue
        path, tree = mods[mod]
        consts = {t.id: x.value.value for x in tree.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) for t in x.targets if isinstance(t, ast.Name)}
        d = next((x for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name), None)
        if isinstance(d, ast.ClassDef):
            d = next((x for x in d.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
        if d is None:
            continue
        pos = d.args.posonlyargs + d.args.args
        dflt = dict(zip([a.arg for a in pos[len(pos) - len(d.args.defaults):]], d.args.defaults))
        dflt.update({a.arg: v for a, v in zip(d.args.kwonlyargs, d.args.kw_defaults) if v is not None})
        for arg, want in (("dirs", 1), ("spin", 0)):
            v = dflt.get(arg)
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                got = -v.operand.value
            elif isinstance(v, ast.Constant):
                got = v.value
            elif isinstance(v, ast.Name):
                got = consts.get(v.id)
            else:
                got = None
            if got is None:
                continue
            c.sites += 1
            c.fact("%s: %s left out means %d, as everywhere" % (name, arg, want), got == want, "default is %r" % (got,), "%s:%d" % (path, d.lineno))


def c22(c, root):
    where = "pxmcmc/utils.py "
    attempt(c, "wavelet defaults", lambda: wavelet_defaults(c, root))
    n, ns = integer("n", pos=True), integer("ns", pos=True)
    a, b = ixsym("a", n), ixsym("b", ns)

    def flat():
        s = Session(root)
        wav = sym("wav", ndim=2, shape=node("tuple", n, ns), len=n, pytype="ndarray")
        sc = vec("scal", len=n, pytype="ndarray")
        t = s.T(s.call(s.get("utils", "flatten_mlm"), A_(s, wav), A_(s, sc)))
        shape_is(c, "packing: all coefficients are there", t, (mul(n, add(ns, num(1))),), where + "flatten_mlm")
        entries(c, "packing: scaling coefficients come first", t, [a], mk_getitem(sc, a), where=where + "flatten_mlm")
        pos = add(add(n, mul(n, b)), a)
        entries(c, "packing: then the wavelet coefficients column by column", t, [pos], mk_getitem(wav, node("tuple", a, b)), assume=block(a, b, n, ns),
                where=where + "flatten_mlm")
        w1 = vec("wav1", len=integer("nw", pos=True), pytype="ndarray")
        t = s.T(s.call(s.get("utils", "flatten_mlm"), A_(s, w1), A_(s, sc)))
        c.eq("packing: flat wavelet coefficients follow the scaling coefficients", t, node("concat", sc, w1), where=where + "flatten_mlm")
        c.seen(s)
        c.sites += 2
        for fl in (False, True):
            s2 = Session(root)
            mlm = vec("mlm", len=mul(n, add(ns, num(1))), pytype="ndarray")
            n0 = len(s2.it.events)
            r = s2.T(s2.call(s2.get("utils", "expand_mlm"), A_(s2, mlm), ns, flatten_wavs=fl))
            c.seen(s2)
            c.sites += 1
            nm = "unpacking%s" % (", flat" if fl else "")
            if r.head != "tuple" or len(r.args) != 2:
                c.open(nm, "result is not a pair", where + "expand_mlm")
                continue
            c.eq(nm + ": accepted", b2t(raising(s2.it, n0)), num(0), where=where + "expand_mlm")
            entries(c, nm + ": scaling coefficients are the first block", r.args[1], [a], mk_getitem(mlm, a), where=where + "expand_mlm")
            shape_is(c, nm + ": size of the scaling block", r.args[1], (n,), where + "expand_mlm")
            want = mk_getitem(mlm, add(add(n, mul(n, b)), a))
            if fl:
                entries(c, nm + ": wavelet coefficients keep their order", r.args[0], [add(mul(n, b), a)], want, assume=block(a, b, n, ns), where=where + "expand_mlm")
                shape_is(c, nm + ": number of wavelet coefficients", r.args[0], (mul(n, ns),), where + "expand_mlm")
            else:
                entries(c, nm + ": column j holds block j+1", r.args[0], [a, b], want, where=where + "expand_mlm")
                shape_is(c, nm + ": one column per scale", r.args[0], (n, ns), where + "expand_mlm")
        # complex coefficients survive
        narrow = {const("float"), const("int"), const("float64"), const("float32")}
        s3 = Session(root)
        mlm = vec("mlm_c", len=mul(n, add(ns, num(1))), pytype="ndarray", iscomplex=True)
        r = s3.T(s3.call(s3.get("utils", "expand_mlm"), A_(s3, mlm), ns))
        if r.head == "tuple" and len(r.args) == 2:
            lossy = [x for x in subterms(r) if x.head in ("real", "abs", "imag") or (x.head == "full" and narrow & set(subterms(x.args[2])))]
            c.fact("unpacking keeps complex coefficients", not lossy, clip("; ".join(show(x) for x in lossy), 200), where + "expand_mlm")
        # multiresolution
        s4 = Session(root)
        nn, k = integer("ntot", nonneg=True), integer("nscal", nonneg=True)
        mlm = vec("mlm2", len=nn, pytype="ndarray")
        r = s4.T(s4.call(s4.get("utils", "expand_mlm"), A_(s4, mlm), nscalcoefs=k))
        if r.head == "tuple" and len(r.args) == 2:
            asm = cmp_("<=", k, nn)
            p1, p2 = ixsym("p1", k), ixsym("p2", sub(nn, k))
            entries(c, "multiresolution unpacking: the first nscalcoefs entries are the scaling coefficients", r.args[1], [p1], mk_getitem(mlm, p1), assume=and_(asm, inrange(p1)),
                    where=where + "expand_mlm")
            entries(c, "multiresolution unpacking: the others are the wavelet coefficients", r.args[0], [p2], mk_getitem(mlm, add(k, p2)), assume=and_(asm, inrange(p2)),
                    where=where + "expand_mlm")
            shape_is(c, "multiresolution unpacking: number of scaling coefficients", r.args[1], (k,), where + "expand_mlm")
            shape_is(c, "multiresolution unpacking: number of wavelet coefficients", r.args[0], (sub(nn, k),), where + "expand_mlm")
        c.seen(s4)
        s6 = Session(root)
        n0 = len(s6.it.events)
        s6.call(s6.get("utils", "expand_mlm"), A_(s6, mlm), nscalcoefs=0)
        c.fact("unpacking without scaling coefficients is defined", not any(e.kind == "unbound" and s6.it.full_pc(e) is TRUE for e in s6.it.events[n0:]),
               "a name is read before it is assigned", where + "expand_mlm")
        for nm, kw in (("neither", {}), ("both", dict(nscales=ns, nscalcoefs=k))):
            s5 = Session(root)
            n0 = len(s5.it.events)
            s5.call(s5.get("utils", "expand_mlm"), A_(s5, mlm), **kw)
            c.eq("unpacking with %s size argument raises" % nm, b2t(raising(s5.it, n0)), num(1), where=where + "expand_mlm")
    attempt(c, "packing", flat)

    def bands():
        s = Session(root)
        t = s.T(s.call(s.get("utils", "_multires_bandlimits"), L, B, J, DIRS, SPIN))
        c.seen(s)
        c.sites += 1
        shape_is(c, "one bandlimit per scale", t, (NTOT,), where + "_multires_bandlimits")
        q = ixsym("q", NSC)
        for which, nm in ((0, "scaling function"), (1, "wavelet scale")):
            entries(c, "bandlimit of the %s: highest degree of its harmonic line, plus one" % nm, t, [num(0) if which == 0 else add(q, num(1))],
                    bandlimit(s, which, q), assume=inrange(q), where=where + "_multires_bandlimits", canon=True)
    attempt(c, "bandlimits", bands)

    def priors():
        for cls in ("S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"):
            s = Session(root)
            q = ixsym("q", NSC)
            s.it.summaries["utils.mw_map_weights"] = mws_summary
            o, fw, ad = build_prior(s, cls, "synthesis", (ETA,) if "Power" in cls else ())
            w = s.T(s.attr(o, "map_weights"))
            c.seen(s)
            c.sites += 1
            same_tiling(c, s, w, cls + ": weights of the given wavelets", "pxmcmc/prior.py " + cls)
            try:
                P = Pieces(w)
            except NoPoint as e:
                c.open(cls + ": order of the weights", str(e), "pxmcmc/prior.py")
                continue
            for which, nm in ((0, "scaling function"), (1, "wavelet scale q")):
                pc = P.scale(which, q)
                if pc is None:
                    c.open("%s: order of the weights" % cls, "not laid out scale by scale in a form that is followed", "pxmcmc/prior.py")
                    continue
                if wrong_origin(s, which, pc):
                    c.bad("%s: order of the weights" % cls, "the weights at the place of the %s are made from the other functions of the tiling" % nm, "pxmcmc/prior.py")
                    continue
                PT = Points(inrange(q))
                try:
                    sz = PT.canon(PT.resolve(PT.size(pc)))
                except NoPoint as e:
                    c.open("%s: size of the weights of the %s" % (cls, nm), str(e), "pxmcmc/prior.py")
                    continue
                c.eq("%s: weights of the %s cover the pixels of its bandlimit" % (cls, nm), sz, nsamp(bandlimit(s, which, q)), assume=inrange(q),
                     where="pxmcmc/prior.py " + cls)
    attempt(c, "prior weights", priors)
    scales_uncertainty(c, root)

    def maps():
        from .plots import plot_wavelets
        plot_wavelets(c, root, layout=True)
    attempt(c, "per-scale plots", maps)


def block(a, b, n, ns):
    """a < n, b < ns and the position n*b + a lies inside the wavelet part"""
    return and_(inrange(a, b), cmp_("<=", add(mul(n, b), a), sub(mul(n, ns), num(1))))


def four_scales(s):
    bs = [num(x) for x in (2, 3, 5, 8)]
    s.it.summaries["utils._multires_bandlimits"] = lambda interp, st, args, nd: interp.data(node("array", *bs))
    return bs


def scales_uncertainty(c, root, values=False):
    where = "pxmcmc/uncertainty.py wavelet_credible_interval_range"

    def unrolled():
        """four scales: only a difference counts"""
        s = Session(root)
        bs = four_scales(s)
        ch = sym("chain", ndim=2, shape=node("tuple", integer("nsamp", pos=True), integer("npar", pos=True)), len=integer("nsamp", pos=True), pytype="ndarray")
        v = s.call(s.get("uncertainty", "wavelet_credible_interval_range"), A_(s, ch), L, B, J, scalar("alpha", pos=True))
        seq = lib.as_seq(s.it, s.st, v, None)
        if seq.items is None:
            return
        if len(seq.items) != len(bs):
            c.bad("uncertainty maps: one map per scale (bandlimits 2, 3, 5, 8)", "%d maps" % len(seq.items), where)
            return
        st = num(0)
        for i, (x, b) in enumerate(zip(seq.items, bs)):
            hi = add(st, nsamp(b))
            want = mk_getitem(ch, node("tuple", lib.SLICE_ALL, mk_slice(st, hi, NONE)))
            st = hi
            m = s.T(x)
            for p in [y for y in subterms(m) if y.head == "getitem" and y.args[0] is ch]:
                r, d = c.verdict(p, want)
                if r == "violation":
                    c.bad("uncertainty maps: scale %d takes the coefficients after those of the scales before it (bandlimits 2, 3, 5, 8)" % i, d, where)
                    return

    def unc():
        s = Session(root)
        log = []
        bl_summary(s, log)
        ch = sym("chain", ndim=2, shape=node("tuple", integer("nsamp", pos=True), integer("npar", pos=True)), len=integer("nsamp", pos=True), pytype="ndarray")
        al = scalar("alpha", pos=True)
        v = s.T(s.call(s.get("uncertainty", "wavelet_credible_interval_range"), A_(s, ch), L, B, J, al))
        c.seen(s)
        c.sites += 1
        c.fact("uncertainty maps: bandlimits of the given L, B, J_min", None if not log else all(x == [L, B, J, num(1), num(0)] for x in log),
               clip(str([[show(y) for y in x] for x in log]), 200), where)
        k = ixsym("k", NTOT)
        c.eq("uncertainty maps: one map per scale", lib.mk_len(v), NTOT, where=where)
        P = Points(inrange(k))
        try:
            m = P.at(v, [k])
        except NoPoint as e:
            c.open("uncertainty maps", str(e), where)
            return
        bl = mk_getitem(BLV(), k)
        sh = lib.mk_shape(m)
        c.eq("uncertainty maps: map k has the shape of its bandlimit", sh, node("tuple", bl, sub(mul(num(2), bl), num(1))), where=where)
        kk = counter("lk")
        ln = nsamp(mk_getitem(BLV(), kk))
        st = node("psum", k, tm.close(kk, ln))
        if st.props is None:
            st.props = dict(scalar=True, real=True, integer=True, nonneg=True)
        sl = mk_getitem(ch, node("tuple", lib.SLICE_ALL, mk_slice(st, add(st, subst(ln, {kk: k})), NONE)))
        parts = [x for x in subterms(m) if x.head == "getitem" and x.args[0] is ch]
        if not parts:
            c.open("uncertainty maps: slice of the chain", "no slice of the chain found in " + clip(show(m), 200), where)
        for x in parts:
            ps = {y for y in subterms(x) if y.head == "psum"}
            plain = len(ps) == 1 and all(y.args[0] is k and not any(z.head in SOFT_PREFIX for z in subterms(y.args[1])) for y in ps)
            c.eq("uncertainty maps: scale k takes the coefficients after those of the scales before it", x, sl, where=where, soft_ok=("psum", "lam", "bv") if plain else (), inst=[{k: num(n)} for n in range(3)])
        if values:
            half = div(al, num(2))
            Q = lambda z: s.T(lib.call_numpy(s.it, s.st, "numpy", "quantile", [Data(sl), Data(z)], {"axis": Data(num(0))}, None))
            want = sub(Q(sub(num(1), half)), Q(half))
            c.eq("uncertainty maps: credible interval range of the slice with the requested alpha", m,
                 lib.mk_reshape(want, node("tuple", bl, sub(mul(num(2), bl), num(1)))), where=where)
    n0 = len(c.obl)
    attempt(c, "uncertainty maps", unc)
    if any(o[1] == "undecided" for o in c.obl[n0:]):
        try:
            unrolled()
        except (AnalysisError, RecursionError, tm.Blowup, NoPoint):
            pass


# ---------------------------------------------------------------- C23
def c23(c, root):
    where = "pxmcmc/uncertainty.py "
    al = scalar("alpha", pos=True)

    def ci():
        s = Session(root)
        ch = sym("chain_any", ndim=2, shape=node("tuple", integer("nsamp", pos=True), integer("npar", pos=True)), len=integer("nsamp", pos=True), pytype="ndarray", real=True)
        v = s.T(s.call(s.get("uncertainty", "credible_interval_range"), A_(s, ch), al))
        half = div(al, num(2))
        Q = lambda x, z, **k: s.T(lib.call_numpy(s.it, s.st, "numpy", "quantile", [Data(x), Data(z)], {a: Data(num(b)) for a, b in k.items()}, None))
        c.eq("credible interval range is the (1-alpha/2) minus the (alpha/2) quantile per parameter", v, sub(Q(ch, sub(num(1), half), axis=0), Q(ch, half, axis=0)),
             where=where + "credible_interval_range")
        lp = vec("logpis", real=True, len=integer("nsamp", pos=True), pytype="ndarray")
        v = s.T(s.call(s.get("uncertainty", "credible_region_threshold"), A_(s, lp), al))
        c.eq("credible region threshold is the alpha quantile of the log posteriors", v, Q(lp, al), where=where + "credible_region_threshold",
             alt=[Q(lp, al, axis=0)])
        x, t = scalar("logpi"), scalar("threshold")
        v = s.T(s.call(s.get("uncertainty", "in_credible_region"), x, t))
        c.eq("a sample is in the region exactly when its log posterior is at least the threshold", b2t(tm.truth(v)), b2t(cmp_(">=", x, t)),
             where=where + "in_credible_region")
        c.seen(s)
        c.sites += 3
    attempt(c, "credible", ci)
    scales_uncertainty(c, root, values=True)
