"""Effects and resources: who writes what (C15, C20), output files (C18), standard output (C21), plots (C27)."""
import ast
import os
from . import terms as tm
from .terms import (sym, const, num, node, TRUE, FALSE, NONE, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg, power, conj, realpart,
                    absv, sumall, subterms, show)
from .model import Session, SamplerRun, scalar, integer, Gone, symbolic_objects, params, cheb_summaries, TRACKS
from .interp import Data, Ref, Tup, ObjCell, ListCell, DictCell, AnalysisError, Choice, Fn, LibFn, UNBOUND, own_nodes
from .check import clip, raising
from .operators import L, B, J, DIRS, SPIN, ND, W, NPIX, SHAPE, vec, attempt
from . import samplers as sp

N = integer("N", pos=True)


# ---------------------------------------------------------------- writes
def writes(s, since=0):
    """(event, descriptions of what it may write to) of every feasible write"""
    it = s.it
    for e in it.events[since:]:
        if e.kind not in ("store", "setattr"):
            continue
        if it.full_pc(e) is FALSE:
            continue
        yield e


def owners(s, e, prefix):
    return sorted({s.it.roots[l] for l in e.al if l in s.it.roots and s.it.roots[l].startswith(prefix)})


def same_value(s, e):
    """a write that leaves what was there"""
    try:
        if e.kind == "setattr":
            return False
        if e.idx is None or e.idx is NONE or e.base is NONE:
            return False
        old = s.it.lib.mk_getitem(e.base, e.idx)
        return old is e.val
    except Exception:
        return False


def reach(s, v, seen=None):
    """abstract locations an object can write to without going through its arguments"""
    seen = set() if seen is None else seen
    if isinstance(v, Ref):
        if v.loc in seen:
            return seen
        seen.add(v.loc)
        c = s.st.heap.get(v.loc)
        if isinstance(c, ObjCell):
            for x in c.fields.values():
                reach(s, x, seen)
        elif isinstance(c, ListCell):
            for x in c.items or ():
                reach(s, x, seen)
        elif isinstance(c, DictCell):
            for x in c.items.values():
                reach(s, x, seen)
    elif isinstance(v, Data):
        if v.loc is not None:
            seen.add(v.loc)
        seen.update(v.al)
    elif isinstance(v, Tup):
        for x in v.items:
            reach(s, x, seen)
    elif isinstance(v, Choice):
        reach(s, v.a, seen)
        reach(s, v.b, seen)
    elif isinstance(v, Fn) and v.self_ is not None:
        reach(s, v.self_, seen)
    return seen


class Caller:
    """builds caller-owned arguments"""

    def __init__(self, s):
        self.s = s
        self.n0 = 0

    def arr(self, name, n=None, ndim=1, shape=None, real=None, **k):
        p = dict(pytype="ndarray", ndim=ndim, **k)
        if ndim == 1:
            p["vec"] = True
        if n is not None:
            p["len"] = n
        if shape is not None:
            p["shape"] = shape
        if real is not None:
            p["real"] = real
        return self.s.it.root_data(sym("own_" + name, **p), "caller:" + name)

    def mat(self, name, m, n, **k):
        return self.s.it.root_data(sym(name, ndim=2, mat=True, shape=node("tuple", m, n), len=m, **k), "caller:" + name)

    def obj(self, name):
        return self.s.it.root_data(sym(name, obj=True), "caller:" + name)

    def fn(self, name):
        return self.s.it.root_data(sym(name, obj=True), "caller:" + name)

    def own(self, v, desc):
        """an object of the package in the caller's hands"""
        for l in reach(self.s, v):
            self.s.it.roots.setdefault(l, "caller:" + desc)
        self.n0 = len(self.s.it.events)
        return v


def sizes(s):
    """nothing: hook kept for symmetry"""


def api(c, root):
    """(label, where, thunk(session, caller) -> (result or None)) over the public interface"""
    def fun(mod, name, *mk, **kw):
        def f(s, q):
            return s.call(s.get(mod, name), *[m(q) if callable(m) else m for m in mk], **{k: (v(q) if callable(v) else v) for k, v in kw.items()})
        return f
    X = lambda q: q.arr("X", N)
    Xr = lambda q: q.arr("X", N, real=True)
    Tv = lambda q: q.arr("T", N, real=True, pos=True)
    img = lambda q: q.arr("f", L, 2, SHAPE, real=True)
    T = scalar("T", pos=True)
    out = []

    def put(label, mod, f, fresh=False):
        out.append((label, "pxmcmc/%s.py" % mod, f, fresh))
    put("soft(X, scalar T)", "utils", fun("utils", "soft", X, T), True)
    put("soft(X, vector T)", "utils", fun("utils", "soft", X, Tv), True)
    put("soft(real X)", "utils", fun("utils", "soft", Xr, T), True)
    put("hard(X)", "utils", fun("utils", "hard", X, T), True)
    put("hard(real X)", "utils", fun("utils", "hard", Xr, T), True)
    put("flatten_mlm", "utils", fun("utils", "flatten_mlm", lambda q: q.mat("wav_lm", integer("v", pos=True), integer("n", pos=True)), lambda q: q.arr("scal_lm", integer("v", pos=True))))
    put("flatten_mlm (1D)", "utils", fun("utils", "flatten_mlm", lambda q: q.arr("wav_lm", N), lambda q: q.arr("scal_lm", integer("v", pos=True))))
    put("expand_mlm(nscales)", "utils", fun("utils", "expand_mlm", X, nscales=integer("nscales", pos=True)))
    put("expand_mlm(nscales, flat)", "utils", fun("utils", "expand_mlm", X, nscales=integer("nscales", pos=True), flatten_wavs=True))
    put("expand_mlm(nscalcoefs)", "utils", fun("utils", "expand_mlm", X, nscalcoefs=integer("nscal", pos=True)))
    put("map2alm", "utils", fun("utils", "map2alm", X, L))
    put("alm2map", "utils", fun("utils", "alm2map", X, L))
    put("s2_integrate", "utils", fun("utils", "s2_integrate", X, L))
    put("norm", "utils", fun("utils", "norm", X))
    put("snr", "utils", fun("utils", "snr", X, lambda q: q.arr("noise", N)))
    put("chebyshev1 (array)", "utils", fun("utils", "chebyshev1", X, num(3)))
    put("chebyshev2 (array)", "utils", fun("utils", "chebyshev2", X, num(3)))
    put("cheb1der (array)", "utils", fun("utils", "cheb1der", X, num(3)))
    put("pixel_area (arrays)", "utils", fun("utils", "pixel_area", scalar("r"), X, lambda q: q.arr("theta2", N), lambda q: q.arr("phi1", N), lambda q: q.arr("phi2", N)))
    put("polar_cap_area (array)", "utils", fun("utils", "polar_cap_area", scalar("r"), X))
    chain = lambda q: q.mat("chain", integer("ns", pos=True), N, pytype="ndarray")
    put("credible_interval_range", "uncertainty", fun("uncertainty", "credible_interval_range", chain, scalar("alpha")))
    put("wavelet_credible_interval_range", "uncertainty", fun("uncertainty", "wavelet_credible_interval_range", chain, L, B, J, scalar("alpha")))
    put("credible_region_threshold", "uncertainty", fun("uncertainty", "credible_region_threshold", X, scalar("alpha")))
    put("in_credible_region", "uncertainty", fun("uncertainty", "in_credible_region", scalar("lp"), scalar("th")))
    for kw in (dict(), dict(mask=lambda q: q.arr("mask", L, 2, SHAPE, real=True)), dict(centre0=True), dict(oversample=False),
               dict(oversample=False, centre0=True, mask=lambda q: q.arr("mask", L, 2, SHAPE, real=True)), dict(cbar=False, oversample=False), dict(coasts=True), dict(cmap=lambda q: q.obj("cmap"))):
        put("plot_map(%s)" % ", ".join(kw), "plotting", fun("plotting", "plot_map", img, **kw))
    for kw in (dict(), dict(same_scale=False), dict(title="t", oversample=False)):
        put("plot_wavelet_maps(%s)" % ", ".join(kw), "plotting", fun("plotting", "plot_wavelet_maps", img, L, B, J, **kw))
    put("plot_evolution", "plotting", fun("plotting", "plot_evolution", Xr, lambda q: q.arr("L2s", N, real=True), lambda q: q.arr("L1s", N, real=True)))
    put("plot_chain_sample", "plotting", fun("plotting", "plot_chain_sample", X))
    put("mollview", "plotting", fun("plotting", "mollview", X))

    def save(s, q):
        m = q.obj("mcmc")
        p = q.own(params(s, False, TRACKS), "params")
        return s.call(s.get("saving", "save_mcmc"), m, p, const("out"), extra=q.arr("extra", N))
    put("save_mcmc", "saving", save)

    def par(s, q):
        tl = s.it.new_list(s.st, [Data(const(t)) for t in TRACKS[:3]])
        s.it.roots[tl.loc] = "caller:track"
        return s.call(s.get("mcmc", "PxMCMCParams"), track=tl)
    put("PxMCMCParams(track)", "mcmc", par)

    # operators ------------------------------------------------------
    def build(mod, cls, *mk, **kw):
        def f(s, q):
            return s.call(s.get(mod, cls), *[m(q) if callable(m) else m for m in mk], **{k: (v(q) if callable(v) else v) for k, v in kw.items()})
        return f

    def use(mk, meth, dom, **k):
        def f(s, q):
            o = mk(s, q)
            q.s.built = o
            return s.method(o, meth, q.arr("X", dom, **k))
        return f
    m_, n_ = integer("m", pos=True), integer("n", pos=True)
    cases = [("Identity", "measurements", build("measurements", "Identity", m_, n_), n_, m_),
             ("PathIntegral", "measurements", build("measurements", "PathIntegral", lambda q: q.mat("path_matrix", m_, n_, sparse=True)), n_, m_),
             ("WeakLensingHarmonic", "measurements", build("measurements", "WeakLensingHarmonic", L), mul(L, L), mul(L, L))]
    mask = lambda q: q.arr("mask", L, 2, SHAPE, real=True)
    ngal = lambda q: q.arr("ngal", L, 2, SHAPE, real=True, nonneg=True)
    for lab, kw in (("", {}), (" with mask", dict(mask=mask)), (" with mask and galaxies", dict(mask=mask, ngal=ngal)), (" with galaxies", dict(ngal=ngal))):
        cases.append(("WeakLensing" + lab, "measurements", build("measurements", "WeakLensing", L, **kw), NPIX, None))
    for lab, mod, mk, dom, ran in cases:
        put(lab + ".forward", mod, use(mk, "forward", dom), True)
        put(lab + ".adjoint", mod, use(mk, "adjoint", ran), True)
        if lab.startswith("WeakLensing"):
            put(lab + ".sks_estimate", mod, use(mk, "sks_estimate", mul(L, L)), True)
            put(lab + ".harmonic_mapping", mod, use(mk, "harmonic_mapping", mul(L, L)), True)
            put(lab + ".harmonic_inverse_mapping", mod, use(mk, "harmonic_inverse_mapping", mul(L, L)), True)
        if lab.startswith("WeakLensing") and "Harmonic" not in lab:
            put(lab + ".mask_forward", mod, use(mk, "mask_forward", L, ndim=2, shape=SHAPE))
            put(lab + ".mask_adjoint", mod, use(mk, "mask_adjoint", None))
            put(lab + ".cov_weight", mod, use(mk, "cov_weight", None), True)
            put(lab + ".ngal_to_inv_cov", mod, use(mk, "ngal_to_inv_cov", L, ndim=2, shape=SHAPE, real=True))
    for lab, kw in (("SphericalWaveletTransform", {}), ("SphericalWaveletTransform (harmonic)", dict(harmonic=True))):
        mk = build("transforms", "SphericalWaveletTransform", L, B, J, DIRS, SPIN, **kw)
        for me in ("forward", "inverse", "inverse_adjoint", "forward_adjoint"):
            put("%s.%s" % (lab, me), "transforms", use(mk, me, None), True)
    mk = build("transforms", "IdentityTransform")
    for me in ("forward", "inverse", "inverse_adjoint", "forward_adjoint"):
        put("IdentityTransform." + me, "transforms", use(mk, me, N))
    for setting in ("analysis", "synthesis"):
        for kind, sg in (("scalar", lambda q: scalar("sig", pos=True, pytype="float")), ("vector", lambda q: q.arr("sig_d", ND, real=True, pos=True)),
                         ("matrix", lambda q: q.arr("sig_d", ND, 2, node("tuple", ND, ND)))):
            mk = build("forward", "ForwardOperator", lambda q: q.arr("data", ND), sg, setting, transform=lambda q: q.obj("transform"),
                       measurement=lambda q: q.obj("measurement"), nparams=integer("np", pos=True))
            put("ForwardOperator(%s, %s errors).forward" % (setting, kind), "forward", use(mk, "forward", None))
            put("ForwardOperator(%s, %s errors).calc_gradg" % (setting, kind), "forward", use(mk, "calc_gradg", ND))
    for setting in ("analysis", "synthesis"):
        for cls, first in (("SphericalWaveletTransformOperator", ()), ("PathIntegralOperator", (lambda q: q.mat("pathmatrix", ND, NPIX, sparse=True),))):
            mk = build("forward", cls, *(first + (lambda q: q.arr("data", ND), lambda q: q.arr("sig_d", ND, real=True, pos=True), setting, L, B, J)))
            dom = NPIX if setting == "analysis" else None
            put("%s(%s).forward" % (cls, setting), "forward", use(mk, "forward", dom), True)
            put("%s(%s).calc_gradg" % (cls, setting), "forward", use(mk, "calc_gradg", ND), True)
    for setting in ("analysis", "synthesis"):
        mk = build("prior", "L1", setting, lambda q: q.fn("fwd"), lambda q: q.fn("adj"), T)
        put("L1(%s).prior" % setting, "prior", use(mk, "prior", N))
        put("L1(%s).proxf" % setting, "prior", use(mk, "proxf", N), True)
    mkT = build("prior", "L1", "synthesis", lambda q: q.fn("fwd"), lambda q: q.fn("adj"), Tv)
    put("L1(synthesis, vector T).proxf", "prior", use(mkT, "proxf", N), True)
    for cls in ("S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"):
        mk = build("prior", cls, "synthesis", lambda q: q.fn("fwd"), lambda q: q.fn("adj"), T, L, B, J, DIRS, SPIN)
        put(cls + ".prior", "prior", use(mk, "prior", None))
        put(cls + ".proxf", "prior", use(mk, "proxf", None), True)
        mkT = build("prior", cls, "synthesis", lambda q: q.fn("fwd"), lambda q: q.fn("adj"), lambda q: q.arr("T", None, real=True), L, B, J, DIRS, SPIN)
        put(cls + " (vector T)", "prior", use(mkT, "proxf", None), True)
    return out


def c15(c, root):
    c.assumptions += ["functions of numpy, scipy, pyssht, pys2let, healpy, h5py and matplotlib that are not documented to work in place leave their arguments alone",
                      "forward and prior objects given by the user leave their arguments alone"]
    for label, where, f, fresh in api(c, root):
        def part():
            s = Session(root)
            n0 = len(s.it.events)
            q = Caller(s)
            r = f(s, q)
            c.seen(s)
            judge_writes(c, s, max(n0, q.n0), label, where)
            if fresh and r is not None:
                al = [s.it.roots[l] for l in s.it.aliases(r, s.st) if s.it.roots.get(l, "").startswith("caller:")]
                c.fact(label + ": the result shares no memory with the arguments", not al, "result may be or view " + ", ".join(sorted(set(al))), where)
            c.sites += 1
        attempt(c, label, part)
    for cls, cx, tune in sp.CONFIGS:
        for start, tracks in (("given", TRACKS), (None, TRACKS), ("given", ()), ("given", ("chain",))):
            def run():
                s = Session(root)
                cheb_summaries(s.it)
                q = Caller(s)
                fw, pr = symbolic_objects(s, cx)
                for v, d in ((fw, "forward"), (pr, "prior")):
                    s.it.roots[v.loc] = "caller:" + d
                fw, pr = Data(fw.term, fw.loc, frozenset([fw.loc])), Data(pr.term, pr.loc, frozenset([pr.loc]))
                p = q.own(params(s, cx, tracks), "mcmcparams")
                n0 = len(s.it.events)
                o = s.call(s.get("mcmc", cls), fw, pr, p, **({} if tune is None else {"tune_delta": tune}))
                if start:
                    s.method(o, "run", q.arr("start_point", sp.NPAR, real=not cx))
                else:
                    s.method(o, "run")
                c.seen(s)
                judge_writes(c, s, n0, "%s%s%s run %s" % (cls, " complex" if cx else "", "" if tune is None else " tuned" if tune else " untuned",
                                                          ("from a start point" if start else "without start point") + (" tracking " + (",".join(tracks) or "nothing"))), "pxmcmc/mcmc.py")
                c.sites += 1
            attempt(c, cls + ": run", run)
    for cls in ("MYULA", "PxMALA", "SKROCK"):
        for tracks in subsets(TRACKS):
            def make():
                s = Session(root)
                cheb_summaries(s.it)
                fw, pr = symbolic_objects(s, False)
                p = Caller(s).own(params(s, False, tracks), "mcmcparams")
                n0 = len(s.it.events)
                s.call(s.get("mcmc", cls), fw, pr, p)
                judge_writes(c, s, n0, "%s built to track %s" % (cls, ",".join(tracks) or "nothing"), "pxmcmc/mcmc.py")
                c.sites += 1
            attempt(c, cls + ": construction", make)


def subsets(xs):
    return [tuple(x for i, x in enumerate(xs) if k >> i & 1) for k in range(1 << len(xs))]


def judge_writes(c, s, since, label, where, prefix="caller:"):
    bad = []
    for e in writes(s, since):
        d = owners(s, e, prefix)
        if d and not same_value(s, e):
            bad.append("%s writes to %s (%s)" % (e.where, ", ".join(d), " > ".join(e.chain)))
    if bad:
        c.bad(label + ": arguments are left alone", "; ".join(sorted(set(bad))[:4]), bad[0].split(" ")[0])
    else:
        c.ok(label + ": arguments are left alone", "", where)


# ---------------------------------------------------------------- C20
def inputs_of(t):
    """the inputs a value depends on"""
    return {x for x in subterms(t) if x.head in ("sym", "opaque", "loopval", "mu", "normal", "uniform", "laplace")}


def is_memo(s, e):
    """a table entry that is a function of its key"""
    if e.kind != "store" or e.aug or e.idx is None or e.idx is NONE or e.val is None:
        return False
    return isinstance(e.target, Ref) and isinstance(s.st.heap.get(e.target.loc), DictCell) and inputs_of(e.val) <= inputs_of(e.idx)


def shared_writes(s, since, others=frozenset()):
    out = []
    it = s.it
    for e in it.events[since:]:
        if e.kind == "globalwrite":
            out.append((e, "global %s.%s" % (e.mod, e.name)))
            continue
        if e.kind not in ("store", "setattr") or it.full_pc(e) is FALSE:
            continue
        sh = getattr(e, "shared", None)
        if sh is not None:
            if sh.startswith("class ") or sh.startswith("module " + it.package):
                if isinstance(e.val, Ref) or inputs_of(e.term):
                    out.append((e, sh))
            continue
        d = owners(s, e, "shared:")
        if d and not is_memo(s, e) and not same_value(s, e):
            out.append((e, ", ".join(x[7:] for x in d)))
        elif others and e.al & others and not same_value(s, e):
            out.append((e, "an object held by another instance"))
    return out


def judge_shared(c, s, since, label, where, others=frozenset()):
    bad = ["%s writes to %s (%s)" % (e.where, d, " > ".join(e.chain)) for e, d in shared_writes(s, since, others)]
    if bad:
        c.bad(label, "; ".join(sorted(set(bad))[:4]), bad[0].split(" ")[0])
    else:
        c.ok(label, "", where)


def c20(c, root):
    c.assumptions += ["state kept inside numpy, matplotlib and other libraries is not the package's"]
    for label, where, f, _ in api(c, root):
        def part():
            s = Session(root)
            n0 = len(s.it.events)
            f(s, Caller(s))
            c.seen(s)
            judge_shared(c, s, n0, label + ": nothing shared is written", where)
            c.sites += 1
        attempt(c, label, part)
    for cls, cx, tune in sp.CONFIGS:
        def pairs(mode):
            s = Session(root)
            cheb_summaries(s.it)
            fw, pr = symbolic_objects(s, cx)
            C = s.get("mcmc", cls)
            kw = {} if tune is None else {"tune_delta": tune}
            ps = [] if mode == "default" else [params(s, cx, TRACKS)]
            n0 = len(s.it.events)
            a = s.call(C, fw, pr, *ps, **kw)
            judge_shared(c, s, n0, "%s: construction from %s parameters writes nothing shared" % (tag, mode), "pxmcmc/mcmc.py", frozenset(reach(s, ps[0])) if ps else frozenset())
            b = s.call(C, fw, pr, *ps, **kw)
            n1 = len(s.it.events)
            other = frozenset(reach(s, b)) | (frozenset(reach(s, ps[0])) if ps else frozenset())
            before = dict(s.st.heap[b.loc].fields)
            s.method(a, "run", s.it.root_data(sym("x0s", vec=True, ndim=1, pytype="ndarray", len=sp.NPAR, real=not cx), "caller:start"))
            c.seen(s)
            judge_shared(c, s, n1, "%s: a run leaves a second sampler with %s parameters alone" % (tag, mode), "pxmcmc/mcmc.py", other)
            c.sites += 2
        tag = cls + (" complex" if cx else "") + ("" if tune is None else " tuned" if tune else " untuned")
        for mode in ("the same", "default"):
            if mode == "default" and cx:
                continue
            attempt(c, "%s, %s parameters" % (tag, mode), lambda: pairs(mode))

    for cls in ("MYULA", "PxMALA", "SKROCK"):
        for tracks in subsets(TRACKS):
            def make():
                s = Session(root)
                cheb_summaries(s.it)
                fw, pr = symbolic_objects(s, False)
                p = params(s, False, tracks)
                n0 = len(s.it.events)
                s.call(s.get("mcmc", cls), fw, pr, p)
                judge_shared(c, s, n0, "%s built to track %s: nothing shared is written" % (cls, ",".join(tracks) or "nothing"), "pxmcmc/mcmc.py", frozenset(reach(s, p)))
                c.sites += 1
            attempt(c, cls + ": construction", make)

    def two(label, where, build, meths):
        s = Session(root)
        q = Caller(s)
        args = build(q)
        C = s.get(*args[0])
        a = s.call(C, *args[1], **args[2])
        b = s.call(C, *args[1], **args[2])
        other = frozenset(reach(s, b))
        n1 = len(s.it.events)
        for m, v in meths(q):
            if s.has(a, m):
                try:
                    s.method(a, m, *v)
                except (AnalysisError, Gone):
                    pass
        c.seen(s)
        judge_shared(c, s, n1, label + ": using one instance leaves another one alone", where, other)
        c.sites += 1
    fa = lambda q: [("forward", (q.arr("X", None),)), ("adjoint", (q.arr("Y", None),)), ("inverse", (q.arr("X2", None),)),
                    ("inverse_adjoint", (q.arr("X3", None),)), ("forward_adjoint", (q.arr("X4", None),)), ("calc_gradg", (q.arr("P", ND),)),
                    ("prior", (q.arr("X5", None),)), ("proxf", (q.arr("X6", None),)), ("sks_estimate", (q.arr("X7", None),))]
    T = scalar("T", pos=True)
    m_, n_ = integer("m", pos=True), integer("n", pos=True)
    sets = [("Identity", "measurements", lambda q: (("measurements", "Identity"), (m_, n_), {})),
            ("PathIntegral", "measurements", lambda q: (("measurements", "PathIntegral"), (q.mat("P", m_, n_, sparse=True),), {})),
            ("WeakLensingHarmonic", "measurements", lambda q: (("measurements", "WeakLensingHarmonic"), (L,), {})),
            ("WeakLensing", "measurements", lambda q: (("measurements", "WeakLensing"), (L,), {})),
            ("WeakLensing (mask, galaxies)", "measurements", lambda q: (("measurements", "WeakLensing"), (L,), dict(
                mask=q.arr("mask", L, 2, SHAPE, real=True), ngal=q.arr("ngal", L, 2, SHAPE, real=True)))),
            ("SphericalWaveletTransform", "transforms", lambda q: (("transforms", "SphericalWaveletTransform"), (L, B, J, DIRS, SPIN), {})),
            ("IdentityTransform", "transforms", lambda q: (("transforms", "IdentityTransform"), (), {}))]
    for st in ("analysis", "synthesis"):
        sets.append(("SphericalWaveletTransformOperator (%s)" % st, "forward", lambda q, st=st: (
            ("forward", "SphericalWaveletTransformOperator"), (q.arr("data", ND), q.arr("sig", ND, real=True, pos=True), st, L, B, J), {})))
        sets.append(("PathIntegralOperator (%s)" % st, "forward", lambda q, st=st: (
            ("forward", "PathIntegralOperator"), (q.mat("P", ND, NPIX, sparse=True), q.arr("data", ND), q.arr("sig", ND, real=True, pos=True), st, L, B, J), {})))
        sets.append(("ForwardOperator (%s)" % st, "forward", lambda q, st=st: (
            ("forward", "ForwardOperator"), (q.arr("data", ND), q.arr("sig", ND, real=True, pos=True), st),
            dict(transform=q.obj("tr"), measurement=q.obj("me"), nparams=integer("np_", pos=True)))))
        sets.append(("L1 (%s)" % st, "prior", lambda q, st=st: (("prior", "L1"), (st, q.fn("fwd"), q.fn("adj"), T), {})))
    for p in ("S2_Wavelets_L1", "S2_Wavelets_L1_Power_Weights"):
        sets.append((p, "prior", lambda q, p=p: (("prior", p), ("synthesis", q.fn("fwd"), q.fn("adj"), T, L, B, J, DIRS, SPIN), {})))
    for lab, mod, b in sets:
        attempt(c, lab, lambda: two(lab, "pxmcmc/%s.py" % mod, b, fa))


# ---------------------------------------------------------------- C21
from . import paths as pa


def trees(root, sub="pxmcmc"):
    out = []
    base = os.path.join(root, sub)
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with open(p, encoding="utf-8") as h:
                        out.append((os.path.relpath(p, root), ast.parse(h.read())))
    return out


def touches_stdout(f, al):
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and x.attr in ("stdout", "redirect_stdout", "dup2", "dup"):
            return True
        if isinstance(x, ast.Name) and al.get(x.id, x.id).split(".")[-1] in ("redirect_stdout", "dup2") or isinstance(x, ast.Name) and al.get(x.id) == "sys.stdout":
            return True
        if isinstance(x, ast.Constant) and x.value == "stdout":
            return True
    return False


def reaches_stdout(tree, al):
    """names of the functions of the module that replace standard output, themselves or through plain calls"""
    fns = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
    hot = {n for n, f in fns.items() if touches_stdout(f, al)}
    called = {}
    while True:
        new = set()
        for n, f in fns.items():
            cs = {x.func.id for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)} & set(fns)
            called[n] = {h for h in cs if h in hot and not pa.is_gen(fns[h])}
            if n not in hot and called[n]:
                new.add(n)
        if not new:
            break
        hot |= new
    # helpers judged where they are used: private, entered by the path analysis at every use
    inner = set().union(*[v - {k} for k, v in called.items()] or [set()])
    inner |= {h for k in tree.body if isinstance(k, ast.ClassDef) for x in ast.walk(k) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) for h in [x.func.id] if h in hot and not pa.is_gen(fns[h])}
    return hot, {n for n in inner if n.startswith("_")}


def c21(c, root):
    c.assumptions += ["closing a file and plain assignments do not raise"]
    found = 0
    pa.SILENCERS.clear()
    for path, tree in trees(root):
        al = pa.imports(tree)
        pa.SILENCERS.update(x.name for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and pa.is_gen(x) and touches_stdout(x, al)
                            or isinstance(x, ast.ClassDef) and touches_stdout(x, al) and any(isinstance(m, ast.FunctionDef) and m.name == "__exit__" for m in x.body))
    for path, tree in trees(root):
        al = pa.imports(tree)
        hot, inner = reaches_stdout(tree, al)
        hot |= {f.name for f in tree.body if isinstance(f, ast.FunctionDef) and any(isinstance(x, ast.Attribute) and x.attr == "__enter__" for x in ast.walk(f))
                and any(isinstance(x, ast.Name) and x.id in pa.SILENCERS for x in ast.walk(f))}
        for f in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))]:
            if isinstance(f, ast.FunctionDef):
                owner = [k for k in ast.walk(tree) if isinstance(k, ast.ClassDef) and f in k.body and any(isinstance(m, ast.FunctionDef) and m.name == "__exit__" for m in k.body)]
                if owner or not (touches_stdout(f, al) or f in tree.body and f.name in hot) or f in tree.body and f.name in inner:
                    continue
                outs, ex = pa.run_function(f, tree)
                outs = [(k, s, s.raised and k != "raise") for k, s, v in outs]
            else:
                names = {m.name for m in f.body if isinstance(m, ast.FunctionDef)}
                if not {"__enter__", "__exit__"} <= names or not touches_stdout(f, al):
                    continue
                outs, ex = pa.run_class(f, tree)
            found += 1
            c.analysed.add(path + ":" + f.name)
            c.sites += len(outs)
            w = "%s:%d %s" % (path, f.lineno, f.name)
            soft = "; ".join(sorted(ex.notes))
            fd = any(isinstance(x, ast.Attribute) and x.attr in ("dup2", "dup") for x in ast.walk(f))

            def verdict(name, bad):
                if bad and (soft or fd or any(s.out[0] in ("call", "attr", "item", "val", "aug") and k for k, s, _ in bad)):
                    c.open("%s: %s" % (f.name, name), "paths through constructs outside the fragment: %s" % (soft or "streams of unknown origin"), w)
                elif bad:
                    k, s, _ = bad[0]
                    c.bad("%s: %s" % (f.name, name), "on %s exit sys.stdout is %s; opened %s, closed %s" % (
                        "exceptional" if k == "raise" else "normal", tok(s.out), [tok(t) for t in s.opened], [tok(t) for t in s.closed]), w)
                else:
                    c.ok("%s: %s" % (f.name, name), "%d paths" % len(outs), w)
            verdict("every exit leaves the stream found on entry in place", [o for o in outs if o[1].out != pa.ENTRY])
            verdict("what it opens is closed on every exit", [o for o in outs if o[1].opened - o[1].closed])
            verdict("exceptions of the silenced block reach the caller", [o for o in outs if o[2]])
            early = [o for o in outs if any(t[0] in ("entry", "sys.__stdout__") for t in o[1].closed)]
            verdict("the caller's stream is not closed", early)
    if not found:
        c.ok("no function of the package replaces standard output", "")
    for nm in ("map2alm", "alm2map"):
        attempt(c, nm, lambda: wrapper(c, root, nm))


# parameters of the wrapped functions, with their defaults
WRAPPED = {"map2alm": (["maps", "lmax", "mmax", "iter", "pol", "use_weights", "datapath", "gal_cut", "use_pixel_weights", "verbose"],
                       {"mmax": None, "iter": 3, "pol": True, "use_weights": False, "datapath": None, "gal_cut": 0, "use_pixel_weights": False}),
           "alm2map": (["alms", "nside", "lmax", "mmax", "pixwin", "fwhm", "sigma", "pol", "inplace", "verbose"],
                       {"lmax": None, "mmax": None, "pixwin": False, "fwhm": 0, "sigma": None, "pol": True, "inplace": False})}


def wrapper(c, root, nm):
    """a silenced wrapper is the function it wraps: same arguments, keywords included, same result"""
    pars, dflt = WRAPPED[nm]
    for label, kws in (("no keywords", {}), ("keywords", {k: sym("kw_" + k) for k in ("mmax", "pol")})):
        s = Session(root)
        try:
            fn = s.get("utils", nm)
        except Gone:
            return
        a, b = vec("harm_in"), integer("res", pos=True)
        t = s.T(s.call(fn, a, b, **kws))
        c.seen(s)
        c.sites += 1
        name = "%s (%s): result and arguments are those of the wrapped function" % (nm, label)
        where = "pxmcmc/utils.py " + nm
        if t.head != "ext" or str(t.args[0]).split(".")[-1] != nm:
            c.fact(name, None if t.head in ("opaque", "loopval", "ext", "meth") else False, clip(show(t), 200), where)
            continue
        got, pos = {}, 0
        for x in t.args[1:]:
            if x.head == "kw":
                got[x.args[0]] = x.args[1]
            elif pos < len(pars):
                got[pars[pos]] = x
                pos += 1
        want = {pars[0]: a, pars[1]: b}
        want.update(kws)
        if "**" in got or any(x.head == "star" for x in t.args[1:] if isinstance(x, tm.Term)):
            c.open(name, clip(show(t), 200), where)
            continue
        bad = ["%s is missing" % k for k in want if k not in got and not (k in dflt and want[k] is const(dflt[k]))]
        bad += ["%s is %s" % (k, clip(show(v), 80)) for k, v in got.items()
                if k != "verbose" and v is not want.get(k, const(dflt[k]) if k in dflt and not isinstance(dflt[k], int) or isinstance(dflt.get(k), bool) else num(dflt.get(k, 0)) if k in dflt else None)]
        c.fact(name, not bad, "; ".join(bad), where)


def tok(t):
    return {"entry": "the stream found on entry", "file": "file opened at line %s" % str(t[1] if len(t) > 1 else "?"), "entered": "entered context manager"}.get(t[0], " ".join(map(str, t)))


# ---------------------------------------------------------------- C18
ALTERS = {"numpy." + x for x in "nan_to_num round around round_ rint trunc fix floor ceil clip unique sort flip flipud fliplr roll diff cumsum float32 float16 complex64 int64 int32 tril triu nancumsum ma.masked_invalid".split()}


def changes_values(got, val):
    """name of a function of numpy that stands between the wanted value and the written one and is the identity on no general array"""
    t = got
    while t is not val:
        name, args = (t.args[0], t.args[1:]) if t.head == "ext" else (t.head, t.args)
        if name in ALTERS and len(args) and isinstance(args[0], tm.Term) and any(x is val for x in tm.subterms(args[0])):
            return name
        if name not in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "astype", "conj", "real", "flat") or not args or not isinstance(args[0], tm.Term):
            return None
        t = args[0]
    return None


DATASETS = {"logPi": "logposterior", "preds": "predictions", "chain": "chain", "L2s": "L2s", "priors": "priors",
            "acceptance_trace": "acceptances", "deltas_trace": "deltas"}
REALSETS = {"logposterior", "L2s", "priors", "deltas"}
WIDE = {"complex", "complex128", "c16", "<c16", "clongdouble", "complex256"}
DOUBLE = {"float", "float64", "f8", "<f8", "d", "double", "longdouble", "float128"}
COUNT = {"bool", "int", "int8", "i1", "int16", "i2", "int32", "i4", "int64", "i8", "uint8", "u1", "b", "B", "?", "uint16", "uint32", "uint64"}
NARROW = {"float32", "f4", "<f4", "f", "float16", "f2", "half", "single", "complex64", "c8", "<c8", "F", "csingle"}


def is_file(t):
    return t.head == "ext" and t.args[0] == "h5py.File"


def in_file(t):
    while t.head == "store":
        t = t.args[0]
    return is_file(t)


def in_attrs(t):
    while t.head == "store":
        t = t.args[0]
    return t.head == "attr" and t.args[1] == "attrs" and in_file(t.args[0]) or t.head == "attr" and len(t.args) > 1 and t.args[1] is const("attrs") and in_file(t.args[0])


def dtype_name(t):
    """name of a dtype given as a keyword, or None"""
    if t.head == "const" and isinstance(t.args[0], str):
        return t.args[0]
    x = show(t)
    for pre in ("numpy.dtype(", "numpy.", "builtins."):
        if x.startswith(pre):
            x = x[len(pre):].rstrip(")").strip("'")
    return x.strip("'") if x.strip("'") in WIDE | DOUBLE | COUNT | NARROW else None


class Saved:
    """what one call of save_mcmc writes: name -> [(guard, value, dtype term, event)]"""

    def __init__(self, s, since):
        self.data, self.attrs, self.files, self.soft = {}, {}, [], []
        self.lossy = []
        it = s.it
        for e in it.events[since:]:
            pc = it.full_pc(e)
            if pc is FALSE:
                continue
            if e.kind == "call" and e.name == "h5py.File":
                self.files.append((pc, e))
            elif e.kind == "call" and e.name in (".create_dataset", ".require_dataset") and in_file(e.recv):
                a = dict(zip(("name", "shape", "dtype", "data"), e.args))
                a.update(e.kwargs)
                self.put(self.data, a.pop("name", NONE), pc, a.pop("data", NONE), a.pop("dtype", None), e)
                lossy = [k for k in ("scaleoffset",) if a.pop(k, NONE) is not NONE]
                if lossy:
                    self.lossy.append((e.where, "%s=%s" % (lossy[0], "...")))
                if set(a) - {"compression", "compression_opts", "chunks", "shuffle", "fletcher32", "maxshape", "track_times", "track_order"}:
                    self.soft.append("dataset option " + ", ".join(sorted(a)))
            elif e.kind == "store" and in_file(e.base):
                self.put(self.data, e.idx, pc, e.val, None, e)
            elif e.kind == "store" and in_attrs(e.base):
                self.put(self.attrs, e.idx, pc, e.val, None, e)
            elif e.kind == "call" and e.name in (".create", ".modify", ".__setitem__") and in_attrs(e.recv):
                a = dict(zip(("name", "data", "shape", "dtype"), e.args))
                a.update(e.kwargs)
                self.put(self.attrs, a.get("name", NONE), pc, a.get("data", NONE), a.get("dtype"), e)
            elif e.kind == "call" and e.name == ".update" and in_attrs(e.recv):
                got = False
                for v in e.vals:
                    cell = s.st.heap.get(v.loc) if isinstance(v, Ref) else None
                    if isinstance(cell, DictCell) and cell.open is None:
                        got = True
                        for k, x in cell.items.items():
                            self.put(self.attrs, k if isinstance(k, tm.Term) else const(k), pc, it.T(x, s.st), None, e)
                for k, x in e.kwargs.items():
                    got = True
                    self.put(self.attrs, const(k), pc, x, None, e)
                if not got:
                    self.soft.append("attributes updated from " + clip(show(e.term), 120))
            elif e.kind == "call" and e.name.startswith(".") and (in_file(e.recv) or in_attrs(e.recv)) and e.name not in (".close", ".flush", ".keys", ".items", ".__enter__"):
                self.soft.append("file method %s" % e.name)

    def put(self, where, name, pc, val, dtype, e):
        if name.head != "const" or not isinstance(name.args[0], str):
            self.soft.append("name " + clip(show(name), 80))
            return
        where.setdefault(name.args[0], []).append((pc, val, dtype, e))


def path_parts(t):
    """a file name as a flat sequence of pieces, or None"""
    if t.head == "const" and isinstance(t.args[0], str):
        return [t.args[0]]
    if t.head == "sym":
        return [t]
    name, args = (t.args[0], t.args[1:]) if t.head == "ext" else (t.head, t.args)
    if name == "meth":
        ms = [a for a in args if isinstance(a, str)] or [a.args[0] for a in args if a.head == "const"]
        name, args = (ms[0] if ms else "?"), [a for a in args if isinstance(a, tm.Term)][:1]
    if not all(isinstance(a, tm.Term) for a in args):
        return None
    if name == "getitem" and args[1].head != "slice":
        args = args[:1]
    ps = [path_parts(a) for a in args]
    if any(p is None for p in ps) or not ps:
        return None
    if name in ("split", "rsplit", "strip", "rstrip", "lstrip", "replace", "lower", "upper", "getitem", "os.path.splitext", "os.path.basename", "removesuffix", "casefold", "title"):
        return [t]          # another string for some file name
    if name in ("fstr", "os.fspath", "os.path.expanduser", "os.path.abspath", "os.path.normpath"):
        return [x for p in ps for x in p]
    if name in ("os.path.join", "pathlib.Path", "pathlib.PurePath", "joinpath"):
        out = []
        for p in ps:
            out += (["/"] if out else []) + p
        return out
    return None


def norm_parts(p):
    out = []
    for x in p:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def holds(pc, s):
    return tm.compare(pc, TRUE, TRUE).eq


def judge_saved(c, s, saved, want, attrs, label, where):
    """want: dataset -> (guard, value)"""
    soft = "; ".join(saved.soft[:3])

    def fail(name, detail, w):
        (c.open if soft else c.bad)(name, detail + (" [%s]" % soft if soft else ""), w)

    for ds, (guard, val) in want.items():
        ws = saved.data.get(ds, [])
        g = or_(*[w[0] for w in ws]) if ws else FALSE
        w0 = ws[0][3].where if ws else where
        if guard is FALSE:
            if not ws:
                c.ok("%s: %s not held, not written" % (label, ds), "", where)
            else:
                fail("%s: %s not held, not written" % (label, ds), "written although the sampler does not hold it", w0)
            continue
        st, d = c.verdict(g, guard)
        if st == "violation":
            fail("%s: dataset %s is written exactly when the sampler holds it" % (label, ds), d, w0)
        else:
            c.obl.append(("%s: dataset %s is written exactly when the sampler holds it" % (label, ds), st, d, w0))
        for pc, got, dt, e in ws:
            st, d = c.verdict(got, val, and_(pc, guard), soft_ok=("mu", "loopval", "fstr", "slice", "list"))
            if st == "violation" and soft:
                st = "undecided"
            f = changes_values(got, val)
            if st == "undecided" and f:
                st, d = "violation", "the values go through %s, which changes some of them" % f
            c.obl.append(("%s: dataset %s holds the sampler's values" % (label, ds), st, d, e.where))
            if dt is None or dt is NONE:
                continue
            n = dtype_name(dt)
            if dt.head == "ite":
                ls = [dtype_name(x) for x in tm.subterms(dt) if x.head == "const"] + [dtype_name(x) for x in tm.subterms(dt) if x.head not in ("const", "ite")]
                ls = [x for x in ls if x in NARROW and not (ds == "acceptances" and x in COUNT)]
                if ls:
                    c.bad("%s: %s stored without loss" % (label, ds), "dtype %s for some samplers" % ls[0], e.where)
                    continue
            if dt.head == "attr" and dt.args[0] is val:
                c.ok("%s: %s stored without loss" % (label, ds), "its own dtype", e.where)
            elif n is None:
                c.open("%s: %s stored without loss" % (label, ds), "dtype " + clip(show(dt), 80), e.where)
            else:
                good = n in WIDE or ds in REALSETS and n in DOUBLE or ds == "acceptances" and n in COUNT | DOUBLE
                c.fact("%s: %s stored without loss" % (label, ds), good, "dtype %s" % n, e.where)
    for w, what in saved.lossy:
        c.bad("%s: datasets are stored without loss" % label, what, w)
    for name, ws in saved.data.items():
        if name not in want:
            c.notes.append("%s: extra dataset %s" % (label, name))
    for k, val in attrs.items():
        ws = saved.attrs.get(k, [])
        g = or_(*[w[0] for w in ws]) if ws else FALSE
        w0 = ws[-1][3].where if ws else where
        st, d = c.verdict(g, TRUE)
        if st == "violation":
            fail("%s: attribute %s is always written" % (label, k), d if ws else "never written", w0)
        else:
            c.obl.append(("%s: attribute %s is always written" % (label, k), st, d, w0))
        if ws:
            pc, got, dt, e = ws[-1]
            st, d = c.verdict(got, val, soft_ok=("fstr", "slice", "list"))
            if st == "violation" and dt is None and not soft and show(got) == "list(%s)" % show(val):
                st = "ok"
            c.obl.append(("%s: attribute %s holds its value" % (label, k), st if not (soft and st == "violation") else "undecided", d, e.where))


def judge_file(c, s, saved, out, fn, label, where):
    if len(saved.files) != 1:
        (c.open if saved.files else c.bad)("%s: one file is opened" % label, "%d openings" % len(saved.files), where)
        return
    pc, e = saved.files[0]
    c.eq("%s: the file is opened on every call" % label, pc, TRUE, where=e.where)
    a = dict(zip(("name", "mode"), e.args))
    a.update(e.kwargs)
    p = path_parts(a.get("name", NONE))
    want = norm_parts([out, "/", fn, ".hdf5"])
    name = "%s: the file is <outpath>/<filename>.hdf5" % label
    if p is None:
        c.open(name, "path " + clip(show(a.get("name", NONE)), 160), e.where)
    else:
        c.fact(name, norm_parts(p) == want, "path %s" % [x if isinstance(x, str) else show(x) for x in norm_parts(p)], e.where)
    m = a.get("mode", const("r"))

    def modes(t):
        """a mode chosen by a condition must be w in every case (conditions here are about what lies on disk)"""
        if t.head == "ite":
            rs = [modes(x) for x in t.args[1:]]
            return False if False in rs else None if None in rs else True
        return t is const("w") if t.head == "const" else None
    c.fact("%s: a fresh file is written" % label, (m is const("w")) if m.head == "const" else modes(m), "mode %s" % show(m), e.where)


def expected_sets(s, obj):
    return {ds: (TRUE, s.T(s.field(obj, at))) if s.has(obj, at) else (FALSE, None) for at, ds in DATASETS.items()}


def c18(c, root):
    c.assumptions += ["h5py writes the array it is given and closes files left by a with statement", "the sampler holds a quantity when it has the attribute of that name"]
    names = set()
    where = "pxmcmc/saving.py save_mcmc"

    def extras():
        return {"alpha": sym("extra_alpha", pytype="float", scalar=True, real=True), "label": sym("extra_label", pytype="str", string=True),
                "arr": sym("extra_arr", pytype="ndarray", vec=True, ndim=1), "flag": sym("extra_flag", pytype="bool", scalar=True, real=True)}
    out = sym("outpath", pytype="str", string=True)
    fn = sym("filename", pytype="str", string=True)

    # any sampler object, any subset of held quantities
    for given in (True, False):
        s = Session(root)
        p = params(s, False, TRACKS)
        m = Data(sym("mcmc", obj=True), s.it.newloc())
        n = len(s.it.events)
        ex = extras()
        kw = dict(ex, filename=fn) if given else dict(ex)
        s.call(s.get("saving", "save_mcmc"), m, p, out, **kw)
        c.seen(s)
        sv = Saved(s, n)
        c.sites += sum(map(len, sv.data.values())) + sum(map(len, sv.attrs.values()))
        names |= set(sv.data)
        label = "any sampler" + ("" if given else ", default file name")
        judge_file(c, s, sv, out, fn if given else "outputs", label, where)
        if not given:
            continue
        mt = sym("mcmc", obj=True)
        want = {}
        for at, ds in DATASETS.items():
            has = s.it.truth(s.call_ext("hasattr", m, at), s.st)
            want[ds] = (has, node("attr", mt, at))
        fields = {k: s.T(v) for k, v in s.st.heap[p.loc].fields.items()}
        judge_saved(c, s, sv, want, dict(fields, **ex), label, where)

    # the package's samplers after a run
    for cls, track, kw in (("MYULA", ("chain", "L2"), {}), ("PxMALA", TRACKS, dict(tune=True)), ("PxMALA", (), {}), ("SKROCK", ("logposterior", "predictions", "prior"), {})):
        try:
            r = SamplerRun(root, cls, complex_=cls == "SKROCK", track=track, **kw)
        except (AnalysisError, Gone) as x:
            c.open("%s run" % cls, str(x))
            continue
        n = len(r.s.it.events)
        r.s.call(r.s.get("saving", "save_mcmc"), r.obj, r.params, out, filename=fn)
        sv = Saved(r.s, n)
        names |= set(sv.data)
        fields = {k: r.s.T(v) for k, v in r.s.st.heap[r.params.loc].fields.items()}
        judge_saved(c, r.s, sv, expected_sets(r.s, r.obj), fields, "%s tracking %s" % (cls, ",".join(track) or "nothing"), where)

    # nothing that cannot be written is passed over in silence
    for path, tree in trees(root):
        if os.path.basename(path) != "saving.py":
            continue
        for w, what in swallowed(tree):
            c.bad("what cannot be written raises", what, "%s:%d" % (path, w))
            break
        else:
            c.ok("what cannot be written raises", "", path)

    # files are closed whatever happens
    for path, tree in trees(root):
        al = pa.imports(tree)
        for f in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            calls = [x for x in ast.walk(f) if isinstance(x, ast.Call) and pa.Exec({}, aliases=al).name(x.func) == "h5py.File"]
            users = {x.func.id for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
            if not calls and f.name != "save_mcmc":
                continue
            if calls and any(isinstance(x, ast.Return) and x.value is not None and any(y in calls for y in ast.walk(x.value)) for x in ast.walk(f)) and f.name.startswith("_"):
                continue        # hands the file to its caller, which is analysed with it
            try:
                outs, exx = pa.run_function(f, tree)
            except pa.TooMany:
                c.open("%s: the file is closed on every exit" % f.name, "too many paths", path)
                continue
            w = "%s:%d %s" % (path, f.lineno, f.name)
            bad = [o for o in outs if o[1].opened - o[1].closed]
            c.sites += len(outs)
            if bad and exx.notes:
                c.open("%s: the file is closed on every exit" % f.name, "; ".join(exx.notes), w)
            else:
                c.fact("%s: the file is closed on every exit" % f.name, not bad, "%d paths%s" % (len(outs), "; left open on %s exit" % bad[0][0] if bad else ""), w)

    # what the example scripts read
    reads(c, root, names)


def swallowed(tree):
    """(line, what) of the places where an error of a write to a file is caught and dropped"""
    def writes(stmts):
        return [x for b in stmts for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("create_dataset", "create", "modify", "update")
                or isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) for t in x.targets)]

    def names(t):
        return [pa.dotted(x) or "?" for x in (t.elts if isinstance(t, ast.Tuple) else [t])]

    def ends(stmts):
        """does control leave the block only by raising?"""
        return bool(stmts) and (isinstance(stmts[-1], ast.Raise) or isinstance(stmts[-1], ast.If) and stmts[-1].orelse and ends(stmts[-1].body) and ends(stmts[-1].orelse)
                                or isinstance(stmts[-1], ast.With) and ends(stmts[-1].body))
    quiet = {"AttributeError", "StopIteration"}
    for x in ast.walk(tree):
        if isinstance(x, ast.Try) and writes(x.body):
            for h in x.handlers:
                if h.type is not None and set(names(h.type)) <= quiet or ends(h.body) or writes(h.body):
                    continue
                if any(isinstance(y, (ast.Raise, ast.Call)) for b in h.body for y in ast.walk(b) if not (isinstance(y, ast.Call) and pa.dotted(y.func) in ("print", "warnings.warn", "warn", "str", "repr"))):
                    continue            # what the handler does is not followed
                yield h.lineno, "an error of the write at line %d is dropped" % writes(x.body)[0].lineno
        if isinstance(x, ast.With) and writes(x.body):
            for i in x.items:
                if isinstance(i.context_expr, ast.Call) and (pa.dotted(i.context_expr.func) or "").split(".")[-1] == "suppress" \
                        and not set(n for a in i.context_expr.args for n in names(a)) <= quiet:
                    yield x.lineno, "an error of the write at line %d is dropped" % writes(x.body)[0].lineno


def reads(c, root, names):
    base = os.path.join(root, "experiments")
    pfields = None
    try:
        s = Session(root)
        p = params(s, False, TRACKS)
        pfields = set(s.st.heap[p.loc].fields)
    except (AnalysisError, Gone):
        pass
    for path, tree in trees(root, "experiments"):
        al = pa.imports(tree)
        nm = pa.Exec({}, aliases=al).name
        files = {t.id for x in ast.walk(tree) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and nm(x.value.func) == "h5py.File" for t in x.targets if isinstance(t, ast.Name)}
        files |= {i.optional_vars.id for x in ast.walk(tree) if isinstance(x, ast.With) for i in x.items
                  if isinstance(i.context_expr, ast.Call) and nm(i.context_expr.func) == "h5py.File" and isinstance(i.optional_vars, ast.Name)}
        if not files:
            continue
        got = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in files and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                got.setdefault(x.slice.value, x.lineno)
        for ds, line in sorted(got.items()):
            c.sites += 1
            if names:
                c.fact("%s reads dataset %s, which saving writes" % (path, ds), ds in names, "written: %s" % sorted(names), "%s:%d" % (path, line))
