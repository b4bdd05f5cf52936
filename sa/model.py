"""Analysis entry points: symbolic callers for the public classes and functions of the package."""
import itertools
from . import terms as tm
from .terms import sym, const, num, node, TRUE, FALSE, NONE
from .interp import Interp, Data, Tup, Ref, Fn, Cls, LibFn, AnalysisError, ObjCell, ListCell, DictCell, UNBOUND, Choice, State

SC = dict(scalar=True, real=True)
TRACKS = ("logposterior", "predictions", "chain", "L2", "prior")


class Gone(Exception):
    """a public name the property is about does not exist any more"""


def scalar(name, **kw):
    return sym(name, **dict(SC, **kw))


def integer(name, **kw):
    return sym(name, **dict(SC, integer=True, **kw))


class Session:
    """one interpreter over the current sources"""

    def __init__(self, root="/repo"):
        self.it = Interp(root)
        self.st = self.it.st0.copy()
        self.it.events = []

    def get(self, mod, name):
        m = self.it.modules.get("pxmcmc." + mod if mod else "pxmcmc")
        if m is None:
            raise Gone("module pxmcmc.%s" % mod)
        v = m.env.get(name)
        if v is None:
            raise Gone("pxmcmc.%s.%s" % (mod, name))
        return v

    def val(self, x, desc=None):
        if isinstance(x, tm.Term):
            if desc:
                return self.it.root_data(x, desc)
            return Data(x)
        if isinstance(x, (int, float, str, bool)) or x is None:
            return Data(const(x))
        return x

    def call(self, fn, *args, **kw):
        return self.it.call(fn, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.st, None)

    def method(self, obj, name, *args, **kw):
        f = self.it.getattr_(obj, name, self.st, None)
        return self.call(f, *args, **kw)

    def call_ext(self, name, *args):
        """a library call made by the specification"""
        return self.it.lib.ext(self.it, self.st, name, [self.val(a) for a in args], {}, None)

    def has(self, obj, name):
        if isinstance(obj, Ref):
            c = self.st.heap.get(obj.loc)
            if isinstance(c, ObjCell):
                return name in c.fields or (c.cls is not None and c.cls.find(name)[0] is not None)
        return False

    def attr(self, obj, name):
        return self.it.getattr_(obj, name, self.st, None)

    def field(self, obj, name):
        c = self.st.heap.get(obj.loc) if isinstance(obj, Ref) else None
        return c.fields.get(name) if isinstance(c, ObjCell) else None

    def T(self, v):
        return self.it.T(v, self.st)

    def events(self, kind=None, since=0):
        return [e for e in self.it.events[since:] if kind is None or e.kind == kind]


def symbolic_objects(s, complex_):
    """forward operator and prior given by the user, known through their interface only"""
    it = s.it
    fw = sym("forward", obj=True)
    pr = sym("prior", obj=True)
    for nm, p in {
        ("forward", "nparams"): dict(integer=True, pos=True, scalar=True, real=True),
        ("forward", "data"): dict(vec=True, ndim=1),
        ("forward", "invcov"): dict(mat=True, ndim=2),
        ("forward", "forward()"): dict(vec=True, ndim=1),
        ("forward", "calc_gradg()"): dict(vec=True, ndim=1),
        ("prior", "proxf()"): dict(vec=True, ndim=1),
        ("prior", "prior()"): dict(scalar=True, real=True),
    }.items():
        it.attr_props[nm] = p
    return Data(fw, it.newloc()), Data(pr, it.newloc())


def params(ses, complex_, track, verbosity=None, **over):
    """PxMCMCParams with every numeric parameter symbolic"""
    kw = dict(lmda=scalar("lmda", pos=True), delta=scalar("delta0", pos=True), mu=scalar("mu", pos=True),
              s=integer("s", pos=True), nsamples=integer("nsamples", nonneg=True), nburn=integer("nburn", nonneg=True),
              ngap=integer("ngap", nonneg=True), complex=complex_,
              verbosity=verbosity if verbosity is not None else integer("verbosity"))
    kw.update(over)
    tl = ses.it.new_list(ses.st, [Data(const(t)) for t in track])
    ses.it.roots[tl.loc] = "caller:track"
    ses.track_loc = tl.loc
    p = ses.call(ses.get("mcmc", "PxMCMCParams"), track=tl, **kw)
    ses.it.roots.setdefault(p.loc, "caller:mcmcparams")
    return p


def cheb_summaries(it):
    """the Chebyshev helpers, replaced by what C24 establishes about them"""
    def mk(kind):
        def f(interp, st, args, nd):
            if len(args) != 2:
                return None
            t = node("cheb", kind, interp.T(args[1], st), interp.T(args[0], st))
            t.props = dict(scalar=True, real=True)
            return Data(t)
        return f
    it.summaries.update({"utils.chebyshev1": mk("T"), "utils.chebyshev2": mk("U"), "utils.cheb1der": mk("dT")})


class SamplerRun:
    def __init__(self, root, cls, complex_=False, track=TRACKS, start="given", tune=None, run=True, summaries=None, **over):
        self.s = s = Session(root)
        cheb_summaries(s.it)
        s.it.summaries.update(summaries or {})
        self.cls, self.complex, self.track = cls, complex_, track
        self.fw, self.pr = symbolic_objects(s, complex_)
        self.params = params(s, complex_, track, **over)
        self.n_params = len(s.it.events)
        C = s.get("mcmc", cls)
        kw = {}
        if tune is not None:
            kw["tune_delta"] = tune
        self.obj = s.call(C, self.fw, self.pr, self.params, **kw)
        s.it.assume_pos.add("%d.delta" % self.obj.loc)
        self.n_ctor = len(s.it.events)
        self.ctor_fields = dict(s.st.heap[self.obj.loc].fields)
        self.ctor_state = s.st.copy()
        if not run:
            return
        if start == "given":
            x0 = sym("x0c" if complex_ else "x0", vec=True, ndim=1, pytype="ndarray", len=node("attr", sym("forward", obj=True), "nparams"),
                     real=not complex_)
            self.x0 = s.it.root_data(x0, "caller:start_point")
            self.ret = s.method(self.obj, "run", self.x0)
        elif start is None:
            self.ret = s.method(self.obj, "run")
        else:
            self.x0 = start
            self.ret = s.method(self.obj, "run", start)
        self.it = s.it
