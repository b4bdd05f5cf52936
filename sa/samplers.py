"""Properties of the samplers (C01-C07, C16, C17, C19)."""
from . import terms as tm
from .terms import (sym, const, num, node, TRUE, FALSE, NONE, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg, power, conj, realpart,
                    absv, sumall, matmul, subst, subterms, show)
from .model import Session, SamplerRun, TRACKS, scalar, integer, Gone, symbolic_objects, params
from .interp import Data, Ref, Tup, ObjCell, ListCell, UNBOUND, Choice, AnalysisError
from .check import strange, clip

ARR = {"logposterior": "logPi", "predictions": "preds", "chain": "chain", "L2": "L2s", "prior": "priors"}
FW, PR = sym("forward", obj=True), sym("prior", obj=True)
NPAR = node("attr", FW, "nparams")
LM, D0, MU = scalar("lmda", pos=True), scalar("delta0", pos=True), scalar("mu", pos=True)
NS, NB, NG = integer("nsamples", nonneg=True), integer("nburn", nonneg=True), integer("ngap", nonneg=True)
VERB = sym("verbosity")


def fwd(x):
    return _m("forward", FW, x)


def grad(p):
    return _m("calc_gradg", FW, p)


def prox(x):
    return _m("proxf", PR, x)


def prior(x):
    return _m("prior", PR, x)


_PROPS = {"forward": dict(vec=True, ndim=1), "calc_gradg": dict(vec=True, ndim=1), "proxf": dict(vec=True, ndim=1),
          "prior": dict(scalar=True, real=True)}


def _m(name, obj, x):
    t = node("meth", name, obj, x)
    if t.props is None:
        t.props = dict(_PROPS[name])
    return t


def misfit(p):
    d = sub(node("attr", FW, "data"), p)
    return realpart(sumall(mul(conj(d), matmul(node("attr", FW, "invcov"), d))))


def logpi(x, p):
    return sub(mul(neg(MU), prior(x)), div(misfit(p), num(2)))


def unreal(t):
    """real parameters: gradient and prox are real by contract, so their real-part projections are the identity"""
    def f(x):
        if x.head == "meth" and x.args[0] in ("proxf", "calc_gradg"):
            y = node("meth", x.args[0] + "_", *x.args[1:])
            if y.props is None:
                y.props = dict(vec=True, ndim=1, real=True)
            return y
        return x
    return tm.rewrite(t, f)


class Flow:
    """the main loop of one sampler's run, with its invariants"""

    def __init__(self, root, cls, complex_, tune=None, track=TRACKS, start="given", light=False, **over):
        self.r = SamplerRun(root, cls, complex_, track=track, start=start, tune=tune, **over)
        self.name = cls + ("/complex" if complex_ else "/real") + ("" if tune is None else "/tuned" if tune else "/untuned")
        self.cls, self.complex = cls, complex_
        it = self.it = self.r.s.it
        self.st = self.r.s.st
        self.problem = None
        self.locs = {}
        for q in track:
            v = self.r.ctor_fields.get(ARR[q])
            if isinstance(v, Data):
                self.locs[v.loc] = q
        self.recs = {q: [] for q in track}
        for e in it.events[self.r.n_ctor:]:
            if e.kind == "store" and isinstance(e.target, Data):
                base = e.target
                while base.view is not None:
                    base = base.view[0]
                q = self.locs.get(base.loc)
                if q:
                    self.recs[q].append(e)
        loops = {e.loops[0] for es in self.recs.values() for e in es if e.loops}
        self.loop = None
        if len(loops) == 1:
            self.loop = it.loops[next(iter(loops))]
        else:
            self.problem = "main loop not identified (%d candidates)" % len(loops)
            return
        lp = self.loop
        if lp.n is not None:
            self.problem = "main loop is not driven by the number of saved samples"
        self.k = lp.k
        # state variable: the loop-carried value whose entry is the start point
        self.xname = None
        self.accept = None
        self.res = {}
        self._find_state()
        if self.xname and not light:
            self._invariants()

    # ------------------------------------------------------------ the state
    def _find_state(self):
        lp = self.loop
        x0 = self.r.x0.term if self.r.__dict__.get("x0") is not None else None
        cand = [n for n, e in lp.entry.items() if e is x0] if x0 is not None else [n for n, e in lp.entry.items() if e.head in ("laplace", "poly") and not tm.is_scalar(e)]
        if not cand and x0 is not None:
            cand = [n for n, e in lp.entry.items() if x0 in subterms(e) and any(lp.back[n] is e.val for e in self.recs.get("chain", ()))]
        for e in self.recs.get("chain", ()):
            v = e.val
            names = [n for n in cand if lp.mus[n] in subterms(v) or lp.back[n] is v]
            if names:
                cand = [n for n in cand if lp.back[n] is v] or names
                break
        if cand:
            self.xname = cand[0]
            self.X = lp.mus[self.xname]

    def _invariants(self):
        """relations v = F(x) between loop-carried values, taken from the entry values, kept if inductive"""
        lp = self.loop
        x0 = lp.entry[self.xname]
        known = dict(lp.known)
        cand = {}
        for n, m in lp.mus.items():
            if m in known or n == self.xname:
                continue
            e = lp.entry[n]
            if e.head in ("unbound", "list", "map"):
                continue
            if x0 in subterms(e):
                cand[n] = subst(e, {x0: self.X})
        back = {n: subst(lp.back[n], known) for n in lp.mus}
        while cand:
            hyp = {lp.mus[n]: f for n, f in cand.items()}
            xb = subst(back[self.xname], hyp)
            bad = []
            for n, f in cand.items():
                b = subst(back[n], hyp)
                want = subst(f, {self.X: xb})
                if not self.same(b, want):
                    bad.append(n)
            if not bad:
                break
            for n in bad:
                del cand[n]
        self.inv = cand
        self.res = dict(known)
        self.res.update({lp.mus[n]: subst(f, known) for n, f in cand.items()})

    def same(self, a, b):
        if a is b:
            return True
        try:
            return tm.compare(push(a), push(b), budget=[400], seconds=8).eq
        except (tm.Blowup, RecursionError):
            return False

    def R(self, t):
        return push(subst(subst(t, self.res), self.loop.known))

    def guard(self, e):
        return self.R(self.it.full_pc(e, self.loop.id))

    # ------------------------------------------------------------ first iterations
    def unrolled(self, depth=2):
        """substitutions describing the loop-carried values at the start of iterations 0, 1, ..; the acceptance decision of
        each earlier iteration is a free case"""
        lp = self.loop
        states = [{lp.mus[n]: e for n, e in lp.entry.items() if e.head != "unbound"}]
        out = [(states[0], num(0))]
        cur = [states[0]]
        for it_ in range(1, depth):
            nxt = []
            for s in cur:
                for case in self.accept_cases():
                    b = {}
                    for n, m in lp.mus.items():
                        t = lp.back[n]
                        if m in self.locs_mus():
                            continue
                        t = case(t)
                        t = subst(subst(t, s), {self.k: num(it_ - 1)})
                        if lp.entry[n].head == "unbound" and m in subterms(t):
                            continue
                        b[m] = tag_draws(t, it_ - 1)
                        if lp.entry[n].head == "unbound":
                            b[node("bool", node("unboundmu", m))] = FALSE
                    nxt.append(b)
                    out.append((b, num(it_)))
            cur = nxt
        return out

    def locs_mus(self):
        return {m for n, m in self.loop.mus.items() if n.startswith("mut")}

    def acceptance(self):
        """condition under which the new state differs from the old one: (cond, proposal) or None"""
        b = self.loop.back[self.xname]
        if b.head == "ite":
            if b.args[1] is self.X:
                return not_(b.args[0]), b.args[2]
            if b.args[2] is self.X:
                return b.args[0], b.args[1]
        return None

    def accept_cases(self):
        a = self.acceptance()
        if a is None:
            return [lambda t: t]
        c = a[0]

        def pick(val):
            return lambda t: tm.eval_bool(t, _assign(c, val))
        return [pick(True), pick(False)]


def _assign(c, val):
    if c.head == "not":
        c, val = c.args[0], not val
    d = {c: TRUE if val else FALSE}
    n = not_(c)
    if n.head != "not":
        d[n] = FALSE if val else TRUE
    return d


def tag_draws(t, k):
    def f(x):
        if x.head in ("normal", "uniform", "laplace") and x.args[2]:
            return node(x.head, x.args[0], ("it%d" % k, x.args[1]), ())
        return x
    return tm.rewrite(t, f)


def push(t):
    """push library calls into gated arguments: f(ite(c,a,b)) = ite(c, f(a), f(b))"""
    def f(x):
        if x.head == "meth":
            for i, a in enumerate(x.args):
                if isinstance(a, tm.Term) and a.head == "ite":
                    def mk(v):
                        y = node("meth", *(x.args[:i] + (v,) + x.args[i + 1:]))
                        if y.props is None and x.props:
                            y.props = dict(x.props)
                        return f(y)
                    return ite(a.args[0], mk(a.args[1]), mk(a.args[2]))
        return x
    return tm.rewrite(t, f)


CONFIGS = [("MYULA", False, None), ("MYULA", True, None), ("PxMALA", False, True), ("PxMALA", False, False), ("PxMALA", True, True),
           ("PxMALA", True, False), ("SKROCK", False, None), ("SKROCK", True, None)]


def flows(c, root, configs=CONFIGS, **kw):
    for cls, cx, tune in configs:
        try:
            f = Flow(root, cls, cx, tune, **kw)
        except Gone:
            raise
        except (AnalysisError, RecursionError, tm.Blowup) as e:
            c.open("%s%s%s" % (cls, "/complex" if cx else "/real", "/tuned" if tune else ""), "outside the analysed fragment: %s" % clip(str(e), 200))
            continue
        c.seen(f.r.s)
        if f.it.unknown:
            c.notes.append("outside the fragment in %s: %s" % (f.name, f.it.unknown))
        yield f


# ---------------------------------------------------------------- judging with invariants and first iterations
def judge(c, name, f, got, spec, assume=TRUE, where="", alt=(), norm=lambda t: t):
    """compare at an arbitrary iteration; if loop-carried values stay unresolved, look at the first iterations"""
    best = None
    for sp in (spec,) + tuple(alt):
        s, d = c.verdict(norm(f.R(got)), norm(f.R(sp)), f.R(assume))
        if s == "ok":
            c.ok(name, where=where)
            return "ok"
        best = best or (s, d)
        if s == "undecided":
            best = (s, d)
    if best[0] == "violation":
        c.bad(name, best[1], where)
        return "violation"
    for sb, k in f.unrolled(2):
        sb = dict(sb)
        sb[f.k] = k
        res = []
        for sp in (spec,) + tuple(alt):
            try:
                s, d = c.verdict(norm(push(subst(got, sb))), norm(push(subst(sp, sb))), push(subst(assume, sb)))
            except (tm.Blowup, RecursionError):
                s, d = "undecided", "blowup"
            res.append((s, d))
        if all(s == "violation" for s, d in res) and strange(got, spec) is None:
            c.bad(name, "at iteration %s: %s" % (show(k), res[0][1]), where)
            return "violation"
    c.open(name, best[1], where)
    return "undecided"


def record(f, q):
    """(guard, index, value, where) of what is written for quantity q in one iteration, or None"""
    es = [e for e in f.recs.get(q, ()) if e.loops and e.loops[0] == f.loop.id]
    if not es or any(len(e.loops) != 1 for e in es):
        return None
    g = f.it.full_pc(es[0], f.loop.id)
    idx, val = es[0].idx, es[0].val
    for e in es[1:]:
        g2 = f.it.full_pc(e, f.loop.id)
        idx = e.idx if e.idx is idx else ite(g2, e.idx, idx)
        val = e.val if e.val is val else ite(g2, e.val, val)
        g = or_(g, g2)
    return g, strip_index(idx), val, es[0].where


def strip_index(ix):
    if ix.head == "tuple":
        args = [a for a in ix.args]
        while len(args) > 1 and args[-1].head == "slice" and all(x is NONE for x in args[-1].args):
            args.pop()
        if len(args) == 1:
            return args[0]
    return ix


def c01(c, root):
    c.assumptions += ["forward operator and prior are known through their interface only (uninterpreted functions of their arguments)",
                      "real parameters: start point real; complex=False"]
    for f in flows(c, root):
        n = f.name
        if f.loop is None or not f.xname:
            c.open(n + ": main loop", f.problem or "state variable not identified")
            continue
        rec = {q: record(f, q) for q in TRACKS}
        c.sites += sum(len(v) for v in f.recs.values())
        if any(v is None for v in rec.values()):
            c.open(n + ": records", "no record of " + ", ".join(q for q in rec if rec[q] is None))
            continue
        g, idx, S, w = rec["chain"]
        judge(c, n + ": saved sample is the state reached in this iteration", f, S, f.loop.back[f.xname], g, w)
        for q in TRACKS:
            if q != "chain":
                judge(c, n + ": %s saved together with the sample" % q, f, bool2term(rec[q][0]), bool2term(g), TRUE, rec[q][3])
                judge(c, n + ": %s saved in the slot of the sample" % q, f, rec[q][1], idx, g, rec[q][3])
        judge(c, n + ": saved predictions are forward(saved sample)", f, rec["predictions"][2], fwd(S), g, rec["predictions"][3])
        judge(c, n + ": saved misfit is that of the saved sample", f, rec["L2"][2], misfit(fwd(S)), g, rec["L2"][3])
        judge(c, n + ": saved prior is that of the saved sample", f, rec["prior"][2], prior(S), g, rec["prior"][3])
        judge(c, n + ": saved log posterior is -mu*prior - L2/2 of the saved sample", f, rec["logposterior"][2], logpi(S, fwd(S)), g,
              rec["logposterior"][3])
        # loss-free storage
        for q in TRACKS:
            t = f.r.ctor_fields[ARR[q]].term
            dt = t.args[2] if t.head == "full" and len(t.args) > 2 else None
            leaves = [x for x in subterms(dt) if x.head == "const" and isinstance(x.args[0], str)] if isinstance(dt, tm.Term) else []
            narrow = [x for x in leaves if x.args[0].split(".")[-1] in NARROW]
            c.fact(n + ": %s stored in full precision" % q, not narrow, "dtype " + (show(dt) if narrow else ""), rec[q][3])
        for q, want in (("chain", "complex" if f.complex else None), ("predictions", "iscomplex")):
            t = f.r.ctor_fields[ARR[q]].term
            dt = t.args[2] if t.head == "full" else None
            if dt is None:
                c.open(n + ": dtype of " + q, show(t))
                continue
            if want == "complex":
                ok = True if dt.head == "const" and "complex" in str(dt.args[0]) else (False if dt.head == "const" else None)
                c.fact(n + ": complex samples stored without loss", ok, "dtype " + show(dt), w)
            elif want == "iscomplex":
                # every case of the dtype must hold complex values unless the data are real
                cc = dtype_complex(dt, node("attr", FW, "data"))
                c.fact(n + ": complex predictions stored without loss", cc, "dtype " + show(dt), rec[q][3])
        # real parameters stay real
        if not f.complex:
            real = tm.is_real(f.X)
            if real:
                c.ok(n + ": real parameters stay real", where=f.loop.where)
            else:
                b = f.loop.back[f.xname]
                bad = nonreal_witness(subst(subst(b, f.res), {f.X: sym("xr", real=True, vec=True, ndim=1)}))
                c.fact(n + ": real parameters stay real", False if bad is not None else None,
                       "the new state contains %s, which need not be real" % (show(bad) if bad is not None else "?"), f.loop.where)


NARROW = {"float32", "f4", "<f4", "f", "float16", "f2", "half", "single", "complex64", "c8", "<c8", "F", "csingle", "int", "int8", "int16", "int32", "int64", "i4", "i8",
          "bool", "uint8", "intp", "int_", "bool_"}


def nonreal_witness(t):
    """an outermost library result, imaginary unit or complex draw inside the linear structure of t that is not projected to its real part"""
    if t.head == "ite":
        return nonreal_witness(t.args[1]) or nonreal_witness(t.args[2])
    if t.head == "poly":
        for _, m in t.args[0]:
            for a, _ in m:
                if a is tm.I:
                    return a
                if a.head == "meth" and a.args[0] in ("proxf", "calc_gradg", "forward"):
                    return a
        return None
    if t.head == "meth" and t.args[0] in ("proxf", "calc_gradg", "forward"):
        return t
    return None


def dtype_complex(dt, data):
    """True: complex data get a complex array; False: they do not; None: unknown"""
    if dt.head == "const":
        return "complex" in str(dt.args[0])
    if dt.head == "ite":
        cond = dt.args[0]
        iscx = lambda x: x.head == "bool" and x.args[0].head in ("ext", "iscomplex") and "iscomplex" in str(x.args[0].args[0])
        if iscx(cond):
            return dtype_complex(dt.args[1], data)
        if cond.head == "not" and iscx(cond.args[0]):
            return dtype_complex(dt.args[2], data)
        return None
    if dt.head == "attr" and dt.args[1] == "dtype" and dt.args[0] is data:
        return True
    if dt.head in ("dtype", "dtype_of"):
        return True if data in subterms(dt) else None
    return None


def bool2term(g):
    return ite(g, num(1), num(0))


# ---------------------------------------------------------------- C02
def c02(c, root):
    c.assumptions += ["nsamples >= 1", "integer schedule parameters, ngap >= 0, nburn >= 0"]
    for f in flows(c, root, [x for x in CONFIGS if not (x[0] == "PxMALA" and x[2] is False)]):
        n = f.name
        if f.loop is None:
            c.open(n + ": main loop", f.problem or "")
            continue
        lp = f.loop
        c.sites += sum(len(v) for v in f.recs.values())
        if lp.n is not None and f.xname is None:
            c.open(n + ": main loop", "the loop that saves is not the one that iterates from the start point", lp.where)
            continue
        k = f.k
        want = and_(cmp_("<=", NB, k), or_(cmp_("==", NG, num(0)), cmp_("==", f.it.lib.mk_mod(sub(k, NB), NG), num(0))))
        jn, closed = None, 0
        for q in TRACKS:
            r = record(f, q)
            if r is None:
                c.open(n + ": record of " + q, "not found")
                continue
            g, idx, val, w = r
            # slot counter
            js = [m for m in lp.mus if lp.mus[m] in subterms(idx)]
            run_on = TRUE
            if idx in lp.mus.values():
                jm = idx
                jn = next(x for x in lp.mus if lp.mus[x] is idx)
            else:
                jm = None
                cand = [m for m in js if m not in ("i",)]
                if len(js) == 1 and js[0] in lp.mus:
                    jm = lp.mus[js[0]]
                    jn = js[0]
            assume = and_(cmp_("<", jm, NS), cmp_("<=", num(0), jm)) if jm is not None else TRUE
            s = judge(c, n + ": %s is saved exactly at iterations nburn + m*ngap" % q, f, bool2term(g), bool2term(want), assume, w)
            if jm is None:
                closed += 1
                gap = ite(cmp_("==", NG, num(0)), num(1), NG)
                t, _ = c.verdict(f.R(idx), f.it.lib.arith("//", sub(k, NB), gap), and_(want, cmp_("<=", num(1), NS)))
                if t == "ok":
                    c.ok(n + ": slot of %s is the number of samples saved before" % q, where=w)
                else:
                    c.open(n + ": slot of " + q, "slot %s is not a counter" % show(idx))
                continue
            # value of the counter that selects the slot: number of samples saved so far
            e0 = lp.entry[jn]
            off = sub(subst(idx, {jm: e0}), num(0))
            c.eq(n + ": first slot of %s is 0" % q, off, num(0), where=w)
            judge(c, n + ": slot counter moves by one exactly when %s is saved" % q, f, subst(idx, {jm: after(f, jn)}), add(idx, ite(want, num(1), num(0))), assume, w)
        # end of the run
        if lp.n is not None and not lp.breaks and not lp.returns and (jn is not None or closed):
            gap = ite(cmp_("==", NG, num(0)), num(1), NG)
            judge(c, n + ": number of iterations is that of the last saved sample", f, lp.n, add(add(NB, mul(sub(NS, num(1)), gap)), num(1)),
                  cmp_("<=", num(1), NS), lp.where)
        elif jn is not None:
            if lp.n is not None:
                gap = ite(cmp_("==", NG, num(0)), num(1), NG)
                need = add(add(NB, mul(sub(NS, num(1)), gap)), num(1))
                judge(c, n + ": the iterations suffice for all samples", f, bool2term(cmp_("<=", need, lp.n)), num(1),
                      and_(cmp_("<=", num(1), NS), cmp_("<=", num(0), NG), cmp_("<=", num(0), NB)), lp.where)
            jm = lp.mus[jn]
            inv = and_(cmp_("<=", jm, NS), cmp_("<=", num(0), jm), cmp_("<=", num(1), NS))
            e0 = lp.entry[jn]
            stop = cmp_("<", sub(jm, e0), NS)
            if not lp.breaks and not lp.returns:
                judge(c, n + ": run goes on exactly while fewer than nsamples are saved", f, bool2term(lp.cond), bool2term(stop), inv, lp.where)
            elif lp.cond is TRUE and lp.breaks:
                bc = or_(*lp.exit_conds)
                aft = sub(add(jm, ite(want, num(1), num(0))), e0)
                judge(c, n + ": run stops exactly when nsamples are saved", f, bool2term(bc), bool2term(cmp_("<=", NS, aft)),
                      and_(stop, inv), lp.where, alt=(bool2term(not_(stop)),))
            elif lp.breaks and not lp.returns:
                aft = sub(add(jm, ite(want, num(1), num(0))), e0)
                nxt = subst(lp.cond, {m: after(f, x) for x, m in lp.mus.items() if any(y is m for y in subterms(lp.cond))})
                judge(c, n + ": run goes on exactly while fewer than nsamples are saved", f, bool2term(and_(not_(or_(*lp.exit_conds)), nxt)),
                      bool2term(cmp_("<", aft, NS)), and_(stop, inv), lp.where)
            else:
                c.open(n + ": end of the run", "mixed loop condition and breaks", lp.where)
        else:
            c.open(n + ": end of the run", "no slot counter", lp.where)


def after(f, name):
    """value of a loop-carried location at the end of the iteration (also when the iteration leaves the loop)"""
    lp = f.loop
    b = lp.back[name]
    if lp.breaks:
        key = lp.keys.get(name)
        for o, cnd in zip(lp.breaks, lp.exit_conds):
            if key and key[0] == "var":
                v = o.st.env.get(key[1])
                if v is not None and v is not UNBOUND:
                    b = ite(cnd, f.it.T(v, o.st), b)
            elif key and key[0] == "field":
                v = o.st.heap[key[1]].fields.get(key[2])
                if v is not None:
                    b = ite(cnd, f.it.T(v, o.st), b)
    return b


# ---------------------------------------------------------------- C03
def in_loop_draws(f, kind):
    return [e for e in f.it.events[f.r.n_ctor:] if e.kind == "draw" and e.draw == kind and e.loops and e.loops[0] == f.loop.id]


def delta_now(f):
    """the step size in force at the start of an iteration"""
    lp = f.loop
    m = lp.mus.get("%d.delta" % f.r.obj.loc)
    if m is not None:
        return lp.known.get(m, m)
    v = f.r.ctor_fields.get("delta")
    if v is None:
        for n, e in lp.entry.items():
            if e is D0:
                return lp.mus[n]
        return D0
    return f.it.T(v, f.st)


def noises(f, size=NPAR):
    """all ways of forming one standard normal vector from this iteration's draws"""
    ds = []
    for e in in_loop_draws(f, "normal"):
        t = e.term
        if t.args[0].head == "tuple" and len(t.args[0].args) == 2 and t.args[0].args[0].head in ("const", "poly"):
            ds += [f.it.lib.mk_getitem(t, num(0)),
                   f.it.lib.mk_getitem(t, num(1))]
        else:
            ds.append(t)
    ds = [d for i, d in enumerate(ds) if d not in ds[:i]]
    if not f.complex:
        return ds or [sym("xi", real=True, vec=True, ndim=1)]
    out = [add(a, mul(tm.I, b)) for a in ds for b in ds if a is not b]
    return out or [add(sym("xi1", real=True, vec=True, ndim=1), mul(tm.I, sym("xi2", real=True, vec=True, ndim=1)))]


def langevin_mean(x, d):
    return sub(sub(x, mul(div(d, LM), sub(x, prox(x)))), mul(d, grad(fwd(x))))


def norm_for(f):
    return (lambda t: t) if f.complex else unreal


def check_draw_shape(c, f, n):
    for e in in_loop_draws(f, "normal"):
        sz = f.R(e.size) if isinstance(e.size, tm.Term) else None
        if sz is None:
            c.fact(n + ": one normal draw per parameter", False, "scalar draw", e.where)
            continue
        if sz.head == "tuple" and len(sz.args) == 2:
            sz = sz.args[1]
        elif sz.head == "tuple" and len(sz.args) == 1:
            sz = sz.args[0]
        s, d = c.verdict(sz, NPAR)
        if s == "violation" and sz.head == "len":
            s = "undecided"
        c.obl.append((n + ": one normal draw per parameter", s, d, e.where))


def c03(c, root):
    c.assumptions += ["real parameters: the gradient and prox results are compared modulo their projection to the real part"]
    for f in flows(c, root, [x for x in CONFIGS if x[0] in ("MYULA", "PxMALA")]):
        n = f.name
        if f.loop is None or not f.xname:
            c.open(n + ": main loop", f.problem or "state variable not identified")
            continue
        prop = f.loop.back[f.xname]
        if f.cls == "PxMALA":
            a = f.acceptance()
            if a is None:
                # accepted branch below nothing: look for a gated proposal inside
                c.open(n + ": proposal", "no acceptance gate found")
                continue
            prop = a[1]
        d = delta_now(f)
        x = f.X
        xs = noises(f)
        specs = [add(langevin_mean(x, d), mul(power(mul(num(2), d), div(num(1), num(2))), xi)) for xi in xs]
        where = f.loop.where
        judge(c, n + (": new state" if f.cls == "MYULA" else ": proposal") + " is the Moreau-Yosida Langevin step from the current state", f,
              prop, specs[0], TRUE, where, alt=tuple(specs[1:]), norm=norm_for(f))
        check_draw_shape(c, f, n)
        c.sites += len(in_loop_draws(f, "normal"))


# ---------------------------------------------------------------- C04
def uniform_draws(f):
    out = [e.term for e in in_loop_draws(f, "uniform")]
    return [t for i, t in enumerate(out) if t not in out[:i]]


def logq(x1, x2, d):
    g = add(neg(div(sub(x1, prox(x1)), LM)), neg(grad(fwd(x1))))
    r = sub(sub(x2, x1), mul(d, g))
    return neg(div(sumall(power(absv(r), num(2))), mul(num(4), d)))


def gated(f):
    """loop-carried values of the chain whose new value is a choice"""
    out = {}
    for n, b in f.loop.back.items():
        if b.head == "ite" and b is not f.loop.mus.get(n) and (b.args[1] is f.loop.mus[n] or b.args[2] is f.loop.mus[n]):
            out[n] = b
    return out


def accept_form(c):
    """normal forms of an acceptance test: comparisons of u with exp(Q) become comparisons of log(u) with Q"""
    def f(x):
        if x.head != "cmp":
            return None
        op, t = x.args[0], x.args[1]
        if t.head != "poly":
            return None
        terms = t.args[0]
        if len(terms) != 2:
            return None
        u = e = None
        for co, m in terms:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.head == "uniform":
                    u = (co, a)
                elif a.head == "exp":
                    e = (co, a)
        if u and e and u[0] == -e[0] and u[0] in (1, -1):
            lt = node("log", u[1])
            lt.props = dict(scalar=True, real=True)
            q = e[1].args[0]
            return cmp_(op, lt, q) if u[0] == 1 else cmp_(op, q, lt)
        return None
    return tm.transform(c, f, {})


def c04(c, root):
    for f in flows(c, root, [x for x in CONFIGS if x[0] == "PxMALA"]):
        n = f.name
        if f.loop is None or not f.xname:
            c.open(n + ": main loop", f.problem or "state variable not identified")
            continue
        lp = f.loop
        a = f.acceptance()
        if a is None:
            b = f.R(lp.back[f.xname])
            if b.head != "ite" and tm.subterms(b) and not any(x.head == "ite" for x in subterms(b)):
                c.bad(n + ": a proposal can be rejected", "the new state never depends on an acceptance decision: " + clip(show(b), 200), lp.where)
            else:
                c.open(n + ": acceptance", "no acceptance gate found")
            continue
        cond, y = a
        d = delta_now(f)
        x = f.X
        us = uniform_draws(f) or [sym("u", scalar=True, real=True)]
        Q = sub(sub(add(logq(y, x, d), logpi(y, fwd(y))), logq(x, y, d)), logpi(x, fwd(x)))
        specs = []
        for u in us:
            lu = node("log", u)
            if lu.props is None:
                lu.props = dict(scalar=True, real=True)
            specs.append(bool2term(cmp_("<", lu, Q)))
        nf = norm_for(f)
        judge(c, n + ": accepted exactly when log(u) < log of the Metropolis-Hastings ratio", f, bool2term(accept_form(cond)), specs[0], TRUE,
              lp.where, alt=tuple(specs[1:]), norm=nf)
        for e in in_loop_draws(f, "uniform"):
            c.fact(n + ": the acceptance number is one scalar", e.size is None or e.size is NONE or e.size is num(1) or None, "size %s" % e.size, e.where)
        # atomic switch: everything the iteration carries over about the chain state belongs to the new state
        for v, want in state_quantities(f):
            got = lp.back[v]
            judge(c, n + ": %s after the decision is that of the state after the decision" % v, f, got, subst(want, {f.X: lp.back[f.xname]}), TRUE, lp.where)
        new = lp.back[f.xname]
        for q, want in (("predictions", fwd(new)), ("L2", misfit(fwd(new))), ("prior", prior(new)), ("logposterior", logpi(new, fwd(new)))):
            rec = record(f, q)
            if rec is not None:
                judge(c, n + ": %s reported after the decision is that of the state after the decision" % q, f, rec[2], want, rec[0], rec[3])
        trace = f.st.heap[f.r.obj.loc].fields.get("acceptance_trace")
        key = "cell%d" % trace.loc if isinstance(trace, Ref) else None
        if key is None or key not in lp.mus:
            if isinstance(trace, Ref):
                c.open(n + ": acceptance trace", "not a list carried through the loop", lp.where)
            else:
                c.open(n + ": acceptance trace", "no acceptance_trace", lp.where)
            continue
        c.eq(n + ": acceptance trace starts empty", lp.entry[key], node("list"), where=lp.where)
        list_append(c, n + ": acceptance trace gets one entry per iteration, 1 when accepted and 0 when not", f, key, ite(cond, num(1), num(0)))


def list_append(c, name, f, key, want):
    lp = f.loop
    b = after(f, key)
    m = lp.mus[key]

    def leaf(t):
        if t.head == "ite":
            x, y = leaf(t.args[1]), leaf(t.args[2])
            return None if x is None or y is None else (x[0] if x[0] == y[0] else "mixed", ite(t.args[0], x[1], y[1]) if x[0] == y[0] == 1 else num(0))
        k = 0
        last = num(0)
        while t.head == "append":
            last = t.args[1] if k == 0 else last
            t = t.args[0]
            k += 1
        if t is m:
            return k, last
        return None
    r = leaf(b)
    if r is None:
        c.open(name, "list update not followed: " + clip(show(b), 200), lp.where)
    elif r[0] != 1:
        c.bad(name, "number of entries added per iteration: %s" % r[0], lp.where)
    else:
        judge(c, name, f, num_of(r[1]), want, TRUE, lp.where)


def num_of(t):
    """True/False entries count as 1/0"""
    if t is TRUE:
        return num(1)
    if t is FALSE:
        return num(0)
    if t.head == "ite":
        return ite(t.args[0], num_of(t.args[1]), num_of(t.args[2]))
    if t.head in ("cmp", "and", "or", "not"):
        return ite(t, num(1), num(0))
    return t


def state_quantities(f):
    """(name, F(X)) for the loop-carried values that start as a function of the initial state"""
    lp = f.loop
    x0 = lp.entry[f.xname]
    out = []
    for n, m in lp.mus.items():
        if m in lp.known or n == f.xname:
            continue
        e = lp.entry[n]
        if e.head in ("unbound", "list", "map"):
            continue
        if x0 in subterms(e):
            out.append((n, subst(e, {x0: f.X})))
    return out


# ---------------------------------------------------------------- C05
def c05(c, root):
    for cx in (False, True):
        r = SamplerRun(root, "PxMALA", cx, run=False, tune=True)
        s = r.s
        c.seen(s)
        n = "PxMALA/" + ("complex" if cx else "real")
        mk = lambda nm: sym(nm + ("c" if cx else ""), vec=True, ndim=1, real=not cx, len=NPAR)
        x1, x2, p, g = mk("X1"), mk("X2"), mk("proxf1"), mk("gradg1")
        if s.has(r.obj, "calc_logtransition"):
            t = s.T(s.method(r.obj, "calc_logtransition", x1, x2, p, g))
            c.seen(s)
            gl = add(neg(div(sub(x1, p), LM)), neg(g))
            spec = neg(div(sumall(power(absv(sub(sub(x2, x1), mul(D0, gl))), num(2))), mul(num(4), D0)))
            diff = sub(t, spec)
            if free_of(diff, (x1, x2, p, g)):
                c.ok(n + ": log transition density is that of the proposal kernel, up to a constant", where="pxmcmc/mcmc.py")
            else:
                c.eq(n + ": log transition density is that of the proposal kernel, up to a constant", t, spec, where="pxmcmc/mcmc.py PxMALA.calc_logtransition")
            c.sites += 1
    # the density that really decides, at the real points, with the step size of the proposal
    for f in flows(c, root, [x for x in CONFIGS if x[0] == "PxMALA"]):
        n = f.name
        a = f.acceptance() if f.loop is not None and f.xname else None
        if a is None:
            c.open(n + ": acceptance", "no acceptance gate found")
            continue
        cond, y = a
        d = delta_now(f)
        x = f.X
        # forward and backward density of the decision: the part of the ratio that is left when the posterior is removed
        us = uniform_draws(f) or [sym("u", scalar=True, real=True)]
        lu = node("log", us[0])
        if lu.props is None:
            lu.props = dict(scalar=True, real=True)
        cnd = accept_form(f.R(cond))
        Q = ratio_of(cnd, lu)
        if Q is None:
            c.open(n + ": densities of the decision", "acceptance test not of the form log(u) < Q")
            continue
        nf = norm_for(f)
        want = sub(logq(y, x, d), logq(x, y, d))
        got = sub(Q, f.R(sub(logpi(y, fwd(y)), logpi(x, fwd(x)))))
        judge(c, n + ": log q(x|y) - log q(y|x) of the decision", f, got, want, TRUE, f.loop.where, norm=nf)


def free_of(t, syms):
    ss = set(subterms(t))
    return not any(x in ss for x in syms)


def ratio_of(cond, lu):
    """Q of a condition log(u) < Q"""
    neg_ = False
    if cond.head == "not":
        cond, neg_ = cond.args[0], True
    if cond.head != "cmp":
        return None
    t = cond.args[1]
    if t.head != "poly":
        return None
    co = None
    for k, m in t.args[0]:
        if any(a is lu for a, _ in m):
            if co is not None:
                return None
            # the sign test may have been multiplied by positive factors
            co = tm.poly_from([(k, tuple((a, e) for a, e in m if a is not lu))]) if hasattr(tm, "poly_from") else None
            if co is None:
                co = num(k)
                for a, e in m:
                    if a is not lu:
                        co = mul(co, power(a, num(e)))
    if co is None:
        return None
    return neg(sub(div(t, co), lu))


# ---------------------------------------------------------------- C06
def clampspec(v, lo, hi):
    m = ite(cmp_("<", v, lo), lo, v)
    return ite(cmp_("<", hi, m), hi, m)


def untuned(f):
    """the proposals of all iterations use the configured step size"""
    from .check import Check
    a = f.acceptance() if f.xname else None
    if a is None:
        return False
    trial = Check("C06")
    specs = [add(langevin_mean(f.X, D0), mul(power(mul(num(2), D0), div(num(1), num(2))), xi)) for xi in noises(f)]
    if not specs:
        return False
    judge(trial, "step", f, a[1], specs[0], TRUE, "", alt=tuple(specs[1:]), norm=norm_for(f))
    return bool(trial.obl) and all(o[1] == "ok" for o in trial.obl)


def c06(c, root):
    c.assumptions += ["lmda > 0, delta > 0"]
    for f in flows(c, root):
        n = f.name
        if f.loop is None:
            c.open(n + ": main loop", f.problem or "")
            continue
        lp, obj = f.loop, f.r.obj
        v = f.r.ctor_fields.get("delta")
        if v is None:
            c.open(n + ": step size", "no attribute delta")
            continue
        c.eq(n + ": configured step size is taken over", f.it.T(v, f.r.ctor_state), D0, where="constructor")
        key = "%d.delta" % obj.loc
        sets = [e for e in f.it.events[f.r.n_ctor:] if e.kind == "setattr" and e.name == "delta" and obj.loc in e.al]
        c.sites += len(sets)
        tuned = f.cls == "PxMALA" and f.name.endswith("/tuned")
        if not tuned:
            if not sets:
                c.ok(n + ": step size is never changed", where=lp.where)
            else:
                for e in sets:
                    judge(c, n + ": step size is never changed", f, e.term, D0, f.guard(e), e.where)
            tr = f.st.heap[obj.loc].fields.get("deltas_trace")
            if f.cls == "PxMALA" and isinstance(tr, Ref):
                cell = f.st.heap.get(tr.loc)
                t = f.it.T(tr, f.st)
                c.eq(n + ": step size trace holds the initial value only", t, node("list", D0), where=lp.where)
            continue
        if key not in lp.mus:
            if untuned(f):
                c.bad(n + ": tuned step size", "every proposal is made with the step size the sampler was configured with", lp.where)
            else:
                c.open(n + ": tuned step size", "step size is not carried in self.delta through the loop", lp.where)
            continue
        a = f.acceptance() if f.xname else None
        if a is None:
            c.open(n + ": tuning", "no acceptance gate found", lp.where)
            continue
        d = delta_now(f)
        k1 = add(f.k, num(1))
        acc = ite(a[0], num(1), num(0))
        raw = mul(d, add(num(1), div(sub(acc, div(num(1), num(2))), power(k1, div(num(3), num(4))))))
        lo, hi = mul(LM, num(tm.Fr(1, 10 ** 8))), div(LM, num(2))
        judge(c, n + ": tuned step size is delta*(1 + (a - 1/2)/(i+1)^0.75) clamped into [1e-8*lmda, lmda/2]", f, after(f, key), clampspec(raw, lo, hi),
              TRUE, (sets[-1].where if sets else lp.where))
        if c.obl[-1][1] == "undecided":
            av = averaged(f, after(f, key))
            if av is not None:
                c.obl.pop()
                c.bad(n + ": tuned step size is delta*(1 + (a - 1/2)/(i+1)^0.75) clamped into [1e-8*lmda, lmda/2]",
                      "computed from several decisions: " + clip(show(av), 200), sets[-1].where if sets else lp.where)
        for q in ("deltas_trace", "acceptance_trace"):
            own_trace(c, f, n, q)
        tr = f.st.heap[obj.loc].fields.get("deltas_trace")
        tk = "cell%d" % tr.loc if isinstance(tr, Ref) else None
        if tk is None or tk not in lp.mus:
            c.open(n + ": step size trace", "not a list carried through the loop", lp.where)
            continue
        c.eq(n + ": step size trace starts with the initial value", lp.entry[tk], node("list", D0), where=lp.where)
        list_append(c, n + ": step size trace gets the new step size once per iteration", f, tk, after(f, key))


def averaged(f, t):
    """a sum or mean over the acceptance trace (more than its last entry) that the value depends on"""
    tr = f.st.heap[f.r.obj.loc].fields.get("acceptance_trace")
    mu = f.loop.mus.get("cell%d" % tr.loc) if isinstance(tr, Ref) else None
    if mu is None:
        return None
    for x in subterms(t):
        if (x.head in ("sumall", "mean", "median", "sum") or x.head == "ext" and x.args[0] in ("numpy.mean", "numpy.sum", "numpy.average", "numpy.median", "builtins.sum", "sum", "mean")) \
                and any(y is mu for y in subterms(x)) and not any(y.head == "slice" and tm.is_num(y.args[0]) and tm.num_val(y.args[0]) == -1 for y in subterms(x)):
            return x
    return None


def own_trace(c, f, n, q):
    """the trace belongs to this run: run starts it afresh, so that a second run of the same object tunes from, and
    reports, its own decisions only"""
    loc = f.r.obj.loc
    v = f.st.heap[loc].fields.get(q)
    name = "%s: %s is started afresh by every run" % (n, q)
    evs = f.it.events[f.r.n_ctor:]
    if any(e.kind == "setattr" and e.name == q and loc in e.al for e in evs):
        c.ok(name, where=f.loop.where)
        return
    if not isinstance(v, Ref):
        c.open(name, "not a list kept in an attribute", f.loop.where)
        return
    st = [e for e in evs if e.kind == "store" and v.loc in e.al]
    how = {getattr(e, "how", None) for e in st if not e.loops}
    if "clear" in how:
        c.ok(name, where=f.loop.where)
    elif how - {"append", "extend"} or not st:
        c.open(name, "emptied in a way that is not followed", f.loop.where)
    else:
        c.bad(name, "run only appends to the list made by the constructor, which still holds the values of an earlier run", st[0].where)


# ---------------------------------------------------------------- C07
def cheb_value(t):
    """Chebyshev values of a known order, written out"""
    def f(x):
        if x.head == "cheb" and tm.is_num(x.args[1]):
            return cheb_poly(x.args[0], int(tm.num_val(x.args[1])), x.args[2])
        return x
    return tm.rewrite(t, f)


def cheb_poly(kind, n, x):
    if kind == "dT":
        return num(0) if n == 0 else mul(num(n), cheb_poly("U", n - 1, x))
    a, b = num(1), (x if kind == "T" else mul(num(2), x))
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, sub(mul(mul(num(2), x), b), a)
    return b


def skrock_spec(x, s, d, Z):
    T = lambda j, w: cheb_poly("T", j, w)
    w0 = num(1 + tm.Fr(1, 20 * s * s))
    w1 = div(T(s, w0), cheb_poly("dT", s, w0))
    gl = lambda v: sub(neg(div(sub(v, prox(v)), LM)), grad(fwd(v)))
    rt = power(mul(num(2), d), div(num(1), num(2)))
    mu1, nu1, k1 = div(w1, w0), div(mul(num(s), w1), num(2)), div(mul(num(s), w1), w0)
    K = [x, add(add(x, mul(mul(mu1, d), gl(add(x, mul(mul(nu1, rt), Z))))), mul(mul(k1, rt), Z))]
    for j in range(2, s + 1):
        r = div(T(j - 1, w0), T(j, w0))
        m, v = mul(mul(num(2), w1), r), mul(mul(num(2), w0), r)
        K.append(add(add(mul(mul(m, d), gl(K[j - 1])), mul(v, K[j - 1])), mul(sub(num(1), v), K[j - 2])))
    return K[s]


def c07(c, root):
    import os
    smax = 7 if os.environ.get("VERIF_TIER") == "thorough" else 5
    c.assumptions += ["stages s = 1..%d are followed stage by stage; the recurrence coefficients are compared for every s" % smax]
    for cx in (False, True):
        for s in range(1, smax + 1):
            if cx and s > 3:
                continue
            f = Flow(root, "SKROCK", cx, None, s=num(s))
            c.seen(f.r.s)
            n = "%s/s=%d" % (f.name, s)
            if f.loop is None or not f.xname:
                c.open(n + ": main loop", f.problem or "state variable not identified")
                continue
            d = delta_now(f)
            zs = noises(f)
            specs = [skrock_spec(f.X, s, d, z) for z in zs]
            nf = norm_for(f)
            judge(c, n + ": new state is the SK-ROCK step K_s of the current state", f, cheb_value(f.loop.back[f.xname]), specs[0], TRUE, f.loop.where,
                  alt=tuple(specs[1:]), norm=nf)
            check_draw_shape(c, f, n)
            c.sites += len(in_loop_draws(f, "normal"))
    skrock_symbolic(c, root)


def dcheb(t):
    """T_n' = n*U_{n-1} (C24)"""
    def f(x):
        if x.head == "cheb" and x.args[0] == "dT":
            y = node("cheb", "U", sub(x.args[1], num(1)), x.args[2])
            y.props = dict(scalar=True, real=True)
            return mul(x.args[1], f(y))
        if x.head == "cheb" and x.args[1].head == "poly":
            k = tm.poly(x.args[1]).get((), 0)
            if k <= -2 and k.denominator == 1 and k > -12:     # T_n = 2x T_{n+1} - T_{n+2}
                hi = []
                for m in (1, 2):
                    y = node("cheb", x.args[0], add(x.args[1], num(m)), x.args[2])
                    y.props = dict(scalar=True, real=True)
                    hi.append(f(y))
                return sub(mul(mul(num(2), x.args[2]), hi[0]), hi[1])
        return x
    return tm.rewrite(t, f)


def coefs(t, assume):
    """entries of tables filled by loops, read off"""
    from .arrays import entry, NoPoint

    def f(x):
        if x.head == "getitem" and len(x.args) == 2 and x.args[0].head in ("fstore", "store", "concat") and tm.is_int(x.args[1]):
            try:
                return entry(x.args[0], (x.args[1],), assume)[0]
            except NoPoint:
                return x
        return x
    return tm.rewrite(t, f)


def under(t, assume):
    """drop the cases an assumption excludes"""
    def f(x):
        if x.head == "ite":
            if tm.implied(x.args[0], assume):
                return x.args[1]
            if tm.implied(not_(x.args[0]), assume):
                return x.args[2]
        return x
    return tm.rewrite(t, f)


class Stages:
    """SK-ROCK with a symbolic number of stages"""

    def __init__(self, d, x, z, s):
        self.d, self.x, self.z, self.s = d, x, z, s
        self.w0 = add(num(1), div(num(tm.Fr(1, 20)), mul(s, s)))
        self.w1 = div(self.T("T", s), self.T("dT", s))
        self.rt = power(mul(num(2), d), div(num(1), num(2)))

    def T(self, kind, n):
        t = node("cheb", kind, n, self.w0)
        t.props = dict(scalar=True, real=True)
        return t

    def gl(self, v):
        return sub(neg(div(sub(v, prox(v)), LM)), grad(fwd(v)))

    def first(self):
        w0, w1, s = self.w0, self.w1, self.s
        return add(add(self.x, mul(mul(div(w1, w0), self.d), self.gl(add(self.x, mul(mul(div(mul(s, w1), num(2)), self.rt), self.z))))),
                   mul(mul(div(mul(s, w1), w0), self.rt), self.z))

    def step(self, j, k1, k2):
        r = div(self.T("T", sub(j, num(1))), self.T("T", j))
        m, v = mul(mul(num(2), self.w1), r), mul(mul(num(2), self.w0), r)
        return add(add(mul(mul(m, self.d), self.gl(k1)), mul(v, k1)), mul(sub(num(1), v), k2))


def skrock_stages(c, root, cx, qual, at, s):
    """each of s stages by itself, the stages before it taken as given"""
    outer = []

    def K(m):
        return sym("K%s_%s" % ("rc"[cx], show(m)), vec=True, ndim=1, real=not cx, len=NPAR)

    def summary(interp, st, args, nd):
        a = args[1:] if isinstance(args[0], Ref) else args
        if outer:
            outer.pop()
            seen.append([interp.T(x, st) for x in a])
            return None
        m = interp.T(a[at], st)
        seen.append([interp.T(x, st) for x in a])
        return Data(K(m), interp.newloc()) if tm.is_num(m) else None
    seen = []
    f = Flow(root, "SKROCK", cx, None, s=num(s), summaries={qual: summary})
    n = "%s/s=%d" % (f.name, s)
    if f.loop is None or not f.xname or not seen:
        c.open(n + ": main loop", f.problem or "state variable not identified")
        return
    nf = norm_for(f)
    c.eq(n + ": the new state is stage s", nf(f.R(f.loop.back[f.xname])), K(num(s)), where=f.loop.where)
    args = seen[-1]
    w0 = num(1 + tm.Fr(1, 20 * s * s))
    T = lambda m: cheb_poly("T", m, w0)
    w1 = div(T(s), cheb_poly("dT", s, w0))
    d = delta_now(f)
    st = Stages(d, f.X, None, num(s))
    rt = power(mul(num(2), d), div(num(1), num(2)))
    zs = noises(f)
    zbad = None
    for j in range(0, s + 1):
        ts = list(args)
        ts[at] = num(j)
        outer.append(1)
        name = qual.split(".")[-1]
        k0 = len(seen)
        v = f.r.s.method(f.r.obj, name, *[Data(t, f.it.newloc()) if not tm.is_scalar(t) else Data(t) for t in ts])
        got = nf(cheb_value(f.R(f.it.T(v, f.st))))
        if j == 0:
            specs = [f.X]
        elif j == 1:
            specs = [add(add(f.X, mul(mul(div(w1, w0), d), st.gl(add(f.X, mul(mul(div(mul(num(s), w1), num(2)), rt), z))))),
                         mul(mul(div(mul(num(s), w1), w0), rt), z)) for z in zs]
        else:
            r = div(T(j - 1), T(j))
            m, nu = mul(mul(num(2), w1), r), mul(mul(num(2), w0), r)
            k1, k2 = (K(num(j - 1)), K(num(j - 2)))
            specs = [add(add(mul(mul(m, d), st.gl(k1)), mul(nu, k1)), mul(sub(num(1), nu), k2))]
        # stages called with other arguments are not the stages of this step
        if any(x is not y for call in seen[k0 + 1:] for i, (x, y) in enumerate(zip(call, ts)) if i != at):
            zbad = zbad or "stage %d calls an earlier stage with other arguments" % j
        s_, d_ = "undecided", ""
        for sp_ in specs:
            v_, t_ = c.verdict(got, nf(f.R(sp_)))
            if v_ == "ok" or s_ != "ok":
                s_, d_ = v_, t_
            if v_ == "ok":
                break
        c.obl.append(("%s: stage %d" % (n, j), s_, d_, f.loop.where))
    c.fact(n + ": every stage belongs to the same step", zbad is None, zbad or "", f.loop.where)
    c.sites += s


def skrock_symbolic(c, root):
    """every number of stages: the recursion (or loop) over the stages is followed by induction over the stage"""
    for cx in (False, True):
        f = Flow(root, "SKROCK", cx, None)
        n = f.name + "/any s"
        if f.loop is None or not f.xname:
            c.open(n + ": main loop", f.problem or "state variable not identified")
            continue
        S = f.it.T(f.r.ctor_fields["s"], f.st) if "s" in f.r.ctor_fields else integer("s", pos=True)
        nf = norm_for(f)
        b = f.R(f.loop.back[f.xname])
        recs = sorted({x for x in subterms(b) if x.head == "rec"}, key=lambda x: x.id)
        lvs = sorted({x for x in subterms(b) if x.head in ("loopval", "final")}, key=lambda x: x.id)
        free = {lpm: sym("x_any" + "rc"[cx], vec=True, ndim=1, real=not cx) for lpm in (f.X,)}
        nrm = lambda t: dcheb(nf(t))
        j = integer("j", pos=True)
        rng = and_(cmp_("<=", num(2), j), cmp_("<=", j, S))
        d = delta_now(f)
        if len({x.args[0] for x in recs}) == 1 and not lvs:
            name = recs[0].args[0].split(".")[-1]
            na = len(recs[0].args) - 1
            ats = [i for i in range(na) if all(len(x.args) == na + 1 and isinstance(x.args[1 + i], tm.Term) and tm.is_int(x.args[1 + i]) and {y for y in subterms(x.args[1 + i]) if y.head in ("sym", "mu")} <= {S} for x in recs)]
            if len(ats) != 1 or len({tuple(a for i, a in enumerate(x.args[1:]) if i != ats[0]) for x in recs}) != 1:
                c.open(n + ": recursion", "stage argument not identified", f.loop.where)
                continue
            at = ats[0]
            args = list(recs[0].args[1:])

            def K(m):
                t = node("rec", *([recs[0].args[0]] + args[:at] + [m] + args[at + 1:]))
                if t.props is None and recs[0].props:
                    t.props = dict(recs[0].props)
                return t

            def unfold(m):
                ts = list(args)
                ts[at] = m
                return f.R(f.it.T(f.r.s.method(f.r.obj, name, *[Data(t, f.it.newloc()) if not tm.is_scalar(t) else Data(t) for t in ts]), f.st))
            ok = None
            for z in noises(f):
                st = Stages(d, f.X, z, S)
                KS = {K(sub(j, num(1))): sym("K_j1" + "rc"[cx], vec=True, ndim=1, real=not cx), K(sub(j, num(2))): sym("K_j2" + "rc"[cx], vec=True, ndim=1, real=not cx),
                      K(sub(S, num(1))): sym("K_s1" + "rc"[cx], vec=True, ndim=1, real=not cx), K(sub(S, num(2))): sym("K_s2" + "rc"[cx], vec=True, ndim=1, real=not cx)}
                fin = lambda t, g=rng: nrm(coefs(subst(subst(t, KS), free), g))
                two = cmp_("<=", num(2), S)
                one = {S: num(1)}
                res = [("stage 0 is the current state", *c.verdict(fin(unfold(num(0))), fin(f.X))),
                       ("stage 1", *c.verdict(fin(unfold(num(1)), cmp_("<=", num(1), S)), fin(st.first()), cmp_("<=", num(1), S))),
                       ("stage j from stages j-1 and j-2", *c.verdict(fin(under(unfold(j), rng)), fin(st.step(j, K(sub(j, num(1))), K(sub(j, num(2))))), rng)),
                       ("the new state is stage s when s > 1", *c.verdict(fin(under(b, two), two), fin(st.step(S, K(sub(S, num(1))), K(sub(S, num(2)))), two), two)),
                       ("the new state is stage 1 when s = 1", *c.verdict(cheb_value(fin(subst(b, one), TRUE)), cheb_value(fin(subst(st.first(), one), TRUE))))]
                if ok is None or [r[1] for r in res].count("ok") > [r[1] for r in ok].count("ok"):
                    ok = res
            for lab, v, det in ok:
                if v == "violation":        # identities between Chebyshev values are not all known: a witness stage decides
                    v = "undecided"
                c.obl.append((n + ": " + lab, v, det, f.loop.where))
            c.sites += len(recs)
            from .operators import attempt
            attempt(c, n, lambda: skrock_stages(c, root, cx, recs[0].args[0], at, 13 if cx else 30))
        elif lvs and not recs:
            two = cmp_("<=", num(2), S)
            one = cmp_("<=", num(1), S)
            top = under(b, two)
            lp = f.it.loops.get(top.args[0]) if top.head == "loopval" and len(top.args) == 2 else None
            old = [m for m in lp.back if lp.back[m] is lp.mus[top.args[1]]] if lp is not None and top.args[1] in lp.mus else []
            if len(old) != 1 or lp.n is None or lp.breaks or lp.returns:
                c.open(n + ": stages", "loop over the stages not recognised; s = 1.. are decided one by one", f.loop.where)
                continue
            new, old = lp.mus[top.args[1]], lp.mus[old[0]]
            js = add(lp.k, num(2))
            rng = and_(cmp_("<=", num(0), lp.k), cmp_("<", lp.k, sub(S, num(1))))
            KS = {new: sym("K_j1" + "rc"[cx], vec=True, ndim=1, real=not cx), old: sym("K_j2" + "rc"[cx], vec=True, ndim=1, real=not cx)}
            nm = {v: k for k, v in lp.mus.items()}
            best = None
            for z in noises(f):
                st = Stages(d, f.X, z, S)
                fin = lambda t, g: nrm(coefs(subst(subst(f.R(t), KS), free), g))
                q = [("number of stages after the first", lp.n, sub(S, num(1)), one), ("stage 0 is the current state", lp.entry[nm[old]], f.X, one),
                     ("stage 1", lp.entry[nm[new]], st.first(), one), ("stage j from stages j-1 and j-2", under(lp.back[nm[new]], rng), st.step(js, new, old), rng)]
                res = []
                for lab, got, want, g in q:
                    got, want = fin(got, g), fin(want, g)
                    v, det = c.verdict(got, want, g)
                    if v == "violation" and all(c.verdict(cheb_value(subst(got, {S: num(30), lp.k: num(k)})), cheb_value(subst(want, {S: num(30), lp.k: num(k)})))[0] != "violation"
                                                for k in (0, 5, 28)):
                        v = "undecided"
                    res.append((lab, v, det))
                if best is None or [r[1] for r in res].count("ok") > [r[1] for r in best].count("ok"):
                    best = res
            for lab, v, det in best:
                c.obl.append((n + ": " + lab, v, det, lp.where))
            v, det = c.verdict(nrm(coefs(subst(subst(b, {top: f.R(lp.entry[nm[new]])}), free), one)), nrm(coefs(subst(f.R(lp.entry[nm[new]]), free), one)), cmp_("==", S, num(1)))
            c.obl.append((n + ": the new state is stage 1 when s = 1", v if v == "ok" else "undecided", det, lp.where))
            c.sites += 1
        else:
            c.open(n + ": stages", "stages not in recursive form; s = 1.. are decided one by one", f.loop.where)


# ---------------------------------------------------------------- C16
def first_use(it, since, locs):
    """index of the first event of a run that stores into the tracked arrays or belongs to an iteration"""
    for i, e in enumerate(it.events[since:]):
        if e.loops or (e.kind == "store" and isinstance(e.target, Data) and e.target.loc in locs):
            return since + i
    return len(it.events)


def c16(c, root):
    from .check import raise_conds, raising
    B = bool2term
    n1 = integer("m", nonneg=True)
    ln = NPAR
    for cls, cx in (("MYULA", False), ("MYULA", True), ("PxMALA", False), ("PxMALA", True), ("SKROCK", False), ("SKROCK", True)):
        tag = cls + ("/complex" if cx else "/real")
        # 1. a good start point
        f = Flow(root, cls, cx)
        c.seen(f.r.s)
        x0 = f.r.x0.term
        if f.loop is None:
            c.open(tag + ": main loop", f.problem or "")
            continue
        if f.xname is None:
            # is any loop-carried vector derived from the start point?
            ent = [e for nn, e in f.loop.entry.items() if x0 in subterms(e)]
            if not ent and not any(x.head in ("loopval", "opaque", "mu") for e in f.loop.entry.values() for x in subterms(e)):
                c.bad(tag + ": start point is the initial state", "no value carried by the chain starts from the start point", f.loop.where)
            else:
                c.open(tag + ": start point is the initial state", "state variable not identified", f.loop.where)
        else:
            c.eq(tag + ": start point is the initial state, unchanged", f.loop.entry[f.xname], x0, where=f.loop.where)
        s = raising(f.it, f.r.n_ctor)
        c.eq(tag + ": a fitting start point is accepted", B(s), B(FALSE), where=f.loop.where)
        # 2. wrong types and dimensions
        for label, props in (("list", dict(pytype="list", ndim=1, vec=True, len=ln)), ("tuple", dict(pytype="tuple", ndim=1, vec=True, len=ln)),
                             ("number", dict(pytype="float", scalar=True, ndim=0)),
                             ("0-d array", dict(pytype="ndarray", ndim=0)), ("2-d array", dict(pytype="ndarray", ndim=2)),
                             ("3-d array", dict(pytype="ndarray", ndim=3))):
            r = SamplerRun(root, cls, cx, run=False)
            t = sym("start_" + label.replace(" ", "_").replace("-", ""), **props)
            ev0 = len(r.s.it.events)
            r.s.method(r.obj, "run", r.s.it.root_data(t, "caller:start_point"))
            rc = raise_conds(r.s.it, ev0)
            te = or_(*[g for nm, g, w, i, e in rc if "TypeError" in nm])
            where = rc[0][2] if rc else f.loop.where
            st = c.eq(tag + ": a start point that is a %s raises TypeError" % label, B(te), B(TRUE), where=where)
            if st == "ok":
                locs = {v.loc for k, v in r.ctor_fields.items() if isinstance(v, Data) and k in ARR.values()}
                fu = first_use(r.s.it, ev0, locs)
                c.fact(tag + ": ... before any iteration (%s)" % label, all(i < fu for nm, g, w, i, e in rc if "TypeError" in nm), "", where)
        # 3. wrong size
        r = SamplerRun(root, cls, cx, run=False)
        t = sym("start_m", vec=True, ndim=1, pytype="ndarray", len=n1, real=True)
        ev0 = len(r.s.it.events)
        r.s.method(r.obj, "run", r.s.it.root_data(t, "caller:start_point"))
        rc = raise_conds(r.s.it, ev0)
        ve = or_(*[g for nm, g, w, i, e in rc if "ValueError" in nm])
        where = rc[0][2] if rc else f.loop.where
        st = c.eq(tag + ": ValueError exactly when the size differs from the number of parameters", B(ve), B(not_(cmp_("==", n1, NPAR))), where=where)
        c.eq(tag + ": wrong sizes raise nothing but ValueError", B(or_(*[g for nm, g, w, i, e in rc if "ValueError" not in nm])), B(FALSE), where=where)
        if st == "ok":
            locs = {v.loc for k, v in r.ctor_fields.items() if isinstance(v, Data) and k in ARR.values()}
            fu = first_use(r.s.it, ev0, locs)
            c.fact(tag + ": ... before any iteration (size)", all(i < fu for nm, g, w, i, e in rc if "ValueError" in nm), "", where)
        # 4. no start point
        f = Flow(root, cls, cx, start=None)
        c.seen(f.r.s)
        if f.loop is None:
            c.open(tag + ": main loop without start point", f.problem or "")
            continue
        ds = [e.term for e in f.it.events[f.r.n_ctor:] if e.kind == "draw" and e.draw == "laplace" and not e.loops]
        ds = [d for i, d in enumerate(ds) if d not in ds[:i]]
        specs = [add(a, mul(tm.I, b)) for a in ds for b in ds if a is not b] if cx else ds
        specs = specs or ([sym("xl", vec=True, ndim=1, real=True)] if not cx else [add(sym("xl", vec=True, ndim=1, real=True), mul(tm.I, sym("xl2", vec=True, ndim=1, real=True)))])
        if f.xname is None:
            c.open(tag + ": initial state without start point", "state variable not identified")
            continue
        ent = f.loop.entry[f.xname]
        c.eq(tag + ": without a start point the initial state is a fresh Laplace draw", ent, specs[0], alt=specs[1:], where=f.loop.where)
        for e in f.it.events[f.r.n_ctor:]:
            if e.kind == "draw" and not e.loops:
                sz = e.size if isinstance(e.size, tm.Term) else NONE
                if sz.head == "tuple" and len(sz.args) == 1:
                    sz = sz.args[0]
                c.eq(tag + ": one Laplace number per parameter", sz, NPAR, where=e.where)
        c.eq(tag + ": no error without a start point", B(raising(f.it, f.r.n_ctor)), B(FALSE), where=f.loop.where)
        c.sites += 9


# ---------------------------------------------------------------- C17
PNAMES = ("lmda", "delta", "mu", "s", "nsamples", "nburn", "ngap", "complex", "verbosity")


def subsets(full):
    import itertools
    for k in range(len(TRACKS) + 1):
        for cmb in itertools.combinations(TRACKS, k):
            if full or k in (0, 1, len(TRACKS) - 1, len(TRACKS)):
                yield cmb


def mentions(t, s):
    return s in set(subterms(t))


def c17(c, root):
    import os
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    # ---- parameters
    s = Session(root)
    P = s.get("mcmc", "PxMCMCParams")
    vals = dict(lmda=scalar("p_lmda"), delta=scalar("p_delta"), s=integer("p_s"), mu=scalar("p_mu"), nsamples=integer("p_nsamples"), nburn=integer("p_nburn"),
                ngap=integer("p_ngap"), complex=sym("p_complex"), verbosity=integer("p_verb"), track=sym("p_track"))
    order = ("lmda", "delta", "s", "mu", "nsamples", "nburn", "ngap", "complex", "verbosity", "track")
    p1 = s.call(P, **vals)
    p2 = s.call(P, *[vals[k] for k in order])
    c.seen(s)
    for how, p in (("keyword", p1), ("position", p2)):
        for k in order:
            v = s.field(p, k)
            if v is None and not s.has(p, k):
                c.bad("parameter %s given by %s is kept" % (k, how), "no attribute %s" % k, "pxmcmc/mcmc.py PxMCMCParams")
            else:
                c.eq("parameter %s given by %s is kept" % (k, how), s.T(s.attr(p, k)), vals[k], where="pxmcmc/mcmc.py PxMCMCParams")
    given = dict(lmda=LM, delta=D0, mu=MU, s=integer("s", pos=True), nsamples=NS, nburn=NB, ngap=NG, verbosity=VERB)
    for cls, cx, tune in CONFIGS:
        base = "%s%s%s" % (cls, "/complex" if cx else "/real", "" if tune is None else "/tuned" if tune else "/untuned")
        first = True
        for tr in subsets(thorough or (not cx and tune is None)):
            try:
                f = Flow(root, cls, cx, tune, track=tr, light=not (first or len(tr) == len(TRACKS)))
            except (AnalysisError, RecursionError, tm.Blowup) as e:
                c.open(base + " track=%s" % (",".join(tr)), clip(str(e), 200))
                continue
            r, it = f.r, f.it
            c.seen(r.s)
            n = base + " track=[%s]" % ",".join(tr)
            c.sites += 1
            missing = [e for e in it.events if e.kind in ("noattr", "unbound")]
            may = [e for e in it.events if e.kind in ("maybe_noattr", "maybe_unbound") and really(it, e)]
            if missing or may:
                e = (missing + may)[0]
                c.fact(n + ": the run completes", False if missing else None, "reads %s, which is not there" % e.name, e.where)
            else:
                c.ok(n + ": the run completes")
            fields = set(r.s.st.heap[r.obj.loc].fields)
            for q in TRACKS:
                has = ARR[q] in fields
                if q in tr and not has:
                    c.bad(n + ": %s is stored" % q, "no attribute %s" % ARR[q], "constructor")
                elif q not in tr and has:
                    c.bad(n + ": %s is not stored" % q, "attribute %s exists" % ARR[q], "constructor")
                else:
                    c.ok(n + ": %s %s" % (q, "is stored" if has else "is not stored"))
                if has and q in tr:
                    if not f.recs.get(q):
                        v = r.ctor_fields.get(ARR[q])
                        c.fact(n + ": %s is recorded during the run" % q, False if isinstance(v, Data) else None, "nothing is ever written to %s" % ARR[q], "run")
                    v = r.ctor_fields.get(ARR[q])
                    if isinstance(v, Data) and (first or len(tr) == len(TRACKS)):
                        want = {"predictions": node("tuple", NS, it.lib.mk_len(node("attr", FW, "data"))), "chain": node("tuple", NS, NPAR)}.get(q, node("tuple", NS))
                        c.eq(n + ": shape of %s" % q, it.lib.mk_shape(v.term), want, where="constructor")
            if first or len(tr) == len(TRACKS):
                first = False
                # parameters arrive, and stay
                for k, w in given.items():
                    v = r.ctor_fields.get(k)
                    if v is None:
                        c.open(n + ": parameter %s reaches the sampler" % k, "no attribute of that name")
                        continue
                    c.eq(n + ": parameter %s reaches the sampler" % k, it.T(v, r.ctor_state), w, where="constructor")
                v = r.ctor_fields.get("complex")
                if v is not None:
                    c.eq(n + ": parameter complex reaches the sampler", it.T(v, r.ctor_state), const(cx), where="constructor")
                if tune is not None and "tune_delta" in r.ctor_fields:
                    c.eq(n + ": tune_delta reaches the sampler", it.T(r.ctor_fields["tune_delta"], r.ctor_state), const(tune), where="constructor")
                for e in it.events[r.n_ctor:]:
                    if e.kind == "setattr" and r.obj.loc in e.al and e.name in given and not (e.name == "delta" and tune):
                        if f.loop is not None and f.xname:
                            judge(c, n + ": parameter %s is not changed by the run" % e.name, f, e.term, given[e.name], f.guard(e), e.where)
            if f.loop is None and tr:
                c.open(n + ": main loop", f.problem or "")
                continue
            # verbosity only prints
            for e in it.events[r.n_ctor:]:
                if e.kind == "store" and temporary(f, e):
                    continue
                if e.kind in ("store", "draw", "setattr") or (e.kind == "call" and e.name.startswith(".") and e.name != ".format"):
                    g = it.full_pc(e)
                    if mentions(g, VERB):
                        # the guard may mention it without depending on it
                        dep = depends(g, VERB)
                        if dep and e.kind != "call":
                            c.bad(n + ": verbosity only prints", "%s depends on verbosity: %s" % (e.kind, clip(show(g), 200)), e.where)
            lp = f.loop
            if lp is not None:
                keys = [f.xname] if f.xname else []
                keys += [k for k in lp.mus if k.startswith("cell") or k.endswith(".delta")]
                for k in keys:
                    b = lp.back[k]
                    if mentions(b, VERB) and depends(b, VERB):
                        c.bad(n + ": verbosity never changes the chain", "%s depends on verbosity" % k, lp.where)
                if mentions(lp.cond, VERB):
                    c.bad(n + ": verbosity never changes the chain", "the loop condition depends on verbosity", lp.where)
                c.ok(n + ": verbosity only prints")
    # verbosity 0, no thinning
    for cls, cx, tune in CONFIGS:
        r = SamplerRun(root, cls, cx, tune=tune, verbosity=num(0), ngap=num(0))
        n = "%s%s%s verbosity=0, ngap=0" % (cls, "/complex" if cx else "/real", "" if tune is None else "/tuned" if tune else "/untuned")
        dz = [e for e in r.it.events if e.kind == "divzero"]
        c.fact(n + ": no division by zero", not dz, "division by zero" if dz else "", dz[0].where if dz else "")
        pr = [e for e in r.it.events if e.kind == "call" and e.name == "builtins.print" and e.loops]
        c.fact(n + ": no progress output", not pr, "prints although verbosity is 0", pr[0].where if pr else "")


def temporary(f, e):
    """the store goes to an object made during the iteration itself (it lives on only if it is stored somewhere, which is an event of its own)"""
    lp = f.it.loops.get(e.loops[0]) if e.loops else None
    if lp is None:
        return False
    al = set(e.al or ())
    old = set(lp.head_state.heap) | {x[1] for x in lp.keys.values() if x[0] in ("cell", "mut")}
    v = e.target
    base = v
    while isinstance(base, Data) and base.view is not None:
        base = base.view[0]
    if isinstance(base, Ref):
        return base.loc not in old and not al & old
    return False


def reach(it, t, outer=None):
    """subterms of t, looking into the values carried by inner loops; second result: everything was resolved"""
    out, todo, full = set(), [t], True
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in out:
                continue
            out.add(y)
            if y.head == "mu" and y.args[0] != outer:
                lp = it.loops.get(y.args[0])
                if lp is None or lp.mus.get(y.args[1]) is not y:
                    full = False
                    continue
                todo += [lp.entry[y.args[1]], lp.back[y.args[1]]]
            elif y.head == "loopval" and y.args[0] in it.loops and y.args[1] in it.loops[y.args[0]].entry:
                lp = it.loops[y.args[0]]
                todo += [lp.entry[y.args[1]], lp.back[y.args[1]]]
            elif y.head in ("opaque", "loopval"):
                full = False
    return out, full


def really(it, e):
    """can the missing case of a conditionally defined name be reached?"""
    g = and_(it.full_pc(e), e.cond) if isinstance(e.cond, tm.Term) else it.full_pc(e)
    try:
        return not tm.compare(bool2term(g), num(0), TRUE, budget=[300]).eq
    except (tm.Blowup, RecursionError):
        return True


def depends(t, s):
    """a boolean or value really depends on s (syntactically, after trying to cancel it)"""
    t2 = subst(t, {s: sym(s.args[0] + "'", **(s.props or {}))})
    try:
        return not tm.compare(t if not tm.is_bool(t) else bool2term(t), t2 if not tm.is_bool(t2) else bool2term(t2), TRUE, budget=[400]).eq
    except (tm.Blowup, RecursionError):
        return False


# ---------------------------------------------------------------- C19
RNG_FORBIDDEN = ("seed", "set_state", "RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "get_state", "set_bit_generator", "get_bit_generator")
HIDDEN = {"time": None, "secrets": None, "uuid": None, "datetime": None, "random": None}


def c19(c, root):
    import ast
    import os
    s = Session(root)
    it = s.it
    # ---- who may draw, and how: every call site of the package
    nsites = 0
    for mname, m in sorted(it.modules.items()):
        if not mname.startswith("pxmcmc"):
            continue
        imports = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    imports[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(x, ast.ImportFrom) and x.module:
                for a in x.names:
                    imports[a.asname or a.name] = x.module + "." + a.name
        path = mname.replace(".", "/") + ".py"

        def dotted(e):
            if isinstance(e, ast.Name):
                return imports.get(e.id)
            if isinstance(e, ast.Attribute):
                b = dotted(e.value)
                return b + "." + e.attr if b else None
            return None
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute, ast.Name)):
                d = dotted(x)
                if not d:
                    continue
                parts = d.split(".")
                w = "%s:%d" % (path, x.lineno)
                if parts[0] == "numpy" and len(parts) >= 3 and parts[1] == "random":
                    nsites += 1
                    c.fact("%s: %s" % (w, d), parts[2] not in RNG_FORBIDDEN, "seeds, replaces or saves the generator", w)
                elif parts[0] in ("random", "secrets", "uuid") and (len(parts) > 1 or isinstance(x, ast.Name)):
                    nsites += 1
                    c.bad("%s: %s" % (w, d), "randomness from outside numpy's global generator", w)
                elif parts[0] in ("time", "datetime") and len(parts) > 1 and parts[-1] in ("time", "time_ns", "now", "utcnow", "today", "perf_counter", "monotonic", "process_time"):
                    nsites += 1
                    c.open("%s: %s" % (w, d), "reads the clock", w)
                elif d in ("os.urandom", "os.getpid", "os.getrandom"):
                    nsites += 1
                    c.bad("%s: %s" % (w, d), "hidden source of randomness", w)
            if isinstance(x, ast.keyword) and x.arg in ("random_state", "seed", "rng") and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                c.bad("%s:%d %s=" % (path, x.value.lineno, x.arg), "fixes or replaces the generator", "%s:%d" % (path, x.value.lineno))
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "random_state" for t in x.targets):
                c.bad("%s:%d random_state" % (path, x.lineno), "replaces the generator", "%s:%d" % (path, x.lineno))
    c.sites += nsites
    c.ok("%d references to random number sources are all draws from numpy's global generator" % nsites)
    # ---- per sampler
    for start in ("given", None):
        for f in flows(c, root, [x for x in CONFIGS], start=start):
            n = f.name + ("" if start else "/no start point")
            if f.loop is None:
                c.open(n + ": main loop", f.problem or "")
                continue
            lp = f.loop
            draws = [e for e in f.it.events if e.kind == "draw"]
            for e in draws:
                nm = e.name
                known = any(nm.startswith(p) for p in ("numpy.random.", "scipy.stats."))
                c.fact(n + ": %s at %s uses the global generator" % (nm, e.where), True if known else None, nm, e.where)
                if e.loops and e.loops[0] == lp.id:
                    g = f.guard(e)
                    for q in (VERB,):
                        if mentions(g, q) and depends(g, q):
                            c.bad(n + ": draw does not depend on verbosity", clip(show(g), 200), e.where)
                    goes_on = f.R(not_(or_(*lp.exit_conds))) if lp.breaks else TRUE
                    free = {lp.mus[f.xname]: sym("x_any" + "rc"[bool(f.complex)], vec=True, ndim=1, real=not f.complex)} if f.xname else {}
                    dm = lp.mus.get("%d.delta" % f.r.obj.loc)
                    if dm is not None:
                        free[dm] = scalar("delta_any", pos=True)
                    s_, d_ = c.verdict(subst(bool2term(g), free), num(1), subst(goes_on, free))
                    # noise must be drawn in every iteration
                    if s_ == "violation":
                        c.bad(n + ": %s is drawn in every iteration" % e.draw, "drawn only if " + clip(show(g), 200), e.where)
                    else:
                        c.obl.append((n + ": %s is drawn in every iteration" % e.draw, "ok" if s_ == "ok" else "undecided", d_, e.where))
            # freshness: no draw made before the loop is used by the iterations, except through the initial state
            early = [e.term for e in f.it.events[:] if e.kind == "draw" and not (e.loops and e.loops[0] == lp.id)]
            new = [e.term for e in in_loop_draws(f, "normal")]
            b = lp.back[f.xname] if f.xname else None
            if b is None:
                c.open(n + ": freshness", "state variable not identified")
                continue
            terms_, full = reach(f.it, b, lp.id)
            used = {t for t in terms_ if t.head in ("normal", "uniform", "laplace")}
            stale = [t for t in early if t in used]
            c.fact(n + ": no noise drawn before the loop is used in an iteration", not stale, show(stale[0]) if stale else "", lp.where)
            c.fact(n + ": the new state depends on noise of its own iteration", any(t in used for t in new) or (False if full else None), "no normal draw of the iteration enters the new state", lp.where)
            # carried-over draws: a loop-carried value other than the state functions that holds a draw of an earlier iteration and is used again
            carried = []
            for k, bb in lp.back.items():
                if k == f.xname or k in f.inv or k.startswith("mut") or k.startswith("cell"):
                    continue
                m = lp.mus[k]
                if any(t.head in ("normal", "uniform") for t in subterms(bb)) and (mentions(lp.back[f.xname], m)) and not k.endswith(".delta"):
                    if m in f.res:
                        continue
                    carried.append(k)
            carried = [k for k in carried if k not in [x for x, _ in state_quantities(f)]]
            c.fact(n + ": no draw is kept for a later iteration", not carried, ",".join(carried), lp.where)
            if f.cls == "PxMALA":
                us = uniform_draws(f)
                c.fact(n + ": a fresh uniform number decides", any(t in used for t in us), "no uniform draw of the iteration enters the decision", lp.where)
            else:
                c.fact(n + ": nothing but the noise is drawn", not [e for e in draws if e.loops and e.draw != "normal"] or None, "", lp.where)
            nn = len({e.term for e in draws if e.loops and e.draw == "normal"})
            c.sites += len(draws)
