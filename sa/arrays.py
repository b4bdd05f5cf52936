"""Entry-wise reading of array terms: at(t, indices) is the entry of the array t at symbolic indices.

The terms describe arrays for every size at once; an entry is a scalar term in the index symbols, with conditionals where
stores, concatenations or masks make the entry depend on its position."""
from fractions import Fraction as Fr
from . import terms as tm
from . import lib
from .terms import (node, sym, const, num, TRUE, FALSE, NONE, and_, or_, not_, ite, cmp_, add, sub, mul, div, neg, is_scalar, is_num, num_val,
                    int_val, subterms, Term, same)
from .lib import ndim_of, mk_getitem, mk_len, mk_shape, idx_list, SLICE_ALL, is_int_index


class NoPoint(Exception):
    """entry of this term cannot be read off"""


ELEMENTWISE = {"abs", "conj", "real", "imag", "exp", "log", "log10", "sin", "cos", "tan", "isnan", "sign", "sqrt", "pow", "mod", "floordiv",
               "round", "floor", "ceil", "cosh", "sinh", "tanh", "arccosh", "arctan", "log1p", "expm1", "log2", "rint", "arccos", "arcsin", "degrees", "radians", "max2", "min2", "nan_to_num"}


def ixsym(name, bound):
    """index symbol with 0 <= name < bound"""
    return sym(name, scalar=True, real=True, integer=True, nonneg=True, bound=bound)


def inrange(*ixs):
    return and_(*[cmp_("<", i, i.props["bound"]) for i in ixs])


class Points:
    def __init__(self, assume=TRUE, hints=(), depth=0):
        self.assume = assume
        self.hints = list(hints)
        self.n = 0

    # ---- integer arithmetic on indices
    def divmod(self, p, b):
        if is_num(b) and is_num(p):
            return num(num_val(p) // num_val(b)), num(num_val(p) % num_val(b))
        dm = tm.poly_divmod(p, b)
        if dm is not None and tm.is_int(dm[0]) and self.below(dm[1], b):
            return dm
        return lib.arith("//", p, b), lib.mk_mod(p, b)

    def below(self, r, b):
        """0 <= r < b provable"""
        if r.head == "sym" and (r.props or {}).get("bound") is b:
            return True
        return tm.compare(b2(and_(cmp_("<=", num(0), r), cmp_("<", r, b))), num(1), self.assume, budget=[200]).eq

    def holds(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        try:
            return tm.compare(b2(c), num(1), self.assume, budget=[400]).eq
        except tm.Blowup:
            return False

    def guard(self, c, a, b):
        """ite, deciding the condition from the index ranges where possible"""
        if c is TRUE or self.holds(c):
            return a()
        if c is FALSE or self.holds(not_(c)):
            return b()
        if c.head == "and":
            c = and_(*[x for x in c.args if not self.holds(x)])
        return ite(c, a(), b())

    # ---- entries
    def at(self, t, idx):
        idx = list(idx)
        if is_scalar(t):
            return t
        h = t.head
        nd = ndim_of(t)
        if nd is not None and nd < len(idx):
            idx = idx[len(idx) - nd:]
        if not idx:
            return t
        if h == "poly":
            out = num(0)
            for c, m in t.args[0]:
                x = num(c)
                for a, e in m:
                    x = mul(x, tm.power(self.el(a, idx), num(e)))
                out = add(out, x)
            return out
        if h == "ite":
            c = self.cond(t.args[0], idx)
            return self.guard(c, lambda: self.el(t.args[1], idx), lambda: self.el(t.args[2], idx))
        if h in ELEMENTWISE:
            return tm.rebuild(h, tuple(self.el(a, idx) if isinstance(a, Term) else a for a in t.args))
        if tm.is_bool(t):
            return self.cond(t, idx)
        if h == "cast":
            return tm.rebuild(h, (t.args[0], self.el(t.args[1], idx)) + t.args[2:])
        if h == "full":
            if nd is None or len(idx) < nd:
                return node("full", lib_shape_tail(t, len(idx)), t.args[1], t.args[2])
            return self.el(t.args[1], idx)
        if h == "T" and nd == len(idx):
            return self.at(t.args[0], idx[::-1])
        if h == "T" and len(idx) == 1:
            return mk_getitem(t.args[0], node("tuple", SLICE_ALL, idx[0]))
        if h == "outer" and len(idx) == 2:
            return mul(self.at(t.args[0], idx[:1]), self.at(t.args[1], idx[1:]))
        if h == "col" and len(idx) == 2:
            return self.at(t.args[0], idx[:1])
        if h == "row" and len(idx) == 2:
            return self.at(t.args[0], idx[1:])
        if h == "diag" and len(idx) == 2:
            return self.guard(cmp_("==", idx[0], idx[1]), lambda: self.at(t.args[0], idx[:1]), lambda: num(0))
        if h == "eye" and len(idx) == 2:
            return self.guard(cmp_("==", idx[0], idx[1]), lambda: num(1), lambda: num(0))
        if h == "flat":
            e = t.args[0]
            d = ndim_of(e)
            if d == 1:
                return self.at(e, idx)
            if d == 2 and len(idx) == 1:
                w = self.dims(e)[1]
                q, r = self.divmod(idx[0], w)
                return self.at(e, [q, r])
            raise NoPoint("flat")
        if h == "reshape" and t.args[1].head == "tuple" and len(t.args[1].args) == len(idx):
            e = t.args[0]
            lin = num(0)
            for i, n in zip(idx, t.args[1].args):
                lin = add(mul(lin, n), i)
            d = ndim_of(e)
            if d == 1:
                return self.at(e, [lin])
            if d == 2:
                q, r = self.divmod(lin, self.dims(e)[1])
                return self.at(e, [q, r])
            raise NoPoint("reshape")
        if h in ("concat",):
            i = idx[0]
            parts = list(t.args)
            return self.cat(parts, i, idx)
        if h == "vstack":
            i = idx[0]
            return self.vcat(list(t.args), i, idx)
        if h in ("list", "tuple", "array", "stack"):
            k = int_val(idx[0]) if idx[0].head == "poly" else None
            if k is not None and 0 <= k < len(t.args):
                return self.at(t.args[k], idx[1:]) if idx[1:] else t.args[k]
            if 0 < len(t.args) <= 8:
                v = self.at(t.args[-1], idx[1:]) if idx[1:] else t.args[-1]
                for k in range(len(t.args) - 2, -1, -1):
                    e = self.at(t.args[k], idx[1:]) if idx[1:] else t.args[k]
                    v = ite(cmp_("==", idx[0], num(k)), e, v)
                return v
            raise NoPoint(h)
        if h == "concatmap":
            return self.catmap(t, idx)
        if h == "map":
            v = tm.open_(t.args[1], idx[0])
            return self.at(v, idx[1:]) if idx[1:] else v
        if h == "store":
            return self.store(t, idx)
        if h == "fstore":
            return self.fstore(t, idx)
        if h == "getitem":
            r = self.item(t, idx)
            if r is not None:
                return r
        if nd is None and h not in ("sym", "proj", "ext", "meth", "apply", "getitem", "attr"):
            raise NoPoint(h)
        return mk_getitem(t, node("tuple", *idx) if len(idx) > 1 else idx[0])

    def el(self, a, idx):
        """entry of an operand of an elementwise operation on an array of len(idx) dimensions (broadcasting)"""
        if is_scalar(a):
            return a
        if tm.is_bool(a):
            return self.cond(a, idx)
        d = ndim_of(a)
        if d is None:
            raise NoPoint("dimension of " + tm.show(a)[:60])
        if d == 0:
            return a
        idx = idx[len(idx) - d:] if d <= len(idx) else idx
        if d >= 1 and a.head not in ("col", "row"):
            try:
                dims = self.dims(a)
                if len(dims) == len(idx):
                    idx = [num(0) if (is_num(n) and num_val(n) == 1) else i for i, n in zip(idx, dims)]
            except NoPoint:
                pass
        return self.at(a, idx)

    def cond(self, c, idx):
        if c is TRUE or c is FALSE:
            return c
        if c.head == "and":
            return and_(*[self.cond(x, idx) for x in c.args])
        if c.head == "or":
            return or_(*[self.cond(x, idx) for x in c.args])
        if c.head == "not":
            return not_(self.cond(c.args[0], idx))
        if c.head == "cmp":
            if c.args[1].head == "pair":
                a, b = c.args[1].args
                return cmp_(c.args[0], self.el(a, idx), self.el(b, idx))
            p = c.args[1]
            if is_scalar(p):
                return c
            return cmp_(c.args[0], self.el(p, idx), num(0))
        if c.head == "bool":
            x = c.args[0]
            return c if is_scalar(x) else tm.truth(self.el(x, idx))
        return c

    def dims(self, t):
        h = t.head
        if h == "outer":
            return (self.size(t.args[0]), self.size(t.args[1]))
        if h == "T":
            return self.dims(t.args[0])[::-1]
        if h == "col":
            return (self.size(t.args[0]), num(1))
        if h == "row":
            return (num(1), self.size(t.args[0]))
        if h == "flat":
            return (self.size(t.args[0]),)
        if h == "concat":
            ds = [self.dims(a) for a in t.args]
            n = num(0)
            for d in ds:
                n = add(n, d[0])
            return (n,) + tuple(ds[0][1:])
        if h in ("store", "fstore") or h in ELEMENTWISE:
            return self.dims(t.args[0])
        if h == "ite" and not is_scalar(t):
            for a in (t.args[1], t.args[2]):
                if ndim_of(a) == ndim_of(t):
                    return self.dims(a)
            for p in operands(t.args[0]):
                if ndim_of(p) == ndim_of(t):
                    return self.dims(p)
            raise NoPoint("shape of " + tm.show(t)[:60])
        if h == "poly":
            best = None
            d = ndim_of(t)
            for _, m in t.args[0]:
                for a, _ in m:
                    if not is_scalar(a) and (ndim_of(a) == d or d is None):
                        try:
                            s = self.dims(a)
                        except NoPoint:
                            continue
                        if best is None:
                            best = list(s)
                        else:
                            best = [y if is_num(x) and num_val(x) == 1 else x for x, y in zip(best, s)]
            if best is not None:
                return tuple(best)
        if h == "vstack":
            n, w = num(0), None
            for a in t.args:
                d = self.dims(a)
                n = add(n, num(1) if len(d) == 1 else d[0])
                w = d[-1]
            return (n, w)
        if h in ("cmp", "and", "or", "not", "bool"):
            ps = operands(t)
            d = lib.bool_ndim(t)
            for p in ps:
                if d and ndim_of(p) == d:
                    return self.dims(p)
            raise NoPoint("shape of " + tm.show(t)[:60])
        if h == "concatmap":
            k = node("idx", "cm")
            if k.props is None:
                k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
            ln = self.size(tm.open_(t.args[1], k))
            if k not in subterms(ln):
                return (mul(t.args[0], ln),)
            s = lib.faul(t.args[0], tm.close(k, ln))
            if s is not None:
                return (s,)
            raise NoPoint("length of a ragged concatenation")
        if h == "map":
            k = node("idx", "cm")
            e = tm.open_(t.args[1], k)
            return (t.args[0],) + (tuple(self.dims(e)) if not is_scalar(e) else ())
        if h == "getitem" and ndim_of(t) is not None:
            b, ix = t.args
            db = self.dims(b)
            out, pos = [], 0
            for p in idx_list(ix):
                if p.head == "slice":
                    lo, hi, st = p.args
                    if st is NONE or (is_num(st) and num_val(st) == 1):
                        l, u = self.bounds(p, db[pos])
                        out.append(sub(u, l))
                    elif is_num(st) and num_val(st) == -1 and lo is NONE and hi is NONE:
                        out.append(db[pos])
                    else:
                        raise NoPoint("strided slice")
                elif not is_int_index(p):
                    if ndim_of(p) != 1 or is_mask(p) or tm.is_bool(p) or sum(not is_int_index(x) and x.head != "slice" for x in idx_list(ix)) != 1:
                        raise NoPoint("fancy index")
                    out += list(self.dims(p))
                pos += 1
            return tuple(out) + tuple(db[pos:])
        s = mk_shape(t)
        if s.head == "tuple":
            return s.args
        raise NoPoint("shape of " + tm.show(t)[:60])

    def size(self, t):
        r = num(1)
        for n in self.dims(t):
            r = mul(r, n)
        return r

    def read(self, t, idx):
        """entry with every entry of a structured array inside it resolved as well"""
        return self.resolve(self.at(t, idx))

    def resolve(self, t):
        def f(x):
            if x.head == "getitem" and x.args[0].head in STRUCT and all(is_int_index(i) for i in idx_list(x.args[1])) \
                    and ndim_of(x.args[0]) == len(idx_list(x.args[1])) and not free_bv(x):
                il = idx_list(x.args[1])
                try:
                    il = [add(self.dims(x.args[0])[k], i) if is_num(i) and num_val(i) < 0 else i for k, i in enumerate(il)]
                    return self.resolve(self.at(x.args[0], il))
                except NoPoint:
                    return x
            return x
        return tm.rewrite(t, f)

    def cat(self, parts, i, idx):
        if len(parts) == 1:
            return self.at(parts[0], [i] + idx[1:])
        n = mk_len(parts[0])
        if n.head == "len":
            raise NoPoint("length of " + tm.show(parts[0])[:60])
        return self.guard(cmp_("<", i, n), lambda: self.at(parts[0], [i] + idx[1:]), lambda: self.cat(parts[1:], sub(i, n), idx))

    def vcat(self, parts, i, idx):
        p = parts[0]
        d = ndim_of(p)
        if d == 1:
            first, n = lambda: self.at(p, idx[1:]) if idx[1:] else p, num(1)
        elif d == 2:
            first, n = lambda: self.at(p, [i] + idx[1:]), mk_len(p)
        else:
            raise NoPoint("vstack")
        if len(parts) == 1:
            return first()
        return self.guard(cmp_("<", i, n), first, lambda: self.vcat(parts[1:], sub(i, n), idx))

    def catmap(self, t, idx):
        n, lam = t.args
        k = node("idx", "cm")
        if k.props is None:
            k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
        piece = tm.open_(lam, k)
        ln = self.size(piece)
        if k not in subterms(ln):
            q, r = self.divmod(idx[0], ln)
            return self.at(tm.open_(lam, q), [r])
        start = lib.faul(k, tm.close(node("idx", "cm2"), tm.subst(ln, {k: node("idx", "cm2")})))
        if start is None:
            raise NoPoint("ragged concatenation")
        for hs in self.hints:
            for h in hs:
                s0, l0 = tm.subst(start, {k: h}), tm.subst(ln, {k: h})
                if self.holds(and_(cmp_("<=", s0, idx[0]), cmp_("<", idx[0], add(s0, l0)), cmp_("<=", num(0), h), cmp_("<", h, n))):
                    return self.at(tm.open_(lam, h), [sub(idx[0], s0)])
        raise NoPoint("ragged concatenation")

    def bounds(self, sl, n):
        lo, hi, st = sl.args
        if st is not NONE and not (is_num(st) and num_val(st) == 1):
            raise NoPoint("strided store")
        l = num(0) if lo is NONE else (add(n, lo) if is_num(lo) and num_val(lo) < 0 else lo)
        u = n if hi is NONE else (add(n, hi) if is_num(hi) and num_val(hi) < 0 else hi)
        return l, u

    def split_index(self, b, ix, idx):
        """[(condition for idx to be addressed by ix, equations (expression, idx)), indices into the stored value]"""
        conds, eqs, slices, vidx, pos = [], [], [], [], 0
        for p in idx_list(ix):
            if p.head == "slice":
                if pos >= len(idx):
                    raise NoPoint("partial index")
                if p is SLICE_ALL:
                    vidx.append(idx[pos])
                else:
                    l, u = self.bounds(p, self.dims(b)[pos])
                    slices.append((l, u, idx[pos]))
                    vidx.append(("off", l, u, idx[pos]))
                pos += 1
            elif is_int_index(p):
                if pos >= len(idx):
                    raise NoPoint("partial index")
                if is_num(p) and num_val(p) < 0:
                    p = add(self.dims(b)[pos], p)
                eqs.append((p, idx[pos]))
                pos += 1
            else:
                d = ndim_of(p) if not tm.is_bool(p) else None
                if tm.is_bool(p):
                    d = len(idx) - pos
                    conds.append(self.cond(p, idx[pos:]))
                    pos += d
                elif is_mask(p) and d:
                    conds.append(tm.truth(self.el(p, idx[pos:pos + d])))
                    pos += d
                else:
                    raise NoPoint("fancy store")
                vidx.append(("masked",))
        vidx += idx[pos:]
        return conds, eqs, slices, vidx

    def value(self, v, vidx, sb):
        if is_scalar(v):
            return v
        out = []
        for x in vidx:
            if isinstance(x, tuple):
                if x[0] == "masked":
                    raise NoPoint("masked store of an array")
                out.append(sub(x[3], tm.subst(x[1], sb) if sb else x[1]))
            else:
                out.append(x)
        return self.el(v, out) if out else v

    def store(self, t, idx):
        b, ix, v = t.args
        conds, eqs, slices, vidx = self.split_index(b, ix, idx)
        cs = list(conds) + [cmp_("==", p, i) for p, i in eqs]
        for l, u, i in slices:
            cs += [cmp_("<=", l, i), cmp_("<", i, u)]
        c = and_(*cs)
        return self.guard(c, lambda: self.value(tm.subst(v, dict(sol_of(eqs))) if False else v, vidx, None), lambda: self.at(b, idx))

    def fstore(self, t, idx):
        b, n, lam = t.args
        vars_, body = [], None
        self.n += 1
        x = lam
        cnt = n
        while True:
            k = node("idx", "fold%d_%d" % (self.n, len(vars_)))
            if k.props is None:
                k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
            vars_.append((k, cnt))
            body = tm.open_(x, k)
            if body.head == "inner":
                cnt, x = body.args
                continue
            break
        if body.head != "stores":
            raise NoPoint("fold")
        ents = [e.args for e in body.args]
        ix = ents[0][0]
        if any(e[0] is not ix for e in ents[1:]):
            raise NoPoint("several stores per iteration")
        ks = [k for k, _ in vars_]
        conds, eqs, slices, vidx = self.split_index(b, ix, idx)
        if any(k in subterms(c) for c in conds for k in ks):
            raise NoPoint("mask depends on the iteration")
        sol, cs = self.solve(vars_, eqs, slices)
        cs = conds + cs
        for k, cnt in vars_:
            if k not in sol:
                raise NoPoint("iteration not determined by the index")
            s = sol[k]
            cs += [cmp_("<=", num(0), s), cmp_("<", s, tm.subst(cnt, sol))]
        me = node("self")
        cur = lambda: self.at(b, idx)
        for _, v in ents:
            v = tm.subst(v, sol)
            prev = cur

            def val(v=v, prev=prev):
                if me in subterms(v):
                    ix2 = tm.subst(ix, sol)
                    hit = node("getitem", me, ix2)
                    alt = node("getitem", me, node("tuple", *idx) if len(idx) > 1 else idx[0])
                    pv = prev()
                    v = tm.subst(v, {hit: pv, alt: pv}) if not slices and SLICE_ALL not in idx_list(ix) else self.selfrow(v, ix2, prev)
                    if me in subterms(v):
                        raise NoPoint("fold reads other entries of itself")
                return self.value(v, vidx, sol)
            cur = val
        return self.guard(and_(*cs), cur, lambda: self.at(b, idx))

    def selfrow(self, v, ix2, prev):
        raise NoPoint("fold over rows reads itself")

    def solve(self, vars_, eqs, slices):
        ks = [k for k, _ in vars_]
        sol, cs = {}, []
        todo = list(eqs)
        progress = True
        while progress and todo:
            progress = False
            for e in list(todo):
                p, i = e
                p = tm.subst(p, sol) if sol else p
                un = [k for k in ks if k in subterms(p) and k not in sol]
                if not un:
                    cs.append(cmp_("==", p, i))
                    todo.remove(e)
                    progress = True
                elif len(un) == 1:
                    k = un[0]
                    d = tm.poly(p)
                    occ = [(m, c) for m, c in d.items() if any(a is k or k in subterms(a) for a, _ in m)]
                    if len(occ) == 1 and occ[0][0] == ((k, Fr(1)),) and abs(occ[0][1]) == 1:
                        c = occ[0][1]
                        rest = tm.from_poly({m: x for m, x in d.items() if m != occ[0][0]})
                        sol[k] = mul(num(1 / c), sub(i, rest))
                        todo.remove(e)
                        progress = True
                    elif len(occ) == 1 and len(occ[0][0]) == 1 and occ[0][0][0] == (k, Fr(1)) and occ[0][1].denominator == 1:
                        raise NoPoint("strided fold")
        for l, u, i in slices:
            l2, u2 = (tm.subst(l, sol), tm.subst(u, sol)) if sol else (l, u)
            un = [k for k in ks if (k in subterms(l2) or k in subterms(u2)) and k not in sol]
            if not un:
                cs += [cmp_("<=", l2, i), cmp_("<", i, u2)]
            elif len(un) == 1:
                # consecutive blocks
                k = un[0]
                width = sub(u2, l2)
                nxt = tm.subst(l2, {k: add(k, num(1))})
                if not same(nxt, u2):
                    raise NoPoint("blocks are not consecutive")
                if k not in subterms(width):
                    base = tm.subst(l2, {k: num(0)})
                    q, r = self.divmod(sub(i, base), width)
                    sol[k] = q
                else:
                    h = self.hint1(lambda h: and_(cmp_("<=", tm.subst(l2, {k: h}), i), cmp_("<", i, tm.subst(u2, {k: h}))))
                    if h is None:
                        raise NoPoint("ragged blocks")
                    sol[k] = h
            else:
                raise NoPoint("block position")
        if todo:
            if len(todo) == 1 and len([k for k in ks if k not in sol]) == 2 and not slices:
                p, i = todo[0]
                (k1, n1), (k2, n2) = [kv for kv in vars_ if kv[0] not in sol]
                p = tm.subst(p, sol) if sol else p
                step = sub(tm.subst(p, {k2: add(k2, num(1))}), p)
                carry = sub(tm.subst(p, {k1: add(k1, num(1)), k2: num(0)}), tm.subst(p, {k2: n2}))
                if is_num(step) and num_val(step) == 1 and same(carry, num(0)):
                    if self.holds(cmp_("<", i, tm.subst(p, {k1: num(0), k2: num(0)}))):     # positions only grow from there
                        sol[k1] = sol[k2] = num(0)
                        return sol, cs + [FALSE]
                    for hs in self.hints:
                        for h in hs:
                            r = sub(i, tm.subst(p, {k1: h, k2: num(0)}))
                            if self.holds(and_(cmp_("<=", num(0), r), cmp_("<", r, tm.subst(n2, {k1: h})))):
                                sol[k1] = h
                                sol[k2] = r
                                return sol, cs
            raise NoPoint("index not solved for the iteration")
        return sol, cs

    def hint1(self, f):
        for hs in self.hints:
            for h in hs:
                if self.holds(f(h)):
                    return h
        return None

    def item(self, t, idx):
        """entry of a basic or fancy indexing expression"""
        b, ix = t.args
        full, rest = [], list(idx)
        for p in idx_list(ix):
            if p.head == "slice":
                if not rest:
                    return None
                i = rest.pop(0)
                lo, hi, st = p.args
                s = num(1) if st is NONE else st
                if not is_num(s):
                    return None
                n = None
                if lo is NONE:
                    if num_val(s) > 0:
                        l = num(0)
                    else:
                        l = sub(self.dims(b)[len(full)], num(1))
                elif is_num(lo) and num_val(lo) < 0:
                    l = add(self.dims(b)[len(full)], lo)
                else:
                    l = lo
                full.append(add(l, mul(s, i)))
            elif is_int_index(p):
                if is_num(p) and num_val(p) < 0:
                    try:
                        p = add(self.dims(b)[len(full)], p)
                    except NoPoint:
                        pass
                full.append(p)
            elif ndim_of(p) == 1 and not is_mask(p) and not tm.is_bool(p) and len(idx_list(ix)) == 1:
                if not rest:
                    return None
                full.append(self.at(p, [rest.pop(0)]))
            else:
                return None
        full += rest
        d = ndim_of(b)
        if b.head in ("sym", "proj", "ext", "meth", "apply", "attr"):
            return mk_getitem(b, node("tuple", *full) if len(full) > 1 else full[0])
        return self.at(b, full)

    # ---- canonical arrays inside reductions
    def canon(self, t, heads=None):
        """replace the array arguments of reductions and opaque functions by their entry functions"""
        heads = heads or REDUCE

        def f(x):
            if x.head in heads or (x.head == "ext" and x.args[0] in heads):
                out, ch = [], False
                for a in x.args:
                    if isinstance(a, Term) and ((not is_scalar(a) and a.head in STRUCT and ndim_of(a) in (1, 2)) or
                                                (a.head in ("cmp", "and", "or", "not", "bool") and lib.bool_ndim(a) in (1, 2))):
                        a2 = self.arr(a)
                        if a2 is not None:
                            out.append(a2)
                            ch = True
                            continue
                    out.append(a)
                if ch:
                    r = node(x.head, *out)
                    if r.props is None and x.props:
                        r.props = dict(x.props)
                    return r
            return x
        return tm.rewrite(t, f)

    def arr(self, a):
        try:
            dims = self.dims(a)
        except NoPoint:
            return None
        ks = []
        for j, n in enumerate(dims):
            k = node("idx", "arr%d" % j)
            if k.props is None:
                k.props = {"scalar": True, "integer": True, "real": True, "nonneg": True}
            ks.append(k)
        try:
            sub_ = Points(and_(self.assume, *[cmp_("<", k, n) for k, n in zip(ks, dims)]), self.hints)
            e = self.canon(sub_.resolve(sub_.cond(a, ks)) if tm.is_bool(a) else sub_.read(a, ks))
        except NoPoint:
            return None
        if e.head == "getitem" and (e.args[1] is ks[0] if len(ks) == 1 else (e.args[1].head == "tuple" and e.args[1].args == tuple(ks))) \
                and not any(k in subterms(e.args[0]) for k in ks):
            try:
                if node("tuple", *self.dims(e.args[0])) is node("tuple", *dims):
                    return e.args[0]
            except NoPoint:
                pass
        for k in reversed(ks):
            e = tm.close(k, e)
        r = node("arr", node("tuple", *dims), e)
        if r.props is None:
            r.props = dict(ndim=len(dims), shape=node("tuple", *dims), len=dims[0])
            if len(dims) == 1:
                r.props["vec"] = True
        return r


STRUCT = {"poly", "ite", "store", "fstore", "concat", "concatmap", "map", "flat", "reshape", "outer", "T", "full", "vstack", "getitem", "abs", "exp",
          "conj", "real", "imag", "sin", "cos", "list", "array", "col", "row", "stack", "cast", "log"}
REDUCE = {"sumall", "amax", "amin", "argmax", "argmin", "nonzero", "quantile", "numpy.fft.fft", "numpy.fft.ifft", "numpy.fft.ifftshift", "numpy.fft.fftshift",
          "sort", "mean", "std", "any", "all", "norm"}


_FB = {}


def free_bv(t):
    """bound variables occurring free in t"""
    r = _FB.get(t)
    if r is not None:
        return r
    if t.head == "bv":
        r = frozenset([t.args[0]])
    else:
        r = frozenset()
        for a in tm.walk_args(t):
            if isinstance(a, Term):
                r |= free_bv(a)
        if t.head == "lam":
            r -= {t.args[0]}
    _FB[t] = r
    return r


def operands(c):
    """compared quantities of a condition"""
    if c.head in ("and", "or", "not"):
        return [x for y in c.args for x in operands(y)]
    if c.head == "cmp":
        return list(c.args[1].args) if c.args[1].head == "pair" else [c.args[1]]
    return list(c.args) if c.head == "bool" else []


def is_mask(p):
    return (p.head == "full" and p.args[2] is const("bool")) or (p.head == "cast" and p.args[0] in ("bool", const("bool"))) or bool((p.props or {}).get("boolean"))


def b2(c):
    return c if c in () else ite(c, num(1), num(0))


def sol_of(eqs):
    return ()


def lib_shape_tail(t, k):
    s = mk_shape(t)
    if s.head == "tuple":
        rest = s.args[k:]
        return rest[0] if len(rest) == 1 else node("tuple", *rest)
    raise NoPoint("shape")


def entry(t, idx, assume=None, hints=()):
    if assume is None:
        assume = and_(*[cmp_("<", i, i.props["bound"]) for i in idx if i.head == "sym" and (i.props or {}).get("bound") is not None])
    P = Points(assume, hints)
    return P.read(t, idx), assume
