"""Interprocedural gated value-flow analysis of the Python sources.

Abstract interpretation of the syntax tree over the term domain of `terms`:
 * at every control-flow join the values of both branches are merged into a gated value ite(c, a, b)
   (no path enumeration: each statement is visited once per loop pass),
 * loops are analysed to a fixpoint of their set of loop-carried locations; loop-carried values are
   header atoms mu(loop, location) with an entry and a back-edge value (gated SSA), never unrolled
   except over statically known finite sequences,
 * calls to functions of the repository are resolved (imports, classes, MRO, super, closures) and
   analysed in place; recursive calls and library calls are uninterpreted functions,
 * arrays and objects have abstract locations, so in-place writes are seen through aliases.
Every write, raise, library call, random draw and print is recorded as an event with its guard.
"""
import ast
import copy
import itertools
import os
from . import terms as tm
from .terms import Term, TRUE, FALSE, NONE, node, sym, const, num, and_, or_, not_, ite, cmp_

MAXDEPTH = 40


class AnalysisError(Exception):
    pass


# ---------------------------------------------------------------- values
class Value:
    pass


class Data(Value):
    __slots__ = ("term", "loc", "al", "view")

    def __init__(self, term, loc=None, al=None, view=None):
        self.term, self.loc, self.al, self.view = term, loc, al if al is not None else frozenset(), view

    def __repr__(self):
        return "Data(%s)" % tm.show(self.term)


class Tup(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Ref(Value):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Fn(Value):
    __slots__ = ("node", "mod", "env", "self_", "cls", "qual", "defaults", "kwdefaults", "decor")

    def __init__(self, node, mod, env, qual, cls=None, self_=None, defaults=(), kwdefaults=None, decor=()):
        self.node, self.mod, self.env, self.qual = node, mod, env, qual
        self.cls, self.self_ = cls, self_
        self.defaults, self.kwdefaults, self.decor = defaults, kwdefaults or {}, decor

    def bind(self, obj):
        return Fn(self.node, self.mod, self.env, self.qual, self.cls, obj, self.defaults, self.kwdefaults, self.decor)


class LibFn(Value):
    """library function / module / class by dotted name, or method of a value"""
    __slots__ = ("name", "recv")

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


class Partial(Value):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Cls(Value):
    def __init__(self, name, mod, node, bases, attrs):
        self.name, self.mod, self.node, self.bases, self.attrs = name, mod, node, bases, attrs

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class Super(Value):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Choice(Value):
    """gated choice of non-data values"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Seq(Value):
    """abstract sequence of n items: item(k, st) -> Value"""

    def __init__(self, n, item, items=None, term=None):
        self.n, self.item, self.items, self.term = n, item, items, term


class _Unbound(Value):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class ListCell:
    __slots__ = ("items", "term")

    def __init__(self, items=None, term=None):
        self.items, self.term = items, term


class DictCell:
    __slots__ = ("items", "open")   # items: dict const-term -> Value ; open: extra unknown term or None

    def __init__(self, items, open_=None):
        self.items, self.open = items, open_


class ObjCell:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class State:
    __slots__ = ("env", "heap", "mut", "pc", "assume")

    def __init__(self, env, heap, mut, pc=TRUE, assume=TRUE):
        self.env, self.heap, self.mut, self.pc, self.assume = env, heap, mut, pc, assume

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.mut), self.pc, self.assume)


class Event:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s %s>" % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ("kind", "segs", "node")})


_parsed = {}


def parse(src):
    if src not in _parsed:
        _parsed[src] = ast.parse(src)
    return _parsed[src]


class Loop:
    def __init__(self, id):
        self.id = id
        self.entry, self.back, self.mus = {}, {}, {}
        self.cond = TRUE
        self.n = None
        self.idx = None
        self.breaks = []
        self.where = None
        self.events = (0, 0)
        self.parent = None
        self.returns = False


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


BODIES = {}     # (module path, line, name) -> FunctionDef of every function whose body was followed by some analysis of this run


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, root="/repo", package="pxmcmc", extra_sources=None):
        from . import lib
        self.lib = lib
        self.root, self.package = root, package
        self.modules = {}
        self.events = []
        self.assume_pos = set()     # loop variables whose positivity is judged elsewhere (C06)
        self.loops = {}
        self.loopstack = []
        self.segs = []          # [('call'|'loop', pc)]
        self.callstack = []     # [(Fn, site)]
        self.locs = itertools.count(1)
        self.unroll = []
        self.roots = {}         # loc -> description of caller-owned / shared root
        self.attr_props = {}
        self.functions_seen = set()
        self.unknown = {}       # constructs outside the fragment
        self.maybe_unbound = []
        self._base_terms = {}
        self._terms = {}
        self.dict_owner = {}    # loc of a dict that is an object's __dict__
        self.dict_group = {}    # loc of an object -> locs of the objects and dicts that share its __dict__
        self.attr_locs = {}
        self.draw_ids, self.draws = {}, {}
        self.rec_props, self.last_rets = {}, {}
        self.actconst = []
        self.rec_made, self.rec_done = set(), set()
        self.summaries = {}
        self.st0 = State({}, {}, {})
        pk = os.path.join(root, package)
        for fn in sorted(os.listdir(pk)):
            if fn.endswith(".py"):
                self._load(package + ("" if fn == "__init__.py" else "." + fn[:-3]), os.path.join(pk, fn))
        for name, src in (extra_sources or {}).items():
            self.modules[name] = Module(name, name, parse(src))
        self._inited = set()
        for m in list(self.modules):
            self.init_module(m)

    def _load(self, name, path):
        with open(path, encoding="utf-8") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.modules[name] = Module(name, path, parse(src))

    def init_module(self, name):
        if name in self._inited:
            return
        self._inited.add(name)
        m = self.modules[name]
        st = State(m.env, self.st0.heap, self.st0.mut)
        frame = (m, None, None)
        n0 = len(self.events)
        out = self.block(m.tree.body, st, frame)
        for o in out:
            if o.kind == "normal":
                m.env.update(o.st.env)
                self.st0 = State({}, o.st.heap, o.st.mut)
        for loc in self.st0.heap:
            self.roots.setdefault(loc, "shared:" + name)
        for k, v in m.env.items():
            if isinstance(v, Data) and v.loc is not None:
                self.roots.setdefault(v.loc, "shared:%s.%s" % (name, k))
        self.module_events = getattr(self, "module_events", []) + self.events[n0:]
        del self.events[n0:]

    # -------------------------------------------------- helpers
    def newloc(self):
        return next(self.locs)

    def data(self, term, al=None, view=None):
        loc = self.newloc()
        if view is None:
            self._terms[loc] = term
        return Data(term, loc, frozenset([loc]) | (al or frozenset()), view)

    def root_data(self, term, desc):
        loc = self.newloc()
        self.roots[loc] = desc
        return Data(term, loc, frozenset([loc]))

    def new_obj(self, st, cls, fields=None):
        loc = self.newloc()
        st.heap[loc] = ObjCell(cls, dict(fields or {}))
        return Ref(loc)

    def new_list(self, st, items=None, term=None):
        loc = self.newloc()
        st.heap[loc] = ListCell(tuple(items) if items is not None else None, term)
        return Ref(loc)

    def new_dict(self, st, items, open_=None):
        loc = self.newloc()
        st.heap[loc] = DictCell(dict(items), open_)
        return Ref(loc)

    def unsupported(self, what, nd=None):
        self.unknown[what] = self.where(nd)

    def where(self, nd):
        f = self.callstack[-1][0] if self.callstack else None
        mod = f.mod.name if f else "?"
        return "%s:%s" % (mod.replace(".", "/") + ".py", getattr(nd, "lineno", "?"))

    def event(self, kind, st, nd, **kw):
        e = Event(kind, segs=tuple(self.segs) + (("here", st.pc),), loops=tuple(l.id for l in self.loopstack),
                  chain=tuple(f.qual for f, _ in self.callstack), where=self.where(nd), node=nd, assume=st.assume, **kw)
        self.events.append(e)
        return e

    def full_pc(self, e, from_loop=None):
        """guard of the event relative to the body of loop `from_loop` (innermost loop if None given and in a loop)"""
        cs = []
        on = from_loop is None
        for kind, pc in e.segs:
            if isinstance(kind, tuple) and kind[0] == "loop":
                cs.append(pc) if on else None
                if from_loop is not None and kind[1] == from_loop:
                    on = True
                    cs = []
                continue
            if on:
                cs.append(pc)
        return and_(*cs)

    def T(self, v, st):
        """current term of a value"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Data):
            if v.view is not None:
                return self.lib.view_read(self.T(v.view[0], st), v.view[1])
            return st.mut.get(v.loc, v.term)
        if isinstance(v, Tup):
            return node("tuple", *[self.T(x, st) for x in v.items])
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ListCell):
                return node("list", *[self.T(x, st) for x in c.items]) if c.items is not None else c.term
            if isinstance(c, DictCell):
                its = tuple((k, self.T(x, st)) for k, x in c.items.items())
                return node("dict", its, c.open if c.open is not None else NONE)
            if isinstance(c, ObjCell):
                return node("obj", c.cls.name if c.cls else "?", v.loc)
            return node("obj", "?", v.loc)
        if isinstance(v, Fn):
            if isinstance(v.node, ast.Lambda) or (v.env is not None and v.env is not v.mod.env and v.self_ is None):
                return self.fn_term(v, st)
            return node("fn", v.qual, v.self_.loc if isinstance(v.self_, Ref) else None)
        if isinstance(v, LibFn):
            if v.recv is not None:
                return node("boundm", self.T(v.recv, st), v.name)
            return node("fn", v.name, None)
        if isinstance(v, Partial):
            return node("partial", self.T(v.fn, st), *[self.T(a, st) for a in v.args])
        if isinstance(v, Cls):
            return node("fn", v.name, None)
        if isinstance(v, Choice):
            return ite(v.c, self.T(v.a, st), self.T(v.b, st))
        if isinstance(v, Seq):
            if v.items is not None:
                return node("list", *[self.T(x, st) for x in v.items])
            if v.term is not None:
                return v.term
            k = node("idx", "seq%d" % self.newloc())
            return self.lib.mk_map(v.n, tm.close(k, self.T(v.item(k, st), st)))
        if v is UNBOUND:
            return node("unbound")
        if isinstance(v, Super):
            return node("super")
        raise AnalysisError("no term for %r" % (v,))

    def fn_term(self, v, st):
        try:
            a = v.node.args
            k = [sym("arg%d:%s" % (i, self.newloc())) for i, _ in enumerate(a.args)]
            n0 = len(self.events)
            r = self.T(self.call(v, [Data(x) for x in k], {}, st.copy(), v.node), st)
            del self.events[n0:]
            for x in reversed(k):
                r = tm.close(x, r)
            return node("lambda", len(k), r)
        except AnalysisError:
            return node("opaque", "lambda", v.qual)

    # -------------------------------------------------- merging
    def merge_val(self, c, a, b, sa, sb, out):
        if a is b:
            return a
        if isinstance(a, Data) and isinstance(b, Data):
            if a.loc == b.loc and a.loc is not None:
                return a
            ta, tb = self.T(a, sa), self.T(b, sb)
            if ta is tb and ta.head in ("const", "poly"):
                return Data(ta)
            loc = self.newloc()
            return Data(ite(c, ta, tb), loc, frozenset([loc]) | a.al | b.al)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.loc == b.loc:
                return a
            ca, cb = sa.heap.get(a.loc), sb.heap.get(b.loc)
            if isinstance(ca, ObjCell) and isinstance(cb, ObjCell) and ca.cls is cb.cls:
                f = {k: self.merge_val(c, ca.fields.get(k, UNBOUND), cb.fields.get(k, UNBOUND), sa, sb, out)
                     for k in {**ca.fields, **cb.fields}}
                return self.new_obj(out, ca.cls, f)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                if ca.items is not None and cb.items is not None and len(ca.items) == len(cb.items):
                    return self.new_list(out, [self.merge_val(c, x, y, sa, sb, out) for x, y in zip(ca.items, cb.items)])
                return self.new_list(out, term=ite(c, self.T(a, sa), self.T(b, sb)))
        if isinstance(a, LibFn) and isinstance(b, LibFn) and a.name == b.name and a.recv is None and b.recv is None:
            return a
        if isinstance(a, (Fn,)) and isinstance(b, Fn) and a.node is b.node and a.self_ is b.self_:
            return a
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Data(ite(c, self.T(a, sa), self.T(b, sb)))
        return Choice(c, a, b)

    def merge_cell(self, c, x, y, sa, sb, out):
        if x is y:
            return x
        if x is None or y is None:
            return x or y
        if isinstance(x, ObjCell) and isinstance(y, ObjCell) and x.cls is y.cls:
            f = {}
            for k in {**x.fields, **y.fields}:
                f[k] = self.merge_val(c, x.fields.get(k, UNBOUND), y.fields.get(k, UNBOUND), sa, sb, out)
            return ObjCell(x.cls, f)
        if isinstance(x, ListCell) and isinstance(y, ListCell):
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return ListCell(tuple(self.merge_val(c, p, q, sa, sb, out) for p, q in zip(x.items, y.items)))
            tx = node("list", *[self.T(i, sa) for i in x.items]) if x.items is not None else x.term
            ty = node("list", *[self.T(i, sb) for i in y.items]) if y.items is not None else y.term
            return ListCell(None, self.lib.join_store(c, tx, ty))
        if isinstance(x, DictCell) and isinstance(y, DictCell):
            f = {}
            for k in {**x.items, **y.items}:
                f[k] = self.merge_val(c, x.items.get(k, UNBOUND), y.items.get(k, UNBOUND), sa, sb, out)
            return DictCell(f, x.open or y.open)
        return x

    def merge(self, c, a, b):
        """state in which branch a is taken iff c"""
        if a is None:
            return b
        if b is None:
            return a
        out = State({}, {}, {}, or_(a.pc, b.pc), or_(a.assume, b.assume) if a.assume is not b.assume else a.assume)
        for l in {**a.heap, **b.heap}:
            out.heap[l] = self.merge_cell(c, a.heap.get(l), b.heap.get(l), a, b, out)
        for k in {**a.env, **b.env}:
            out.env[k] = self.merge_val(c, a.env.get(k, UNBOUND), b.env.get(k, UNBOUND), a, b, out)
        for l in {**a.mut, **b.mut}:
            ta, tb = a.mut.get(l), b.mut.get(l)
            if ta is None or tb is None:
                base = self._base_terms.get(l)
                ta = ta if ta is not None else base
                tb = tb if tb is not None else base
            out.mut[l] = ta if ta is tb else (self.lib.join_store(c, ta, tb) if ta is not None and tb is not None else (ta or tb))
        return out


    # -------------------------------------------------- statements
    def block(self, stmts, st, fr):
        outs = []
        cur = st
        for s in stmts:
            res = self.stmt(s, cur, fr)
            cur = None
            for o in res:
                if o.kind == "normal":
                    cur = o.st
                else:
                    outs.append(o)
            if cur is None:
                return outs
        outs.append(Outcome("normal", cur))
        return outs

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement " + type(s).__name__, s)
            return [Outcome("normal", st)]
        r = m(s, st, fr)
        return r if r is not None else [Outcome("normal", st)]

    def s_Pass(self, s, st, fr):
        pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        rhs = self.ev(s.value, st, fr)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            old = self.getattr_(base, t.attr, st, t)
        else:
            base = self.ev(t.value, st, fr)
            idx = self.index(t.slice, st, fr)
            old = self.lib.getitem(self, st, base, idx, t)
        if isinstance(old, Ref) and isinstance(st.heap.get(old.loc), ListCell) and isinstance(s.op, ast.Add):
            self.lib.list_extend(self, st, old, rhs, s)
            return
        new = self.binop(s.op, old, rhs, st, s)
        inplace = isinstance(old, Data) and not tm.is_scalar(self.T(old, st)) and old.loc is not None \
            and self.T(old, st).head not in ("const", "fstr", "tuple", "list")
        if inplace and not isinstance(t, ast.Subscript):
            nt = self.T(new, st)
            self.event("store", st, s, target=old, idx=None, val=nt, aug=True, al=old.al)
            self.set_mut(st, old, nt)
            new = old
            if isinstance(t, ast.Name):
                st.env[t.id] = old
            return
        if isinstance(t, ast.Name):
            self.assign(t, new, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, t.attr, new, st, s)
        else:
            self.lib.setitem(self, st, base, idx, new, s)

    def set_mut(self, st, d, term):
        if d.view is not None:
            base, idx = d.view
            bt = self.lib.view_write(self.T(base, st), idx, term)
            self.set_mut(st, base, bt)
            return
        for loc in d.al:
            if loc != d.loc and loc in self._terms:     # shares memory with another array in a way that is not followed
                self._base_terms.setdefault(loc, self._terms[loc])
                st.mut[loc] = node("opaque", "written through another name")
        self._base_terms.setdefault(d.loc, d.term)
        st.mut[d.loc] = term

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            mod, fn, scope = fr
            if scope is not None and t.id in scope.get("global", ()):
                self.event("globalwrite", st, t, name=t.id, mod=mod.name)
                mod.env[t.id] = v
                return
            if scope is not None and t.id in scope.get("nonlocal", ()):
                fn.env[t.id] = v
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, t)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                self.unsupported("starred assignment", t)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st, fr), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            self.lib.setitem(self, st, base, self.index(t.slice, st, fr), v, t)
        else:
            self.unsupported("assignment target", t)

    def record_items(self, v, st):
        """the fields of a named tuple, in order"""
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ObjCell) and c.cls is not None and "$tuple" in c.cls.attrs:
                return Tup([c.fields.get(n, Data(NONE)) for n, _ in c.cls.attrs["$dataclass"]])
        return v

    def unpack(self, v, n, st, nd):
        v = self.record_items(v, st)
        if isinstance(v, Tup):
            return list(v.items) + [Data(node("opaque", "unpack"))] * (n - len(v.items))
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ListCell) and c.items is not None:
                return list(c.items)
        if isinstance(v, Seq) and v.items is not None:
            return list(v.items)
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n, st, nd), self.unpack(v.b, n, st, nd)
            return [self.merge_val(v.c, x, y, st, st, st) for x, y in zip(a, b)]
        t = self.T(v, st)
        al = v.al if isinstance(v, Data) else frozenset()
        return [self.data(self.lib.mk_getitem(t, num(i)), al) for i in range(n)]

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fr)
                if isinstance(base, Ref) and isinstance(st.heap.get(base.loc), ObjCell):
                    c = st.heap[base.loc]
                    f = dict(c.fields)
                    f.pop(t.attr, None)
                    st.heap[base.loc] = ObjCell(c.cls, f)
            else:
                base = self.ev(t.value, st, fr)
                self.event("store", st, s, target=base, idx=None, val=None, aug=False,
                           al=self.aliases(base, st))

    def s_Global(self, s, st, fr):
        if fr[2] is not None:
            fr[2].setdefault("global", set()).update(s.names)

    def s_Nonlocal(self, s, st, fr):
        if fr[2] is not None:
            fr[2].setdefault("nonlocal", set()).update(s.names)

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.module_value(a.name)
            else:
                st.env[a.name.split(".")[0]] = self.module_value(a.name.split(".")[0])

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            base = fr[0].name.split(".")
            if not fr[0].path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == "*":
                if mod in self.modules:
                    self.init_module(mod)
                    st.env.update({k: v for k, v in self.modules[mod].env.items() if not k.startswith("_")})
                continue
            st.env[a.asname or a.name] = self.import_from(mod, a.name)

    def module_value(self, name):
        if name in self.modules:
            self.init_module(name)
        return LibFn(name)

    def import_from(self, mod, name):
        if mod + "." + name in self.modules:
            return self.module_value(mod + "." + name)
        if mod in self.modules:
            self.init_module(mod)
            v = self.modules[mod].env.get(name)
            if v is None:
                raise AnalysisError("cannot import %s from %s" % (name, mod))
            return v
        return self.lib.lib_value(mod + "." + name)

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.decorated(self.make_fn(s, st, fr), s, st, fr)

    PLAIN_DECOR = {"property", "staticmethod", "classmethod", "contextmanager", "lru_cache", "cache", "cached_property", "abstractmethod", "wraps", "setter",
                   "getter", "deleter", "override", "overload", "final", "njit", "jit"}

    def decorated(self, f, s, st, fr):
        """decorators defined in the package are applied"""
        v = f
        for d in reversed(getattr(s, "decorator_list", [])):
            base = d.func if isinstance(d, ast.Call) else d
            nm = base.attr if isinstance(base, ast.Attribute) else base.id if isinstance(base, ast.Name) else ""
            if nm in self.PLAIN_DECOR:
                continue
            dv = self.ev(d, st, fr)
            if isinstance(dv, (Fn, Partial)) or isinstance(dv, Cls):
                v = self.call(dv, [v], {}, st, d)
            else:
                self.unsupported("decorator " + ast.unparse(d), d)
        return v

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, fr, cls=None):
        mod = fr[0]
        prefix = cls + "." if cls else (fr[1].qual + ".<locals>." if fr[1] is not None else "")
        qual = (mod.name.replace(self.package + ".", "") + "." + prefix if fr[1] is None else prefix) + getattr(s, "name", "<lambda>")
        defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, st, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if fr[1] is None:
            for d in list(defaults) + list(kwd.values()):
                if isinstance(d, Ref):
                    self.mark_shared(d, st, "default argument of " + qual)
                elif isinstance(d, Data) and d.loc is not None:
                    self.roots.setdefault(d.loc, "shared:default argument of " + qual)
        decor = []
        for d in getattr(s, "decorator_list", []):
            decor.append(ast.unparse(d))
        env = st.env if fr[1] is not None or fr[2] is not None else mod.env
        return Fn(s, mod, env, qual, defaults=defaults, kwdefaults=kwd, decor=tuple(decor))

    def mark_shared(self, v, st, desc):
        if isinstance(v, Ref) and v.loc not in self.roots:
            self.roots[v.loc] = "shared:" + desc
            c = st.heap.get(v.loc)
            if isinstance(c, ObjCell):
                for x in c.fields.values():
                    self.mark_shared(x, st, desc)
            elif isinstance(c, ListCell) and c.items:
                for x in c.items:
                    self.mark_shared(x, st, desc)

    def s_ClassDef(self, s, st, fr):
        bases = [self.ev(b, st, fr) for b in s.bases]
        cls = Cls(s.name, fr[0], s, bases, {})
        cst = State(dict(st.env), st.heap, st.mut)
        before = dict(cst.env)
        dataclass_fields = []
        isdc = any("dataclass" in ast.unparse(d) for d in s.decorator_list)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_fn(b, cst, (fr[0], None, None), cls=s.name)
                f.cls = cls
                if fr[1] is not None:
                    f.env = st.env
                if any(d.endswith(".setter") for d in f.decor):
                    cls.attrs["$set:" + b.name] = f
                else:
                    f = self.decorated(f, b, cst, (fr[0], None, None))
                    if isinstance(f, Fn) and f.cls is None:
                        f.cls = cls
                    cls.attrs[b.name] = f
                cst.env[b.name] = f
            elif isinstance(b, ast.AnnAssign) and isdc and isinstance(b.target, ast.Name):
                dataclass_fields.append((b.target.id, b.value))
            else:
                for o in self.stmt(b, cst, fr):
                    if o.kind == "normal":
                        cst = o.st
        for k, v in cst.env.items():
            if k not in cls.attrs and before.get(k) is not v:
                cls.attrs[k] = v
                self.mark_shared(v, cst, "class attribute %s.%s" % (s.name, k))
                if isinstance(v, Data) and v.loc is not None:
                    self.roots.setdefault(v.loc, "shared:class attribute %s.%s" % (s.name, k))
        if any(isinstance(b, LibFn) and b.name.endswith("NamedTuple") for b in bases):
            isdc = True
            dataclass_fields = [(b.target.id, b.value) for b in s.body if isinstance(b, ast.AnnAssign)]
            cls.attrs["$tuple"] = True
        if any(isinstance(b, Cls) and "$tuple" in b.attrs for b in bases) and not isdc:
            for b in bases:
                if isinstance(b, Cls) and "$tuple" in b.attrs:
                    for k in ("$tuple", "$dataclass", "$frame"):
                        cls.attrs[k] = b.attrs[k]
        if isdc:
            cls.attrs["$dataclass"] = dataclass_fields
            cls.attrs["$frame"] = fr
        st.heap, st.mut = cst.heap, cst.mut
        st.env[s.name] = cls

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else Data(NONE)
        return [Outcome("return", st, v)]

    def s_Raise(self, s, st, fr):
        name = "reraise"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a, st, fr)
                e = e.func
            name = ast.unparse(e)
        self.event("raise", st, s, exc=name, names=self.exc_names(s.exc, name, st, fr), caught=False)
        return [Outcome("raise", st, name)]

    def exc_names(self, e, name, st, fr):
        """the builtin exception classes a raise statement stands for (empty: unknown)"""
        if e is None:
            return ()
        f = e.func if isinstance(e, ast.Call) else e
        try:
            v = self.ev(f, st, fr)
        except AnalysisError:
            return ()
        out = []
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Cls):
                todo += list(x.bases)
            elif isinstance(x, LibFn):
                out.append(x.name.split(".")[-1])
            elif isinstance(x, Data):
                for t in tm.subterms(x.term):
                    for a in t.args:
                        if isinstance(a, str) and (a.endswith("Error") or a.endswith("Exception")):
                            out.append(a.split(".")[-1])
            elif isinstance(x, Fn) and not isinstance(x.node, ast.Lambda):
                for n in ast.walk(x.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                        out.append(ast.unparse(n.value.func))
        return tuple(out)

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        if c is not TRUE:
            st2 = st.copy()
            st2.pc = and_(st.pc, not_(c))
            self.event("raise", st2, s, exc="AssertionError", names=("AssertionError",), caught=False)
            if c is FALSE:
                return [Outcome("raise", st2, "AssertionError")]
            st.assume = and_(st.assume, c)
        return [Outcome("normal", st)]

    def decide(self, c, st):
        """use the assumptions of the state (validations passed so far, enclosing branches) to settle a condition"""
        if c in (TRUE, FALSE):
            return c
        ctx = and_(st.assume, st.pc)
        if ctx is TRUE:
            return c
        conj = ctx.args if ctx.head == "and" else (ctx,)
        if c in conj:
            return TRUE
        if not_(c) in conj:
            return FALSE
        at = set(tm.cond_atoms(c))
        rel = [x for x in conj if at & set(tm.cond_atoms(x)) or self._related(x, at)]
        if rel and len(rel) <= 6:
            a = and_(*rel)
            try:
                if tm.compare(c, TRUE, a, budget=[200]).eq:
                    return TRUE
                if tm.compare(c, FALSE, a, budget=[200]).eq:
                    return FALSE
            except tm.Blowup:
                pass
        return c

    def _related(self, x, at):
        for a in tm.cond_atoms(x):
            for b in at:
                if a.head in ("eqc", "isnone") and b.head in ("eqc", "isnone") and a.args[0] is b.args[0]:
                    return True
                if a.head == "cmp" and b.head == "cmp" and a.args[1].head != "pair" and b.args[1].head != "pair":
                    la, lb = tm._linform(a.args[1]), tm._linform(b.args[1])
                    if la and lb and la[0] is lb[0]:
                        return True
        return False

    def s_If(self, s, st, fr):
        c = self.decide(self.truth(self.ev(s.test, st, fr), st), st)
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr) if s.orelse else [Outcome("normal", st)]
        return self.branch(c, st, lambda a: self.block(s.body, a, fr),
                           lambda b: self.block(s.orelse, b, fr) if s.orelse else [Outcome("normal", b)])

    def branch(self, c, st, fa, fb):
        a, b = st.copy(), st.copy()
        a.pc, b.pc = and_(st.pc, c), and_(st.pc, not_(c))
        oa, ob = fa(a), fb(b)
        outs = [o for o in oa + ob if o.kind != "normal"]
        na = next((o.st for o in oa if o.kind == "normal"), None)
        nb = next((o.st for o in ob if o.kind == "normal"), None)
        abrupt = [o for o in outs if o.kind != "raise"]
        if na is not None and nb is not None:
            mst = self.merge(c, na, nb)
            if not abrupt:
                mst.pc = st.pc
            return outs + [Outcome("normal", mst)]
        if na is not None or nb is not None:
            n = na if na is not None else nb
            cc = c if na is not None else not_(c)
            if not abrupt:      # the other branch only raises: not a gate of what follows
                n.pc = st.pc
                n.assume = and_(n.assume, or_(not_(st.pc), cc)) if st.pc is not TRUE else and_(n.assume, cc)
            return outs + [Outcome("normal", n)]
        return outs

    def s_With(self, s, st, fr):
        entered = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.event("with", st, s, target=v, term=self.T(v, st))
            entered.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        outs = self.block(s.body, st, fr)
        for o in outs:
            self.event("endwith", o.st, s, n=len(entered), how=o.kind)
        return outs

    def missing_attr(self, s, st, fr):
        """try: one attribute read, except AttributeError: the exact condition of the handler, or None"""
        if len(s.body) != 1 or not isinstance(s.body[0], (ast.Assign, ast.Return, ast.Expr)) or len(s.handlers) != 1:
            return None
        h = s.handlers[0]
        if h.type is None or ast.unparse(h.type) != "AttributeError" or s.body[0].value is None:
            return None
        called = {id(x.func) for x in ast.walk(s.body[0]) if isinstance(x, ast.Call)}
        conds = []
        for v in ast.walk(s.body[0].value):
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and id(v) not in called:
                b, nm = self.ev(v.value, st.copy(), fr), Data(const(v.attr))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and len(v.args) == 2 and isinstance(v.args[0], ast.Name):
                b, nm = self.ev(v.args[0], st.copy(), fr), self.ev(v.args[1], st.copy(), fr)
            else:
                continue
            c = self.decide(not_(self.truth(self.call(LibFn("builtins.hasattr"), [b, nm], {}, st.copy(), v), st)), st)
            if c is not FALSE:
                conds.append(c)
        return conds[0] if len(conds) == 1 else None

    def s_Try(self, s, st, fr):
        gone = self.missing_attr(s, st, fr)
        if gone is not None:
            gone = self.decide(gone, st)
            h = s.handlers[0]
            if gone in (TRUE, FALSE):
                outs = self.block(h.body if gone is TRUE else s.body + s.orelse, st, fr)
            else:
                outs = self.branch(gone, st, lambda x: self.block(h.body, x, fr), lambda x: self.block(s.body + s.orelse, x, fr))
            if not s.finalbody:
                return outs
            return [Outcome(o.kind, f.st, o.val) if f.kind == "normal" else f for o in outs for f in self.block(s.finalbody, o.st, fr)]
        pre = st.copy()
        n0 = len(self.events)
        outs = self.block(s.body, st, fr)
        raises = [e for e in self.events[n0:] if e.kind == "raise"]
        res = []
        normal = None
        for e in raises:
            for h in s.handlers:
                hn = ast.unparse(h.type) if h.type is not None else "Exception"
                if "Exception" in hn or any(x in hn for x in e.names or (e.exc,)):
                    e.caught = True
        for o in outs:
            if o.kind == "normal":
                normal = o.st
            elif o.kind == "raise" and s.handlers:
                pass
            else:
                res.append(o)
        if normal is not None and s.orelse:
            for o in self.block(s.orelse, normal, fr):
                if o.kind == "normal":
                    normal = o.st
                else:
                    res.append(o)
                    normal = None
        for h in s.handlers:
            exc = node("bool", node("exc", ast.unparse(h.type) if h.type else "*", self.where(s) + ":%d" % s.handlers.index(h)))
            hs = pre.copy()
            hs.pc = and_(pre.pc, exc)
            if h.name:
                hs.env[h.name] = Data(node("exc", "value"))
            self.event("handler", hs, h, exc=ast.unparse(h.type) if h.type else "*", raises=len(raises))
            for o in self.block(h.body, hs, fr):
                if o.kind == "normal":
                    normal = self.merge(exc, o.st, normal) if normal is not None else o.st
                    normal.pc = pre.pc
                else:
                    res.append(o)
        if normal is not None:
            res.append(Outcome("normal", normal))
        if s.finalbody:
            out = []
            for o in res:
                for f in self.block(s.finalbody, o.st, fr):
                    if f.kind == "normal":
                        out.append(Outcome(o.kind, f.st, o.val))
                    else:
                        out.append(f)
            res = out
        return res

    def s_Break(self, s, st, fr):
        return [Outcome("break", st)]

    def s_Continue(self, s, st, fr):
        return [Outcome("continue", st)]

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)

        def rest(cases, cur):
            if not cases:
                return [Outcome("normal", cur)]
            c0 = cases[0]
            c = self.pattern(c0.pattern, subj, cur, fr)
            if c0.guard is not None:
                c = and_(c, self.truth(self.ev(c0.guard, cur, fr), cur))
            c = self.decide(c, cur)
            if c is TRUE:
                return self.block(c0.body, cur, fr)
            if c is FALSE:
                return rest(cases[1:], cur)
            return self.branch(c, cur, lambda a: self.block(c0.body, a, fr), lambda b: rest(cases[1:], b))
        return rest(s.cases, st)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.lib.compare(self, st, ast.Eq(), subj, self.ev(p.value, st, fr), p)
        if isinstance(p, ast.MatchSingleton):
            return self.lib.compare(self, st, ast.Is(), subj, Data(const(p.value)), p)
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(x, subj, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self.pattern(p.pattern, subj, st, fr) if p.pattern is not None else TRUE
            if p.name:
                st.env[p.name] = subj
            return c
        self.unsupported("match pattern", p)
        return node("bool", node("opaque", "pattern", self.where(p)))

    # -------------------------------------------------- loops
    def loop_id(self, s):
        return "%s:%s:%s%s" % ("/".join(f.qual for f, _ in self.callstack[-3:]), s.lineno, s.col_offset,
                               "".join("#%s" % u for u in self.unroll))

    def s_While(self, s, st, fr):
        if isinstance(s.test, ast.Compare):
            r = self.unrolled_while(s, st, fr)
            if r is not None:
                return r
        return self.loop(s, st, fr, None)

    def counts(self, s, st, fr):
        """value of the test when it compares known numbers"""
        if any(isinstance(x, (ast.Call, ast.NamedExpr)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(s.test)):
            return None
        n0 = len(self.events)
        c = self.truth(self.ev(s.test, st.copy(), fr), st)
        del self.events[n0:]
        return True if c is TRUE else False if c is FALSE else None

    def unrolled_while(self, s, st, fr):
        """a loop whose test is known at every iteration"""
        if self.counts(s, st, fr) is None or len(s.test.ops) != 1:
            return None
        n0 = len(self.events)
        ends = [self.T(self.ev(x, st.copy(), fr), st) for x in (s.test.left, s.test.comparators[0])]
        del self.events[n0:]
        if not all(tm.is_num(x) for x in ends) or abs(tm.num_val(ends[0]) - tm.num_val(ends[1])) > 16:
            return None
        n0, cur, outs, brk = len(self.events), st.copy(), [], []
        depth = len(self.unroll)

        def undo():
            del self.events[n0:]
            del self.unroll[depth:]
        for i in range(66):
            if cur is None:
                break
            v = self.counts(s, cur, fr)
            if v is None or i == 65:
                undo()
                return None
            if not v:
                break
            self.unroll.append(i)
            pc0 = cur.pc
            res = self.block(s.body, cur, fr)
            if i > 3 and any(o.kind in ("break",) for o in res):
                undo()
                return None
            abrupt = [o for o in res if o.kind in ("break", "return")]
            brk += [o for o in res if o.kind == "break"]
            outs += [o for o in res if o.kind in ("return", "raise")]
            cur = self.join([o for o in res if o.kind in ("normal", "continue")], pc0 if not abrupt else None)
            self.unroll.pop()
        if cur is not None and s.orelse:
            res = self.block(s.orelse, cur, fr)
            outs += [o for o in res if o.kind != "normal"]
            cur = self.join([o for o in res if o.kind == "normal"], cur.pc)
        j = self.join(brk + ([Outcome("normal", cur)] if cur is not None else []), None)
        if j is not None:
            outs.append(Outcome("normal", j))
        return outs

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        seq = self.lib.as_seq(self, st, it, s.iter)
        if seq.items is not None and len(seq.items) <= 64:
            return self.unrolled(s, st, fr, seq.items)
        return self.loop(s, st, fr, seq)

    def unrolled(self, s, st, fr, items):
        outs = []
        brk = []
        cur = st
        for i, v in enumerate(items):
            if cur is None:
                break
            self.unroll.append(i)
            self.assign(s.target, v, cur, fr)
            pc0 = cur.pc
            nxt = None
            res = self.block(s.body, cur, fr)
            conts = [o for o in res if o.kind in ("normal", "continue")]
            abrupt = [o for o in res if o.kind in ("break", "return")]
            for o in res:
                if o.kind == "break":
                    brk.append(o)
                elif o.kind in ("return", "raise"):
                    outs.append(o)
            nxt = self.join(conts, pc0 if not abrupt else None)
            cur = nxt
            self.unroll.pop()
        if cur is not None and s.orelse:
            for o in self.block(s.orelse, cur, fr):
                if o.kind == "normal":
                    cur = o.st
                else:
                    outs.append(o)
                    cur = None
        final = ([Outcome("normal", cur)] if cur is not None else []) + brk
        j = self.join(brk + ([Outcome("normal", cur)] if cur is not None else []), None)
        if j is not None:
            outs.append(Outcome("normal", j))
        return outs

    def join(self, outs, pc):
        """merge the states of outcomes that all continue at the same point"""
        cur = None
        for o in reversed(outs):
            cur = o.st if cur is None else self.merge(o.st.pc, o.st, cur)
        if cur is not None and pc is not None:
            cur.pc = pc
        return cur

    def snapshot(self, st):
        """all locations of the state, as key -> (value, term)"""
        d = {}
        for k, v in st.env.items():
            d[("var", k)] = v
        for l, c in st.heap.items():
            if isinstance(c, ObjCell):
                for f, v in c.fields.items():
                    d[("field", l, f)] = v
            elif isinstance(c, (ListCell, DictCell)):
                d[("cell", l)] = Ref(l)
        for l, t in st.mut.items():
            d[("mut", l)] = t
        return d

    def keyname(self, key):
        if key[0] == "var":
            return key[1]
        if key[0] == "field":
            return "self.%s" % key[2] if False else "%d.%s" % (key[1], key[2])
        return "%s%s" % (key[0], key[1])

    def generalise(self, lp, key, v, st, name=None):
        """header value for a loop-carried location holding v on entry"""
        name = name or self.keyname(key)
        if isinstance(v, Tup):
            return Tup([self.generalise(lp, key, x, st, name + ".%d" % i) for i, x in enumerate(v.items)])
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ObjCell):
                f = {k: self.generalise(lp, key, x, st, name + "." + k) for k, x in c.fields.items()}
                return self.new_obj(st, c.cls, f)
            if isinstance(c, ListCell):
                m = self.mu(lp, name, self.T(v, st))
                return self.new_list(st, term=m)
            if isinstance(c, DictCell):
                f = {k: self.generalise(lp, key, x, st, name + "." + str(k)) for k, x in c.items.items()}
                return self.new_dict(st, f, c.open)
        if v is UNBOUND:
            m = self.mu(lp, name, node("unbound"))
            return Choice(node("bool", node("unboundmu", m)), UNBOUND, Data(m, self.newloc()))
        if isinstance(v, Data):
            t = self.T(v, st)
            m = self.mu(lp, name, t)
            loc = self.newloc()
            return Data(m, loc, frozenset([loc]) | v.al)
        if isinstance(v, Choice):
            m = self.mu(lp, name, self.T(v, st))
            return Data(m, self.newloc())
        m = self.mu(lp, name, self.T(v, st))
        return Data(m, self.newloc())

    MU_PROPS = (("scalar", tm.is_scalar), ("integer", tm.is_int), ("real", tm.is_real), ("pos", tm.is_pos), ("nonneg", tm.is_nonneg))

    def mu(self, lp, name, entry):
        """header atom; properties of the entry value are assumed here and verified on the back edge (coinduction)"""
        pr = {}
        if entry.head not in ("unbound", "opaque", "list", "map", "append", "listcat", "tuple", "dict"):
            for p, f in self.MU_PROPS:
                if (name, p) not in lp.dropped and f(entry):
                    pr[p] = True
            if "scalar" not in pr and not tm.is_scalar(entry):
                d = self.lib.ndim_of(entry)
                if d is not None and (name, "ndim") not in lp.dropped:
                    pr["ndim"] = d
                    if d == 1:
                        pr["vec"] = True
                    if d >= 1:
                        n = self.lib.mk_len(entry)
                        if n.head != "len" and (name, "len") not in lp.dropped:
                            pr["len"] = n
            if (name, "dtype") not in lp.dropped and not tm.is_scalar(entry) and self.lib.dtype_of(entry) in (const("int"), const("float")):
                pr["dtype"] = self.lib.dtype_of(entry)
        m = node("mu", lp.id, name, self.newloc())
        if pr:
            m.props = pr
        lp.mus[name] = m
        lp.entry[name] = entry
        return m

    def relate_lengths(self, lp):
        """assume len(list) = counter for a list and a counter that start that way (verified by check_mu_props)"""
        for name, m in lp.mus.items():
            e = lp.entry[name]
            if e.head not in ("list", "map", "append") or m.props:
                continue
            n = self.lib.mk_len(e)
            for v, mv in lp.mus.items():
                if mv.props and mv.props.get("integer") and (name, v) not in lp.dropped:
                    try:
                        off = tm.sub(n, lp.entry[v])
                    except tm.Blowup:
                        continue
                    if tm.is_num(off):
                        m.props = {"len": tm.add(mv, off), "lenof": (v, off)}
                        break

    def check_mu_props(self, lp):
        """drop the assumed properties that the back-edge value does not have"""
        bad = False
        for name, m in lp.mus.items():
            b = lp.back.get(name)
            if not m.props or b is None:
                continue
            for p, f in self.MU_PROPS:
                if m.props.get(p) and not (guarded_pos(b) if p == "pos" else f(b)) and not (p == "pos" and name in self.assume_pos):
                    lp.dropped.add((name, p))
                    bad = True
            if "ndim" in m.props and self.lib.ndim_of(b) != m.props["ndim"]:
                lp.dropped.add((name, "ndim"))
                bad = True
            if "dtype" in m.props and self.lib.dtype_of(b) is not m.props["dtype"]:
                lp.dropped.add((name, "dtype"))
                bad = True
            if "lenof" in m.props:
                v, off = m.props["lenof"]
                if self.lib.mk_len(b) is not tm.add(lp.back.get(v, lp.mus[v]), off):
                    lp.dropped.add((name, v))
                    bad = True
                continue
            if "len" in m.props and self.lib.mk_len(b) is not m.props["len"]:
                lp.dropped.add((name, "len"))
                bad = True
        return bad

    def flatten(self, v, st, name, out):
        if isinstance(v, Tup):
            for i, x in enumerate(v.items):
                self.flatten(x, st, name + ".%d" % i, out)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.loc), ObjCell):
            for k, x in st.heap[v.loc].fields.items():
                self.flatten(x, st, name + "." + k, out)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.loc), DictCell):
            for k, x in st.heap[v.loc].items.items():
                self.flatten(x, st, name + "." + str(k), out)
        elif isinstance(v, Choice) and isinstance(v.a, (Ref, Choice, Tup)) and isinstance(v.b, (Ref, Choice, Tup)):
            # two records of the same shape: gate them field by field
            da, db = self.flatten(v.a, st, name, {}), self.flatten(v.b, st, name, {})
            if sorted(da) == sorted(db) and name not in da:
                for k in da:
                    out[k] = ite(v.c, da[k], db[k])
            else:
                out[name] = self.T(v, st)
        else:
            out[name] = self.T(v, st)
        return out

    def loop(self, s, st, fr, seq):
        lid = self.loop_id(s)
        carried = []          # keys
        passes = 0
        entry_snap = self.snapshot(st)
        n0 = len(self.events)
        shapes = {}           # key -> header value shape forced to plain data
        dropped = set()
        while True:
            passes += 1
            if passes > 25:
                raise AnalysisError("loop fixpoint does not stabilise at %s" % self.where(s))
            del self.events[n0:]
            lp = Loop(lid)
            lp.dropped = dropped
            lp.where = self.where(s)
            lp.node = s
            lp.fn = self.callstack[-1][0].qual if self.callstack else "?"
            lp.parent = self.loopstack[-1].id if self.loopstack else None
            lp.keys = {}
            h = st.copy()
            h.pc = TRUE
            for key in carried:
                ev = entry_snap.get(key, UNBOUND)
                nm = self.keyname(key)
                lp.keys[nm] = key
                if key[0] == "var":
                    h.env[key[1]] = self.generalise(lp, key, ev, h) if key not in shapes else \
                        Data(self.mu(lp, nm, self.T(ev, h)), self.newloc())
                elif key[0] == "field":
                    c = h.heap[key[1]]
                    f = dict(c.fields)
                    f[key[2]] = self.generalise(lp, key, ev, h) if key not in shapes else \
                        Data(self.mu(lp, nm, self.T(ev, h)), self.newloc())
                    h.heap[key[1]] = ObjCell(c.cls, f)
                elif key[0] == "cell":
                    c = h.heap[key[1]]
                    if isinstance(c, ListCell):
                        h.heap[key[1]] = ListCell(None, self.mu(lp, nm, self.T(Ref(key[1]), st)))
                    else:
                        f = {}
                        for k, x in c.items.items():
                            f[k] = Data(self.mu(lp, nm + "." + str(k), self.T(x, st)), self.newloc())
                        h.heap[key[1]] = DictCell(f, node("opaque", "dict", lid))
                elif key[0] == "mut":
                    base = self._base_terms.get(key[1])
                    e = ev if isinstance(ev, Term) else base
                    h.mut[key[1]] = self.mu(lp, nm, e if e is not None else node("opaque", "array"))
            self.relate_lengths(lp)
            head_snap = self.snapshot(h)
            self.loopstack.append(lp)
            self.segs.append(("call", st.pc))
            self.segs.append((("loop", lid), TRUE))
            body = h.copy()
            n_in = len(self.events)
            exits = []
            if seq is None:
                c = self.truth(self.ev(s.test, body, fr), body)
                lp.cond = c
                exit_st = body.copy()
                body.pc = TRUE
                body.assume = and_(body.assume, c)
            else:
                k = node("idx", lid)
                lp.idx, lp.n = k, seq.n
                exit_st = body.copy()
                if seq.n is not None:
                    body.assume = and_(body.assume, cmp_("<", k, seq.n))
                self.assign(s.target, seq.item(k, body), body, fr)
            res = self.block(s.body, body, fr)
            lp.events = (n_in, len(self.events))
            self.segs.pop()
            self.segs.pop()
            self.loopstack.pop()
            conts = [o for o in res if o.kind in ("normal", "continue")]
            lp.breaks = [o for o in res if o.kind == "break"]
            rets = [o for o in res if o.kind in ("return",)]
            raises = [o for o in res if o.kind == "raise"]
            lp.returns = bool(rets)
            back = self.join(conts, TRUE)
            # new loop-carried locations
            new = []
            if back is not None:
                bs = self.snapshot(back)
                for key, v in bs.items():
                    if key in carried:
                        continue
                    hv = head_snap.get(key, UNBOUND)
                    if key[0] == "var" and isinstance(s, ast.For) and key[1] in self._targets(s.target) and key not in entry_snap:
                        continue
                    if hv is UNBOUND and key[0] in ("field",) and key[1] not in st.heap:
                        continue
                    if key[0] == "cell":
                        if key[1] in st.heap and back.heap[key[1]] is not h.heap.get(key[1]):
                            if self.T(Ref(key[1]), back) is not self.T(Ref(key[1]), h):
                                new.append(key)
                        continue
                    if key[0] == "mut":
                        if key[1] in self._pre_locs(st) and v is not head_snap.get(key, self._base_terms.get(key[1])):
                            new.append(key)
                        continue
                    if hv is v:
                        continue
                    if hv is not UNBOUND and not isinstance(hv, (Fn, LibFn, Cls)) and not (isinstance(hv, Ref) and isinstance(v, Ref)) \
                            and self.T(hv, h) is self.T(v, back):
                        continue
                    new.append(key)
                # shape changes of carried values
                for key in carried:
                    if key in shapes or key[0] not in ("var", "field"):
                        continue
                    v = bs.get(key, UNBOUND)
                    hv = head_snap.get(key)
                    a = sorted(self.flatten(hv, h, "x", {}))
                    b = sorted(self.flatten(v, back, "x", {}))
                    if a != b:
                        shapes[key] = 1
                        new.append(None)
            if new:
                carried += [k for k in new if k is not None]
                continue
            # back-edge values
            if back is not None:
                bs = self.snapshot(back)
                for key in carried:
                    nm = self.keyname(key)
                    v = bs.get(key, UNBOUND)
                    if key[0] == "mut":
                        lp.back[nm] = v if isinstance(v, Term) else node("opaque", "array")
                    elif key[0] == "cell" and isinstance(back.heap[key[1]], DictCell):
                        for k, x in back.heap[key[1]].items.items():
                            lp.back[nm + "." + str(k)] = self.T(x, back)
                    elif key in shapes or key[0] == "cell":
                        lp.back[nm] = self.T(v, back)
                    else:
                        self.flatten(v, back, nm, lp.back)
            for nm in lp.mus:
                lp.back.setdefault(nm, lp.mus[nm])
            if not self.check_mu_props(lp):
                break
        lp.back_state, lp.head_state = back, h
        lp.st_pc = st.pc
        self.loops[lid] = lp
        self.lib.close_loop(self, lp)
        # exit state
        ex = exit_st
        ex.pc = st.pc
        if seq is None:
            ex.assume = and_(st.assume, not_(lp.cond)) if lp.cond is not TRUE else st.assume
        else:
            ex.assume = st.assume
        self.finalise(lp, ex)
        normal = ex if not (seq is None and lp.cond is TRUE) else None
        outs = []
        if normal is not None and s.orelse:
            for o in self.block(s.orelse, normal, fr):
                if o.kind == "normal":
                    normal = o.st
                else:
                    outs.append(o)
                    normal = None
        if lp.breaks:
            lp.exit_conds = [o.st.pc for o in lp.breaks]
            for o in lp.breaks:
                o.st.pc = st.pc
                o.st.assume = st.assume
            bst = None
            for i, o in enumerate(reversed(lp.breaks)):
                bst = o.st if bst is None else self.merge(node("bool", node("opaque", "brk", lid, i)), o.st, bst)
            if normal is None:
                normal = bst
            else:
                normal = self.merge(node("bool", node("opaque", "break", lid)), bst, normal)
            normal.pc = st.pc
        for o in rets:
            g = node("bool", node("opaque", "loopret", lid))
            o.st.pc = and_(st.pc, g)
            outs.append(Outcome("return", o.st, o.val))
            if normal is not None:
                normal.pc = and_(st.pc, not_(g))
        outs.extend(Outcome("raise", o.st, o.val) for o in raises)
        if normal is not None:
            outs.append(Outcome("normal", normal))
        return outs

    def _targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def _pre_locs(self, st):
        s = set()
        for v in st.env.values():
            self._locs(v, st, s)
        for c in st.heap.values():
            if isinstance(c, ObjCell):
                for v in c.fields.values():
                    self._locs(v, st, s)
            elif isinstance(c, ListCell) and c.items:
                for v in c.items:
                    self._locs(v, st, s)
        return s

    def _locs(self, v, st, s):
        if isinstance(v, Data) and v.loc is not None:
            s.add(v.loc)
            if v.view is not None:
                self._locs(v.view[0], st, s)
        elif isinstance(v, Tup):
            for x in v.items:
                self._locs(x, st, s)
        elif isinstance(v, Choice):
            self._locs(v.a, st, s)
            self._locs(v.b, st, s)

    def finalise(self, lp, ex):
        """replace header atoms by the closed final values in the exit state"""
        mp = {lp.mus[n]: t for n, t in lp.final.items() if t is not None}
        if not mp:
            return
        memo = {}

        def fx(v):
            if isinstance(v, Data):
                t = tm.subst(v.term, mp)
                return v if t is v.term else Data(t, v.loc, v.al, v.view)
            if isinstance(v, Tup):
                return Tup([fx(x) for x in v.items])
            if isinstance(v, Choice):
                if v.a is UNBOUND and v.c.head == "bool" and v.c.args[0].head == "unboundmu":
                    return fx(v.b)
                return Choice(tm.subst(v.c, mp), fx(v.a), fx(v.b))
            return v
        for k in list(ex.env):
            ex.env[k] = fx(ex.env[k])
        for l, c in list(ex.heap.items()):
            if isinstance(c, ObjCell):
                nf = {k: fx(v) for k, v in c.fields.items()}
                if any(nf[k] is not c.fields[k] for k in nf):
                    ex.heap[l] = ObjCell(c.cls, nf)
            elif isinstance(c, ListCell):
                if c.term is not None:
                    t = tm.subst(c.term, mp)
                    if t is not c.term:
                        ex.heap[l] = ListCell(tuple(Data(x) for x in t.args), None) if t.head == "list" else ListCell(None, t)
        for l, t in list(ex.mut.items()):
            ex.mut[l] = tm.subst(t, mp)

    # -------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression " + type(e).__name__, e)
            return self.data(node("opaque", type(e).__name__, self.where(e)))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return Data(const(e.value))

    def lookup(self, name, st, fr, nd):
        v = st.env.get(name)
        if v is None:
            mod, fn, _ = fr
            if fn is not None and fn.env is not None:
                v = fn.env.get(name)
                f = fn
                while v is None and getattr(f, "env", None) is not None and isinstance(f.env.get("$parent"), Fn):
                    f = f.env["$parent"]
                    v = f.env.get(name)
            if v is None:
                v = mod.env.get(name)
            if v is None:
                v = self.lib.builtin(name)
            if v is None:
                self.event("unbound", st, nd, name=name)
                return self.data(node("opaque", "name", name))
        if isinstance(v, Choice) and v.a is UNBOUND:
            self.event("maybe_unbound", st, nd, name=name, cond=v.c)
            v = v.b
        elif isinstance(v, Choice) and v.b is UNBOUND:
            self.event("maybe_unbound", st, nd, name=name, cond=not_(v.c))
            v = v.a
        if v is UNBOUND:
            self.event("unbound", st, nd, name=name)
            return self.data(node("opaque", "name", name))
        return v

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_Tuple(self, e, st, fr):
        return Tup(self.elts(e.elts, st, fr))

    def elts(self, es, st, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                seq = self.lib.as_seq(self, st, v, x)
                if seq.items is None:
                    self.unsupported("starred of unknown length", x)
                    out.append(self.data(node("opaque", "star", self.T(v, st))))
                else:
                    out.extend(seq.items)
            else:
                out.append(self.ev(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        return self.new_list(st, self.elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.new_list(st, self.elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        items = {}
        op = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fr)
                c = st.heap.get(d.loc) if isinstance(d, Ref) else None
                if isinstance(c, DictCell):
                    items.update(c.items)
                    op = op or c.open
                else:
                    op = self.T(d, st)
                continue
            kt = self.T(self.ev(k, st, fr), st)
            items[kt] = self.ev(v, st, fr)
        return self.new_dict(st, items, op)

    def e_Attribute(self, e, st, fr):
        return self.getattr_(self.ev(e.value, st, fr), e.attr, st, e)

    def e_Subscript(self, e, st, fr):
        return self.lib.getitem(self, st, self.ev(e.value, st, fr), self.index(e.slice, st, fr), e)

    def index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return Data(self.lib.mk_slice(*[self.T(self.ev(x, st, fr), st) if x is not None else NONE for x in (s.lower, s.upper, s.step)]))
        if isinstance(s, ast.Tuple):
            return Tup([self.index(x, st, fr) for x in s.elts])
        return self.ev(s, st, fr)

    def e_Slice(self, e, st, fr):
        return self.index(e, st, fr)

    def e_BinOp(self, e, st, fr):
        return self.binop(e.op, self.ev(e.left, st, fr), self.ev(e.right, st, fr), st, e)

    def binop(self, op, a, b, st, nd):
        return self.lib.binop(self, st, op, a, b, nd)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return Data(not_(self.truth(v, st)))
        t = self.T(v, st)
        if isinstance(e.op, ast.USub):
            return self.data(tm.neg(t))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if not tm.is_bool(t) and (t.props or {}).get("boolean"):
                t = node("bool", t)
            return self.data(not_(t) if tm.is_bool(t) else node("invert", t))

    def e_BoolOp(self, e, st, fr):
        vals = []
        cur = st
        conds = []
        for i, x in enumerate(e.values):
            sub = st.copy()
            sub.pc = and_(st.pc, *conds)
            v = self.ev(x, sub, fr)
            self._absorb(st, sub, and_(*conds))
            vals.append(v)
            c = self.decide(self.truth(v, st), st)
            conds.append(c if isinstance(e.op, ast.And) else not_(c))
            if conds[-1] is FALSE:
                break
        cs = [self.truth(v, st) for v in vals]
        isb = all(isinstance(v, Data) and (tm.is_bool(self.T(v, st)) or self.T(v, st) in (TRUE, FALSE)) for v in vals)
        if isb:
            return Data(and_(*cs) if isinstance(e.op, ast.And) else or_(*cs))
        r = vals[-1]
        for v, c in list(zip(vals, cs))[-2::-1]:
            if isinstance(e.op, ast.And):
                r = self.choose(c, r, v, st)
            else:
                r = self.choose(c, v, r, st)
        return r

    def choose(self, c, a, b, st):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return self.merge_val(c, a, b, st, st, st)

    def _absorb(self, st, sub, c):
        """effects of a conditionally evaluated sub-expression"""
        if c is TRUE:
            st.heap, st.mut = sub.heap, sub.mut
            st.env = sub.env
            st.assume = sub.assume
        else:
            m = self.merge(c, sub, st)
            st.heap, st.mut, st.env = m.heap, m.mut, m.env

    def e_IfExp(self, e, st, fr):
        c = self.decide(self.truth(self.ev(e.test, st, fr), st), st)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = and_(st.pc, c), and_(st.pc, not_(c))
        va, vb = self.ev(e.body, a, fr), self.ev(e.orelse, b, fr)
        m = self.merge(c, a, b)
        r = self.merge_val(c, va, vb, a, b, m)
        st.env, st.heap, st.mut = m.env, m.heap, m.mut
        return r

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            cs.append(self.lib.compare(self, st, op, left, right, e))
            left = right
        return Data(and_(*cs)) if all(tm.is_scalar(c) for c in cs) or len(cs) > 1 else self.data(cs[0])

    def truth(self, v, st):
        if isinstance(v, Choice):
            return tm.ite_bool(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ListCell) and c.items is not None:
                return TRUE if c.items else FALSE
            if isinstance(c, ListCell):
                return not_(cmp_("==", self.lib.mk_len(c.term), num(0)))
            if isinstance(c, DictCell) and c.open is None:
                return TRUE if c.items else FALSE
            if isinstance(c, ObjCell):
                return TRUE
            return node("bool", self.T(v, st))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, (Fn, LibFn, Cls, Partial)):
            return TRUE
        return tm.truth(self.T(v, st))

    def e_Lambda(self, e, st, fr):
        f = self.make_fn(e, st, fr)
        f.env = st.env
        return f

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.T(self.ev(p.value, st, fr), st)
                if p.format_spec is not None or p.conversion != -1:
                    spec = ast.unparse(p.format_spec) if p.format_spec is not None else ""
                    v = node("fmt", v, spec, p.conversion)
                parts.append(v)
        return Data(self.lib.mk_str(parts))

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def comp(self, e, st, fr, kind):
        def gen(i, cur):
            g = e.generators[i]
            it = self.ev(g.iter, cur, fr)
            return self.lib.as_seq(self, cur, it, g.iter), g
        if len(e.generators) == 1:
            inner = st.copy()
            seq, g = gen(0, inner)
            if seq.items is not None and len(seq.items) <= 64:
                out = []
                for i, v in enumerate(seq.items):
                    self.unroll.append(i)
                    sub = inner
                    self.assign(g.target, v, sub, fr)
                    cs = [self.truth(self.ev(c, sub, fr), sub) for c in g.ifs]
                    c = and_(*cs)
                    if c is not FALSE:
                        if c is not TRUE:
                            self.unsupported("conditional comprehension over known items", e)
                        if kind == "dict":
                            out.append((self.T(self.ev(e.key, sub, fr), sub), self.ev(e.value, sub, fr)))
                        else:
                            out.append(self.ev(e.elt, sub, fr))
                    self.unroll.pop()
                st.heap, st.mut = inner.heap, inner.mut
                return out, None
            lid = self.loop_id(e)
            k = node("idx", lid)
            self.assign(g.target, seq.item(k, inner), inner, fr)
            lp = Loop(lid)
            lp.final, lp.n, lp.idx = {}, seq.n, k
            self.loopstack.append(lp)
            self.segs.append(("call", st.pc))
            self.segs.append((("loop", lid), TRUE))
            cs = and_(*[self.truth(self.ev(c, inner, fr), inner) for c in g.ifs])
            inner.pc = cs
            if kind == "dict":
                body = node("tuple", self.T(self.ev(e.key, inner, fr), inner), self.T(self.ev(e.value, inner, fr), inner))
            else:
                body = self.T(self.ev(e.elt, inner, fr), inner)
            self.segs.pop()
            self.segs.pop()
            self.loopstack.pop()
            st.heap, st.mut = inner.heap, inner.mut
            if cs is not TRUE:
                return None, node("filtermap", seq.n, tm.close(k, node("tuple", cs, body)))
            return None, self.lib.mk_map(seq.n, tm.close(k, body))
        # nested generators
        self.unsupported("nested comprehension", e)
        return None, node("opaque", "comprehension", self.where(e))

    def e_ListComp(self, e, st, fr):
        items, t = self.comp(e, st, fr, "list")
        return self.new_list(st, items) if items is not None else self.new_list(st, term=t)

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_DictComp(self, e, st, fr):
        items, t = self.comp(e, st, fr, "dict")
        return self.new_dict(st, dict(items) if items is not None else {}, t)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is not None:
            self.ev(e.value, st, fr)
        return self.data(node("opaque", "yield", self.where(e)))

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr[1]
            if f is None or f.cls is None:
                raise AnalysisError("super() outside a method")
            selfname = f.node.args.args[0].arg
            return Super(st.env[selfname], f.cls)
        fn = self.ev(e.func, st, fr)
        args = self.elts(e.args, st, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = st.heap.get(v.loc) if isinstance(v, Ref) else None
                if isinstance(c, DictCell):
                    for kt, x in c.items.items():
                        kwargs[kt.args[0] if kt.head == "const" else tm.show(kt)] = x
                    if c.open is not None:
                        kwargs["**"] = Data(c.open)
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, st, e)

    # -------------------------------------------------- attributes and calls
    def getattr_(self, v, name, st, nd):
        if isinstance(v, Choice):
            if v.a is UNBOUND or v.b is UNBOUND:
                v = v.b if v.a is UNBOUND else v.a
                return self.getattr_(v, name, st, nd)
            return self.merge_val(v.c, self.getattr_(v.a, name, st, nd), self.getattr_(v.b, name, st, nd), st, st, st)
        if isinstance(v, Super):
            x, owner = st_cls(self, v.obj, st).find(name, after=v.cls)
            if x is None:
                if name == "__init__":
                    return LibFn("object.__init__")
                raise AnalysisError("super().%s not found" % name)
            return self.bindattr(x, v.obj, st, nd)
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            if isinstance(c, ObjCell):
                if name in c.fields:
                    x = c.fields[name]
                    if isinstance(x, Choice) and (x.a is UNBOUND or x.b is UNBOUND):
                        self.event("maybe_noattr", st, nd, name=name, cond=x.c if x.a is UNBOUND else not_(x.c))
                        x = x.b if x.a is UNBOUND else x.a
                    return x
                if name == "__dict__":
                    d = self.new_dict(st, {const(k): f for k, f in c.fields.items()})
                    self.dict_owner[d.loc] = v
                    return d
                if name == "__class__":
                    return c.cls
                if c.cls is not None:
                    x, owner = c.cls.find(name)
                    if x is not None:
                        return self.bindattr(x, v, st, nd)
                    ga, _ = c.cls.find("__getattr__")
                    if ga is not None:
                        return self.call(ga.bind(v), [Data(const(name))], {}, st, nd)
                if c.cls is not None and "$tuple" in c.cls.attrs and name in ("_replace", "_asdict"):
                    return LibFn("$" + name, v)
                self.event("noattr", st, nd, name=name, cls=c.cls.name if c.cls else "?")
                return self.data(node("opaque", "noattr", name))
            return LibFn(name, v)
        if isinstance(v, Cls):
            if name == "__name__":
                return Data(const(v.name))
            x, owner = v.find(name)
            if x is None:
                return self.data(node("opaque", "classattr", v.name, name))
            if isinstance(x, Fn) and "classmethod" in x.decor:
                return x.bind(v)
            return x
        if isinstance(v, LibFn) and v.recv is None:
            full = v.name + "." + name
            if v.name in self.modules:
                if full in self.modules:
                    return self.module_value(full)
                x = self.modules[v.name].env.get(name)
                if x is not None:
                    return x
            return self.lib.lib_value(full)
        if isinstance(v, Fn):
            return self.data(node("opaque", "fnattr", v.qual, name))
        return self.lib.data_attr(self, st, v, name, nd)

    def bindattr(self, x, obj, st, nd):
        if isinstance(x, Fn):
            if "staticmethod" in x.decor:
                return x
            if "classmethod" in x.decor:
                return x.bind(st_cls(self, obj, st))
            if "property" in x.decor or any(d.split(".")[-1] == "cached_property" for d in x.decor):
                return self.call(x.bind(obj), [], {}, st, nd)
            return x.bind(obj)
        return x

    def setattr_(self, v, name, val, st, nd):
        if isinstance(v, Choice):
            self.unsupported("attribute store on a choice", nd)
            return
        if isinstance(v, Ref) and isinstance(st.heap.get(v.loc), ObjCell):
            c = st.heap[v.loc]
            if c.cls is not None:
                p, _ = c.cls.find("$set:" + name)
                if p is not None:
                    self.call(p.bind(v), [val], {}, st, nd)
                    return
            if name == "__dict__" and isinstance(val, Ref) and isinstance(st.heap.get(val.loc), DictCell) and all(
                    isinstance(k, Term) and k.head == "const" and isinstance(k.args[0], str) for k in st.heap[val.loc].items):
                own = self.dict_owner.get(val.loc)
                g = {v.loc, val.loc if own is None else own.loc} | self.dict_group.get(val.loc if own is None else own.loc, set())
                for l in list(g):
                    self.dict_group[l] = g
                st.heap[v.loc] = ObjCell(c.cls, {k.args[0]: x for k, x in st.heap[val.loc].items.items()})
                return
            g = self.dict_group.get(v.loc, (v.loc,))
            for l in g:
                o = st.heap.get(l)
                if isinstance(o, ObjCell):
                    f = dict(o.fields)
                    f[name] = val
                    st.heap[l] = ObjCell(o.cls, f)
            self.event("setattr", st, nd, target=v, name=name, val=val, al=frozenset(g), term=self.T(val, st))
            return
        if isinstance(v, Cls):
            self.event("setattr", st, nd, target=v, name=name, val=val, al=frozenset(), shared="class %s" % v.name, term=self.T(val, st))
            v.attrs[name] = val
            return
        if isinstance(v, LibFn) and v.recv is None:
            self.event("setattr", st, nd, target=v, name=name, val=val, al=frozenset(), shared="module %s" % v.name, term=self.T(val, st))
            return
        t = self.T(v, st)
        self.event("setattr", st, nd, target=v, name=name, val=val, al=self.aliases(v, st), recv=t, term=self.T(val, st))
        if isinstance(v, Data):
            st.env["$attr:%d.%s" % (t.id, name)] = val

    def aliases(self, v, st):
        if isinstance(v, Data):
            return v.al
        if isinstance(v, Ref):
            return frozenset([v.loc])
        if isinstance(v, Choice):
            return self.aliases(v.a, st) | self.aliases(v.b, st)
        if isinstance(v, Tup):
            return frozenset().union(*[self.aliases(x, st) for x in v.items]) if v.items else frozenset()
        return frozenset()

    def call(self, fn, args, kwargs, st, nd):
        if isinstance(fn, Choice):
            if fn.a is UNBOUND or fn.b is UNBOUND:
                return self.call(fn.b if fn.a is UNBOUND else fn.a, args, kwargs, st, nd)
            a, b = st.copy(), st.copy()
            a.pc, b.pc = and_(st.pc, fn.c), and_(st.pc, not_(fn.c))
            va = self.call(fn.a, args, kwargs, a, nd)
            vb = self.call(fn.b, args, kwargs, b, nd)
            m = self.merge(fn.c, a, b)
            r = self.merge_val(fn.c, va, vb, a, b, m)
            st.env, st.heap, st.mut = m.env, m.heap, m.mut
            return r
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), dict(fn.kwargs, **kwargs), st, nd)
        if isinstance(fn, Cls):
            return self.construct(fn, args, kwargs, st, nd)
        if isinstance(fn, Fn):
            return self.call_user(fn, args, kwargs, st, nd)
        if isinstance(fn, LibFn):
            return self.lib.call(self, st, fn, args, kwargs, nd)
        if isinstance(fn, Ref) and isinstance(st.heap.get(fn.loc), ObjCell):
            c, _ = st.heap[fn.loc].cls.find("__call__") if st.heap[fn.loc].cls else (None, None)
            if c is not None:
                return self.call(c.bind(fn), args, kwargs, st, nd)
        if isinstance(fn, Data):
            return self.lib.call_data(self, st, fn, args, kwargs, nd)
        self.unsupported("call of %r" % (fn,), nd)
        return self.data(node("opaque", "call", self.where(nd)))

    def construct(self, cls, args, kwargs, st, nd):
        obj = self.new_obj(st, cls)
        if any(isinstance(b, LibFn) and ("Enum" in b.name) for b in cls.bases):
            return self.data(node("opaque", "enum", cls.name))
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(init.bind(obj), args, kwargs, st, nd)
        elif "$dataclass" in cls.attrs:
            f = {}
            names = [n for n, _ in cls.attrs["$dataclass"]]
            for n, a in zip(names, args):
                f[n] = a
            f.update(kwargs)
            for n, d in cls.attrs["$dataclass"]:
                if n not in f and d is not None:
                    f[n] = self.ev(d, st, cls.attrs["$frame"])
            st.heap[obj.loc] = ObjCell(cls, f)
            pi, _ = cls.find("__post_init__")
            if pi is not None:
                self.call(pi.bind(obj), [], {}, st, nd)
        return obj

    def bind_args(self, fn, args, kwargs, st, nd):
        a = fn.node.args
        env = {}
        params = list(a.posonlyargs) + list(a.args)
        args = list(args)
        if fn.self_ is not None:
            args = [fn.self_] + args
        for p, v in zip(params, args):
            env[p.arg] = v
        extra = args[len(params):]
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.event("badcall", st, nd, name=fn.qual, why="too many positional arguments")
        kw = dict(kwargs)
        opn = kw.pop("**", None)
        for p in params[len(args):] + list(a.kwonlyargs):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        nd_ = len(fn.defaults)
        for p, d in zip(params[len(params) - nd_:], fn.defaults):
            env.setdefault(p.arg, d)
        for k, d in fn.kwdefaults.items():
            env.setdefault(k, d)
        for p in params + list(a.kwonlyargs):
            if p.arg not in env:
                if opn is not None:
                    env[p.arg] = self.data(node("kwget", self.T(opn, st), p.arg))
                else:
                    self.event("badcall", st, nd, name=fn.qual, why="missing argument " + p.arg)
                    env[p.arg] = self.data(node("opaque", "missing", p.arg))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(st, {const(k): v for k, v in kw.items()}, self.T(opn, st) if opn is not None else None)
        elif kw:
            self.event("badcall", st, nd, name=fn.qual, why="unexpected keyword " + ",".join(map(str, kw)))
        return env

    def call_user(self, fn, args, kwargs, st, nd):
        if any("contextmanager" in d for d in fn.decor):
            self.event("call", st, nd, name="cm:" + fn.qual, args=[self.T(a, st) for a in args], kwargs={}, vals=args)
            return self.data(node("ext", "cm:" + fn.qual))
        if not isinstance(fn.node, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(fn.node)):
            lst = listing(self, fn)
            if lst is not None:
                return self.call_user(lst, args, kwargs, st, nd)
            self.unsupported("generator " + fn.qual, nd)
            return self.data(node("opaque", "generator", fn.qual, *[self.T(a, st) for a in args]))
        if fn.decor and not getattr(fn, "nocache", False) and any(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache") for d in fn.decor):
            fn.nocache = True
            try:
                r = self.call_user(fn, args, kwargs, st, nd)
            finally:
                fn.nocache = False
            for v in (r.items if isinstance(r, Tup) else [r]):
                if isinstance(v, Data) and v.loc is not None:
                    self.roots.setdefault(v.loc, "shared:cached result of " + fn.qual)
                else:
                    self.mark_shared(v, st, "cached result of " + fn.qual)
            return r
        env = self.bind_args(fn, args, kwargs, st, nd)
        sm = self.summaries.get(fn.qual)
        if sm is not None:
            r = sm(self, st, [env[p.arg] for p in fn.node.args.args if p.arg in env], nd)
            if r is not None:
                self.functions_seen.add(fn.qual)
                return r
        consts = self.const_args(fn, env, st)
        if any(f.node is fn.node for f, _ in self.callstack) and self.decreasing(fn, consts):
            # recursion on a known, decreasing order: followed
            self.functions_seen.add(fn.qual)
            self.actconst.append((fn.node, consts))
            try:
                return self.call_body(fn, env, st, nd)
            finally:
                self.actconst.pop()
        if any(f.node is fn.node for f, _ in self.callstack):
            # recursive call: uninterpreted
            ts = tuple(self.T(env[p.arg], st) for p in fn.node.args.args if not (fn.self_ is not None and p is fn.node.args.args[0]))
            self.event("reccall", st, nd, name=fn.qual, args=ts)
            r = node("rec", fn.qual, *ts)
            pr = self.rec_props.get(fn.qual)
            if pr and r not in self.rec_done:
                r.props = dict(pr)
            self.rec_made.add(r)
            return self.data(r)
        if len(self.callstack) > MAXDEPTH:
            raise AnalysisError("call depth")
        self.functions_seen.add(fn.qual)
        if self.self_recursive(fn):
            self.actconst.append((fn.node, consts))
            try:
                if any(0 <= v <= 12 for v in consts.values()):
                    return self.call_body(fn, env, st, nd)
                return self.call_recursive(fn, env, st, nd)
            finally:
                self.actconst.pop()
        self.actconst.append((fn.node, consts))
        try:
            return self.call_body(fn, env, st, nd)
        finally:
            self.actconst.pop()

    def const_args(self, fn, env, st):
        out = {}
        if isinstance(fn.node, ast.Lambda):
            return out
        for p in fn.node.args.args:
            v = env.get(p.arg)
            if isinstance(v, Data) and tm.is_num(v.term):
                x = tm.num_val(v.term)
                if x.denominator == 1:
                    out[p.arg] = int(x)
        va = fn.node.args.vararg
        v = env.get(va.arg) if va is not None else None
        if isinstance(v, Tup):
            for i, y in enumerate(v.items):
                if isinstance(y, Data) and tm.is_num(y.term) and tm.num_val(y.term).denominator == 1:
                    out["%s[%d]" % (va.arg, i)] = int(tm.num_val(y.term))
        return out

    def decreasing(self, fn, consts):
        prev = [c for n, c in self.actconst if n is fn.node]
        if not prev or len(prev) > 30:
            return False
        last = prev[-1]
        return any(n in last and 0 <= v < last[n] <= 12 for n, v in consts.items())

    def self_recursive(self, fn):
        if isinstance(fn.node, ast.Lambda):
            return False
        nm = fn.node.name
        return any(isinstance(x, ast.Call) and ((isinstance(x.func, ast.Name) and x.func.id == nm)
                                                or (isinstance(x.func, ast.Attribute) and x.func.attr == nm and fn.cls is not None))
                   for x in ast.walk(fn.node))

    def call_recursive(self, fn, env, st, nd):
        """properties of the results of recursive calls: assumed from the base cases, verified for every case"""
        self.rec_props[fn.qual] = None
        made, self.rec_made = self.rec_made, set()
        n0 = len(self.events)
        first = True
        for _ in range(6):
            s2 = st.copy()
            del self.events[n0:]
            v = self.call_body(fn, dict(env), s2, nd)
            cases = []
            for t in self.last_rets.pop(fn.qual, ()):
                cases += leaves(t)
            isrec = [any(x.head == "rec" and x.args[0] == fn.qual for x in tm.subterms(t)) for t in cases]
            pr = self.rec_props[fn.qual]
            if first:
                first = False
                base = [t for t, r in zip(cases, isrec) if not r]
                if not base or not any(isrec):
                    break
                pr = {p: True for p, f in self.MU_PROPS if p != "integer" and all(f(t) for t in base)}
                nd_ = {self.lib.ndim_of(t) for t in base}
                if len(nd_) == 1 and nd_ != {None} and "scalar" not in pr:
                    pr["ndim"] = nd_.pop()
                    if pr["ndim"] == 1:
                        pr["vec"] = True
                        ln = {self.lib.mk_len(t) for t in base}
                        if len(ln) == 1 and next(iter(ln)).head != "len":
                            pr["len"] = ln.pop()
                if not pr:
                    break
                self.rec_props[fn.qual] = pr
                continue
            ok = {p: True for p, f in self.MU_PROPS if pr.get(p) and all(f(t) for t in cases)}
            if "ndim" in pr and all(self.lib.ndim_of(t) == pr["ndim"] for t in cases):
                ok["ndim"] = pr["ndim"]
                if pr.get("vec"):
                    ok["vec"] = True
            if "len" in pr and all(self.lib.mk_len(t) is pr["len"] for t in cases):
                ok["len"] = pr["len"]
            if ok == pr:
                break
            self.rec_props[fn.qual] = ok or None
            for x in self.rec_made - self.rec_done:
                x.props = dict(ok) if ok else None
            if not ok:
                first = None
        self.rec_done |= self.rec_made
        self.rec_made |= made
        st.env, st.heap, st.mut, st.assume = s2.env, s2.heap, s2.mut, s2.assume
        return v

    def call_body(self, fn, env, st, nd):
        cs = State(env, st.heap, st.mut, TRUE, st.assume)
        if isinstance(fn.node, ast.FunctionDef):
            BODIES.setdefault((getattr(self.modules.get(fn.mod), "path", str(fn.mod)), fn.node.lineno, fn.qual), (fn.node, self))
        self.callstack.append((fn, nd))
        self.segs.append(("call", st.pc))
        ul, self.unroll = self.unroll, []
        # a call inside an unrolled loop keeps its unroll index in the chain of draws
        self.unroll = list(ul)
        scope = {}
        fr = (fn.mod, fn, scope)
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [Outcome("return", cs, self.ev(fn.node.body, cs, fr))]
            else:
                outs = self.block(fn.node.body, cs, fr)
        finally:
            self.callstack.pop()
            self.segs.pop()
            self.unroll = ul
        rets = []
        for o in outs:
            if o.kind == "return":
                rets.append(o)
            elif o.kind == "normal":
                rets.append(Outcome("return", o.st, Data(NONE)))
        if not rets:
            # always raises
            st.assume = and_(st.assume, FALSE) if False else st.assume
            st.heap, st.mut = dict(st.heap), dict(st.mut)
            r = self.data(node("never", fn.qual))
            return r
        if fn.qual in self.rec_props:
            self.last_rets[fn.qual] = [self.T(o.val, o.st) for o in rets]
        cur, val = rets[-1].st, rets[-1].val
        for o in reversed(rets[:-1]):
            g = o.st.pc
            m = self.merge(g, o.st, cur)
            val = self.merge_val(g, o.val, val, o.st, cur, m)
            cur = m
        st.heap, st.mut = cur.heap, cur.mut
        st.assume = self.trim(cur.assume, st)
        return val

    def trim(self, a, st):
        return a


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.head == "ite" else [t]


def guarded_pos(t, guards=()):
    """t > 0, using the conditions of the ites it is nested in"""
    if t.head == "ite":
        out = True
        for val, br in ((TRUE, t.args[1]), (FALSE, t.args[2])):
            gs = tuple(tm.eval_bool(g, {t.args[0]: val}) for g in guards)
            out = out and guarded_pos(tm.eval_bool(br, {t.args[0]: val}), gs + (t.args[0] if val is TRUE else not_(t.args[0]),))
        return out
    if tm.is_pos(t):
        return True
    for g in guards:
        for c in (g.args if g.head == "and" else (g,)):
            if c.head != "cmp" or c.args[1].head == "pair" or c.args[0] == "==":
                continue
            p = c.args[1]           # p < 0 or p <= 0
            pt, pp = tm.poly(t), tm.poly(p)
            for m, v in pt.items():
                for m2, w in pp.items():
                    if not m or not m2 or v * w > 0:
                        continue
                    q = tm.div(tm.from_poly({m: -v}), tm.from_poly({m2: w}))
                    if tm.is_nonneg(q) and tm.is_pos(tm.add(t, tm.mul(q, p))):
                        return True
    return False


LISTED = {}


def listing(it, fn):
    """a generator function as the function returning the list of what it yields, where nothing done between two items can change the later ones; or None"""
    if fn.node not in LISTED:
        LISTED[fn.node] = _listing(it, fn)
    n = LISTED[fn.node]
    return Fn(n, fn.mod, fn.env, fn.qual, fn.cls, fn.self_, fn.defaults, fn.kwdefaults, fn.decor) if n is not None else None


def _listing(it, fn):
    own = list(own_nodes(fn.node))
    if any(isinstance(x, (ast.While, ast.Try, ast.With, ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)) for x in own):
        return None
    stm = {id(x.value) for x in own if isinstance(x, ast.Expr)}
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) and id(x) not in stm for x in own):
        return None
    if any(isinstance(x, ast.Return) and x.value is not None for x in own):
        return None
    fixed = ast.unparse(fn.node)
    if "random" in fixed or "next(" in fixed:
        return None
    me = fn.node.args.args[0].arg if fn.self_ is not None and fn.node.args.args else None
    written = {x.attr for m in it.modules.values() for d in ast.walk(m.tree) if isinstance(d, ast.FunctionDef) and d.name != "__init__"
               for x in ast.walk(d) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    for x in own:
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
            return None
        if me and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr in written:
            return None
    n = copy.deepcopy(fn.node)
    out = "$items"

    class R(ast.NodeTransformer):
        def visit_Expr(self, x):
            y = x.value
            if not isinstance(y, (ast.Yield, ast.YieldFrom)):
                return x
            f = ast.Attribute(ast.Name(out, ast.Load()), "append" if isinstance(y, ast.Yield) else "extend", ast.Load())
            return ast.Expr(ast.Call(f, [y.value if y.value is not None else ast.Constant(None)], []))

        def visit_Return(self, x):
            return ast.Return(ast.Name(out, ast.Load()))
    n.body = [R().visit(x) for x in n.body]
    n.body = [ast.Assign([ast.Name(out, ast.Store())], ast.List([], ast.Load()))] + n.body + [ast.Return(ast.Name(out, ast.Load()))]
    for x in ast.walk(n):
        if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = fn.node.lineno, 0, fn.node.lineno, 0
    return n


def own_nodes(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def st_cls(it, obj, st):
    if isinstance(obj, Ref):
        return st.heap[obj.loc].cls
    if isinstance(obj, Cls):
        return obj
    raise AnalysisError("no class")
