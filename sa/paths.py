"""Typestate of resources along every path of a function, exceptional ones included.

An abstract executor over the syntax tree: values are tokens (who they are, not what they hold), every call may raise,
`finally`, `with` and handlers are followed, calls of functions of the same module are entered.  Tracked: which stream
sys.stdout is, which files are open."""
import ast
import itertools

MAXPATHS = 4000


class TooMany(Exception):
    pass


class St:
    __slots__ = ("loc", "glob", "out", "opened", "closed", "attrs", "raised", "pend")

    def __init__(self, loc, glob, out, opened=(), closed=(), attrs=None, raised=False, pend=()):
        self.loc, self.glob, self.out = loc, glob, out
        self.opened, self.closed = frozenset(opened), frozenset(closed)
        self.attrs = attrs or {}
        self.raised = raised
        self.pend = tuple(pend)     # callbacks of exit stacks: (stack token, kind, value)

    def copy(self, **kw):
        s = St(dict(self.loc), dict(self.glob), self.out, self.opened, self.closed, dict(self.attrs), self.raised, self.pend)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        return (tuple(sorted(self.loc.items(), key=str)), tuple(sorted(self.glob.items(), key=str)), self.out, self.opened, self.closed,
                tuple(sorted(self.attrs.items(), key=str)), self.raised, self.pend)


ENTRY = ("entry",)
NONE = ("const", None)
OPENERS = {"open", "io.open", "h5py.File", "os.fdopen", "codecs.open", "gzip.open", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "os.open"}
SAFE = {"isinstance", "hasattr", "len", "getattr", "os.path.join", "io.StringIO", "StringIO", "contextlib.redirect_stdout", "redirect_stdout", "contextlib.ExitStack",
        "ExitStack", "contextlib.closing", "closing", "contextlib.nullcontext", "nullcontext", "contextlib.suppress", "suppress", "str", "repr", "sys.exc_info"}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


class Exec:
    def __init__(self, functions, methods=None, aliases=None, nested=True, modglobals=None):
        self.fns = functions            # name -> FunctionDef of the same module
        self.aliases = aliases or {}    # local name -> dotted library name
        self.n = itertools.count()
        self.paths = 0
        self.nested = nested
        self.depth = 0
        self.current = None
        self.notes = set()
        self.yields = []
        self.modglobals = modglobals or {}
        self.methods = methods or {}

    def name(self, e):
        d = dotted(e)
        if d is None:
            return None
        head = d.split(".")[0]
        if head in self.aliases:
            d = self.aliases[head] + d[len(head):]
        return d

    # ---- expressions: list of (kind, st, token)
    def ev(self, e, st):
        if e is None:
            return [("normal", st, NONE)]
        if isinstance(e, ast.Constant):
            return [("normal", st, ("const", e.value))]
        if isinstance(e, ast.Name):
            if e.id in st.loc:
                return [("normal", st, st.loc[e.id])]
            if e.id in st.glob:
                return [("normal", st, st.glob[e.id])]
            if self.name(e) == "sys.stdout":
                return [("normal", st, st.out)]
            return [("normal", st, ("name", self.name(e)))]
        if isinstance(e, ast.Attribute):
            d = self.name(e)
            if d == "sys.stdout":
                return [("normal", st, st.out)]
            if d == "sys.__stdout__":
                return [("normal", st, ("sys.__stdout__",))]
            res = []
            for k, s, v in self.ev(e.value, st):
                if k != "normal":
                    res.append((k, s, v))
                else:
                    res.append(("normal", s, s.attrs.get((v, e.attr), ("attr", v, e.attr))))
            return res
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Yield):
            return self.do_yield(e, st)
        if isinstance(e, ast.Tuple):
            return self.seq(e.elts, st, lambda vs: ("tuple",) + tuple(vs))
        if isinstance(e, ast.IfExp):
            res = []
            for k, s, v in self.ev(e.test, st):
                if k != "normal":
                    res.append((k, s, v))
                    continue
                res += self.ev(e.body, s.copy()) + self.ev(e.orelse, s.copy())
            return res
        if isinstance(e, ast.NamedExpr):
            res = []
            for k, s, v in self.ev(e.value, st):
                if k == "normal":
                    s = s.copy()
                    s.loc[e.target.id] = v
                res.append((k, s, v))
            return res
        # anything else: evaluate the parts for their effects
        kids = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            risky = any(isinstance(x, ast.Call) for x in ast.walk(e)) and not isinstance(e, ast.Lambda)
            out = [("normal", st, ("val", ast.dump(e)[:40]))]
            return out + (self.exc(st) if risky else [])
        out = self.seq(kids, st, lambda vs: ("val", ast.unparse(e)))
        if isinstance(e, (ast.Subscript, ast.BinOp)):
            out += self.exc(st)
        return out

    def exc(self, st):
        return [("raise", st.copy(), ("exc", "Exception")), ("raise", st.copy(), ("exc", "Base"))]

    def seq(self, es, st, mk):
        acc = [(st, [])]
        res = []
        for e in es:
            if isinstance(e, ast.Starred):
                e = e.value
            nxt = []
            for s, vs in acc:
                for k, s2, v in self.ev(e, s):
                    if k == "normal":
                        nxt.append((s2, vs + [v]))
                    else:
                        res.append((k, s2, v))
            acc = nxt
        return [("normal", s, mk(vs)) for s, vs in acc] + res

    def fresh(self, what):
        return (what, next(self.n))

    def call(self, e, st):
        d = self.name(e.func)
        args = list(e.args) + [k.value for k in e.keywords]
        res = []
        recv = None
        pre = [("normal", st, None)]
        if isinstance(e.func, ast.Attribute) and d != "sys.stdout":
            pre = self.ev(e.func.value, st)
        elif not isinstance(e.func, (ast.Name, ast.Attribute)):
            pre = self.ev(e.func, st)
        for k, s, rv in pre:
            if k != "normal":
                res.append((k, s, rv))
                continue
            for k2, s2, vs in self.seq(args, s, lambda x: x):
                if k2 != "normal":
                    res.append((k2, s2, vs))
                    continue
                res += self.apply(e, d, rv, vs, s2)
        return res

    def apply(self, e, d, rv, vs, st):
        npos = len(e.args)
        m = e.func.attr if isinstance(e.func, ast.Attribute) else None
        if d in OPENERS:
            t = ("file", e.lineno, next(self.n))
            return [("normal", st.copy(opened=st.opened | {t}), t)] + self.exc(st)
        if d in ("io.StringIO", "StringIO"):
            return [("normal", st, self.fresh("stringio"))]
        if d in ("contextlib.redirect_stdout", "redirect_stdout") and vs:
            return [("normal", st, ("redirect", vs[0], next(self.n)))]
        if d in ("contextlib.closing", "closing") and vs:
            return [("normal", st, ("closing", vs[0]))]
        if d in ("contextlib.nullcontext", "nullcontext"):
            return [("normal", st, vs[0] if vs and not vs[0][0] == "file" else ("nullcontext", vs[0] if vs else NONE))]
        if d in ("contextlib.suppress", "suppress"):
            return [("normal", st, ("suppress",) + tuple(dotted(a) or "?" for a in e.args))]
        if d in ("contextlib.ExitStack", "ExitStack"):
            return [("normal", st, self.fresh("stack"))]
        if d in ("setattr", "builtins.setattr") and len(vs) == 3 and vs[1] == ("const", "stdout"):
            return [("normal", st.copy(out=vs[2]), NONE)]
        if d in ("getattr", "builtins.getattr") and len(vs) >= 2 and vs[1] == ("const", "stdout"):
            return [("normal", st, st.out)]
        if m == "close" and rv is not None and not vs:
            s = st.copy(closed=st.closed | {rv})
            return [("normal", s, NONE)]
        if m == "__enter__" and rv is not None and silencer(rv):
            return [("normal", st.copy(opened=st.opened | {("entered", rv)}), rv)]
        if m == "__exit__" and rv is not None and silencer(rv):
            return [("normal", st.copy(closed=st.closed | {("entered", rv)}), NONE)]
        if rv is not None and rv[0] == "stack":
            if m == "enter_context" and vs:
                out = []
                for k, s, v in self.enter(vs[0], st, e):
                    if k == "normal":
                        s = s.copy(pend=s.pend + ((rv, "cm", vs[0]),))
                    out.append((k, s, v))
                return out
            if m == "callback" and npos:
                a = e.args[0]
                what = self.name(a)
                if isinstance(a, ast.Attribute) and a.attr == "close":
                    t = self.ev(a.value, st)[0][2]
                    return [("normal", st.copy(pend=st.pend + ((rv, "close", t),)), NONE)]
                if what in ("setattr", "builtins.setattr") and len(vs) == 4 and vs[2] == ("const", "stdout"):
                    return [("normal", st.copy(pend=st.pend + ((rv, "set", vs[3]),)), NONE)]
                self.notes.add("exit stack callback " + ast.unparse(a))
                return [("normal", st, NONE)]
            if m in ("close", "pop_all"):
                self.notes.add("exit stack " + m)
        f = self.fns.get(d) if d else None
        if f is None and rv is not None and rv[0] == "self" and m in self.methods and self.depth < 4:
            return self.enter_fn(self.methods[m], [rv] + list(vs), e, st, 1)
        if f is not None and self.depth < 4 and f is not self.current and not is_gen(f):
            return self.enter_fn(f, vs, e, st)
        if d in SAFE or (m in ("append", "keys", "items", "values", "flush", "fileno") and rv is not None and m != "flush"):
            return [("normal", st, ("call", d or m))]
        if f is not None and is_gen(f):
            return [("normal", st, ("pkgcm", d))]
        return [("normal", st, ("call", d or m, e.lineno, e.col_offset))] + self.exc(st)

    def static(self, d):
        """an expression evaluated when the module is loaded"""
        if isinstance(d, ast.Constant):
            return ("const", d.value)
        if isinstance(d, (ast.Name, ast.Attribute)) and self.name(d) in ("sys.stdout", "sys.__stdout__"):
            return ("stream bound at import",)
        if isinstance(d, ast.Call) and self.name(d.func) in OPENERS:
            return ("module file", d.lineno)
        return ("param", ast.unparse(d))

    def enter_fn(self, f, vs, e, st, shift=0):
        self.depth += 1
        try:
            names = [a.arg for a in f.args.posonlyargs + f.args.args]
            loc = {}
            for n, v in zip(names, vs[:len(e.args) + shift]):
                loc[n] = v
            for k, v in zip(e.keywords, vs[len(e.args) + shift:]):
                if k.arg:
                    loc[k.arg] = v
            for n, d in zip(names[len(names) - len(f.args.defaults):], f.args.defaults):
                loc.setdefault(n, self.static(d))
            for n in names:
                loc.setdefault(n, ("param", n))
            s = st.copy(loc=loc)
            out = []
            for k, s2, v in self.block(f.body, s, set(globals_of(f))):
                s2 = s2.copy(loc=dict(st.loc))
                if k in ("normal", "return"):
                    out.append(("normal", s2, v if k == "return" else NONE))
                else:
                    out.append((k, s2, v))
            return dedupe(out)
        finally:
            self.depth -= 1

    def do_yield(self, e, st):
        res = []
        for k, s, v in self.ev(e.value, st):
            if k != "normal":
                res.append((k, s, v))
                continue
            self.yields.append(s.out)
            states = [s, s.copy(out=("stream the silenced block put in place",))]
            if self.nested and self.depth == 0 and self.current is not None:
                old = self.nested
                self.nested = False
                try:
                    inner = s.copy(loc={a.arg: ("param2", a.arg) for a in self.current.args.args})
                    for k2, s2, _ in self.block(self.current.body, inner, set(globals_of(self.current))):
                        if k2 in ("normal", "return"):
                            states.append(s2.copy(loc=dict(s.loc)))
                finally:
                    self.nested = old
            for q in states:
                res.append(("normal", q, NONE))
                for _, r, x in self.exc(q):
                    r.raised = True
                    res.append(("raise", r, x))
        return res

    # ---- context managers
    def enter(self, v, st, nd):
        if v[0] == "redirect":
            return [("normal", st.copy(out=v[1], attrs=dict(st.attrs, **{})), v[1])] if not self._save(v, st) else None
        if v[0] == "closing":
            return [("normal", st, v[1])]
        return [("normal", st, v)]

    def _save(self, v, st):
        st.attrs[(v, "$old")] = st.out
        return False

    def leave(self, v, st):
        """effect of __exit__"""
        if v[0] == "file":
            return st.copy(closed=st.closed | {v})
        if v[0] == "closing":
            return st.copy(closed=st.closed | {v[1]})
        if v[0] == "redirect":
            return st.copy(out=st.attrs.get((v, "$old"), st.out))
        if v[0] == "stack":
            mine = [p for p in st.pend if p[0] == v]
            st = st.copy(pend=tuple(p for p in st.pend if p[0] != v))
            for _, kind, x in reversed(mine):
                if kind == "cm":
                    st = self.leave(x, st)
                elif kind == "close":
                    st = st.copy(closed=st.closed | {x})
                elif kind == "set":
                    st = st.copy(out=x)
            return st
        return st

    def swallows(self, v, x):
        return v[0] == "suppress" and any(n in ("Exception", "BaseException") for n in v[1:]) and (x[1] == "Exception" or "BaseException" in v[1:])

    # ---- statements
    def block(self, stmts, st, gl):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                self.paths += 1
                if self.paths > MAXPATHS:
                    raise TooMany()
                for o in self.stmt(s, c, gl):
                    (nxt if o[0] == "normal" else done).append(o)
            cur = [o[1] for o in dedupe(nxt)]
        return dedupe([("normal", c, NONE) for c in cur] + done)

    def assign(self, t, v, st, gl):
        st = st.copy()
        if isinstance(t, ast.Name):
            (st.glob if t.id in gl else st.loc)[t.id] = v
        elif isinstance(t, ast.Attribute):
            if self.name(t) == "sys.stdout":
                st.out = v
            else:
                b = self.ev(t.value, st)[0][2]
                st.attrs[(b, t.attr)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                st = self.assign(x, v[i + 1] if v[0] == "tuple" and len(v) == len(t.elts) + 1 else ("item", v, i), st, gl)
        elif isinstance(t, ast.Subscript):
            pass
        return st

    def stmt(self, s, st, gl):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Delete)):
            return [("normal", st, NONE)]
        if isinstance(s, ast.Expr):
            return [(k, q, NONE if k == "normal" else v) for k, q, v in self.ev(s.value, st)]
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            out = []
            if s.value is None:
                return [("normal", st, NONE)]
            for k, q, v in self.ev(s.value, st):
                if k != "normal":
                    out.append((k, q, v))
                    continue
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    q = self.assign(t, v if not isinstance(s, ast.AugAssign) else self.fresh("aug"), q, gl)
                out.append(("normal", q, NONE))
                if any(isinstance(t, ast.Subscript) for t in ts):
                    out += self.exc(q)
            return out
        if isinstance(s, ast.Return):
            return [("return" if k == "normal" else k, q, v) for k, q, v in self.ev(s.value, st)]
        if isinstance(s, ast.Raise):
            return [("raise", st, ("exc", "Exception"))]
        if isinstance(s, ast.Assert):
            return [("normal", st, NONE), ("raise", st.copy(), ("exc", "Exception"))]
        if isinstance(s, ast.If):
            out = []
            for k, q, v in self.ev(s.test, st):
                if k != "normal":
                    out.append((k, q, v))
                    continue
                b = truth(s.test, q, self)
                if b is not False:
                    out += self.block(s.body, q.copy(), gl)
                if b is not True:
                    out += self.block(s.orelse, q.copy(), gl)
            return dedupe(out)
        if isinstance(s, (ast.For, ast.While)):
            out = []
            head = s.iter if isinstance(s, ast.For) else s.test
            states = []
            for k, q, v in self.ev(head, st):
                if k != "normal":
                    out.append((k, q, v))
                else:
                    states.append(q)
            exits = list(states)
            cur = states
            for _ in range(2):
                nxt = []
                for q in cur:
                    q = q.copy()
                    if isinstance(s, ast.For):
                        q = self.assign(s.target, self.fresh("item"), q, gl)
                    for k, r, v in self.block(s.body, q, gl):
                        if k in ("normal", "continue"):
                            nxt.append(r)
                        elif k == "break":
                            exits.append(r)
                        else:
                            out.append((k, r, v))
                cur = [o[1] for o in dedupe([("normal", r, NONE) for r in nxt])]
                exits += cur
            for q in exits:
                out += self.block(s.orelse, q, gl) if s.orelse else [("normal", q, NONE)]
            return dedupe(out)
        if isinstance(s, ast.Break):
            return [("break", st, NONE)]
        if isinstance(s, ast.Continue):
            return [("continue", st, NONE)]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, list(s.items), st, gl)
        if isinstance(s, ast.Try):
            return self.try_(s, st, gl)
        self.notes.add("statement " + type(s).__name__)
        return [("normal", st, NONE)]

    def with_(self, s, items, st, gl):
        if not items:
            return self.block(s.body, st, gl)
        it = items[0]
        out = []
        for k, q, v in self.ev(it.context_expr, st):
            if k != "normal":
                out.append((k, q, v))
                continue
            for k2, q2, ent in self.enter(v, q, s):
                if k2 != "normal":
                    out.append((k2, q2, ent))
                    continue
                if it.optional_vars is not None:
                    q2 = self.assign(it.optional_vars, ent, q2, gl)
                for k3, q3, x in self.with_(s, items[1:], q2, gl):
                    q3 = self.leave(v, q3)
                    if k3 == "raise" and v[0] == "suppress":
                        out.append(("normal", q3, NONE))
                        if not self.swallows(v, x):
                            out.append((k3, q3, x))
                    else:
                        out.append((k3, q3, x))
        return dedupe(out)

    def try_(self, s, st, gl):
        body = self.block(s.body, st, gl)
        res = []
        for k, q, v in body:
            if k == "normal" and s.orelse:
                res += self.block(s.orelse, q, gl)
            elif k == "raise" and s.handlers:
                caught = False
                for h in s.handlers:
                    names = [] if h.type is None else [dotted(x) or "?" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    certain = h.type is None or "BaseException" in names or ("Exception" in names and v[1] == "Exception")
                    possible = certain or (v[1] == "Exception" and not caught)
                    if caught or not possible or (v[1] == "Base" and not certain and not any(n in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") for n in names)):
                        continue
                    q2 = q.copy()
                    if h.name:
                        q2.loc[h.name] = v
                    for k3, q3, x in self.block(h.body, q2, gl):
                        res.append((k3, q3, v if k3 == "raise" else x))
                    if certain:
                        caught = True
                if not caught:
                    res.append((k, q, v))
            else:
                res.append((k, q, v))
        if s.finalbody:
            out = []
            for k, q, v in dedupe(res):
                for k2, q2, v2 in self.block(s.finalbody, q, gl):
                    out.append((k, q2, v) if k2 == "normal" else (k2, q2, v2))
            res = out
        return dedupe(res)


SILENCERS = set()       # names of the context managers that replace standard output


def silencer(v):
    return v[0] in ("pkgcm", "call") and len(v) > 1 and str(v[1]).split(".")[-1] in SILENCERS or v[0] == "redirect"


def truth(test, st, ex):
    """known outcome of simple identity tests"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
        a = ex.ev(test.left, st)[0][2]
        b = ex.ev(test.comparators[0], st)[0][2]
        if a == b:
            return isinstance(test.ops[0], ast.Is)
        if NONE in (a, b) and (a if b == NONE else b)[0] in ("entry", "file", "stringio", "redirect"):
            return isinstance(test.ops[0], ast.IsNot)
    return None


def dedupe(outs):
    seen, res = set(), []
    for o in outs:
        k = (o[0], o[1].key(), o[2])
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


def is_gen(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f))


def own(f):
    st = list(f.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def globals_of(f):
    return [n for x in own(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names]


def imports(tree):
    al = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.asname:
                    al[a.asname] = a.name
        elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
            for a in x.names:
                al[a.asname or a.name] = x.module + "." + a.name
    return al


def module_tokens(tree, ex):
    """values of module-level names that hold a stream"""
    g = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            d = ex.name(s.value) if isinstance(s.value, (ast.Name, ast.Attribute)) else None
            if d in ("sys.stdout", "sys.__stdout__"):
                g[s.targets[0].id] = ("stream bound at import",)
            elif isinstance(s.value, ast.Call) and ex.name(s.value.func) in OPENERS:
                g[s.targets[0].id] = ("module file", s.lineno)
            elif isinstance(s.value, ast.Constant):
                g[s.targets[0].id] = ("const", s.value.value)
    return g


def params(f, ex):
    pos = f.args.posonlyargs + f.args.args
    loc = {a.arg: ("param", a.arg) for a in pos + f.args.kwonlyargs}
    for a, d in list(zip(pos[len(pos) - len(f.args.defaults):], f.args.defaults)) + [x for x in zip(f.args.kwonlyargs, f.args.kw_defaults) if x[1] is not None]:
        t = ex.static(d)
        if t[0] in ("stream bound at import", "module file"):
            loc[a.arg] = t
    return loc


def run_function(f, tree):
    """outcomes of a call: (kind, final state, initial state)"""
    fns = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
    ex = Exec(fns, aliases=imports(tree))
    ex.current = f
    st = St(params(f, ex), module_tokens(tree, ex), ENTRY)
    return ex.block(f.body, st, set(globals_of(f))), ex


def run_class(cls, tree):
    """enter, body, exit of a context manager class"""
    fns = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
    ms = {x.name: x for x in cls.body if isinstance(x, ast.FunctionDef)}
    ex = Exec(fns, ms, aliases=imports(tree))
    base = St({}, module_tokens(tree, ex), ENTRY)
    for b in cls.body:      # class attributes
        if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
            for o in (("name", cls.name), ("self", "outer"), ("self", "inner")):
                base.attrs[(o, b.targets[0].id)] = ex.static(b.value)

    def life(st, me, nest):
        """states after entering, using and leaving one instance"""
        outs = []
        if "__init__" in ms:
            a = ms["__init__"].args.args
            q = st.copy(loc=dict([(a[0].arg, me)] + [(x.arg, t) for x, t in zip(a[1:], [params(ms["__init__"], ex)[x.arg] for x in a[1:]])]))
            firsts = [(k, s.copy(loc={})) for k, s, v in ex.block(ms["__init__"].body, q, set(globals_of(ms["__init__"])))]
        else:
            firsts = [("normal", st)]
        for k, s in firsts:
            if k == "raise":
                outs.append((k, s, False))
                continue
            e = ms["__enter__"]
            s = s.copy(loc={e.args.args[0].arg: me})
            for k2, s2, v2 in ex.block(e.body, s, set(globals_of(e))):
                if k2 == "raise":
                    outs.append((k2, s2, False))
                    continue
                inside = [s2]
                if nest:
                    inside += [x for kk, x, _ in life(s2.copy(loc={}), ("self", "inner"), False) if kk == "normal"]
                for s3 in inside:
                    for how in ("normal", "raise"):
                        x = ms["__exit__"]
                        nm = [a.arg for a in x.args.args]
                        q = s3.copy(loc=dict([(nm[0], me)] + [(n, ("excinfo",) if how == "raise" else NONE) for n in nm[1:]] +
                                             ([(x.args.vararg.arg, ("excinfo",))] if x.args.vararg else [])))
                        for k4, s4, v4 in ex.block(x.body, q, set(globals_of(x))):
                            if k4 == "raise":
                                outs.append(("raise", s4, False))
                            elif how == "raise":
                                sw = k4 == "return" and v4 not in (NONE, ("const", False), ("const", 0))
                                outs.append(("normal" if sw else "raise", s4, sw))
                            else:
                                outs.append(("normal", s4, False))
        return outs
    return life(base, ("self", "outer"), True), ex
