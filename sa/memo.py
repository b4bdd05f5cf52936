"""Results kept from an earlier call and handed out for other arguments.

A function that stores a computed value in something that outlives the call (a module-level container, an attribute, a
mutable default argument) and later answers from there is a function of its arguments only if the stored value is looked up
by a key that determines every argument it was computed from.  The analysis follows local definitions, removes from the
stored expression whatever the key (or the guard) already determines, and reports the parameters that remain.
"""
import ast

LOSSLESS_CALLS = {"tuple", "bytes", "repr", "float", "int", "complex", "str", "list"}
LOSSLESS_METHODS = {"tobytes", "tostring", "copy", "tolist", "item"}
SHAPE = {"shape", "size", "ndim", "dtype", "nbytes", "itemsize"}
MUTABLE = {"dict", "list", "OrderedDict", "defaultdict", "set", "WeakKeyDictionary", "WeakValueDictionary"}


def own(fn):
    """nodes of a function without those of nested functions and classes"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    out += [x.arg for x in (a.vararg, a.kwarg) if x]
    return [x for x in out if x not in ("self", "cls")]


def defaults(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def is_mutable(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set)):
        return True
    return isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) in MUTABLE


def trivial(v):
    """a value that only marks a slot as empty"""
    if isinstance(v, ast.Constant) and (v.value is None or v.value is False or v.value in ("", 0, -1)):
        return True
    if isinstance(v, ast.UnaryOp):
        return trivial(v.operand)
    if isinstance(v, ast.Attribute):
        return v.attr in ("nan", "inf")
    return is_mutable(v) and not (getattr(v, "elts", None) or getattr(v, "keys", None) or getattr(v, "args", None))


def pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from pairs(a, b)
        else:
            for a in t.elts:
                yield from pairs(a, v)
    else:
        yield t, v


def stores(fn):
    """(target, value, statement)"""
    for s in own(fn):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for a, b in pairs(t, s.value):
                    yield a, b, s
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            yield s.target, s.value, s
        elif isinstance(s, ast.NamedExpr):
            yield s.target, s.value, s
        elif isinstance(s, (ast.For,)):
            for a, b in pairs(s.target, s.iter):
                yield a, b, s
        elif isinstance(s, ast.AugAssign):
            yield s.target, s.value, s
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                and s.value.func.id == "setattr" and len(s.value.args) == 3 and isinstance(s.value.args[1], ast.Constant):
            a = s.value.args
            yield ast.Attribute(a[0], a[1].value, ast.Store()), a[2], s


class Flow:
    def __init__(self, fn):
        self.fn = fn
        self.params = set(params(fn))
        self.defs = {}
        for t, v, s in stores(fn):
            while isinstance(t, (ast.Subscript, ast.Starred)):
                t = t.value
            if isinstance(t, ast.Name):
                self.defs.setdefault(t.id, []).append(v)

    def inline(self, e, depth=0, seen=()):
        """expression with single-definition locals replaced by what they were defined as"""
        me = self

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                d = me.defs.get(n.id)
                if d and len(d) == 1 and n.id not in me.params and n.id not in seen and depth < 8:
                    return me.inline(d[0], depth + 1, seen + (n.id,))
                return n
        import copy
        return R().visit(copy.deepcopy(e))

    def reach(self, e, covered, lossless, seen=None):
        """parameters an expression depends on beyond the covered subexpressions and beyond sizes"""
        seen = set() if seen is None else seen
        out = set()

        def go(x):
            if isinstance(x, ast.AST) and not isinstance(x, (ast.expr_context, ast.operator)):
                if isinstance(x, ast.expr) and ast.dump(x) in covered:
                    return
                if isinstance(x, ast.Attribute) and x.attr in SHAPE:
                    return
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "type", "isinstance"):
                    return
                if isinstance(x, ast.Name):
                    if x.id in lossless:
                        return
                    if x.id in self.defs and x.id not in seen:
                        seen.add(x.id)
                        for v in self.defs[x.id]:
                            go(self.inline(v))
                    if x.id in self.params:
                        out.add(x.id)
                    return
                for ch in ast.iter_child_nodes(x):
                    go(ch)
        go(self.inline(e))
        return out


def key_parts(flow, e):
    """(dumps of the key's components, parameters the key determines)"""
    dumps, less = set(), set()

    def go(x):
        dumps.add(ast.dump(x))
        if isinstance(x, ast.Name):
            if x.id in flow.params:
                less.add(x.id)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                go(y)
        elif isinstance(x, ast.JoinedStr):
            for y in x.values:
                if isinstance(y, ast.FormattedValue) and y.format_spec is None:
                    go(y.value)
        elif isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in LOSSLESS_CALLS and len(x.args) == 1:
                go(x.args[0])
            elif isinstance(f, ast.Attribute) and f.attr in LOSSLESS_METHODS and not x.args:
                go(f.value)
    go(flow.inline(e))
    return dumps, less


def base_of(t):
    """('global', name) / ('attr', name) of a place that outlives the call"""
    if isinstance(t, ast.Name):
        return ("name", t.id)
    if isinstance(t, ast.Attribute):
        return ("attr", t.attr)
    return None


def stale(fn, trees):
    """[(line, description)] for one function; trees: every module of the package"""
    flow = Flow(fn)
    out = []
    dfl = defaults(fn)
    locs = {t.id for t, v, s in stores(fn) if isinstance(t, ast.Name)}
    glob = {n for s in own(fn) if isinstance(s, ast.Global) for n in s.names}
    # containers looked up by key
    for t, v, s in stores(fn):
        if not isinstance(t, ast.Subscript):
            continue
        b = base_of(t.value)
        if b is None:
            continue
        if b[0] == "name":
            n = b[1]
            if n in flow.params:
                if not is_mutable(dfl.get(n, ast.Constant(0))):
                    continue
            elif n in locs and n not in glob:
                alias = [x for x in flow.defs[n]]
                src = next((x for x in alias if isinstance(x, ast.Attribute)), None)
                if not (len([x for t2, x, s2 in stores(fn) if isinstance(t2, ast.Name) and t2.id == n]) == 1 and src is not None
                        and container_attr(trees, src.attr)):
                    continue
            elif not any(module_container(tr, n) for tr in trees):
                continue
        elif not container_attr(trees, b[1]):
            continue
        if not looked_up(fn, t, b):
            continue
        dumps, less = key_parts(flow, t.slice)
        left = flow.reach(v, dumps, less) - {b[1]}
        if left:
            out.append((s.lineno, "%s keeps a result computed from %s and hands it out for key %s, which does not determine %s" % (
                fn.name, ", ".join(sorted(flow.reach(v, set(), set()) - {b[1]})), ast.unparse(t.slice), ", ".join(sorted(left)))))
    # single slots behind a guard
    parents = {}
    for x in ast.walk(fn):
        for ch in ast.iter_child_nodes(x):
            parents[ch] = x
    for t, v, s in stores(fn):
        b = base_of(t)
        if b is None or isinstance(s, (ast.AugAssign, ast.For)):
            continue
        if b[0] == "name" and b[1] not in glob:
            continue
        if not isinstance(getattr(t, "value", None), ast.Name) and b[0] == "attr":
            continue
        if b[0] == "attr" and t.value.id in locs | flow.params and t.value.id not in ("self", "cls"):
            continue
        if trivial(v) or fn.name in ("__init__", "__new__"):
            continue
        tests, x = [], s
        while x in parents:
            p = parents[x]
            if isinstance(p, ast.If) and x is not p.test:
                tests.append(p.test)
            elif isinstance(p, ast.ExceptHandler):
                tests.append(ast.Constant(True))
            elif isinstance(p, (ast.For, ast.While)):
                tests = []
                break
            x = p
        if not tests:
            continue
        if not returned(fn, flow, b, s):
            continue
        if written_elsewhere(trees, fn, b):
            continue
        dumps, less = set(), set()
        for te in tests:
            for y in ast.walk(te):
                if isinstance(y, ast.Compare):
                    for z in [y.left] + y.comparators:
                        d, l = key_parts(flow, z)
                        dumps |= d
                        less |= l
                elif isinstance(y, ast.Call) and (getattr(y.func, "attr", None) or getattr(y.func, "id", None)) in ("array_equal", "array_equiv"):
                    for z in y.args:
                        d, l = key_parts(flow, z)
                        dumps |= d
                        less |= l
        left = flow.reach(v, dumps, less)
        if left:
            out.append((s.lineno, "%s keeps %s, computed from %s, between calls and answers from it under a condition (%s) that does not determine %s" % (
                fn.name, ast.unparse(t), ", ".join(sorted(flow.reach(v, set(), set()))), " and ".join(ast.unparse(x) for x in tests)[:120], ", ".join(sorted(left)))))
    return out


def looked_up(fn, t, b):
    for x in own(fn):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and base_of(x.value) == b and ast.dump(x.slice) == ast.dump(t.slice):
            if not only_after(fn, x, t):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "setdefault") and base_of(x.func.value) == b:
            return True
        if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) and any(base_of(y) == b for y in x.comparators):
            return True
    return False


def only_after(fn, load, store):
    """the load follows the store in the same straight line, so it always reads what this call stored"""
    return False if not top_level(fn, store) else load.lineno > store.lineno


def top_level(fn, t):
    return any(any(t is y for y in ast.walk(s)) for s in fn.body if isinstance(s, (ast.Assign, ast.AnnAssign)))


def returned(fn, flow, b, s):
    """the slot is read somewhere in the function other than in a guard"""
    for x in own(fn):
        if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(getattr(x, "ctx", None), ast.Load) and base_of(x) == b:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) > 1 \
                and isinstance(x.args[1], ast.Constant) and x.args[1].value == b[1]:
            return True
    return False


def written_elsewhere(trees, fn, b):
    """some other function gives the slot a meaningful value: it is state, not a memo"""
    for tr in trees:
        for f in ast.walk(tr):
            if isinstance(f, ast.FunctionDef) and f is not fn and not (f.name == fn.name and f.lineno == fn.lineno):
                for t, v, s in stores(f):
                    if base_of(t) == b and not trivial(v):
                        return True
        if b[0] == "name":
            for s in tr.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b[1] for t in s.targets) and not trivial(s.value):
                    return True
    return False


def module_container(tree, n):
    for s in tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and is_mutable(s.value):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == n for t in ts):
                return True
    return False


def container_attr(trees, name):
    """an attribute that starts out as an empty container (in a class body, in __init__ or on a function)"""
    for tr in trees:
        for x in ast.walk(tr):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and is_mutable(x.value) and trivial(x.value):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    if base_of(t) and base_of(t)[1] == name:
                        return True
    return False
