"""C32: order of the arguments of the public callables and what is meant when one is left out"""
import ast, os
from .effects import trees

# module, callable, arguments in order with the value meant when left out ("!" where there is none)
WAV = "L B J_min dirs=1 spin=0"
TABLE = """
forward ForwardOperator data sig_d setting transform=None measurement=None nparams=None
forward SphericalWaveletTransformOperator data sig_d setting """ + WAV + """
forward PathIntegralOperator pathmatrix data sig_d setting """ + WAV + """
mcmc PxMCMCParams lmda=3e-5 delta=1e-5 s=1 mu=1 nsamples=1000000 nburn=1000 ngap=100 complex=False verbosity=100 track=['logposterior','L2','prior','chain']
mcmc MYULA forward prox mcmcparams
mcmc PxMALA forward prox mcmcparams tune_delta=True
mcmc SKROCK forward prox mcmcparams
mcmc MYULA.run start_point=None
mcmc PxMALA.run start_point=None
mcmc SKROCK.run start_point=None
mcmc PxMCMC.logpi X preds
mcmc MYULA.chain_step X proxf gradg
mcmc PxMALA.calc_logtransition X1 X2 proxf gradg
measurements Identity ndata npix
measurements PathIntegral path_matrix
measurements WeakLensingHarmonic L mask=None ngal=None
measurements WeakLensing L mask=None ngal=None
plotting plot_map f title=None cbar=True cmap='turbo' vmin=None vmax=None cbar_label='' oversample=True centre0=False coasts=False mask=None
plotting plot_wavelet_maps f """ + WAV + """ same_scale=True
plotting mollview image figsize=(10,8)
plotting plot_evolution logposteriors L2s L1s figsize=(10,8)
plotting plot_chain_sample X figsize=(10,8)
prior L1 setting fwd adj T
prior S2_Wavelets_L1 setting fwd adj T """ + WAV + """
prior S2_Wavelets_L1_Power_Weights setting fwd adj T """ + WAV + """ eta=1
saving save_mcmc mcmc params outpath filename='outputs'
transforms SphericalWaveletTransform """ + WAV + """ harmonic=False
uncertainty credible_interval_range chain alpha=0.05
uncertainty wavelet_credible_interval_range chain L B J_min alpha=0.05
uncertainty credible_region_threshold logpis alpha=0.05
uncertainty in_credible_region logpi threshold
utils flatten_mlm wav_lm scal_lm
utils expand_mlm mlm nscales=None nscalcoefs=None flatten_wavs=False
utils soft X T=0.1
utils hard X T=0.1
utils map2alm image lmax
utils alm2map alm nside
utils chebyshev1 X order
utils chebyshev2 X order
utils cheb1der X order
utils pixel_area r theta1 theta2 phi1 phi2
utils polar_cap_area r theta
utils calc_pixel_areas L r=1
utils s2_integrate f L
utils snr signal noise
utils build_mask L size=20
"""
UNKNOWN = object()


def value(e, consts, depth=0):
    """the value of a default expression, or UNKNOWN"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = value(e.operand, consts, depth)
        return UNKNOWN if not isinstance(v, (int, float)) else -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.FloorDiv)):
        a, b = value(e.left, consts, depth), value(e.right, consts, depth)
        if all(isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e9 for v in (a, b)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.FloorDiv: lambda: a // b, ast.Pow: lambda: a ** b if abs(b) < 60 else UNKNOWN}[type(e.op)]()
            except (ArithmeticError, ValueError):
                return UNKNOWN
        return UNKNOWN
    if isinstance(e, (ast.List, ast.Tuple)):
        vs = [value(x, consts, depth) for x in e.elts]
        return UNKNOWN if UNKNOWN in vs else vs
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "float", "list", "tuple") and len(e.args) == 1 and not e.keywords:
        v = value(e.args[0], consts, depth)
        if v is UNKNOWN or e.func.id in ("list", "tuple"):
            return v if isinstance(v, list) or v is UNKNOWN else UNKNOWN
        return {"int": int, "float": float}[e.func.id](v) if isinstance(v, (int, float)) else UNKNOWN
    if isinstance(e, ast.Name) and e.id in consts and depth < 5:
        return value(consts[e.id], consts, depth + 1)
    return UNKNOWN


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b and type(a) is type(b)
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def find(tree, name, seen=()):
    """the def a call of this name runs: a function, a method, or the constructor of a class (base classes of the same module included)"""
    first, _, meth = name.partition(".")
    d = None
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == first:
            d = x
    if isinstance(d, ast.FunctionDef):
        return d if not meth and not d.decorator_list else None
    if d is None or d.decorator_list:
        return None
    fs = [x for x in d.body if isinstance(x, ast.FunctionDef) and x.name == (meth or "__init__")]
    if fs:
        return fs[-1] if not fs[-1].decorator_list else None
    for b in d.bases:
        if isinstance(b, ast.Name) and b.id not in seen:
            r = find(tree, b.id + ("." + meth if meth else ""), seen + (first,))
            if r is not None:
                return r
    return None


def c32(c, root):
    mods = {os.path.splitext(os.path.basename(p))[0]: (p, t) for p, t in trees(root)}
    for line in TABLE.split("\n"):
        if not line.strip():
            continue
        mod, name, *args = line.split(" ")
        if mod not in mods:
            c.open(name, "module not found", mod)
            continue
        path, tree = mods[mod]
        consts = {}
        for x in tree.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                n = x.targets[0].id
                consts[n] = ast.Name("?" if n in consts else n) if n in consts else x.value
        d = find(tree, name)
        if d is None:
            c.open(name, "its definition is not found in the module", path)
            continue
        where = "%s:%d" % (path, d.lineno)
        c.sites += 1
        c.analysed.add("%s.%s" % (mod, name))
        a = d.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        names = [x.arg for x in pos]
        bound = names and not (isinstance(d, ast.FunctionDef) and name.count(".") == 0 and d.name == name)
        if bound:
            names = names[1:]
        want = [x.partition("=")[0] for x in args]
        everything = names + [x.arg for x in a.kwonlyargs]
        if a.vararg or not set(want) <= set(everything):
            c.open("%s: arguments" % name, "arguments are named (%s)" % ", ".join(everything), where)
        else:
            got = [x for x in names if x in want]
            c.fact("%s: positional arguments in order" % name, names[:len(want)] == want,
                   "(%s), expected (%s)" % (", ".join(everything), ", ".join(want)), where)
            extra = [x for x in everything if x not in want and x not in dflt]
            c.fact("%s: no further argument is required" % name, not extra, ", ".join(extra), where)
        for x in args:
            n, eq, v = x.partition("=")
            if not eq or n not in everything:
                continue
            if n not in dflt:
                c.bad("%s: %s can be left out" % (name, n), "it has no default", where)
                continue
            v = value(ast.parse(v, mode="eval").body, {})
            g = value(dflt[n], consts)
            if g is None and v is not None:
                g = UNKNOWN             # a place holder, resolved in the body
            c.fact("%s: %s left out means %r" % (name, n, v), None if g is UNKNOWN else same(g, v), "default: %s" % ast.unparse(dflt[n]), where)
