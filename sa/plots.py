"""C27: what the plotting functions draw."""
from . import terms as tm
from .terms import (sym, const, num, node, TRUE, FALSE, NONE, and_, or_, not_, ite, cmp_, add, sub, mul, neg, conj, realpart, absv, show, subterms)
from .model import Session, scalar, integer, Gone
from .interp import Data, Ref, Tup, ListCell, AnalysisError
from .check import clip
from .operators import L, B, J, DIRS, SPIN, W, SHAPE
from .arrays import ixsym, inrange
from .numerics import entries, shape_is
from .lib import mk_getitem, mk_max, mk_len

OKH = ("amax", "amin", "argmax", "argmin", "store", "concat", "full", "flat", "ext", "proj", "mod", "floordiv")
NAN = const(float("nan"))
BIG = num(256)


def np_(s, name, *args):
    return s.T(s.call(s.it.lib.lib_value("numpy." + name), *args))


def calls(s, since, *ends):
    """feasible library calls whose name ends so, in order"""
    out = []
    for e in s.it.events[since:]:
        if e.kind == "call" and e.name.split(".")[-1] in ends:
            pc = s.it.full_pc(e)
            if pc is not FALSE:
                out.append((pc, e))
    return out


def arg(e, i, *names):
    for n in names:
        if n in e.kwargs:
            return e.kwargs[n]
    return e.args[i] if len(e.args) > i else None


def image(s, name, real=True, shape=None):
    return Data(sym(name, ndim=2, pytype="ndarray", shape=shape or SHAPE, len=(shape or SHAPE).args[0], real=real), s.it.newloc())


def has_term(t, x):
    return any(y is x for y in tm.subterms(t))


def ext(t, name):
    return t is not None and t.head == "ext" and t.args[0] == name


def plot_map(c, root):
    where = "pxmcmc/plotting.py plot_map"
    i, j = ixsym("i", L), ixsym("j", W)
    bi, bj = ixsym("i", BIG), ixsym("j", num(511))
    for over in (True, False):
        for masked in (False, True):
            for centre in (False, True):
                for lim in ("given", "default"):
                    s = Session(root)
                    f = image(s, "own_f")
                    shape = node("tuple", BIG, num(511)) if over else SHAPE
                    m = image(s, "own_mask", shape=shape)
                    m.term.props["boolean"] = True
                    kw = dict(title=sym("title", string=True, pytype="str"), oversample=over, centre0=centre, cbar=scalar("cbar"),
                              cbar_label=sym("label", string=True, pytype="str"))
                    if masked:
                        kw["mask"] = m
                    vmin = vmax = NONE
                    if lim == "given":
                        vmin, vmax = scalar("vmin"), scalar("vmax")
                        kw.update(vmin=vmin, vmax=vmax)
                    n = len(s.it.events)
                    r = s.T(s.call(s.get("plotting", "plot_map"), f, **kw))
                    c.seen(s)
                    label = "map%s%s%s, limits %s" % (" oversampled" if over else " at its own bandlimit", ", masked" if masked else "", ", centred" if centre else "", lim)
                    draw = calls(s, n, "imshow", "pcolormesh", "matshow", "contourf")
                    c.sites += len(draw)
                    c.eq(label + ": the map is drawn whatever the other options", or_(*[p for p, _ in draw]) if draw else FALSE, TRUE, where=where)
                    figs = calls(s, n, "figure", "subplots", "subplot_mosaic")
                    figs = [e for _, e in figs if e.name.startswith("matplotlib")]
                    ok = any(r is e.term or r.head == "proj" and r.args[0] is e.term and r.args[1] == 0 or ext(r, "matplotlib.pyplot.gcf") for e in figs)
                    c.fact(label + ": the figure drawn on is returned", True if ok else (False if r is NONE else None), clip(show(r), 120), where)
                    for k, (pc, e) in enumerate(draw):
                        lab = label + (" (drawing %d)" % (k + 1) if len(draw) > 1 else "")
                        if not e.name.endswith("imshow"):
                            c.open(lab, "drawn with " + e.name, e.where)
                            continue
                        x = arg(e, 0, "X")
                        if figs and ok and not has_term(e.recv if hasattr(e, "recv") else r, r) and not e.name.startswith("matplotlib"):
                            c.open(lab + ": drawn on the returned figure", clip(show(e.recv), 120), e.where)
                        if not (x.head == "proj" and x.args[1] == 0 and ext(x.args[0], "pyssht.mollweide_projection")):
                            c.open(lab + ": shows the projection of the map", clip(show(x), 160), e.where)
                            continue
                        pr = x.args[0]
                        a, pl = pr.args[1], pr.args[2] if len(pr.args) > 2 else NONE
                        if pl.head == "kw":
                            pl = pl.args[1]
                        c.eq(lab + ": projected at the bandlimit of the map", pl, BIG if over else L, where=e.where)
                        org = arg(e, 99, "origin")
                        if org is not None and org.head == "const":
                            c.fact(lab + ": north is up", org is const("lower"), "origin " + show(org), e.where)
                        elif org is None:
                            c.bad(lab + ": north is up", "imshow draws the first row, the south, at the top", e.where)
                        if over:
                            base = oversampled(c, lab, s, a, f.term, e.where)
                            if base is None:
                                continue
                            ix = [bi, bj]
                        else:
                            base, ix = f.term, [i, j]
                        e0 = mk_getitem(base, node("tuple", *ix))
                        if masked and any(x.head == "store" and x.args[1].head == "cast" and x.args[1].args[0] in ("int", const("int")) and m.term in subterms(x.args[1])
                                          for x in subterms(a)):
                            c.bad(lab + ": masked pixels are blank", "the mask is used as row numbers", e.where)
                        elif masked:
                            on = tm.truth(mk_getitem(m.term, node("tuple", *ix)))
                            entries(c, lab + ": masked pixels are blank", a, ix, NAN, assume=and_(inrange(*ix), on), where=e.where)
                            entries(c, lab + ": other pixels show the map", a, ix, e0, assume=and_(inrange(*ix), not_(on)), where=e.where)
                        else:
                            entries(c, lab + ": pixels show the map", a, ix, e0, where=e.where)
                        lo, hi = arg(e, 99, "vmin"), arg(e, 99, "vmax")
                        lo, hi = lo if lo is not None else NONE, hi if hi is not None else NONE
                        if e.kwargs.get("norm") is not None or "clim" in e.kwargs:
                            c.open(lab + ": colour limits", "given through a norm", e.where)
                        elif not centre:
                            c.eq(lab + ": lower colour limit as requested", lo, vmin, where=e.where, soft_ok=OKH)
                            c.eq(lab + ": upper colour limit as requested", hi, vmax, where=e.where, soft_ok=OKH)
                        else:
                            top = mk_max(am(s, "amax", base), absv(am(s, "amin", base)))
                            alts = [np_(s, "max", absv(base)), mk_max(absv(am(s, "amax", base)), absv(am(s, "amin", base))),
                                    mk_max(am(s, "amax", base), neg(am(s, "amin", base)))]
                            if lo is NONE or hi is NONE:
                                c.bad(lab + ": colour limits are symmetric", "no limits passed", e.where)
                                continue
                            c.eq(lab + ": colour limits are symmetric around zero", add(lo, hi), num(0), where=e.where, soft_ok=OKH)
                            c.eq(lab + ": colour limits span the map", hi, top, where=e.where, alt=alts, soft_ok=OKH)
                    sets = calls(s, n, "set_title", "suptitle", "title")
                    if sets:
                        c.fact(label + ": the title is shown", any(arg(e, 0, "label", "t", "s") is kw["title"] for _, e in sets), "", where)


def am(s, head, t):
    return np_(s, head, t)


def oversampled(c, lab, s, a, f, where):
    """the term of the oversampled map inside a, after judging that it is the zero-padded spectrum of f"""
    inv = [t for t in tm.subterms(a) if ext(t, "pyssht.inverse")]
    inv = [t for t in inv if not any(t is not u and has_term(u, t) for u in inv)]
    if len(inv) != 1:
        # nothing synthesised: the map itself at the wrong resolution
        if not inv and not any(t.head == "ext" and t.args[0].split(".")[0] in ("pyssht", "healpy", "pys2let", "scipy") for t in tm.subterms(a)):
            c.bad(lab + ": oversampled to bandlimit 256", "no synthesis at bandlimit 256: " + clip(show(a), 120), where)
        else:
            c.open(lab + ": oversampled to bandlimit 256", clip(show(a), 160), where)
        return None
    t = inv[0]
    flm, lt, spin, meth, real = t.args[1:6]
    c.eq(lab + ": oversampled to bandlimit 256", lt, BIG, where=where)
    c.eq(lab + ": oversampled as a spin 0 MW map", node("tuple", spin, meth), node("tuple", num(0), const("MW")), where=where)
    fw = [x for x in tm.subterms(flm) if ext(x, "pyssht.forward")]
    if len(fw) != 1:
        c.open(lab + ": spectrum of the map", clip(show(flm), 160), where)
        return t
    w = fw[0]
    c.eq(lab + ": the spectrum is that of the given map", w.args[1], f, where=where, soft_ok=OKH)
    c.eq(lab + ": analysed at its own bandlimit", w.args[2], L, where=where)
    c.eq(lab + ": analysed as a spin 0 MW map", node("tuple", w.args[3], w.args[4]), node("tuple", num(0), const("MW")), where=where)
    p = ixsym("p", mul(L, L))
    z = sym("z", scalar=True, real=True, integer=True, nonneg=True)
    small = cmp_("<=", mul(L, L), num(65536))
    entries(c, lab + ": its coefficients are kept", flm, [p], mk_getitem(w, p), assume=and_(inrange(p), small), where=where)
    entries(c, lab + ": and padded with zeros", flm, [z], num(0), assume=and_(cmp_("<=", mul(L, L), z), cmp_("<", z, num(65536)), small), where=where)
    return t


def plot_evolution(c, root):
    where = "pxmcmc/plotting.py plot_evolution"
    s = Session(root)
    n_ = integer("N", pos=True)
    v = [Data(sym(k, vec=True, ndim=1, pytype="ndarray", real=True, len=n_), s.it.newloc()) for k in ("logposteriors", "L2s", "L1s")]
    n = len(s.it.events)
    r = s.T(s.call(s.get("plotting", "plot_evolution"), *v))
    c.seen(s)
    want = [neg(v[0].term), v[1].term, v[2].term]
    names = ["minus the log posterior", "the misfit", "the prior"]
    panels(c, s, n, where, "evolution", want, names, mark=v[0].term)
    returned(c, s, n, r, "evolution", where)


def returned(c, s, n, r, label, where):
    figs = [e for _, e in calls(s, n, "figure", "subplots") if e.name.startswith("matplotlib")]
    ok = any(r is e.term or r.head == "proj" and r.args[0] is e.term and r.args[1] == 0 for e in figs)
    es = s.it.events[n:]
    drawn = [k for k, e in enumerate(es) if e.kind == "call" and e.name.split(".")[-1] in ("plot", "semilogy", "loglog", "imshow", "scatter", "hist")]
    late = [k for k, e in enumerate(es) if e in figs and drawn and k > drawn[-1]]
    if ok and late:
        ok = False
        c.bad(label + ": the figure drawn on is returned", "another figure is made after the drawing", es[late[-1]].where)
        return
    c.fact(label + ": the figure drawn on is returned", True if ok else (False if r is NONE else None), clip(show(r), 120), where)


def panels(c, s, n, where, label, want, names, mark=None):
    """the drawn lines, panel by panel"""
    cur, lines, marks, unknown = None, [], {}, 0
    for e in s.it.events[n:]:
        if e.kind != "call" or s.it.full_pc(e) is FALSE:
            continue
        last = e.name.split(".")[-1]
        pl = e.name.startswith("matplotlib.pyplot")
        if pl and last == "subplot":
            a = e.args
            cur = a[2] if len(a) >= 3 else (num(tm.int_val(a[0]) % 10) if len(a) == 1 and tm.int_val(a[0]) else None)
        key = cur if pl else getattr(e, "recv", None)
        if last in ("plot", "semilogy", "loglog"):
            y = e.args[1] if len(e.args) > 1 and e.args[1].head != "const" else (e.args[0] if e.args else NONE)
            lines.append((key, y, e))
        elif last == "axvline":
            marks.setdefault(key, []).append((arg(e, 0, "x"), e))
        elif last in ("vlines", "scatter", "stem"):
            unknown += 1
    c.sites += len(lines)
    if len(lines) != len(want):
        (c.open if len(lines) > len(want) or any(e.kind == "call" and e.name.split(".")[-1] in ("scatter", "stairs", "step", "errorbar", "line") for e in s.it.events[n:]) or s_loops(s, n) else c.bad)(
            "%s: one line per panel" % label, "%d lines" % len(lines), where)
        return
    for k, (key, y, e) in enumerate(lines):
        c.eq("%s: panel %d shows %s" % (label, k + 1, names[k]), y, want[k], where=e.where, soft_ok=tuple(OKH) + (("angle", "ext:numpy.angle") if y.head in ("angle", "ext") and len(y.args) <= 2 else ()))
    keys = [k for k, _, _ in lines]
    def panel(k):
        """position of add_subplot(nrows, ncols, index)"""
        if k is not None and k.head in ("meth", "ext") and any(a == "add_subplot" or isinstance(a, str) and a.endswith(".add_subplot") for a in k.args):
            a = [x for x in k.args if isinstance(x, tm.Term) and tm.int_val(x) is not None]
            if len(a) == 3:
                return a[2]
            if len(a) == 1 and tm.int_val(a[0]) > 100:
                return num(tm.int_val(a[0]) % 10)
        return k
    keys = [panel(k) for k in keys]
    idx = [tm.int_val(k) if k is not None and tm.int_val(k) is not None else
           (tm.int_val(k.args[1]) if k is not None and k.head in ("getitem", "proj") and isinstance(k.args[1], tm.Term) else None) for k in keys]
    if None in idx:
        c.open("%s: panels in order" % label, "panels %s" % [show(k) if k is not None else "?" for k in keys], where)
    else:
        c.fact("%s: panels in order" % label, idx == sorted(set(idx)), "panels %s" % idx, where)
    if mark is None:
        return
    for k, (key, y, e) in enumerate(lines):
        ms = marks.get(key, [])
        nm = "%s: panel %d is marked at the sample of highest log posterior" % (label, k + 1)
        if not ms:
            (c.open if unknown else c.bad)(nm, "no mark", e.where)
            continue
        best = np_(s, "argmax", mark)
        x = ms[0][0]
        alts = [np_(s, "argmin", neg(mark))]
        c.eq(nm, x, best, where=ms[0][1].where, alt=alts, soft_ok=OKH)


def s_loops(s, n):
    return any(e.loops for e in s.it.events[n:] if e.kind == "call")


def plot_chain(c, root):
    where = "pxmcmc/plotting.py plot_chain_sample"
    s = Session(root)
    x = Data(sym("X", vec=True, ndim=1, pytype="ndarray", len=integer("N", pos=True)), s.it.newloc())
    n = len(s.it.events)
    r = s.T(s.call(s.get("plotting", "plot_chain_sample"), x))
    c.seen(s)
    panels(c, s, n, where, "chain sample", [realpart(x.term), np_(s, "imag", x.term)], ["the real part", "the imaginary part"])
    returned(c, s, n, r, "chain sample", where)


def mollview(c, root):
    where = "pxmcmc/plotting.py mollview"
    s = Session(root)
    x = Data(sym("image", vec=True, ndim=1, pytype="ndarray", len=integer("N", pos=True), real=True), s.it.newloc())
    n = len(s.it.events)
    r = s.T(s.call(s.get("plotting", "mollview"), x, title="T"))
    c.seen(s)
    hp = [(p, e) for p, e in calls(s, n, "mollview") if e.name.startswith("healpy")]
    if not hp:
        c.bad("mollview: healpy draws the image", "healpy.mollview is not called", where)
        return
    p, e = hp[0]
    c.eq("mollview: healpy draws the image", and_(p, cmp_("==", num(0), num(0))), TRUE, where=e.where)
    c.eq("mollview: the image is the one given", arg(e, 0, "map"), x.term, where=e.where)
    c.fact("mollview: options are passed on", e.kwargs.get("title") is const("T") or None, "", e.where)
    figs = [f for _, f in calls(s, n, "figure") if f.name.startswith("matplotlib")]
    ok = [f for f in figs if f.term is r]
    c.fact("mollview: the figure is returned", True if ok else (False if r is NONE else None), clip(show(r), 120), where)
    if ok and "fig" in e.kwargs:
        num_ = arg(ok[0], 0, "num")
        if num_ is None:
            c.fact("mollview: healpy draws on the returned figure", None, "", e.where)
        else:
            c.eq("mollview: healpy draws on the returned figure", e.kwargs["fig"], num_, where=e.where)


def plot_wavelets(c, root, layout=False):
    where = "pxmcmc/plotting.py plot_wavelet_maps"
    for same in (True, False):
        for titled in (True, False) if not layout else (True,):
            s = Session(root)
            bs = [integer("b%d" % k, pos=True) for k in range(4)]
            made = []
            pm = s.get("plotting", "plot_map")
            names = [a.arg for a in pm.node.args.args]

            def fake_map(interp, st, args, nd):
                t = node("figure_no", num(len(made)))
                made.append((dict(zip(names, args)), interp.full_pc(interp.event("mapcall", st, nd)) if False else st.pc, interp.where(nd) if nd is not None else where, st.copy()))
                return Data(t)

            asked = []

            def fake_bls(interp, st, args, nd):
                asked.append([interp.T(x, st) for x in args])
                return interp.call(interp.lib.lib_value("numpy.array"), [interp.new_list(st, [Data(b) for b in bs])], {}, st, nd)
            s.it.summaries["plotting.plot_map"] = fake_map
            s.it.summaries["utils._multires_bandlimits"] = fake_bls
            f = image(s, "own_f")
            n = len(s.it.events)
            umax, umin = scalar("umax"), scalar("umin")
            kw = dict(same_scale=same, vmax=umax, vmin=umin, oversample=False)
            if titled:
                kw["title"] = "T"
            r = s.call(s.get("plotting", "plot_wavelet_maps"), f, L, B, J, DIRS, SPIN, **kw)
            c.seen(s)
            label = "wavelet maps%s%s" % (", one scale" if same else "", ", titled" if titled else "")
            an = [e for _, e in calls(s, n, "analysis_px2wav")]
            if len(an) != 1:
                c.open(label + ": one wavelet analysis", "%d calls" % len(an), where)
                continue
            e = an[0]
            wav, scal = node("proj", e.term, 0), node("proj", e.term, 1)
            i, j = ixsym("i", L), ixsym("j", W)
            entries(c, label + ": the given map is analysed", arg(e, 0, "f"), [add(mul(i, W), j)], mk_getitem(f.term, node("tuple", i, j)), assume=inrange(i, j), where=e.where, soft_ok=OKH)
            got = [arg(e, k, x) for k, x in enumerate(("f", "B", "L", "J_min", "N", "spin")) if k]
            c.eq(label + ": with the given bandlimit, scale parameter, first scale, directions and spin", node("tuple", *[x if x is not None else NONE for x in got]),
                 node("tuple", B, L, J, DIRS, SPIN), where=e.where)
            for a in asked if not layout else ():
                c.eq(label + ": bandlimits of the given tiling", node("tuple", *a[:5]), node("tuple", L, B, J, DIRS, SPIN), where=where)
            up = e.kwargs.get("upsample")
            c.eq(label + ": at multiresolution", up if up is not None else num(0), num(0), where=e.where)
            if len(made) != len(bs):
                (c.open if len(made) == 0 or s_loops(s, n) else c.bad)(label + ": one map per scale and the scaling function", "%d maps for %d bandlimits" % (len(made), len(bs)), where)
                continue
            start = num(0)
            ret = ret_items(s, r)
            c.fact(label + ": figures returned in order", None if ret is None else all(x is node("figure_no", num(k)) for k, x in enumerate(ret)) and len(ret) == len(bs), "", where)
            tops = []
            for k, (a, pc, w, st) in enumerate(made):
                b = bs[k]
                T = lambda v: s.it.T(v, st)
                wd = sub(mul(num(2), b), num(1))
                i, j = ixsym("i", b), ixsym("j", wd)
                src = scal if k == 0 else wav
                pos = add(start, add(mul(i, wd), j))
                nm = "%s: map %d" % (label, k)
                entries(c, nm + " shows " + ("the scaling function" if k == 0 else "wavelet scale %d" % k), T(a["f"]), [i, j], realpart(mk_getitem(src, pos)), where=w,
                        alt=[mk_getitem(src, pos)])
                shape_is(c, nm + " has the shape of its scale", T(a["f"]), (b, wd), w)
                fits(c, nm, T(a["f"]), w)
                if k:
                    start = add(start, mul(b, wd))
                if layout:
                    continue
                base = "T" if titled else ""
                full = base + (" Scaling function" if k == 0 else " Wavelet scale %d" % k)
                t = T(a["title"]) if "title" in a else NONE
                c.fact(nm + " is labelled", (t.args[0] is not None and t.args[0].strip() == full.strip()) if t.head == "const" else None, "title %s" % show(t), w)
                if k:
                    tops.append((T(a.get("vmax", Data(NONE))), w))
                if "oversample" in a:
                    c.eq(nm + ": drawing options are passed on", T(a["oversample"]), FALSE, where=w)
            for k, (t, w) in enumerate(tops, 1):
                if same:
                    top = realpart(np_(s, "max", wav))
                    c.eq("%s: scale %d is drawn on the common scale" % (label, k), t, top, where=w, alt=[np_(s, "max", realpart(wav))])
                else:
                    c.eq("%s: scale %d is drawn on its own scale" % (label, k), t, umax, where=w, soft_ok=OKH)


def fits(c, name, t, where):
    """a piece of a vector that is given a shape has as many entries as that shape holds"""
    for x in tm.subterms(t):
        if x.head != "reshape" or x.args[1].head != "tuple" or any(tm.is_num(d) and tm.num_val(d) < 0 for d in x.args[1].args):
            continue
        y = x.args[0]
        while y.head in ("real", "imag", "abs", "conj", "flat"):
            y = y.args[0]
        if y.head != "getitem" or y.args[1].head != "slice":
            continue
        n = mk_len(y)
        if any(z.head == "len" for z in tm.subterms(n)):
            continue
        m = num(1)
        for d in x.args[1].args:
            m = mul(m, d)
        c.eq(name + ": the piece taken fills the map", n, m, where=where)


def ret_items(s, r):
    if isinstance(r, Tup):
        return [s.T(x) for x in r.items]
    if isinstance(r, Ref):
        cell = s.st.heap.get(r.loc)
        if isinstance(cell, ListCell) and cell.items is not None:
            return [s.T(x) for x in cell.items]
    return None


def c27(c, root):
    c.assumptions += ["pyssht.mollweide_projection projects the map it is given at the bandlimit it is given", "matplotlib draws the array it is given and leaves NaN blank",
                      "bandlimits up to 256 for oversampled maps", "wavelet maps: four bandlimits stand for any number"]
    for f in (plot_map, plot_evolution, plot_chain, mollview, plot_wavelets):
        try:
            f(c, root)
        except AnalysisError as e:
            c.open(f.__name__, "analysis stopped: %s" % e)
