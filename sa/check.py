"""Obligations, verdicts, reports and evidence."""
import json
import os
import sys
import time
import traceback
from . import terms as tm
from .terms import TRUE, FALSE, and_, not_, show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")

# heads that never are an algebraic rewriting of something else: if the code applies one that the
# specification does not have, the values differ
HARD = {"round", "cast", "clip", "sort", "flip", "isnan", "nan_to_num", "normal", "uniform", "laplace", "meth", "apply",
        "conj", "real", "imag", "abs", "sign", "const", "poly", "sym", "ite", "cmp", "and", "or", "not", "sumall", "matmul",
        "numpy.around", "numpy.round", "numpy.nan_to_num", "ext:numpy.nansum", "ext:numpy.nanmean", "ext:numpy.nanmax", "ext:numpy.nanmin", "ext:numpy.fft.fftshift",
        "numpy.fft.fftshift", "numpy.fft.ifft", "ext:numpy.fft.ifft", "ext:numpy.nanquantile", "ext:numpy.nanpercentile", "I", "eqc", "isnone", "bool", "getitem", "attr", "len", "tuple", "T", "eye", "eyek", "diag"}
# heads that stand for something the analysis did not resolve
SOFT_PREFIX = ("opaque", "loopval", "never", "super", "unbound", "rec", "mu", "psum", "exc")


class Undecided(Exception):
    pass


class Check:
    def __init__(self, pid, title=""):
        self.pid, self.title = pid, title
        self.obl = []           # (name, status, detail, where)
        self.notes = []
        self.analysed = set()
        self.sites = 0
        self.gone = []
        self.t0 = time.time()
        self.assumptions = []
        self.samples = []

    # ---- recording
    def ok(self, name, detail="", where=""):
        self.obl.append((name, "ok", detail, where))

    def bad(self, name, detail="", where=""):
        self.obl.append((name, "violation", detail, where))

    def open(self, name, detail="", where=""):
        self.obl.append((name, "undecided", detail, where))

    def fact(self, name, truth, detail="", where=""):
        """truth: True / False / None (undecided)"""
        {True: self.ok, False: self.bad, None: self.open}[truth](name, detail, where)

    def seen(self, session):
        self.analysed |= session.it.functions_seen

    # ---- equality of an extracted value with its specification
    def verdict(self, got, spec, assume=TRUE, soft_ok=(), budget=4000):
        """('ok'|'violation'|'undecided', detail)"""
        try:
            r = tm.compare(got, spec, assume, budget=[budget])
        except tm.Blowup:
            return "undecided", "case split budget exceeded"
        except RecursionError:
            return "undecided", "term too deep"
        if r.eq:
            return "ok", ""
        fa, fb = focus(r.a, r.b)
        detail = "code: %s   required: %s%s" % (clip(show(fa)), clip(show(fb)),
                                                 ("   in case: " + clip("; ".join(map(str, r.case)), 300)) if r.case else "")
        why = soft_reason(r.a, r.b, soft_ok)
        if not why and r.case:
            un = unresolved(got, spec, soft_ok)
            if un is not None:
                why = "case depends on unresolved " + clip(show(un), 80)
        if not why and any("array_equal(" in str(d) and not str(d).startswith("not ") for d in r.case):
            why = "case in which two arrays are equal"
        if why:
            from .numeric import differ
            if differ(got, spec, assume):
                why = None
        if why:
            return "undecided", "%s [%s]" % (detail, why)
        return "violation", detail

    def eq(self, name, got, spec, assume=TRUE, where="", soft_ok=(), alt=None, inst=()):
        s, d = self.verdict(got, spec, assume, soft_ok)
        if s != "ok":
            for a in alt or ():
                s2, d2 = self.verdict(got, a, assume, soft_ok)
                if s2 == "ok":
                    s, d = s2, d2
                    break
                if s2 == "undecided" and s == "violation":
                    s, d = s2, d2
        if s == "undecided":
            for m in inst:      # not decided in general: a particular case that differs decides it
                s2, d2 = self.verdict(tm.subst(got, m), tm.subst(spec, m), tm.subst(assume, m), soft_ok)
                if s2 == "violation":
                    s, d = s2, d2 + "   where " + ", ".join("%s = %s" % (show(a), show(b)) for a, b in m.items())
                    break
        self.obl.append((name, s, d, where))
        return s

    # ---- the end
    def finish(self, root):
        n = len(self.obl)
        by = {k: [o for o in self.obl if o[1] == k] for k in ("ok", "violation", "undecided")}
        level = "other"
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": "Static value-flow analysis of /repo's current sources (nothing is executed): each obligation compares a "
                               "value, guard or effect extracted from the syntax tree with its specification.",
                "obligations": n,
                "discharged": len(by["ok"]),
                "undecided": len(by["undecided"]),
                "violated": len(by["violation"]),
                "functions_analysed": sorted(self.analysed),
                "sites": self.sites,
                "samples": [{"obligation": o[0], "verdict": o[1], "detail": clip(o[2], 400), "where": o[3]}
                            for o in (by["violation"] + by["undecided"] + by["ok"])[:40]],
                "all_obligations": [o[0] + ": " + o[1] for o in self.obl],
                "checker_cmd": "python3 check.py " + self.pid,
                "trusted_base": ["CPython ast module", "sa/terms.py, sa/interp.py, sa/lib.py (numpy, scipy, pyssht, pys2let signatures and semantics)"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(by["violation"]),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed" % (
            self.pid, n, len(by["ok"]), len(by["undecided"]), len(by["violation"]), len(self.analysed)))
        for o in by["undecided"]:
            print("  UNDECIDED %s %s %s" % (o[0], o[3], clip(o[2], 300)))
        if by["violation"]:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o in by["violation"]:
                    f.write("obligation: %s\nat: %s\n%s\n\n" % (o[0], o[3], o[2]))
            for o in by["violation"]:
                print("  VIOLATED %s at %s: %s" % (o[0], o[3], clip(o[2], 500)))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.gone:
            for g in self.gone:
                print("  ANALYSIS-BROKEN: " + g)
            return 2
        if not by["ok"]:
            print("  NOTHING DECIDED: every obligation is outside what the analysis can resolve; no claim is made for this tree")
        return 0


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + "..."


def atoms_of(t):
    """multiset-free set of (head, name) of a term"""
    out = set()
    for x in tm.subterms(t):
        out.add(tm.head_name(x))
    return out


def soft_reason(a, b, soft_ok=()):
    ha, hb = atoms_of(a), atoms_of(b)
    x = unresolved(a, b, soft_ok)
    if x is not None:
        return "unresolved " + clip(show(x), 80)
    for h in ha - hb:
        base = h.split(":")[0]
        if base in HARD or h in HARD or base in soft_ok or h in soft_ok:
            continue
        return "not comparable: " + h
    for h in hb - ha:
        base = h.split(":")[0]
        if h in ("fstore", "map", "psum", "store"):
            return "layout not comparable: " + h
    return None


def strange(a, b):
    """an operation of the code that the specification does not have and whose meaning is not settled"""
    from .numeric import KNOWN
    for h in atoms_of(a) - atoms_of(b):
        g = h.split(":")[0]
        if g not in HARD and h not in HARD and g not in SOFT_PREFIX and g not in KNOWN and g not in ("iter", "idx"):
            return h
    return None


def unresolved(a, b, soft_ok=()):
    ub = set(x for x in tm.subterms(b) if x.head in SOFT_PREFIX)
    for x in tm.subterms(a):
        if x.head in SOFT_PREFIX and (x not in ub or x.head == "unbound") and x.head not in soft_ok:
            return x
    return None


def raise_conds(it, since=0, upto=None, loops=None):
    """[(exception names, condition, where, event index)] of the raise statements, each condition excluding the earlier ones"""
    from .terms import or_
    out, before = [], FALSE
    for i, e in enumerate(it.events[since:upto]):
        if e.kind == "raise" and not e.caught:
            g = it.full_pc(e)
            g2 = and_(g, not_(before))
            if g2 is FALSE:
                continue
            out.append((e.names or (e.exc,), g2, e.where, since + i, e))
            before = or_(before, g)
    return out


def raising(it, since=0, exc=None, upto=None):
    from .terms import or_
    return or_(*[g for names, g, w, i, e in raise_conds(it, since, upto) if exc is None or exc in names])


class TimeUp(BaseException):
    pass


LIMIT = int(os.environ.get("PXMCMC_SECONDS") or (480 if os.environ.get("VERIF_TIER") != "thorough" else 780))


def limited(fn, c, root):
    """run a check; after LIMIT seconds stop with what has been decided"""
    import signal

    def up(*a):
        raise TimeUp()
    try:
        signal.signal(signal.SIGALRM, up)
        signal.alarm(LIMIT)
    except (ValueError, AttributeError):
        pass
    try:
        fn(c, root)
    except TimeUp:
        c.open("analysis", "stopped after %d s" % LIMIT)
    finally:
        signal.alarm(0)


def run(pid, fn, root):
    sys.setrecursionlimit(20000)
    c = Check(pid)
    from .model import Gone
    from .interp import AnalysisError
    try:
        limited(fn, c, root)
    except Gone as e:
        c.gone.append("anchor vanished: %s" % e)
    except AnalysisError as e:
        c.open("analysis", "outside the analysed fragment: %s" % e)
    except SyntaxError as e:
        c.gone.append("source does not parse: %s" % e)
    except Exception as e:
        if os.environ.get("PXMCMC_DEBUG"):
            raise
        c.open("analysis", "analysis stopped: %s: %s (%s)" % (type(e).__name__, clip(str(e), 200), clip(traceback.format_exc().strip().splitlines()[-3].strip(), 200)))
    kept(c, root)
    return c.finish(root)


def kept(c, root):
    """results of earlier calls handed out for other arguments, in every function this check followed"""
    from . import interp, memo
    n = 0
    for (path, line, qual), (fn, it) in sorted(interp.BODIES.items(), key=lambda x: x[0]):
        n += 1
        try:
            found = memo.stale(fn, [m.tree for m in it.modules.values()])
        except Exception as e:
            if os.environ.get("PXMCMC_DEBUG"):
                raise
            found = []
            c.notes.append("memo analysis of %s stopped: %s" % (qual, e))
        for ln, d in found:
            c.bad("%s: the result is a function of the arguments" % qual, d, "%s:%d" % (os.path.relpath(str(path), root) if os.path.isabs(str(path)) else path, ln))
    if n and not any("function of the arguments" in o[0] for o in c.obl):
        c.ok("no result kept from an earlier call is handed out for other arguments", "%d functions" % n)


def focus(a, b, depth=0):
    """smallest pair of subterms in which two terms differ"""
    while depth < 60 and a.head == b.head and a.head not in ("const", "sym") and len(a.args) == len(b.args):
        if a.head == "poly":
            pa, pb = set(a.args[0]), set(b.args[0])
            da, db = list(pa - pb), list(pb - pa)
            if len(da) != 1 or len(db) != 1 or da[0][0] != db[0][0]:
                break
            fa, fb = set(da[0][1]), set(db[0][1])
            da, db = list(fa - fb), list(fb - fa)
            if len(da) != 1 or len(db) != 1 or da[0][1] != db[0][1]:
                break
            a, b = da[0][0], db[0][0]
            depth += 1
            continue
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(d) != 1 or not (isinstance(d[0][0], tm.Term) and isinstance(d[0][1], tm.Term)):
            break
        a, b = d[0]
        depth += 1
    return a, b
