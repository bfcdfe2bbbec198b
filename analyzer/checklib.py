"""Obligations of a property and how they are recorded."""
import time
from fractions import Fraction
import terms
from terms import *
import engine
from engine import Engine, Program, Lost, Unsupported, strip_gen, fz
import compare
from compare import Canon, Comparer, Facts, TooMany, unknown_in, rcmp, p_of, p_term

HELD, VIOL, UNDEC = "held", "violated", "undecided"


class Check:
    def __init__(self, prop, prog):
        self.prop = prop
        self.P = prog
        self.obs = []
        self.functions = set()
        self.assumptions = []
        self.rules = []
        self._cache = {}
        self.cmp = Comparer()

    # ------------------------------------------------------------ recording
    def held(self, key, text):
        self.obs.append(dict(key=key, status=HELD, text=text))

    def viol(self, key, where, text):
        self.obs.append(dict(key=key, status=VIOL, where=where, text=text))

    def undec(self, key, text):
        self.obs.append(dict(key=key, status=UNDEC, text=text))

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ------------------------------------------------------------ analysis
    def analyze(self, f, opaque=(), sub=None, args=None, names=None):
        key = (f["id"], tuple(opaque), tuple(sorted((sub or {}).items())), tuple(args or ()), tuple(names or ()))
        if key not in self._cache:
            e = Engine(self.P, opaque=opaque)
            self._cache[key] = e.analyze(f, sub=sub, args=args, names=names)
        r = self._cache[key]
        for i in r.inlined:
            g = self.P.fns.get(i)
            if g:
                self.functions.add(g["def"]["p"])
        return r

    def part(self, key, fn, *a, **k):
        """one group of obligations; a construct that is not found leaves only this group undecided"""
        try:
            return fn(self, *a, **k)
        except Lost as e:
            self.undec(key + "/anchor", "not found: %s" % e)
        except (Unsupported, TooMany) as e:
            self.undec(key + "/shape", "%s: %s" % (type(e).__name__, e))
        except (MemoryError, RecursionError) as e:
            self.undec(key + "/resources", repr(e))
        except Exception as e:
            import traceback

            self.undec(key + "/internal", "".join(traceback.format_exception(e))[-900:])

    def at(self, f):
        sp = f.get("sp") or ""
        return "%s (%s)" % (f["def"]["p"], sp.split(" ")[0].rsplit(":", 1)[0] if isinstance(sp, str) else sp)

    # ------------------------------------------------------------ deciding
    def same(self, key, f, what, actual, expected, facts=None, eq=None, canon=None, when=None):
        """actual value number coincides with the expected one for every input"""
        if actual is None:
            self.viol(key, self.at(f), "%s: never returns" % what)
            return False
        c = Comparer(canon) if canon else Comparer()
        try:
            r = c.equal(actual, expected, facts, eq)
        except RecursionError:
            r = ("unk", "recursion limit")
        if r[0] == "eq":
            self.held(key, "%s = %s" % (what, show(c.canon(expected), 7)[:400]))
            return True
        if r[0] == "unk":
            self.undec(key, "%s: %s" % (what, r[1][:300]))
            return None
        _, fa, x, y = r
        self.viol(key, self.at(f), "%s: when %s it is %s, required is %s" % (what, fa.show()[:600], show(x, 8)[:400], show(y, 8)[:400]))
        return False

    def valid(self, key, f, what, cond, facts=None, canon=None, when=TRUE):
        """cond holds whenever `when` does"""
        c = Comparer(canon) if canon else Comparer()
        try:
            for fa, (w, g) in c.cases((when, cond), facts):
                if w is FALSE or g is TRUE or not fa.confirm():
                    continue
                u = unknown_in(g) if g is not FALSE else None
                for q, _ in fa.trail:
                    u = u or unknown_in(q)
                if u is not None or g is not FALSE:
                    self.undec(key, "%s: not resolved %s" % (what, show(u or g, 5)[:200]))
                    return None
                self.viol(key, self.at(f), "%s fails when %s" % (what, fa.show()[:600]))
                return False
        except TooMany:
            self.undec(key, "%s: too many cases" % what)
            return None
        self.held(key, what)
        return True


# ---------------------------------------------------------------- spec helpers
def fcs(s):
    """float constant written in decimal or as a fraction"""
    return fc(Fraction(s))


def sum_terms(xs):
    r = xs[0]
    for x in xs[1:]:
        r = fadd(r, x)
    return r


def clamp_t(x, lo, hi):
    return ite(flt(x, lo), lo, ite(flt(hi, x), hi, x))


def ordering_real(a, b):
    return ite(flt(a, b), terms.LESS, ite(flt(b, a), terms.GREATER, terms.EQUAL))


def ordering_int(a, b):
    return ite(ilt(a, b), terms.LESS, ite(ieq(a, b), terms.EQUAL, terms.GREATER))


def then(o, nxt):
    """first ordering, and the next one if it says equal"""
    return lift1(lambda x: nxt if x is terms.EQUAL else x, o)


def snap_rule(table, tol=2e-5):
    """literal constants close to a standard constant denote it"""
    tab = [Fraction(x) for x in table]

    def f(t):
        if t.op == "fc":
            v = t.args[0]
            for s in tab:
                if v != s and abs(v - s) <= abs(s) * Fraction(tol):
                    return mk("fc", compare.rnd(s))
        return None

    return f
