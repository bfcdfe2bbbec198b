"""Comparison of value numbers modulo arithmetic and ordering.

Real-valued terms are put into polynomial normal form (coefficients rounded to
ten significant digits so that folded constants coincide), integer terms into
linear form.  Conditions are decided in an abstract domain of linear
constraints (rational polyhedra, emptiness by elimination) together with
variant facts, so infeasible combinations of conditions are discarded.
"""
from fractions import Fraction
from math import gcd
from terms import *
import terms

# constructs whose meaning the analysis does not know
OPAQUE_OPS = {"unknown", "phi", "fin", "kx", "exit", "static", "bitnot", "mem", "trunc", "sint", "i2f", "f2i", "f2f", "scalar", "gconst", "shl", "discr_of"}


def unknown_in(t):
    """first construct inside t whose meaning is not known, or None"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "trunc" and narrow_count(x):
            # a count without bound, cut to fewer than 32 bits: its meaning is known
            st.append(x.args[0])
            continue
        if x.op in OPAQUE_OPS:
            return x
        if x.op == "sym" and x.args and x.args[0] in ("kx", "flt"):
            return x
        if x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith(("x:", "callf", "t:", "rec:")) and x.args[0] not in KNOWN_APPS:
            return x
        st.extend(terms._children(x))
    return None


def narrow_count(x):
    n = x.args[1]
    n = n.args[0] if isinstance(n, T) else n
    return int(n) < 32 and x.args[0].op in ("len", "card", "hlen", "mlen")


KNOWN_APPS = {"t:WhitePoint::x", "t:WhitePoint::y", "t:WhitePoint::z", "t:Point::dim"}

SEQ_OPS = {"comp", "sorted", "rev", "cat", "push", "setat", "slice", "setsl", "mapupd", "lit", "insat", "remat"}
REAL_OPS = {"fadd", "fsub", "fmul", "fdiv", "fneg", "fc", "tof", "f.powi", "f.sqrt", "f.abs", "sum"}


EPS = Fraction(1, 10**8)


def rnd(fr):
    """coefficient rounded to ten significant digits"""
    if fr.denominator == 1 and abs(fr.numerator) < 10**9:
        return fr
    return Fraction("%.9e" % float(fr))


# ---------------------------------------------------------------- polynomials
class Poly(dict):
    """monomial (sorted tuple of (factor id order, power)) -> Fraction"""


def p_const(c):
    return Poly({(): Fraction(c)}) if c else Poly()


def p_atom(t):
    return Poly({((t, 1),): Fraction(1)})


def p_add(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0 or abs(v) * 1000000000 < abs(c):
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(m, n):
    d = {}
    for t, k in m + n:
        d[t] = d.get(t, 0) + k
    return tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))


def p_mul(a, b):
    r = Poly()
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def p_scale(a, c):
    return Poly({m: v * c for m, v in a.items()}) if c else Poly()


def p_inv(b):
    if len(b) == 1:
        (m, c), = b.items()
        return Poly({tuple((t, -k) for t, k in m): 1 / c})
    # scale to leading coefficient one so that 1/(2a) and 1/2*1/a agree
    m0 = min(b, key=lambda m: [(t.id, k) for t, k in m])
    c0 = b[m0]
    return p_scale(p_atom(mk("finv", p_term(p_scale(b, 1 / c0)))), 1 / c0)


def p_term(p):
    """canonical term of a polynomial"""
    if not p:
        return F0
    items = sorted(p.items(), key=lambda kv: [(t.id, k) for t, k in kv[0]])
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk("fc", rnd(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple((m, rnd(c)) for m, c in items))


def p_of(t):
    """polynomial of an already canonical real term"""
    if t.op == "poly":
        return Poly({m: c for m, c in t.args[0]})
    if t.op == "fc":
        return p_const(t.args[0])
    return p_atom(t)


def _poly_children(t):
    return [x for m, c in t.args[0] for x, k in m]


_old_children = terms._children


def _children(t):
    if t.op == "poly":
        return _poly_children(t)
    return _old_children(t)


terms._children = _children


def _subst_poly(t, s):
    """substitution inside a polynomial (factors may become conditional)"""
    vals = {}
    for m, c in t.args[0]:
        for x, k in m:
            if x not in vals:
                vals[x] = s(x)
    if all(v is x for x, v in vals.items()):
        return t
    keys = list(vals)

    def build(*vs):
        mp = dict(zip(keys, vs))
        r = Poly()
        for m, c in t.args[0]:
            q = p_const(c)
            for x, k in m:
                y = p_of(mp[x])
                if k < 0:
                    y = p_inv(y) if y else p_atom(mk("fdiv0", F1))
                for _ in range(abs(k)):
                    q = p_mul(q, y)
            r = p_add(r, q)
        return p_term(r)

    return liftn(build, *[vals[k] for k in keys])


terms.SUBST_HOOK["poly"] = _subst_poly


# ---------------------------------------------------------------- canonical terms
class Canon:
    """bottom-up canonicalisation (no context)"""

    def __init__(self, rules=()):
        self.memo = {}
        self.rules = rules

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            for f in self.rules:
                r2 = f(r)
                if r2 is not None:
                    r = r2
            self.memo[t] = r
            self.memo[r] = r
        return r

    def atom(self, a):
        """boolean diagram of an atom"""
        o = a.op
        if o == "ge0":
            return ge0(self(a.args[0]))
        if o == "eq0":
            return eq0(self(a.args[0]))
        if o in ("flt", "fle", "feq"):
            return rcmp(o, self(a.args[0]), self(a.args[1]))
        x = self(a)
        return x if x.op in ("ite", "true", "false") else atom(x)

    def go(self, t):
        o = t.op
        if not t.args:
            return t
        if o == "ite":
            return ite(self.atom(t.args[0]), self(t.args[1]), self(t.args[2]))
        if o == "lin":
            r = num(t.args[0])
            for x, k in t.args[1]:
                r = iadd(r, imul(num(k), self(x)))
            return r
        if o in ("fc", "int", "sym", "bvar", "poly"):
            return t if o != "fc" else mk("fc", rnd(t.args[0]))
        if o == "val":
            return self(t.args[0])
        if o in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = [self(x) for x in t.args]
            return self.real(o, a)
        if o == "f.powi":
            b, n = self(t.args[0]), self(t.args[1])
            return liftn(lambda b, n: self.powi(b, n), b, n)
        if o == "tof":
            return lift1(self.tof, self(t.args[0]))
        if o == "f.abs":
            return lift1(self.fabs, self(t.args[0]))
        if o in ("f.min", "f.max") and len(t.args) == 2:
            a, b = self(t.args[0]), self(t.args[1])
            if o == "f.min":
                return liftn(lambda x, y: ite(rcmp("flt", y, x), y, x), a, b)
            return liftn(lambda x, y: ite(rcmp("flt", x, y), y, x), a, b)
        if o == "f2f" and t.args[2] == "f64":
            x = self(t.args[0])
            if all(l.op == "fc" for g, l in leaves(x)):
                return x
            return lift1(lambda l: mk("f2f", l, *t.args[1:]), x)
        if o == "f2i":
            return lift1(lambda x: self.back(x, t), self(t.args[0]))
        if o == "trunc":
            n = t.args[1]
            n = 1 << int(n.args[0] if isinstance(n, T) else n)
            return lift1(lambda x: self.wrap(x, n, t.args[1]), self(t.args[0]))
        if o == "get" and t.args[0].op in ("cat", "push"):
            # an element of a concatenation lies in one of the parts
            q, x = t.args[0], t.args[1]
            n = slen(q.args[0])
            if q.op == "cat":
                return self(ite(ge0(iadd(isub(n, x), num(-1))), sget(q.args[0], x), sget(q.args[1], isub(x, n))))
            return self(ite(eq0(isub(x, n)), q.args[1], sget(q.args[0], x)))
        if o == "get" and t.args[0].op == "setsl":
            q, x = t.args[0], t.args[1]
            inside = conj(ge0(isub(x, q.args[1])), ge0(iadd(isub(q.args[2], x), num(-1))))
            return self(ite(inside, sget(q.args[3], isub(x, q.args[1])), sget(q.args[0], x)))
        if o in ("flt", "fle", "feq", "ge0", "eq0"):
            return self.atom(t)
        if o in ("comp", "sum", "exists"):
            b, trip, g, e = t.args[0], self(t.args[1]), self(t.args[2]), self(t.args[3])
            if g is not TRUE:
                e = restrict(e, g)
            if o == "comp":
                return comp(b, trip, g, e)
            if o == "sum":
                return self.sum(b, trip, g, e)
            return mk(o, b, trip, g, e)
        a = [self(x) if isinstance(x, T) else x for x in t.args]
        if o.startswith("f.") and all(isinstance(x, T) for x in a):
            return liftn(lambda *v: self.fun(o, v), *a)
        if o == "f2u":
            return lift1(lambda x: num(int(x.args[0])) if x.op == "fc" else mk(o, x, t.args[1]), a[0])
        c = terms.REBUILD.get(o)
        if c and o not in ("f.powi", "tof"):
            return c(*a)
        return mk(o, *a)

    def real(self, o, a):
        if o == "fneg":
            return lift1(lambda x: p_term(p_scale(p_of(x), -1)), a[0])

        def f(x, y):
            if x.op in ("unknown", "bot") or y.op in ("unknown", "bot"):
                return x if x.op in ("unknown", "bot") else y
            p, q = p_of(x), p_of(y)
            if o == "fadd":
                return p_term(p_add(p, q))
            if o == "fsub":
                return p_term(p_add(p, q, -1))
            if o == "fmul":
                return p_term(p_mul(p, q))
            if not q:
                return mk("fdiv0", x)
            return p_term(p_mul(p, p_inv(q)))

        return liftn(f, *a)

    def fun(self, o, v):
        if o in ("f.round", "f.floor", "f.ceil", "f.trunc") and v[0].op == "fc" and v[0].args[0].denominator == 1:
            return v[0]
        if o == "f.powf" and v[1].op == "fc" and v[1].args[0].denominator == 1:
            return self.powi(v[0], num(int(v[1].args[0])))
        if o == "f.powf" and v[1].op == "fc" and v[1].args[0] == Fraction(1, 2):
            return mk("f.sqrt", v[0])
        if o == "f.powf" and v[1].op == "fc" and abs(v[1].args[0] - Fraction(1, 3)) < Fraction(1, 10**9):
            return mk("f.cbrt", v[0])
        return mk(o, *v)

    def powi(self, b, n):
        if n.op == "int" and -6 <= n.args[0] <= 6:
            k = n.args[0]
            p = p_of(b)
            r = p_const(1)
            for _ in range(abs(k)):
                r = p_mul(r, p)
            if k < 0:
                r = p_inv(r)
            return p_term(r)
        return mk("f.powi", b, n)

    def wrap(self, x, n, bits):
        """an unsigned number cut to its lowest bits"""
        if x.op == "int":
            return num(x.args[0] % n)
        if unknown_in(x) is not None:
            return mk("trunc", x, bits)
        return ite(ge0(isub(num(n - 1), x)), x, irem(x, num(n)))

    def back(self, x, t):
        """an unsigned number carried by a floating point type keeps its value up to the size of the mantissa"""
        while x.op in ("f.floor", "f.trunc", "f.round", "f.ceil") and x.args[0].op == "i2f":
            x = x.args[0]
        n = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(t.args[2])
        if x.op != "i2f" or n is None or x.args[1] not in ("u8", "u16", "u32", "u64", "usize"):
            return mk("f2i", x, *t.args[1:])
        i = x.args[0]
        if unknown_in(i) is not None:
            return mk("f2i", x, *t.args[1:])
        if x.args[2] == "f32":
            i = lift1(lambda v: ite(ge0(isub(num(1 << 24), v)), v, mk("nearest", v)), i)
        elif x.args[2] != "f64":
            return mk("f2i", x, *t.args[1:])
        if n < 64:
            i = lift1(lambda v: imin(v, num((1 << n) - 1)), i)
        return i

    def tof(self, i):
        c, d = to_lin(i)
        p = p_const(c)
        for t, k in d.items():
            if t.op == "imul":
                q = p_const(1)
                for x in t.args:
                    q = p_mul(q, p_atom(mk("tof", x)))
            else:
                q = p_atom(mk("tof", t))
            p = p_add(p, p_scale(q, k))
        return p_term(p)

    def fabs(self, x):
        p = p_of(x)
        if x.op == "fc":
            return fc(abs(x.args[0]))
        if not p:
            return F0
        m0 = min(p, key=lambda m: [(t.id, k) for t, k in m])
        if p[m0] < 0:
            p = p_scale(p, -1)
        return mk("f.abs", p_term(p))

    def sum(self, b, trip, g, e):
        # constant trip counts are written out
        if trip.op == "int" and trip.args[0] <= 8 and g is TRUE:
            r = None
            for i in range(trip.args[0]):
                x = self(subst(e, {b: num(i)}))
                r = x if r is None else (iadd(r, x) if is_int(x) else self.real("fadd", [r, x]))
            return r if r is not None else mk("sum", b, trip, g, e)
        if trip.op == "int" and 0 < trip.args[0] <= 8 and not any(is_int(x) for _, x in leaves(e)):
            r = None
            for i in range(trip.args[0]):
                at = {b: num(i)}
                x = self(ite(subst(g, at), subst(e, at), F0))
                r = x if r is None else self.real("fadd", [r, x])
            return r
        return mk("sum", b, trip, g, e)


INT_OPS = {"int", "lin", "len", "imul", "idiv", "irem", "imin", "imax", "nsub", "card", "hlen", "mcard"}


def is_int(t):
    return t.op in INT_OPS


def rcmp(o, a, b):
    """canonical comparison of canonical reals:  p < 0  with leading coefficient +-1"""
    if o == "fle":
        return neg(rcmp("flt", b, a))
    if o == "feq":
        return conj(neg(rcmp("flt", a, b)), neg(rcmp("flt", b, a)))

    def f(x, y):
        if x is y:
            return FALSE
        if x.op in ("fspecial", "unknown", "bot") or y.op in ("fspecial", "unknown", "bot"):
            return atom(mk("flt", x, y))
        p = p_add(p_of(x), p_of(y), -1)
        if not p:
            return FALSE
        if list(p) == [()]:
            return TRUE if p[()] < 0 else FALSE
        ks = [m for m in p if m != ()]
        m0 = min(ks, key=lambda m: [(t.id, k) for t, k in m])
        c = abs(p[m0])
        if len(ks) == 1 and p[m0] > 0 and len(m0) == 1 and m0[0][1] == 1 and m0[0][0].op == "tof" and abs(p.get((), 0) / c - round(p.get((), 0) / c)) > EPS:
            # an integer never equals a fractional threshold: one of the two orientations suffices
            return neg(atom(mk("flt", p_term(p_scale(p, -1 / c)), F0)))
        return atom(mk("flt", p_term(p_scale(p, 1 / c)), F0))

    return liftn(f, a, b)


# ---------------------------------------------------------------- facts
def nonneg_real(t):
    """canonical real leaf that is never negative"""
    o = t.op
    if o in ("f.abs", "f.sqrt", "tof"):
        return True
    if o == "sum":
        return nonneg_real_term(t.args[3])
    if o in ("f.powf", "f.cbrt", "f.round", "f.floor", "f.ceil", "f.trunc"):
        return nonneg_real_term(t.args[0])
    if o == "app" and isinstance(t.args[0], str) and t.args[0].startswith("op:DistanceMetric::measure"):
        return True
    return False


def nonneg_real_term(t):
    if t.op == "ite":
        return nonneg_real_term(t.args[1]) and nonneg_real_term(t.args[2])
    p = p_of(t)
    return all(c >= 0 and mono_nonneg(m) for m, c in p.items())


def mono_nonneg(m):
    return all(k % 2 == 0 or nonneg_real(t) for t, k in m)


def lp_empty(rows, eps):
    """exact emptiness of {x : d.x + c >= 0 (or > 0 where strict)} by Farkas' lemma: looks for weights
    y >= 0 with sum y d = 0 and sum y c < 0 (or = 0 with weight on a strict row); exact simplex"""
    vs = list(dict.fromkeys(v for d, c, s in rows for v in d))
    # connected components
    comp_ = {v: v for v in vs}

    def root(v):
        while comp_[v] is not v:
            v = comp_[v]
        return v

    for d, c, s in rows:
        ks = list(d)
        for k in ks[1:]:
            a, b = root(ks[0]), root(k)
            if a is not b:
                comp_[a] = b
    groups = {}
    for d, c, s in rows:
        if d:
            groups.setdefault(id(root(next(iter(d)))), []).append((d, c, s))
    for g in groups.values():
        vs = list(dict.fromkeys(v for d, c, s in g for v in d))
        m, n = len(vs) + 1, len(g)
        # columns: one weight per row, then artificials; rows: sum y d_v = 0 for each v, sum y = 1
        tab = []
        for v in vs:
            tab.append([d.get(v, Fraction(0)) for d, c, s in g] + [Fraction(0)])
        tab.append([Fraction(1)] * n + [Fraction(1)])
        basis = [None] * m

        def cost_row(cost, basis):
            z = list(cost) + [Fraction(0)]
            for i, b in enumerate(basis):
                k = cost[b] if b is not None and b < n else None
                if k:
                    row = tab[i]
                    for j in range(n + 1):
                        z[j] -= k * row[j]
            return z

        # phase one: artificial b (None) costs 1 on every row
        def phase1():
            steps = 0
            while True:
                z = [-sum(tab[i][j] for i in range(m) if basis[i] is None) for j in range(n + 1)]
                if z[n] == 0:
                    return True
                j = next((j for j in range(n) if z[j] < 0), None)
                if j is None:
                    return False
                r = None
                for i in range(m):
                    if tab[i][j] > 0:
                        q = tab[i][n] / tab[i][j]
                        if r is None or q < r[0] or (q == r[0] and (basis[i] is None) > (basis[r[1]] is None)):
                            r = (q, i)
                pivot(r[1], j)
                steps += 1
                if steps > 400:
                    return None

        def pivot(i, j):
            row = tab[i]
            k = row[j]
            tab[i] = row = [x / k if x else x for x in row]
            for a in range(m):
                if a != i and tab[a][j]:
                    k = tab[a][j]
                    tab[a] = [x - k * y if y else x for x, y in zip(tab[a], row)]
            basis[i] = j

        r = phase1()
        if r is None:
            return None
        if r is False:
            continue  # no convex combination cancels the variables: nonempty
        # artificials at zero level leave the basis
        for i in range(m):
            if basis[i] is None:
                j = next((j for j in range(n) if tab[i][j] != 0), None)
                if j is not None:
                    pivot(i, j)
        # minimise the combined constant; strict rows get an infinitesimal bonus
        cost = [c - (eps if s else 0) for d, c, s in g]
        steps = 0
        while True:
            z = cost_row(cost, basis)
            if -z[n] < 0:
                return True
            j = next((j for j in range(n) if z[j] < 0), None)
            if j is None:
                break
            best = None
            for i in range(m):
                if basis[i] is not None and tab[i][j] > 0:
                    q = tab[i][n] / tab[i][j]
                    if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                        best = (q, i)
            if best is None:
                return None
            pivot(best[1], j)
            steps += 1
            if steps > 400:
                return None
    return False


class Facts:
    """conjunction of atom facts; `feasible` is False only when contradictory"""

    LIMIT = 120

    def __init__(self, parent=None):
        self.known = dict(parent.known) if parent else {}
        self.ints = list(parent.ints) if parent else []
        self.reals = list(parent.reals) if parent else []
        self.vars = {k: (v[0], set(v[1])) for k, v in parent.vars.items()} if parent else {}
        self.trail = list(parent.trail) if parent else []
        self.ileaves = set(parent.ileaves) if parent else set()
        self.feasible = parent.feasible if parent else True
        self.gave = parent.gave if parent else False  # an emptiness test was cut short

    def rows(self, cons, integer):
        rows = []
        seen = set()
        for c in cons:
            if integer:
                d = {t: Fraction(k) for t, k in c[1].items()}
                row = (d, Fraction(c[0]), False)
            else:
                d = {m: v for m, v in c[0].items() if m != ()}
                row = (d, c[0].get((), Fraction(0)), c[1])
            key = (frozenset(row[0].items()), row[1], row[2])
            if key not in seen:
                seen.add(key)
                rows.append(row)
        return rows

    def confirm(self):
        """False when the facts contradict each other; settles what the cheap test gave up on"""
        if not self.feasible:
            return False
        if self.gave:
            if lp_empty(self.rows(self.ints, True), Fraction(1, 10**12)) or lp_empty(self.rows([(dict(q), s) for q, s in self.reals], False), EPS):
                self.feasible = False
            self.gave = False
        if self.feasible and self.clash():
            self.feasible = False
        return self.feasible

    def congruent(self, x, y, budget, index=False):
        """same lookup at positions that the facts force to be equal"""
        if x is y:
            return True
        if not isinstance(x, T) or not isinstance(y, T):
            return x == y
        if index or is_int(x) and is_int(y) and not (x.op == y.op == "get"):
            if budget[0] <= 0:
                return False
            budget[0] -= 1
            e = isub(x, y)
            return e is ZERO or e.op not in ("int", "ite") and self.implied_int(e) and self.implied_int(imul(num(-1), e))
        if x.op != y.op or len(x.args) != len(y.args) or x.op not in ("get", "fld", "has", "pay", "mget", "mhas"):
            return False
        return all(self.congruent(p, q, budget, x.op == "get" and j == 1) for j, (p, q) in enumerate(zip(x.args, y.args)))

    def equations(self):
        """replacements of a value by another one that the facts force to be the same"""
        m = {}

        def split(e, n=0):
            c, d = to_lin(e)
            for g in sorted({abs(k) for k in d.values() if abs(k) > 1}) if n < 8 and len(d) > 2 else ():
                low = {t: k for t, k in d.items() if k % g}
                if not low or len(low) == len(d) or c % g:
                    continue
                s = num(0)
                for t, k in low.items():
                    s = iadd(s, imul(num(k), t))
                # the part below the unit g is a multiple of g, and smaller than g
                if self.implied_int(iadd(s, num(g - 1))) and self.implied_int(isub(num(g - 1), s)):
                    return split(s, n + 1) + split(isub(e, s), n + 1)
            return [e]

        def put(t, u):
            t, u = subst(t, m), subst(u, m)
            if t is u:
                return
            if t.op in ("int", "fc", "lin", "poly") or t in subterms(u):
                t, u = u, t
            if t.op in ("int", "fc", "lin", "poly", "ite") or t in subterms(u):
                return
            for k in list(m):
                m[k] = subst(m[k], {t: u})
            m[t] = u

        for a, v in self.trail:
            if v is not True:
                continue
            if a.op == "eq0":
                for e in split(a.args[0]):
                    c, d = to_lin(e)
                    k = list(d.items())
                    if len(k) == 1 and c % k[0][1] == 0:
                        put(k[0][0], num(-c // k[0][1]))
                    elif len(k) == 2 and k[0][1] == -k[1][1] and c == 0:
                        put(k[0][0], k[1][0])
            elif a.op == "feq":
                put(a.args[0], a.args[1])
            elif a.op == "eqv":
                put(a.args[0], a.args[1])
        # real values between which the facts leave no room
        weak = {frozenset(q.items()) for q, strict in self.reals if not strict}
        for q, strict in self.reals:
            if strict or len(q) > 3 or frozenset((x, -k) for x, k in q.items()) not in weak:
                continue
            one = [x for x in q if len(x) == 1 and x[0][1] == 1 and x[0][0].op not in ("fc", "poly", "ite")]
            if one:
                x = one[0]
                rest = p_term(p_scale(Poly({y: k for y, k in q.items() if y != x}), Fraction(-1) / q[x]))
                put(x[0][0], rest)
        return m

    def clash(self):
        """facts that hold of one lookup and fail of the same lookup written differently"""
        budget = [40]
        look = [(a, v) for a, v in self.known.items() if a.op in ("get", "fld", "has", "mhas")]
        for i, (a, v) in enumerate(look):
            for b, w in look[:i]:
                if v != w and a.op == b.op and self.congruent(a, b, budget):
                    return True
        vs = [(x, c[1]) for x, c in self.vars.items() if x.op in ("get", "fld", "pay")]
        for i, (a, v) in enumerate(vs):
            for b, w in vs[:i]:
                if not (v & w) and a.op == b.op and self.congruent(a, b, budget):
                    return True
        return False

    # --- integer side constraints of leaves
    def leaf_facts(self, t):
        if t in self.ileaves:
            if t.op == "nsub" and ("exact", t) not in self.ileaves:
                # a difference known not to be cut off at zero is the plain one
                d = isub(t.args[0], t.args[1])
                if d.op != "ite" and self.implied_int(d):
                    self.ileaves.add(("exact", t))
                    self.add_int(isub(d, t))
            elif t.op in ("idiv", "irem") and t.args[1].op != "int" and ("exact", t) not in self.ileaves:
                # a number smaller than the divisor
                d = iadd(isub(t.args[1], t.args[0]), num(-1))
                if d.op != "ite" and self.implied_int(d):
                    self.ileaves.add(("exact", t))
                    self.add_int(imul(num(-1), t) if t.op == "idiv" else isub(t, t.args[0]))
            return
        self.ileaves.add(t)
        if t.op not in terms.SIGNED_OPS:
            self.ints.append((0, {t: 1}))
        if t.op == "idiv" and t.args[1].op == "int":
            n = t.args[1].args[0]
            e = t.args[0]
            self.add_int(isub(e, imul(num(n), t)))
            self.add_int(iadd(isub(imul(num(n), t), e), num(n - 1)))
        elif t.op == "idiv":
            self.add_int(isub(t.args[0], t))
        elif t.op == "irem":
            n = t.args[1]
            if n.op == "int":
                self.add_int(isub(num(n.args[0] - 1), t))
            else:
                self.add_int(iadd(isub(n, t), num(-1)))
            self.add_int(isub(t.args[0], t))
        elif t.op == "imin":
            for a in t.args:
                self.add_int(isub(a, t))
        elif t.op == "imax":
            for a in t.args:
                self.add_int(isub(t, a))
        elif t.op == "nsub":
            self.add_int(isub(t, isub(t.args[0], t.args[1])))
            self.add_int(isub(t.args[0], t))
            self.leaf_facts(t)
        elif t.op == "len" and t.args[0].op == "comp":
            self.add_int(isub(t.args[0].args[1], t))

    def add_int(self, e):
        """e >= 0"""
        if e.op == "ite":
            return
        c, d = to_lin(e)
        if any(t.op == "ite" for t in d):
            return
        for t in list(d):
            self.leaf_facts(t)
        if not d:
            if c < 0:
                self.feasible = False
            return
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        self.ints.append((c // g, {t: k // g for t, k in d.items()}))

    def add_real(self, p, strict):
        """p > 0 or p >= 0"""
        for m in p:
            if m != () and mono_nonneg(m):
                self.reals.append(({m: Fraction(1)}, False))
            for t, k in m:
                self.real_leaf(t)
        self.reals.append((dict(p), strict))

    def real_leaf(self, t):
        """rounding functions stay within their distance of the argument"""
        if t in self.ileaves:
            return
        self.ileaves.add(t)
        lo = hi = None
        if t.op == "f.round":
            lo, hi = Fraction(1, 2), Fraction(1, 2)
        elif t.op == "f.floor":
            lo, hi = 1, 0
        elif t.op == "f.ceil":
            lo, hi = 0, 1
        elif t.op == "f.trunc":
            lo, hi = 1, 1
        if lo is not None:
            d = p_add(p_atom(t), p_of(t.args[0]), -1)
            self.add_real(p_add(d, p_const(lo)), False)
            self.add_real(p_add(p_scale(d, -1), p_const(hi)), False)

    def assume(self, a, val):
        """facts extended by atom a having the given truth value"""
        f = Facts(self)
        f._add(a, val)
        return f

    def assume_guard(self, g):
        """list of fact sets covering the guard"""
        out = []

        def go(f, g):
            if g is FALSE or not f.feasible:
                return
            if g is TRUE:
                out.append(f)
                return
            a = g.args[0]
            d = f.decide(a)
            if d is not False:
                go(f.assume(a, True) if d is None else f, g.args[1])
            if d is not True:
                go(f.assume(a, False) if d is None else f, g.args[2])

        go(self, g)
        return out

    def _add(self, a, val):
        if a in self.known:
            if self.known[a] != val:
                self.feasible = False
            return
        self.known[a] = val
        self.trail.append((a, val))
        o = a.op
        if o == "ge0":
            e = a.args[0]
            self.add_int(e if val else iadd(imul(num(-1), e), num(-1)))
            if self.feasible and self.empty(self.ints, True):
                self.feasible = False
        elif o == "eq0":
            e = a.args[0]
            if val:
                self.add_int(e)
                self.add_int(imul(num(-1), e))
                if self.feasible and self.empty(self.ints, True):
                    self.feasible = False
            else:
                # e != 0: contradictory if e = 0 is implied, checked on use
                if self.implied_int(e) and self.implied_int(imul(num(-1), e)):
                    self.feasible = False
                # integer tightening: e >= 0 known gives e >= 1
                elif self.implied_int(e):
                    self.add_int(iadd(e, num(-1)))
                elif self.implied_int(imul(num(-1), e)):
                    self.add_int(iadd(imul(num(-1), e), num(-1)))
                if self.feasible and self.empty(self.ints, True):
                    self.feasible = False
        elif o == "flt" and a.args[1] is F0:
            p = p_of(a.args[0])
            if val:
                self.add_real(p_scale(p, -1), True)
            else:
                self.add_real(p, False)
            if self.empty([(dict(q), s) for q, s in self.reals], False):
                self.feasible = False
        elif o == "isv":
            x, en, v = a.args
            n = len(ENUMS[en][0])
            cur = self.vars.get(x, (en, set(range(n))))[1]
            cur = cur & {v} if val else cur - {v}
            self.vars[x] = (en, cur)
            if not cur:
                self.feasible = False

    def implied_int(self, e, exact=False):
        c, d = to_lin(e)
        if not d:
            return c >= 0
        f = Facts(self)
        f.add_int(iadd(imul(num(-1), e), num(-1)))
        if not f.feasible:
            return True
        f.gave = False
        return f.empty(f.ints, True) or (exact and not f.confirm())

    def decide(self, a):
        if a in self.known:
            return self.known[a]
        if a.op == "isv":
            x, en, v = a.args
            cur = self.vars.get(x)
            if cur is not None:
                if v not in cur[1]:
                    return False
                if cur[1] == {v}:
                    return True
            return None
        if a.op in ("ge0", "eq0") or (a.op == "flt" and a.args[1] is F0):
            if not self.assume(a, True).feasible:
                return False
            if not self.assume(a, False).feasible:
                return True
        return None

    def empty(self, cons, integer):
        """is the polyhedron empty? (Fourier-Motzkin elimination, gives up as 'no')"""
        rows = self.rows(cons, integer)
        while True:
            for d, c, s in rows:
                # windows narrower than the rounding of coefficients count as empty
                if not d and (c < 0 or (s and (c == 0 or not integer and c < EPS))):
                    return True
            rows = [r for r in rows if r[0]]
            if not rows:
                return False
            cnt = {}
            for d, c, s in rows:
                for t, v in d.items():
                    p = cnt.setdefault(t, [0, 0])
                    p[0 if v > 0 else 1] += 1
            t = min(cnt, key=lambda t: (cnt[t][0] * cnt[t][1] - cnt[t][0] - cnt[t][1]))
            pos = [r for r in rows if r[0].get(t, 0) > 0]
            ngs = [r for r in rows if r[0].get(t, 0) < 0]
            new = [r for r in rows if t not in r[0]]
            if len(pos) * len(ngs) + len(new) > self.LIMIT * 4:
                self.gave = True
                return False
            seen = set((frozenset(d.items()), c, s) for d, c, s in new)
            for d1, c1, s1 in pos:
                for d2, c2, s2 in ngs:
                    a, b = -d2[t], d1[t]
                    d = {}
                    for x, v in d1.items():
                        d[x] = d.get(x, 0) + a * v
                    for x, v in d2.items():
                        u = d.get(x, 0) + b * v
                        if not integer and abs(u) < EPS * abs(b * v):
                            u = 0
                        d[x] = u
                    d = {x: v for x, v in d.items() if v != 0}
                    c = a * c1 + b * c2
                    if d:
                        m = max(abs(v) for v in d.values())
                        d = {x: v / m for x, v in d.items()}
                        c = c / m
                        if integer and False:
                            pass
                    row = (d, c, s1 or s2)
                    key = (frozenset(d.items()), c, s1 or s2)
                    if key not in seen:
                        seen.add(key)
                        new.append(row)
            rows = new

    def show(self):
        return ", ".join(("" if v else "not ") + show(a) for a, v in self.trail) or "always"


class TooMany(Exception):
    pass


def show_cond(trail):
    return ", ".join(("" if v else "not ") + show(a) for a, v in trail) or "always"


def find_atom(t, seen=None):
    """some condition inside t that is not under a binder"""
    if seen is None:
        seen = set()
    if t in seen:
        return None
    seen.add(t)
    if t.op == "ite":
        return t.args[0]
    if t.op in ("comp", "sum", "exists"):
        return find_atom(t.args[1], seen)
    if t.op in ("sorted", "minby", "maxby"):
        return find_atom(t.args[0], seen)
    for c in terms._children(t):
        a = find_atom(c, seen)
        if a is not None:
            return a
    return None


class Comparer:
    def __init__(self, canon=None, limit=20000):
        self.canon = canon or Canon()
        self.limit = limit
        self.count = 0
        self.open_ = set()

    def prune(self, t, f):
        """resolve conditions of t decided by the facts (top diagram only)"""
        while t.op == "ite":
            d = f.decide(t.args[0])
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
        return t

    def set_atom(self, t, a, val, memo):
        """t with condition a replaced by its truth value everywhere outside binders"""
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "ite":
            if t.args[0] is a:
                r = self.set_atom(t.args[1] if val else t.args[2], a, val, memo)
            else:
                x = self.set_atom(t.args[0], a, val, memo)
                h, l = self.set_atom(t.args[1], a, val, memo), self.set_atom(t.args[2], a, val, memo)
                r = ite(x if x.op in ("ite", "true", "false") else atom(x), h, l)
        elif t.op == "poly":
            r = _subst_poly(t, lambda x: self.set_atom(x, a, val, memo))
            r = r if r is t else self.canon(r)
        elif t.op in ("int", "fc", "sym", "bvar") or not t.args:
            r = t
        elif t.op == "lin":
            r = num(t.args[0])
            for x, k in t.args[1]:
                r = iadd(r, imul(num(k), self.set_atom(x, a, val, memo)))
        else:
            na = [self.set_atom(x, a, val, memo) if isinstance(x, T) else x for x in t.args]
            if all(x is y for x, y in zip(na, t.args)):
                r = t
            else:
                r = self.canon(mk(t.op, *na))
        memo[t] = r
        return r

    def cases(self, ts, facts=None):
        """yields (facts, resolved terms) over all feasible combinations of the conditions in ts"""
        facts = facts or Facts()
        work = [(facts, tuple(self.canon(t) for t in ts))]
        while work:
            f, cur = work.pop()
            self.count += 1
            if self.count > self.limit:
                raise TooMany()
            if not f.feasible:
                continue
            cur = tuple(self.prune(t, f) for t in cur)
            a = None
            for t in cur:
                a = find_atom(t)
                if a is not None:
                    break
            if a is None:
                yield f, cur
                continue
            d = f.decide(a)
            for val in (False, True):
                if d is not None and d != val:
                    continue
                f2 = f if d is not None else f.assume(a, val)
                if f2.feasible:
                    memo = {}
                    work.append((f2, tuple(self.set_atom(t, a, val, memo) for t in cur)))

    def equal(self, a, b, facts=None, eq=None, depth=0):
        """('eq',) | ('ne', facts, a, b) | ('unk', reason)"""
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return ("eq",)
        unk = None
        try:
            for f, (x, y) in self.cases((a, b), facts):
                r = self.leaf_equal(x, y, f, eq)
                if r[0] == "ne":
                    if not r[1].confirm():
                        continue
                    m = r[1].equations()
                    if m and any(v is not True and a.op == "eq0" and subst(atom(a), m) is TRUE for a, v in r[1].trail):
                        continue            # the equal values are also required to differ
                    if m and depth < 3:
                        x2, y2 = self.canon(subst(r[2], m)), self.canon(subst(r[3], m))
                        if (x2 is not r[2] or y2 is not r[3]) and self.equal(x2, y2, r[1], eq, depth + 1)[0] == "eq":
                            continue
                    u = unknown_in(x) or unknown_in(y)
                    for q, _ in f.trail:
                        u = u or unknown_in(q)
                    if u is not None:
                        unk = unk or ("unk", "not resolved: " + show(u, 5))
                    else:
                        return r
                elif r[0] == "unk":
                    unk = unk or r
        except TooMany:
            return ("unk", "too many cases")
        return unk or ("eq",)

    def seq_equal(self, x, y, f, eq):
        """sequences built in different ways: same length and same element at a fresh index"""
        if x.op == y.op and len(x.args) == len(y.args):
            res = [self.leaf_equal(p, q, f, eq) if isinstance(p, T) and isinstance(q, T) else (("eq",) if p == q else ("unk", "shape")) for p, q in zip(x.args, y.args)]
            if all(r[0] == "eq" for r in res):
                return ("eq",)
        # comparing elements that are looked up in the same two sequences leads back here
        if (x, y) in self.open_:
            return ("unk", "sequences that are not described by their elements: " + show(x, 4)[:100])
        self.open_.add((x, y))
        try:
            return self.seq_equal_(x, y, f, eq)
        finally:
            self.open_.discard((x, y))

    def seq_equal_(self, x, y, f, eq):
        lx, ly = self.canon(slen(x)), self.canon(slen(y))
        r = self.equal(lx, ly, f, eq)
        if r[0] != "eq":
            return ("ne", f, x, y) if r[0] == "ne" else r
        i = mk("sym", "sq", next(_fresh))
        f2 = Facts(f)
        f2.add_int(i)
        f2.add_int(iadd(isub(lx, i), num(-1)))
        ex, ey = self.canon(sget(x, i)), self.canon(sget(y, i))
        r = self.equal(ex, ey, f2, eq)
        if r[0] == "ne":
            for t in (r[2], r[3]):
                for z in terms.subterms(t):
                    if z.op in SEQ_OPS and z.op not in ("comp", "lit"):
                        return ("unk", "sequences built differently: " + show(z, 4)[:200])
            return ("ne", f, x, y)
        return r

    def leaf_equal(self, x, y, f, eq=None):
        if x is y:
            return ("eq",)
        if eq is not None:
            r = eq(x, y, f)
            if r is True:
                return ("eq",)
            if r is not None and r is not False:
                return r
        if x.op == "bot" or y.op == "bot":
            return ("eq",) if x.op == y.op else ("ne", f, x, y)
        # integers equal under the facts
        if is_int(x) or is_int(y):
            e = isub(x, y)
            if e is ZERO or (f.implied_int(e, True) and f.implied_int(imul(num(-1), e), True)):
                return ("eq",)
            return ("ne", f, x, y)
        if x.op == y.op and x.op in ("comp", "sum", "exists"):
            r = self.leaf_equal(x.args[1], y.args[1], f, eq) if x.args[1] is not y.args[1] else ("eq",)
            if r[0] != "eq":
                return r
            b = mk("sym", "bv", x.args[0].args[0], y.args[0].args[0], next(_fresh))
            f2 = Facts(f)
            f2.add_int(iadd(isub(x.args[1], b), num(-1)))
            f2.add_int(b)
            gx, ex = subst(x.args[2], {x.args[0]: b}), subst(x.args[3], {x.args[0]: b})
            gy, ey = subst(y.args[2], {y.args[0]: b}), subst(y.args[3], {y.args[0]: b})
            r = self.equal(gx, gy, f2, eq)
            if r[0] != "eq":
                return r
            for f3 in f2.assume_guard(self.canon(gx)):
                r = self.equal(ex, ey, f3, eq)
                if r[0] != "eq":
                    return r
            return ("eq",)
        if (x.op in SEQ_OPS or y.op in SEQ_OPS) and not (x.op == y.op and x.op in ("lit",) and len(x.args) == len(y.args)):
            return self.seq_equal(x, y, f, eq)
        # reals that the facts force to be equal (x - y <= 0 and >= 0)
        if x.op == y.op and len(x.args) == len(y.args) and x.op not in ("poly", "fc", "sym", "phi"):
            for p, q in zip(x.args, y.args):
                if isinstance(p, T) != isinstance(q, T):
                    return ("ne", f, x, y)
                if isinstance(p, T):
                    r = self.leaf_equal(p, q, f, eq)
                    if r[0] != "eq":
                        if x.op in ("adt", "tup", "lit"):
                            return r
                        return ("ne", f, x, y) if r[0] == "ne" else r
                elif p != q:
                    return ("ne", f, x, y)
            return ("eq",)
        # real-valued: difference bounded by the facts from both sides
        if x.op in ("poly", "fc") or y.op in ("poly", "fc") or x.op in REAL_OPS:
            lo, hi = rcmp("flt", x, y), rcmp("flt", y, x)
            if all(g is FALSE or (g.op == "ite" and g.args[1] is TRUE and g.args[2] is FALSE and f.decide(g.args[0]) is False) or (g.op == "ite" and g.args[1] is FALSE and g.args[2] is TRUE and f.decide(g.args[0]) is True) for g in (lo, hi)):
                return ("eq",)
        return ("ne", f, x, y)


import itertools

_fresh = itertools.count()
