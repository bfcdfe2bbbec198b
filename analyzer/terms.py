"""Value numbers: hash-consed terms with algebraic normal forms.

Every abstract value the dataflow computes is one of these interned terms, so
two program points hold the same value number exactly when the terms are the
same object.  Integers are kept as linear forms, conditions and conditional
values as ordered decision diagrams over atoms, sequences as comprehensions.
"""
from fractions import Fraction
from math import gcd
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
BOT = mk("bot")
UNIT = mk("tup")


def sym(name, *rest):
    return mk("sym", name, *rest)


def fresh_unknown(why):
    return mk("unknown", why)


# ---------------------------------------------------------------- decision diagrams
def top(v):
    return v.args[0] if v.op == "ite" else None


def cof(v, atom, pos):
    if v.op == "ite" and v.args[0] is atom:
        return v.args[1] if pos else v.args[2]
    return v


def _node(atom, h, l):
    if h is l:
        return h
    if h is BOT:
        return l
    if l is BOT:
        return h
    return mk("ite", atom, h, l)


_ite_memo = {}


def ite(g, h, l):
    """General if-then-else; g is a boolean diagram."""
    if g is TRUE:
        return h
    if g is FALSE:
        return l
    if h is l:
        return h
    if h is BOT:
        return l
    if l is BOT:
        return h
    key = (g, h, l)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if g.op != "ite":
        g = mk("ite", g, TRUE, FALSE)
    a = g.args[0]
    for x in (h, l):
        if x.op == "ite" and x.args[0].id < a.id:
            a = x.args[0]
    r = _node(
        a,
        ite(cof(g, a, True), cof(h, a, True), cof(l, a, True)),
        ite(cof(g, a, False), cof(h, a, False), cof(l, a, False)),
    )
    _ite_memo[key] = r
    return r


def atom(t):
    """boolean diagram for a bare atom"""
    if t is TRUE or t is FALSE:
        return t
    return mk("ite", t, TRUE, FALSE)


def neg(g):
    return ite(g, FALSE, TRUE)


def conj(a, b):
    return ite(a, b, FALSE)


def disj(a, b):
    return ite(a, TRUE, b)


def iff(a, b):
    return ite(a, b, neg(b))


def conjs(xs):
    r = TRUE
    for x in xs:
        r = conj(r, x)
    return r


def implies(a, b):
    return conj(a, neg(b)) is FALSE


def lift1(f, v, memo=None):
    if v is BOT:
        return BOT
    if v.op != "ite":
        return f(v)
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        a, h, l = v.args
        r = ite(a if a.op == "ite" else mk("ite", a, TRUE, FALSE), lift1(f, h, memo), lift1(f, l, memo))
        memo[v] = r
    return r


def liftn(f, *vs, limit=4000):
    memo = {}

    def go(vs):
        if any(v is BOT for v in vs):
            return BOT
        a = None
        for v in vs:
            if v.op == "ite" and (a is None or v.args[0].id < a.id):
                a = v.args[0]
        if a is None:
            return f(*vs)
        r = memo.get(vs)
        if r is None:
            if len(memo) > limit:
                return fresh_unknown("diagram too large")
            h = go(tuple(cof(v, a, True) for v in vs))
            l = go(tuple(cof(v, a, False) for v in vs))
            r = ite(mk("ite", a, TRUE, FALSE), h, l)
            memo[vs] = r
        return r

    return go(tuple(vs))


_nl = {}


def nleaves(v):
    """number of paths of a diagram (bounded)"""
    if v.op != "ite":
        return 1
    r = _nl.get(v)
    if r is None:
        r = min(10**6, nleaves(v.args[1]) + nleaves(v.args[2]))
        _nl[v] = r
    return r


def rlift(f, *vs, limit=12):
    """lift an operation on reals through conditional operands while that stays small"""
    n = 1
    for v in vs:
        n *= nleaves(v)
    if n > limit:
        vs = tuple(mk("val", v) if nleaves(v) > 2 else v for v in vs)
    return liftn(f, *vs)


def leaves(v, g=TRUE):
    """[(guard, leaf)] of a conditional value"""
    out = {}
    order = []

    def go(v, g):
        if g is FALSE:
            return
        if v.op == "ite" and v is not TRUE:
            a, h, l = v.args
            ga = mk("ite", a, TRUE, FALSE)
            go(h, conj(g, ga))
            go(l, conj(g, neg(ga)))
        else:
            if v not in out:
                out[v] = g
                order.append(v)
            else:
                out[v] = disj(out[v], g)

    go(v, g)
    return [(out[v], v) for v in order]


def restrict(v, g):
    """simplify v under the assumption g"""
    memo = {}

    def go(v, g):
        if g is TRUE or g is FALSE or v.op != "ite":
            return v
        key = (v, g)
        r = memo.get(key)
        if r is not None:
            return r
        av, ag = v.args[0], g.args[0]
        if av is ag:
            if g.args[1] is FALSE:
                r = go(v.args[2], g.args[2])
            elif g.args[2] is FALSE:
                r = go(v.args[1], g.args[1])
            else:
                r = _node(av, go(v.args[1], g.args[1]), go(v.args[2], g.args[2]))
        elif ag.id < av.id:
            r = go(v, disj(g.args[1], g.args[2]))
        else:
            r = _node(av, go(v.args[1], g), go(v.args[2], g))
        memo[key] = r
        return r

    return go(v, g)


def atoms_of(v):
    seen = set()
    out = []

    def go(v):
        if v.op != "ite" or v in seen:
            return
        seen.add(v)
        if v.args[0] not in out:
            out.append(v.args[0])
        go(v.args[1])
        go(v.args[2])

    go(v)
    return out


# ---------------------------------------------------------------- integers
def num(n):
    return mk("int", int(n))


ZERO = num(0)
ONE = num(1)


def to_lin(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def iadd(a, b, s=1):
    if a.op == "ite" and b.op == "int" or b.op == "ite" and a.op == "int":
        return liftn(lambda x, y: iadd(x, y, s), a, b)
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + s * k
    return from_lin(ca + s * cb, da)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    if a.op == "int" or b.op == "int":
        if b.op == "int":
            a, b = b, a
        n = a.args[0]
        if b.op == "ite":
            return lift1(lambda x: imul(a, x), b)
        c, d = to_lin(b)
        return from_lin(c * n, {t: k * n for t, k in d.items()})
    # distribute products over sums so that equal polynomials coincide
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    if len(da) + (ca != 0) > 1 or len(db) + (cb != 0) > 1 or any(k != 1 for k in da.values()) or any(k != 1 for k in db.values()):
        r = num(ca * cb)
        for t, k in da.items():
            r = iadd(r, imul(num(k * cb), t))
        for t, k in db.items():
            r = iadd(r, imul(num(k * ca), t))
        for t, k in da.items():
            for u, j in db.items():
                r = iadd(r, imul(num(k * j), imul1(t, u)))
        return r
    return imul1(a, b)


def imul1(a, b):
    fa = list(a.args) if a.op == "imul" else [a]
    fb = list(b.args) if b.op == "imul" else [b]
    return mk("imul", *sorted(fa + fb, key=lambda t: t.id))


def _split(a, n):
    c, d = to_lin(a)
    q = {t: k // n for t, k in d.items() if k % n == 0}
    r = {t: k for t, k in d.items() if k % n != 0}
    return c, q, r


def idiv(a, b):
    if a.op == "ite" or b.op == "ite":
        return liftn(idiv, a, b)
    if b.op == "int" and b.args[0] > 0:
        n = b.args[0]
        if n == 1:
            return a
        c, q, r = _split(a, n)
        if not r:
            return from_lin(c // n, q)
        if q:
            return iadd(from_lin(c // n, q), mk("idiv", from_lin(c % n, r), b))
        if a.op == "idiv" and a.args[1].op == "int":
            return idiv(a.args[0], num(n * a.args[1].args[0]))
    if a.op == "int" and b.op == "int" and b.args[0] > 0:
        return num(a.args[0] // b.args[0])
    if a.op == "int" and a.args[0] == 0:
        return ZERO
    return mk("idiv", a, b)


def irem(a, b):
    if a.op == "ite" or b.op == "ite":
        return liftn(irem, a, b)
    if b.op == "int" and b.args[0] > 0:
        n = b.args[0]
        if n == 1:
            return ZERO
        c, q, r = _split(a, n)
        if not r:
            return num(c % n)
        if q or c >= n:
            return mk("irem", from_lin(c % n, r), b)
    if a.op == "int" and a.args[0] == 0:
        return ZERO
    return mk("irem", a, b)


def cdiv(a, n):
    """ceil(a/n) for constant n>0"""
    return idiv(iadd(a, num(n - 1)), num(n))


SIGNED_OPS = {"sint", "unknown"}


def nonneg_leaf(t):
    if t.op in SIGNED_OPS:
        return False
    return True


def ge0(e):
    if e.op == "ite":
        return lift1(ge0, e)
    if e is BOT:
        return BOT
    c, d = to_lin(e)
    # distribute one conditional integer inside a sum
    for t in d:
        if t.op == "ite":
            k = d[t]
            rest = from_lin(c, {u: j for u, j in d.items() if u is not t})
            return lift1(lambda leaf: ge0(iadd(rest, imul(num(k), leaf))), t)
    if not d:
        return TRUE if c >= 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = c // g
        d = {t: k // g for t, k in d.items()}
    if all(nonneg_leaf(t) for t in d):
        if c >= 0 and all(k > 0 for k in d.values()):
            return TRUE
        if c < 0 and all(k < 0 for k in d.values()):
            return FALSE
    lead = min(d, key=lambda t: t.id)
    if d[lead] < 0:
        return neg(atom(mk("ge0", from_lin(-c - 1, {t: -k for t, k in d.items()}))))
    return atom(mk("ge0", from_lin(c, d)))


def eq0(e):
    if e.op == "ite":
        return lift1(eq0, e)
    if e is BOT:
        return BOT
    c, d = to_lin(e)
    for t in d:
        if t.op == "ite":
            k = d[t]
            rest = from_lin(c, {u: j for u, j in d.items() if u is not t})
            return lift1(lambda leaf: eq0(iadd(rest, imul(num(k), leaf))), t)
    if not d:
        return TRUE if c == 0 else FALSE
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g != 0:
        return FALSE
    c //= g
    d = {t: k // g for t, k in d.items()}
    if all(nonneg_leaf(t) for t in d):
        if all(k > 0 for k in d.values()):
            if c > 0:
                return FALSE
            if c == 0:
                return neg(ge0(from_lin(-1, d)))
        if all(k < 0 for k in d.values()):
            if c < 0:
                return FALSE
            if c == 0:
                return neg(ge0(from_lin(-1, {t: -k for t, k in d.items()})))
    lead = min(d, key=lambda t: t.id)
    if d[lead] < 0:
        c, d = -c, {t: -k for t, k in d.items()}
    return atom(mk("eq0", from_lin(c, d)))


def ilt(a, b):
    return liftn(lambda x, y: ge0(iadd(isub(y, x), num(-1))), a, b)


def ile(a, b):
    return liftn(lambda x, y: ge0(isub(y, x)), a, b)


def ieq(a, b):
    return liftn(lambda x, y: eq0(isub(x, y)), a, b)


def imin(a, b):
    def f(x, y):
        if x is y:
            return x
        d = ge0(isub(y, x))
        if d is TRUE:
            return x
        if d is FALSE:
            return y
        return mk("imin", *sorted([x, y], key=lambda t: t.id))

    return liftn(f, a, b)


def imax(a, b):
    def f(x, y):
        if x is y:
            return x
        d = ge0(isub(y, x))
        if d is TRUE:
            return y
        if d is FALSE:
            return x
        return mk("imax", *sorted([x, y], key=lambda t: t.id))

    return liftn(f, a, b)


def nsub(a, b):
    """saturating subtraction"""
    if b is ZERO:
        return a

    def f(x, y):
        d = isub(x, y)
        g = ge0(d)
        if g is TRUE:
            return d
        if g is FALSE:
            return ZERO
        return mk("nsub", x, y)

    return liftn(f, a, b)


# ---------------------------------------------------------------- reals (float type left abstract)
def fc(x):
    return mk("fc", Fraction(x))


F0 = fc(0)
F1 = fc(1)


def _exact(fr):
    return fr.denominator == 1 and abs(fr) < (1 << 20)


def fadd(a, b):
    if a is F0:
        return b
    if b is F0:
        return a
    if a.op == "fc" and b.op == "fc" and _exact(a.args[0]) and _exact(b.args[0]):
        return fc(a.args[0] + b.args[0])
    if b.op == "fneg":
        return fsub(a, b.args[0])
    if a.op == "fneg":
        return fsub(b, a.args[0])
    return mk("fadd", *sorted([a, b], key=lambda t: t.id))


def fsub(a, b):
    if b is F0:
        return a
    if a.op == "fc" and b.op == "fc" and _exact(a.args[0]) and _exact(b.args[0]):
        return fc(a.args[0] - b.args[0])
    if b.op == "fneg":
        return fadd(a, b.args[0])
    if b.op == "fc" and b.args[0] < 0:
        return fadd(a, fc(-b.args[0]))
    if a is F0:
        return fneg(b)
    return mk("fsub", a, b)


def fmul(a, b):
    if a is F1:
        return b
    if b is F1:
        return a
    if a.op == "fc" and b.op == "fc" and _exact(a.args[0]) and _exact(b.args[0]):
        return fc(a.args[0] * b.args[0])
    if a is b:
        return fpowi(a, num(2))
    return mk("fmul", *sorted([a, b], key=lambda t: t.id))


def fdiv(a, b):
    if b is F1:
        return a
    return mk("fdiv", a, b)


def fneg(a):
    if a.op == "fneg":
        return a.args[0]
    if a.op == "fc":
        return fc(-a.args[0])
    return mk("fneg", a)


def frem(a, b):
    return mk("frem", a, b)


def fpowi(a, n):
    if n is ONE:
        return a
    return mk("f.powi", a, n)


def f_un(name):
    return lambda *a: mk("f." + name, *a)


def tof(i):
    """exact conversion of a small integer to the float type"""
    if i.op == "int" and i.args[0] < (1 << 20):
        return fc(i.args[0])
    return mk("tof", i)


def flt(a, b):
    if a is b:
        return FALSE
    if a.op == "fc" and b.op == "fc":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return atom(mk("flt", a, b))


def fle(a, b):
    # NaN-free reals: a <= b is not (b < a)
    return neg(flt(b, a))


def feq(a, b):
    if a is b:
        return TRUE
    if a.op == "fc" and b.op == "fc":
        return TRUE if a.args[0] == b.args[0] else FALSE
    return conj(neg(flt(a, b)), neg(flt(b, a)))


# ---------------------------------------------------------------- data
ENUMS = {
    "std::option::Option": (["None", "Some"], [0, 1]),
    "std::result::Result": (["Ok", "Err"], [0, 1]),
    "std::cmp::Ordering": (["Less", "Equal", "Greater"], [-1, 0, 1]),
    "std::ops::ControlFlow": (["Continue", "Break"], [0, 1]),
    "std::collections::btree_map::Entry": (["Vacant", "Occupied"], [0, 1]),
    "std::collections::hash_map::Entry": (["Occupied", "Vacant"], [0, 1]),
    "std::borrow::Cow": (["Borrowed", "Owned"], [0, 1]),
}
OPT = "std::option::Option"
ORD = "std::cmp::Ordering"


def adt(path, var, *fields):
    return mk("adt", path, var, *fields)


def some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)
LESS, EQUAL, GREATER = adt(ORD, 0), adt(ORD, 1), adt(ORD, 2)


def tup(*xs):
    return mk("tup", *xs)


def isv(x, path, var):
    """boolean: x is variant `var` of enum `path`"""
    n = len(ENUMS[path][0])

    def f(l):
        if l.op == "adt":
            return TRUE if l.args[1] == var else FALSE
        # chain of atoms 0..n-2, the last variant is what remains
        r = TRUE
        ats = [mk("isv", l, path, i) for i in range(n - 1)]
        for i in range(min(var, n - 1)):
            r = conj(r, neg(atom(ats[i])))
        if var < n - 1:
            r = conj(r, atom(ats[var]))
        return r

    return lift1(f, x)


def discr(x, path):
    ds = ENUMS[path][1]

    def f(l):
        if l.op == "adt":
            return mk("int", ds[l.args[1]])
        r = mk("int", ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = ite(isv(l, path, i), mk("int", ds[i]), r)
        return r

    return lift1(f, x)


def fld(v, i):
    def f(l):
        if l.op == "adt":
            return l.args[2 + i] if len(l.args) > 2 + i else BOT
        if l.op == "tup":
            return l.args[i]
        if l.op == "clo":
            return l.args[2 + i]
        if l.op == "updf":
            return l.args[2] if l.args[1] == i else fld(l.args[0], i)
        return mk("fld", l, i)

    return lift1(f, v)


def pay(v, var, i):
    def f(l):
        if l.op == "adt":
            if l.args[1] != var:
                return BOT
            return l.args[2 + i]
        return mk("pay", l, var, i)

    return lift1(f, v)


def updf(v, i, x):
    def f(l):
        if l.op in ("adt", "clo"):
            a = list(l.args)
            a[2 + i] = x
            return mk(l.op, *a)
        if l.op == "tup":
            a = list(l.args)
            a[i] = x
            return mk("tup", *a)
        return mk("updf", l, i, x)

    return lift1(f, v)


def updp(v, var, i, x):
    def f(l):
        if l.op == "adt":
            if l.args[1] != var:
                return BOT
            a = list(l.args)
            a[2 + i] = x
            return mk("adt", *a)
        return mk("updp", l, var, i, x)

    return lift1(f, v)


# ---------------------------------------------------------------- sequences
EMPTY = mk("lit")


def lit(*xs):
    return mk("lit", *xs)


def slen(s):
    def f(s):
        o = s.op
        if o == "lit":
            return num(len(s.args))
        if o == "repeat":
            return s.args[1]
        if o == "push":
            return iadd(slen(s.args[0]), ONE)
        if o == "setat":
            return slen(s.args[0])
        if o == "insat":
            return iadd(slen(s.args[0]), ONE)
        if o == "cat":
            return iadd(slen(s.args[0]), slen(s.args[1]))
        if o == "comp":
            if s.args[2] is TRUE:
                return s.args[1]
            return mk("len", s)
        if o == "slice":
            return isub(s.args[2], s.args[1])
        if o in ("sorted", "nthsorted", "rev", "mapupd", "setsl"):
            return slen(s.args[0])
        if o == "fin" and len(s.args) == 4:
            return s.args[3]
        if o == "init":
            return isub(slen(s.args[0]), ONE)
        if o in ("ments", "mvals", "mkeys", "hments", "hmvals", "hmkeys"):
            return mcard(s.args[0])
        return mk("len", s)

    return lift1(f, s)


def sget(s, i):
    def f(s, i):
        o = s.op
        if o == "lit" and i.op == "int":
            n = i.args[0]
            return s.args[n] if 0 <= n < len(s.args) else BOT
        if o == "repeat":
            return s.args[0]
        if o == "setat":
            return ite(eq0(isub(i, s.args[1])), s.args[2], sget(s.args[0], i))
        if o == "comp" and s.args[2] is TRUE:
            return subst(s.args[3], {s.args[0]: i})
        if o == "slice":
            return sget(s.args[0], iadd(s.args[1], i))
        if o == "push":
            n = slen(s.args[0])
            e = eq0(isub(i, n))
            if e is TRUE:
                return s.args[1]
            if ge0(iadd(isub(n, i), num(-1))) is TRUE:
                return sget(s.args[0], i)
        if o == "rev":
            return sget(s.args[0], iadd(isub(slen(s.args[0]), i), num(-1)))
        if o == "cat":
            n = slen(s.args[0])
            if ge0(iadd(isub(n, i), num(-1))) is TRUE:
                return sget(s.args[0], i)
            if ge0(isub(i, n)) is TRUE:
                return sget(s.args[1], isub(i, n))
        return mk("get", s, i)

    return liftn(f, s, i)


def push(s, x):
    def f(s):
        if s.op == "lit":
            return mk("lit", *(s.args + (x,)))
        return mk("push", s, x)

    return lift1(f, s)


def cat(s, t):
    def f(s, t):
        if s is EMPTY:
            return t
        if t is EMPTY:
            return s
        if s.op == "lit" and t.op == "lit":
            return mk("lit", *(s.args + t.args))
        return mk("cat", s, t)

    return liftn(f, s, t)


def setat(s, i, x):
    def f(s):
        if s.op == "lit" and i.op == "int" and 0 <= i.args[0] < len(s.args):
            a = list(s.args)
            a[i.args[0]] = x
            return mk("lit", *a)
        if s.op == "setat" and s.args[1] is i:
            return mk("setat", s.args[0], i, x)
        if sget(s, i) is x:
            return s
        return mk("setat", s, i, x)

    return lift1(f, s)


def slice_(s, a, b):
    def f(s):
        if a is ZERO and b is slen(s):
            return s
        if s.op == "slice":
            return mk("slice", s.args[0], iadd(s.args[1], a), iadd(s.args[1], b))
        if s.op == "lit" and a.op == "int" and b.op == "int":
            return mk("lit", *s.args[a.args[0] : b.args[0]])
        if eq0(isub(a, b)) is TRUE:
            return EMPTY
        return mk("slice", s, a, b)

    return lift1(f, s)


def pop_init(s):
    def f(s):
        if s.op == "push":
            return s.args[0]
        if s.op == "lit":
            return mk("lit", *s.args[:-1]) if s.args else EMPTY
        return mk("init", s)

    return lift1(f, s)


def slast(s):
    def f(s):
        if s.op == "push":
            return s.args[1]
        if s.op == "lit":
            return s.args[-1] if s.args else BOT
        return sget(s, iadd(slen(s), num(-1)))

    return lift1(f, s)


def bound_depth(t, memo={}):
    r = memo.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == "bvar":
        r = 0
    for a in _children(t):
        d = bound_depth(a)
        if d > r:
            r = d
    if t.op in ("comp", "sum", "exists"):
        r = max(r, t.args[0].args[0])
    memo[t] = r
    return r


def _children(t):
    if t.op == "lin":
        return [x for x, _ in t.args[1]]
    return [a for a in t.args if isinstance(a, T)]


def comp(k, trip, g, e):
    """[e(k) | k <- 0..trip, g(k)]"""
    if trip is ZERO or g is FALSE:
        return EMPTY
    d = 1 + max(bound_depth(g), bound_depth(e))
    b = mk("bvar", d)
    g2, e2 = subst(g, {k: b}), subst(e, {k: b})
    if e2.op == "get" and e2.args[1] is b and g2 is TRUE and not occurs(b, e2.args[0]) and slen(e2.args[0]) is trip:
        return e2.args[0]
    if g2 is TRUE and trip.op == "int" and 0 < trip.args[0] <= 8:
        return lit(*[subst(e, {k: num(i)}) for i in range(trip.args[0])])
    return mk("comp", b, trip, g2, e2)


def sum_(k, trip, g, e):
    d = 1 + max(bound_depth(g), bound_depth(e))
    b = mk("bvar", d)
    return mk("sum", b, trip, subst(g, {k: b}), subst(e, {k: b}))


def occurs(x, t, memo=None):
    if memo is None:
        memo = {}
    if x is t:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    for a in _children(t):
        if occurs(x, a, memo):
            r = True
            break
    memo[t] = r
    return r


def any_op(t, pred, memo=None):
    """does some subterm satisfy pred?"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = bool(pred(t))
    if not r:
        for a in _children(t):
            if any_op(a, pred, memo):
                r = True
                break
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for a in _children(t):
        subterms(a, seen)
    return seen


# ---------------------------------------------------------------- sets and heaps, maps
SEMPTY = mk("sempty")
HEMPTY = mk("hempty")
MEMPTY = mk("mempty")


def veq(a, b):
    """structural equality of two values as a condition (for set/map keys: ints or opaque)"""
    if a is b:
        return TRUE
    if a.op in ("fc",) or b.op in ("fc",):
        return feq(a, b)
    return ieq(a, b)


def shas(s, x):
    def f(s):
        if s.op == "sempty":
            return FALSE
        if s.op == "sins":
            return disj(veq(s.args[1], x), shas(s.args[0], x))
        if s.op == "srem":
            return conj(neg(veq(s.args[1], x)), shas(s.args[0], x))
        return atom(mk("has", s, x))

    return lift1(f, s)


def sins(s, x):
    def f(s):
        if shas(s, x) is TRUE:
            return s
        return mk("sins", s, x)

    return lift1(f, s)


def scard(s):
    def f(s):
        if s.op == "sempty":
            return ZERO
        if s.op == "sins":
            return ite(shas(s.args[0], s.args[1]), scard(s.args[0]), iadd(scard(s.args[0]), ONE))
        return mk("card", s)

    return lift1(f, s)


def hlen(h):
    def f(h):
        if h.op == "hempty":
            return ZERO
        if h.op == "hpush":
            return iadd(hlen(h.args[0]), ONE)
        if h.op == "hrest":
            return iadd(hlen(h.args[0]), num(-1))
        return mk("hlen", h)

    return lift1(f, h)


def hpush(h, x):
    return lift1(lambda h: mk("hpush", h, x), h)


def htop(h):
    def f(h):
        if h.op == "hempty":
            return BOT
        if h.op == "hpush" and h.args[0].op == "hempty":
            return h.args[1]
        return mk("htop", h)

    return lift1(f, h)


def hrest(h):
    def f(h):
        if h.op == "hempty":
            return HEMPTY
        if h.op == "hpush" and h.args[0].op == "hempty":
            return HEMPTY
        return mk("hrest", h)

    return lift1(f, h)


def mhas(m, k):
    def f(m):
        if m.op == "mempty":
            return FALSE
        if m.op == "mset":
            return disj(veq(m.args[1], k), mhas(m.args[0], k))
        if m.op == "mdel":
            return conj(neg(veq(m.args[1], k)), mhas(m.args[0], k))
        if k.op == "keyat" and k.args[0] is m:
            return TRUE
        return atom(mk("mhas", m, k))

    return lift1(f, m)


def mget(m, k):
    def f(m):
        if m.op == "mempty":
            return BOT
        if m.op == "mset":
            return ite(veq(m.args[1], k), m.args[2], mget(m.args[0], k))
        return mk("mget", m, k)

    return lift1(f, m)


def mset(m, k, v):
    def f(m):
        if m.op == "mset" and m.args[1] is k:
            return mk("mset", m.args[0], k, v)
        return mk("mset", m, k, v)

    return lift1(f, m)


def mcard(m):
    def f(m):
        if m.op == "mempty":
            return ZERO
        if m.op == "mset":
            return ite(mhas(m.args[0], m.args[1]), mcard(m.args[0]), iadd(mcard(m.args[0]), ONE))
        return mk("mcard", m)

    return lift1(f, m)


# ---------------------------------------------------------------- substitution
def _rb_lin(a, s):
    r = num(a[0])
    for t, k in a[1]:
        r = iadd(r, imul(num(k), s(t)))
    return r


REBUILD = {
    "ge0": lambda e: ge0(e),
    "eq0": lambda e: eq0(e),
    "flt": flt, "fle": fle, "feq": feq,
    "fadd": fadd, "fsub": fsub, "fmul": fmul, "fdiv": fdiv, "fneg": fneg, "frem": frem,
    "f.powi": fpowi, "tof": tof,
    "imul": lambda *a: __import__("functools").reduce(imul, a),
    "idiv": idiv, "irem": irem, "imin": imin, "imax": imax, "nsub": nsub,
    "isv": isv, "fld": fld, "pay": pay, "updf": updf, "updp": updp,
    "len": slen, "get": sget, "push": push, "cat": cat, "setat": setat, "slice": slice_, "init": pop_init,
    "has": shas, "sins": sins, "card": scard,
    "hlen": hlen, "hpush": hpush, "htop": htop, "hrest": hrest,
    "mhas": mhas, "mget": mget, "mset": mset, "mcard": mcard,
}


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    if t.op == "ite":
        a, h, l = t.args
        ga = _subst_atom(a, m, memo)
        r = ite(ga, subst(h, m, memo), subst(l, m, memo))
    elif t.op == "lin":
        r = _rb_lin(t.args, lambda x: subst(x, m, memo))
    elif t.op in SUBST_HOOK:
        r = SUBST_HOOK[t.op](t, lambda x: subst(x, m, memo))
    elif t.op in ("comp", "sum", "exists"):
        b = t.args[0]
        m2, memo2 = m, memo
        if b in m:
            m2 = {k: v for k, v in m.items() if k is not b}
            memo2 = {}
        trip, g, e = subst(t.args[1], m, memo), subst(t.args[2], m2, memo2), subst(t.args[3], m2, memo2)
        if trip is t.args[1] and g is t.args[2] and e is t.args[3]:
            r = t
        elif t.op == "comp":
            r = comp(b, trip, g, e)
        elif t.op == "sum":
            r = sum_(b, trip, g, e)
        else:
            r = mk(t.op, b, trip, g, e)
    else:
        changed = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                x = subst(a, m, memo)
                if x is not a:
                    changed = True
                na.append(x)
            else:
                na.append(a)
        if not changed:
            r = t
        else:
            c = REBUILD.get(t.op)
            r = c(*na) if c else mk(t.op, *na)
    memo[t] = r
    return r


SUBST_HOOK = {}


def _subst_atom(a, m, memo):
    """atoms rebuild to boolean diagrams"""
    r = m.get(a)
    if r is not None:
        return r if r.op in ("ite", "true", "false") else atom(r)
    x = subst(a, m, memo)
    if x.op in ("ite", "true", "false"):
        return x
    return atom(x)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, Fraction):
            f = float(t)
            return repr(f) if f != int(f) or abs(f) > 1e15 else str(int(f))
        return str(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "true":
        return "T"
    if o == "false":
        return "F"
    if o == "sym":
        return ".".join(str(x) for x in a)
    if o == "fc":
        return s(a[0])
    if o == "bvar":
        return "b%d" % a[0]
    if o == "lin":
        parts = []
        for x, k in a[1]:
            parts.append((("+" if k > 0 else "-") + ("" if abs(k) == 1 else "%d*" % abs(k)) + s(x)))
        r = "".join(parts).lstrip("+")
        if a[0]:
            r += "%+d" % a[0]
        return "(" + r + ")"
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        if a[2] is FALSE:
            return "(%s & %s)" % (s(a[0]), s(a[1]))
        if a[1] is TRUE:
            return "(%s | %s)" % (s(a[0]), s(a[2]))
        return "{%s ? %s : %s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "ge0":
        return "%s>=0" % s(a[0])
    if o == "eq0":
        return "%s==0" % s(a[0])
    if o in ("flt", "fle", "feq"):
        return "%s%s%s" % (s(a[0]), {"flt": "<", "fle": "<=", "feq": "=="}[o], s(a[1]))
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        return "(%s%s%s)" % (s(a[0]), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[o], s(a[1]))
    if o == "poly":
        out = []
        for m, c in a[0]:
            fs = [s(x) + ("" if k == 1 else "^%d" % k) for x, k in m]
            cs = show(c)
            if fs and c == 1:
                out.append("*".join(fs))
            elif fs and c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append("*".join([cs] + fs))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if o == "adt":
        nm = a[0].split("::")[-1]
        if a[0] in ENUMS:
            nm = ENUMS[a[0]][0][a[1]]
        return nm + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "tup":
        return "(" + ", ".join(s(x) for x in a) + ",)"
    if o == "lit":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "comp":
        return "[%s | %s<%s%s]" % (s(a[3]), s(a[0]), s(a[1]), "" if a[2] is TRUE else ", " + s(a[2]))
    if o == "get":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "isv":
        return "%s is %s" % (s(a[0]), ENUMS[a[1]][0][a[2]])
    if o == "pay":
        return "%s!%s.%s" % (s(a[0]), a[1], a[2])
    if o == "ref":
        return "&mut %s%s" % (a[0], "".join("." + "/".join(s(y) for y in e) for e in a[1]))
    return o + "(" + ", ".join(s(x) if isinstance(x, T) else show(x) for x in a) + ")"
