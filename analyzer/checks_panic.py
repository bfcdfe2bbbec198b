"""Absence of panics in extraction (C02)."""
import re
from checklib import *
from loops import *
from engine import strip_refs
from checks_num import adt_info, fail_cond, enum_path
from checks_graph import field_index
import checks_image, checks_cluster, checks_search
from checks_global import Reach, sub, short, adts_in, blocks

SIDE = 2**23
PIXELS = 2**46
MEMORY = 2**58  # no collection is longer
INT = {}
for _b in (8, 16, 32, 64, 128):
    INT["u%d" % _b] = (0, 2**_b - 1, _b)
    INT["i%d" % _b] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1, _b)
INT["usize"], INT["isize"] = INT["u64"], INT["i64"]

EXTRACT_OPQ = ("DBSCAN::centroids", "DBSCAN::count_at", "DBSCAN::outliers")


def tyname(t):
    if isinstance(t, (tuple, list)) and t:
        return t[-1] if t[0] in ("int", "uint") and len(t) > 1 else t[0]
    return t


def ok_of(e):
    """condition under which the operation of an event succeeds"""
    if e.get("ok") is not None:
        return e["ok"]
    w = e["why"]
    ty = INT.get(tyname(e.get("ty")))
    if ty is None or not w.startswith("overflow_"):
        raise Unsupported("operation %s on %s" % (w, e.get("ty")))
    lo, hi, bits = ty
    o = w[9:]
    a = e["ops"]
    if o in ("add", "sub", "mul"):
        v = {"add": iadd, "sub": isub, "mul": imul}[o](a[0], a[1])
        return conj(ile(num(lo), v), ile(v, num(hi)))
    if o == "neg":
        return neg(ieq(a[0], num(lo)))
    if o in ("shl", "shr"):
        s = a[-1]
        return conj(ile(ZERO, s), ilt(s, num(bits)))
    if o in ("div", "rem"):
        return neg(conj(ieq(a[0], num(lo)), ieq(a[1], num(-1)))) if lo < 0 else TRUE
    raise Unsupported("operation " + w)


def result_of(e):
    a = e["ops"]
    o = e["why"][9:]
    return {"add": iadd, "sub": isub, "mul": imul}[o](a[0], a[1]) if o in ("add", "sub", "mul") else None


class Bound:
    """largest and smallest value of an integer term, by interval arithmetic"""

    def __init__(self, known):
        self.known = known  # term -> (lo, hi)
        self.more = None

    def __call__(self, t):
        if t in self.known:
            return self.known[t]
        if t.op == "int":
            return t.args[0], t.args[0]
        c, d = terms.to_lin(t)
        if not (len(d) == 1 and c == 0 and t in d):
            lo = hi = c
            for x, k in d.items():
                l, h = self(x)
                l, h = (l * k, h * k) if k > 0 else (h * k, l * k)
                lo, hi = lo + l, hi + h
            return lo, hi
        inf = float("inf")
        if t.op in ("len", "card", "hlen", "mlen", "mcard", "scard"):
            return 0, MEMORY
        if t.op == "imul":
            lo = hi = 1
            for x in t.args:
                l, h = self(x)
                q = [lo * l if 0 not in (lo, l) else 0, lo * h if 0 not in (lo, h) else 0, hi * l if 0 not in (hi, l) else 0, hi * h if 0 not in (hi, h) else 0]
                lo, hi = min(q), max(q)
            for x in t.args:
                # w * (p / w) is at most p
                if x.op == "idiv" and len(t.args) == 2 and x.args[1] in t.args:
                    hi = min(hi, self(x.args[0])[1])
            return lo, hi
        if t.op == "idiv":
            l, h = self(t.args[0])
            if l >= 0:
                d = max(1, self(t.args[1])[0])
                return 0, h if h == inf else h // d if d != inf else h
        if t.op == "irem":
            l, h = self(t.args[0])
            if l >= 0:
                return 0, min(h, max(0, self(t.args[1])[1] - 1))
        if t.op == "ite":
            a, b = self(t.args[1]), self(t.args[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if t.op == "imin":
            q = [self(x) for x in t.args]
            return min(x[0] for x in q), min(x[1] for x in q)
        if t.op == "imax":
            q = [self(x) for x in t.args]
            return max(x[0] for x in q), max(x[1] for x in q)
        return (-inf if t.op in terms.SIGNED_OPS else 0), inf


def check_C02(c):
    c.rule("every operation of extraction that can stop the program (index, slice, division, checked arithmetic, unwrapped conversion, unreachable branch) is listed from the compiled bodies; its guard must imply that it succeeds")
    c.assume("no collection holds 2^58 elements or more, and nothing is repeated 2^63 times")
    c.assume("memory suffices; the standard library stops the program only in the documented cases")
    S = State(c)
    c.part("C02/extract", extraction, S)
    c.part("C02/colors", colors, S)
    c.part("C02/fit", fitting, S)
    c.part("C02/build", building, S)
    c.part("C02/search", searching, S)
    c.part("C02/rest", rest, S)


class State:
    def __init__(self, c):
        self.node = False
        self.subs = {}
        self.seen = set()
        self.n = {}

    def key(self, base, e):
        k = "%s/%s" % (base, e["why"])
        self.n[k] = self.n.get(k, 0) + 1
        return "%s%d" % (k, self.n[k])

    def all_held(self, c, prop, fn, pre, base=""):
        """(True, None) if the named obligations of another property hold"""
        s = sub(c, prop, fn, self.subs)
        mine = [o for o in s.obs if any(o["key"].startswith(p) for p in pre)]
        bad = [o for o in mine if o["status"] != HELD]
        if mine and not bad:
            return True, None
        return False, bad[0] if bad else None


def stops(r):
    """events that may stop the program"""
    return [e for e in r.events if e["kind"] in ("panic", "partial")]


def here(e):
    sp = e.get("sp")
    return "%s (%s)" % (e["fn"], sp.split(" ")[0] if isinstance(sp, str) else sp)


WORDS = {
    "bounds": "index within its sequence",
    "slice": "subrange within its sequence",
    "div_zero": "divisor is not zero",
    "rem_zero": "divisor is not zero",
    "unwrap": "unwrapped value is present",
    "explicit": "branch declared unreachable is not taken",
    "divide": "a point is not divided by zero",
    "coordinate": "coordinate number is below the dimension",
    "chunk_zero": "chunk length is not zero",
    "clamp": "bounds of a clamp are ordered",
}


def words(e):
    return WORDS.get(e["why"], "arithmetic does not overflow (%s)" % e["why"])


def verdict(c, cond, sets, canon):
    """status of a condition under every fact set; the failing case is returned as text"""
    out = HELD
    text = ""
    for fa in sets:
        p = Check(c.prop, c.P)
        r = p.valid("x", {"def": {"p": ""}, "sp": ""}, "", cond, facts=fa, canon=canon)
        if r is False:
            return VIOL, p.obs[-1]["text"]
        if r is None:
            out, text = UNDEC, p.obs[-1]["text"]
    return out, text


def judge(c, key, r, e, sets, canon, V=None, sm=None, definite=True, bound=None, more=()):
    """one operation under the given facts"""
    try:
        ok = ok_of(e)
    except Unsupported as x:
        c.undec(key, "%s: %s" % (here(e), x))
        return None
    g = full_guard(r, e)
    f = sm or (lambda t: t)
    if dim_constant(c):
        f = lambda t, f0=f: one_dim(f0(t))
    raw = f(ok), f(g)
    if V is not None:
        ok, g = V(ok), V(g)
    ok, g = f(ok), f(g)
    if e["why"].startswith("overflow_") and bound is not None:
        v = result_of(e)
        ty = INT.get(tyname(e.get("ty")))
        if v is not None and ty:
            lo, hi = bound(f(V(v) if V else v))
            if ty[0] <= lo and hi <= ty[1]:
                c.held(key, "%s: %s" % (here(e), words(e)))
                return True
    st, text = under(c, sets, ok, g, bound, canon, more)
    if st == HELD:
        c.held(key, "%s: %s" % (here(e), words(e)))
        return True
    if V is not None and st == VIOL and raw != (ok, g):
        # values carried around a loop are arbitrary above; a failing case must not rest on that
        st, text = under(c, sets, raw[0], raw[1], bound, canon, more)
        st = UNDEC if st == HELD else st
    if st == VIOL and definite:
        c.viol(key, here(e), "%s: %s" % (words(e), text))
        return False
    if definite:
        for when, path, (ok2, g2) in early(r, e, (ok_of(e), full_guard(r, e))):
            st, text2 = under(c, sets, f(ok2), conj(f(path), f(g2)), bound, canon, more)
            if st == VIOL:
                c.viol(key, here(e), "%s: in %s of the loop: %s" % (words(e), when, text2))
                return False
    c.undec(key, "%s: %s: %s" % (here(e), words(e), text or "rests on values that are not bounded"))
    return None


def dim_constant(c):
    """the dimension of a point depends on its type only"""
    r = c.P.__dict__.get("_dim_constant")
    if r is None:
        r = True
        n = 0
        for i in c.P.impls_of("point::Point"):
            for nm, iid in i["items"]:
                if nm == "dim":
                    n += 1
                    try:
                        v = c.analyze(c.P.fns[iid]).ret
                    except (Lost, Unsupported, RecursionError):
                        v = None
                    r = r and v is not None and v.op == "int"
        r = r and n > 0
        c.P.__dict__["_dim_constant"] = r
    return r


def one_dim(t):
    """all points of a generic function have one type, hence one dimension"""
    ds = {u: mk("app", "t:Point::dim", mk("sym", "P")) for u in subterms(t) if u.op == "app" and u.args[0] == "t:Point::dim"}
    return subst(t, ds) if ds else t


def under(c, sets, ok, g, bound, canon, more):
    sets = [x for fa in sets for x in widen(fa, (ok, g), bound)]
    for extra in more:
        sets = [y for x in sets for y in x.assume_guard((canon or Canon())(extra))]
    return verdict(c, plain(disj(neg(g), ok)), sets, canon)


def plain(t, n=0):
    """a condition with minima and maxima written as cases"""
    if n > 6:
        return t
    for u in subterms(t):
        if u.op in ("imin", "imax") and not any(x.op in ("imin", "imax") for y in u.args for x in subterms(y)):
            a, b = u.args
            q = ile(a, b) if u.op == "imin" else ile(b, a)
            x, y = (plain(subst(t, {u: v}), n + 1) for v in (a, b))
            return disj(conj(q, x), conj(neg(q), y))
    return t


def widen(fa, ts, bound):
    """facts with the range of every collection length that occurs"""
    fa = Facts(fa)
    if bound is not None and bound.more is not None:
        bound.more(fa, ts)
    for t in ts:
        for x in subterms(t):
            if x.op in ("len", "card", "hlen", "mlen", "mcard", "scard"):
                fa.add_int(isub(num(MEMORY), x))
            elif bound is not None and x in bound.known:
                lo, hi = bound.known[x]
                if hi != float("inf"):
                    fa.add_int(isub(num(int(hi)), x))
                if lo != -float("inf"):
                    fa.add_int(isub(x, num(int(lo))))
            elif bound is not None and x.op == "imul":
                hi = bound(x)[1]
                if hi != float("inf"):
                    fa.add_int(isub(num(int(hi)), x))
    return [fa]


def dim_rule(t):
    """all points of one type have the same dimension"""
    if t.op == "app" and t.args[0] == "t:Point::dim":
        return mk("sym", "dim")
    return None


DIM = mk("sym", "dim")


def subst_where(t, f):
    """replace the outermost subterms f maps to something"""
    m = {}
    for x in subterms(t):
        y = f(x)
        if y is not None:
            m[x] = y
    return subst(t, m) if m else t


def rounded(t):
    """a rounded float is some number"""
    return subst_where(t, lambda x: mk("sym", "flt_any", x.id) if x.op == "app" and isinstance(x.args[0], str) and x.args[0] in ("f.round", "f.floor", "f.ceil", "f.trunc") or x.op in ("f.round", "f.floor", "f.ceil", "f.trunc") else None)


def mark(S, r):
    S.seen |= set(r.inlined)


def unmodelled(c, S, key, r):
    """calls whose effect is not modelled may stop the program"""
    for e in r.events:
        if e["kind"] == "call" and str(e["name"]).startswith("x:") and not re.search(r"hash::Hash|fmt::", e["name"]):
            c.undec(key + "/unknown", "%s: effect of %s is not known" % (here(e), e["name"][2:]))
    for e in r.events:
        if e["kind"] == "capacity":
            pass


# ---------------------------------------------------------------- extraction
def image_sets(I):
    """facts about a well-formed image, by whether it has pixels"""
    out = []
    for kind in ("pixels", "no columns", "no rows"):
        fa = Facts()
        for s in (I.w, I.h):
            fa.add_int(isub(num(SIDE), s))
            fa.add_int(s)
        if kind == "pixels":
            for e in (isub(I.n, ONE), isub(I.w, ONE), isub(I.h, ONE), isub(I.n, I.w), isub(I.n, I.h), isub(num(PIXELS), I.n)):
                fa.add_int(e)
        else:
            z = I.w if kind == "no columns" else I.h
            for e in (z, I.n):
                fa.add_int(isub(ZERO, e))
                fa.add_int(e)
        out.append((kind, fa))
    return out


def extraction(c, S):
    f = c.P.find_fn("ImageData::extract")
    try:
        I = checks_image.Image(c)
    except Unsupported:
        I = None
    r = c.analyze(f, opaque=checks_image.OPQ)
    mark(S, r)
    unmodelled(c, S, "C02/extract", r)
    if I is None:
        raise Unsupported("no single call of the clustering")
    V = View(r)
    coords = coordinates(c, I, r)
    sets = image_sets(I)
    known = {I.w: (0, SIDE), I.h: (0, SIDE), I.n: (0, PIXELS), slen(I.data): (0, 4 * PIXELS)}
    bound = Bound(known)
    for L in r.loops.values():
        known[L.k] = (0, 2**48)
    for L in r.loops.values():
        if L.trip is not None:
            known[L.k] = (0, min(2**48, bound(I(V(L.trip)))[1]))
    rows = [L.k for L in r.loops.values() if L.trip is not None and I(V(L.trip)) is I.h]
    columns = [L.k for L in r.loops.values() if L.trip is not None and I(V(L.trip)) is I.w]

    def products(fa, ts):
        """what is known about products with a side of the image"""
        for t in ts:
            for x in subterms(t):
                if x.op != "imul" or len(x.args) != 2:
                    continue
                for side, index in ((I.w, rows), (I.h, columns)):
                    if side not in x.args or not positive(fa, side):
                        continue
                    y = x.args[1 - x.args.index(side)]
                    if y in index:
                        for q in index:
                            if q is y:
                                fa.add_int(isub(isub(I.n, x), side))
                    elif y.op == "idiv" and y.args[1] is side:
                        fa.add_int(isub(y.args[0], x))
                        fa.add_int(isub(isub(iadd(x, side), y.args[0]), ONE))

    bound.more = products
    cn = I.canon()
    cents = [e for e in r.events if e["kind"] == "call" and e["name"] == "op:DBSCAN::centroids"]
    for e in stops(r):
        key = S.key("C02/extract", e)
        fs = [fa for _, fa in sets]
        sm = I
        e2 = e
        if e["why"] == "unwrap" and any(x.op in ("f.round", "f.floor", "f.ceil", "f.trunc") or x.op == "app" and str(x.args[0]).startswith("f.") for x in subterms(e["ok"])):
            e2 = dict(e, ok=rounded(e["ok"]))
        if e["why"] == "explicit":
            # a panic of the crate's own: taken when the last condition on the way fails
            g = I(V(e["guard"]))
            while g.op == "ite" and FALSE in g.args[1:] and TRUE not in g.args[1:]:
                g = g.args[2] if g.args[1] is FALSE else g.args[1]
            if any(x.op == "fld" and is_centroid(x.args[0], r) for x in subterms(g)):
                e2 = dict(e, ok=rounded(neg(g)), why="unwrap")
        v = result_of(e) if e["why"] == "overflow_add" else None
        ty = INT.get(tyname(e.get("ty")))
        if v is not None and ty and ty[1] >= 2**62 and counter(r, v, e["guard"]):
            c.held(key, "%s: a counter that grows by one per iteration does not overflow" % here(e))
            continue
        # values of centroids lie between those of the pixels
        cs = [x for x in subterms(I(V(e2["ok"]))) if x.op == "fld" and is_centroid(x.args[0], r)] if e2.get("ok") is not None else []
        if cs:
            average(c, S, key, I, r, e2, V, cs, coords, cn, sets, bound)
            continue
        # result sequences are indexed by the loops that fill them
        judge(c, key, r, e2, fs, cn, V, sm, bound=bound)
    for e in r.events:
        if e["kind"] == "capacity" and e.get("value") is not None:
            lo, hi = bound(I(V(e["value"])))
            if hi > 2**58:
                c.undec("C02/extract/capacity", "%s: room for %s elements" % (here(e), show(e["value"], 4)))


def is_centroid(t, r):
    return t.op == "get" and t.args[0].op == "app" and t.args[0].args[0] == "op:DBSCAN::centroids"


def coordinates(c, I, r):
    """coordinates of pixel k, or None"""
    D = I.fit["args"][0]
    el = checks_image.elements(r, D)
    return el


def average(c, S, key, I, r, e, V, cs, coords, cn, sets, bound):
    """a condition on a coordinate of a centroid: it lies between the coordinates of pixels"""
    ok = I(V(e["ok"]))
    ls = list(conjuncts(ok))
    if not all(convex(x, cs) for x in ls):
        # the condition may still hold for every value
        judge(c, key, r, e, [fa for _, fa in sets], cn, V, I, definite=False, bound=bound)
        return
    st, why = S.all_held(c, "C06", checks_cluster.check_C06, ("C06/result", "C06/access/centroids", "C06/empty"))
    if not st:
        c.undec(key, "%s: rests on centroids being means of points: %s" % (here(e), why["text"][:150] if why else ""))
        return
    if coords is None:
        c.undec(key, "%s: points handed to the clustering are not resolved" % here(e))
        return
    g, pt, ix, trips = coords
    m = {}
    for x in cs:
        m[x] = I(fld(pt, x.args[1]))
    # only an image with pixels has centroids
    fa = Facts(dict(sets)["pixels"])
    for k, t in zip(ix, trips):
        fa.add_int(k)
        fa.add_int(isub(isub(I(t), k), ONE))
    if len(ix) == 1:
        q = mk("idiv", ix[0], I.w)
        fa.add_int(isub(isub(I.h, q), ONE))
    fa = [y for y in fa.assume_guard(I(g))]
    cn = None
    xs = list(m)
    st, text = HELD, ""
    for y0 in fa:
        for y, vs in Comparer(I.canon()).cases(tuple(m[x] for x in xs), y0):
            cond = integral(subst(ok, dict(zip(xs, vs))))
            for x in subterms(cond):
                if x.op == "irem" and x.args[1] in (I.w, I.h):
                    y.add_int(isub(isub(x.args[1], x), ONE))
            bound.more(y, (cond,))
            st1, text1 = verdict(c, cond, [y], cn)
            if st1 == VIOL or st1 != HELD and st == HELD:
                st, text = st1, text1
    if st == HELD:
        c.held(key, "%s: %s: the value lies between those of the pixels of the cluster" % (here(e), words(e)))
    elif st == VIOL:
        c.viol(key, here(e), "%s: for a cluster of pixels alike, %s" % (words(e), text))
    else:
        c.undec(key, "%s: %s: %s" % (here(e), words(e), text))


def integral(t):
    """comparisons of reals that are whole numbers, as comparisons of integers"""
    cn = Canon()

    if t.op == "ite":
        c0 = t.args[0]
        i = None
        if c0.op in ("flt", "fle"):
            a, b = (whole(p_of(cn(y))) for y in c0.args)
            if a is not None and b is not None:
                i = ilt(a, b) if c0.op == "flt" else ile(a, b)
        x, y = integral(t.args[1]), integral(t.args[2])
        return disj(conj(i, x), conj(neg(i), y)) if i is not None else ite(c0, x, y)
    return t


def whole(p):
    """integer value of a polynomial in converted integers"""
    out = ZERO
    for mono, k in p.items():
        if k.denominator != 1:
            return None
        t = num(int(k))
        for x, q in mono:
            if x.op != "tof" or q != int(q) or q < 0:
                return None
            for _ in range(int(q)):
                t = imul(t, x.args[0])
        out = iadd(out, t)
    return out


def conjuncts(t):
    if t.op == "ite" and t.args[2] is FALSE and t.args[1] is not TRUE:
        yield t.args[0]
        yield from conjuncts(t.args[1])
    elif t is not TRUE:
        yield t


def convex(t, cs):
    """a strict or weak linear inequality in the values"""
    if t.op == "ite":
        if not (t.args[1] is TRUE and t.args[2] is FALSE or t.args[1] is FALSE and t.args[2] is TRUE):
            return False
        t = t.args[0]
    if t.op not in ("flt", "fle", "flt0", "fle0", "fgt0", "fge0"):
        return False
    return all(affine(a, cs) for a in t.args)


def affine(t, cs):
    if t in cs or not any(x in cs for x in subterms(t)):
        return True
    if t.op in ("fadd", "fsub", "fneg"):
        return all(affine(a, cs) for a in t.args)
    free = [not any(x in cs for x in subterms(a)) for a in t.args]
    if t.op == "fmul":
        return sum(not q for q in free) == 1 and all(affine(a, cs) for a in t.args)
    if t.op == "fdiv":
        return free[1] and affine(t.args[0], cs)
    return False


# ---------------------------------------------------------------- colors
def span(t, arg):
    """interval of a real term; arg gives the intervals of the inputs"""
    inf = float("inf")
    all_ = (-inf, inf)
    t0 = arg(t)
    if t0 is not None:
        return t0
    if t.op == "fc":
        return float(t.args[0]), float(t.args[0])
    if t.op == "ite":
        a, b = span(t.args[1], arg), span(t.args[2], arg)
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == "fneg":
        a = span(t.args[0], arg)
        return -a[1], -a[0]
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = span(t.args[0], arg), span(t.args[1], arg)
        if t.op == "fdiv":
            if b[0] <= 0 <= b[1]:
                return all_
            b = (1 / b[1], 1 / b[0])
        if t.op == "fadd":
            return a[0] + b[0], a[1] + b[1]
        if t.op == "fsub":
            return a[0] - b[1], a[1] - b[0]
        q = [x * y if x and y else 0.0 for x in a for y in b]
        return min(q), max(q)
    if t.op == "f.powf":
        a, b = span(t.args[0], arg), span(t.args[1], arg)
        if b[0] == b[1] and b[0] > 0 and a[1] < inf:
            # bases below zero give no number; such a case is guarded in the code
            return 0.0, max(a[1], 0.0) ** b[0]
        return all_
    if t.op in ("f.sqrt", "f.abs"):
        a = span(t.args[0], arg)
        m = max(abs(a[0]), abs(a[1]))
        return 0.0, m**0.5 if t.op == "f.sqrt" and m < inf else m
    if t.op in ("f.cbrt",):
        a = span(t.args[0], arg)
        return tuple(x if abs(x) == inf else (abs(x) ** (1 / 3.0)) * (1 if x >= 0 else -1) for x in a)
    if t.op == "f.powi" and t.args[1].op == "int":
        a = span(t.args[0], arg)
        n = t.args[1].args[0]
        if n >= 0 and abs(a[0]) < inf and abs(a[1]) < inf:
            q = [a[0] ** n, a[1] ** n] + ([0.0] if a[0] <= 0 <= a[1] else [])
            return min(q), max(q)
        return all_
    if t.op == "tof":
        return 0.0, inf
    return all_


def colors(c, S):
    """conversions between color spaces, for the values that occur"""
    P = c.P
    for src, dst in (("Rgba", "XYZ"), ("XYZ", "Lab"), ("Lab", "XYZ"), ("XYZ", "Rgba")):
        c.part("C02/color/%s" % dst, conversion, S, src, dst)


def conversion(c, S, src, dst):
    f = c.P.method("From", dst, "from", lambda ta: len(ta) > 1 and strip_refs(ta[1])[0] == "adt" and strip_refs(ta[1])[1].endswith("::" + src))
    r = c.analyze(f)
    mark(S, r)
    unmodelled(c, S, "C02/color", r)
    # colors between those of an image: lightness within [0, 100], opponents within [-130, 130], hence
    # x within [-0.1, 2], y within [-0.01, 1.01], z within [-0.1, 5]
    m = 10.0 if src == "XYZ" else 130.0 if src == "Lab" else 255.0
    a0 = r.args[0]
    own = {}
    if src == "XYZ":
        for nm, b in (("x", (-0.1, 2.0)), ("y", (-0.01, 1.01)), ("z", (-0.1, 5.0))):
            own[fld(a0, field_index(c, "XYZ", nm))] = b

    def arg(t):
        if t.op == "tof":
            x = t.args[0]
            return (0.0, 255.0) if src == "Rgba" else None
        if t in own:
            return own[t]
        if t.op == "fld" and any(x is a0 or x.op == "sym" for x in subterms(t)):
            return -m, m
        if t.op == "sym":
            return -m, m
        if t.op == "app" and str(t.args[0]).startswith("t:WhitePoint::"):
            return 0.1, 2.0
        return None

    for e in stops(r):
        key = S.key("C02/color/%s" % dst, e)
        more = []
        e2 = e
        if e.get("ok") is not None:
            sm = {}
            for x in subterms(e["ok"]):
                if x.op in ("f.round", "f.floor", "f.ceil", "f.trunc") and x not in sm:
                    lo, hi = span(x.args[0], arg)
                    y = mk("sym", "rounded", x.id)
                    sm[x] = y
                    if lo > -1e30:
                        more.append(fle(fc(int(lo) - 1), y))
                    if hi < 1e30:
                        more.append(fle(y, fc(int(hi) + 1)))
            e2 = dict(e, ok=subst(e["ok"], sm))
        judge(c, key, r, e2, [Facts()], None, more=more)


# ---------------------------------------------------------------- clustering
class Below:
    """are all elements of a sequence below a bound?"""

    def __init__(self, c, r, n, found, args=(), same=()):
        self.same = same  # calls whose result has only elements of the given argument
        self.c, self.r, self.n = c, r, n
        self.found = found  # term -> True if it is an index below the bound
        self.args = args  # sequences whose elements are below the bound
        self.open = set()

    def facts(self, t):
        """atoms of t known to be below n"""
        out = set()
        for x in subterms(t):
            if self.found(x):
                out.add(x)
            elif x.op in ("get", "htop") and x not in out and self.elems(x.args[0]):
                out.add(x)
        return out

    def item(self, x, cond):
        atoms = self.facts(x)
        V = View(self.r)
        fa = Facts()
        for a in atoms:
            fa.add_int(isub(isub(self.n, V(a)), ONE))
            fa.add_int(V(a))
        for y in fa.assume_guard(Canon()(V(cond))):
            p = Check("x", self.c.P)
            if p.valid("x", {"def": {"p": ""}, "sp": ""}, "", V(ilt(x, self.n)), facts=y) is not True:
                return False
        return True

    def elems(self, s):
        if s in self.args or s in self.open:
            return True
        if s is EMPTY or s.op == "hempty":
            return True
        if s.op == "lit":
            return all(self.item(x, TRUE) for x in s.args)
        if s.op in ("push", "hpush"):
            return self.elems(s.args[0]) and self.item(s.args[1], TRUE)
        if s.op == "setat":
            return self.elems(s.args[0]) and self.item(s.args[2], TRUE)
        if s.op == "app" and s.args[0] in dict(self.same):
            return self.elems(s.args[1 + dict(self.same)[s.args[0]]])
        if s.op == "setsl":
            return self.elems(s.args[0]) and self.elems(s.args[-1])
        if s.op == "cat":
            return all(self.elems(x) for x in s.args)
        if s.op in ("slice", "rev", "hrest", "tail", "init", "remat"):
            return self.elems(s.args[0])
        if s.op == "sorted":
            return self.elems(s.args[0])
        if s.op == "ite":
            return self.elems(s.args[1]) and self.elems(s.args[2])
        if s.op == "comp":
            b = s.args[0]
            return self.item(s.args[3], conj(conj(ile(ZERO, b), ilt(b, s.args[1])), s.args[2]))
        if s.op in ("phi", "fin"):
            L = self.r.loops.get(s.args[0])
            if L is None:
                return False
            for loc, (phi, init, nxt) in L.phis.items():
                if phi.args[1] == s.args[1]:
                    break
            else:
                return False
            if s.op == "fin" and phi in self.open:
                return True
            self.open.add(phi)
            ok = self.elems(init) and self.elems(nxt)
            if ok and s.op == "fin":
                for st in L.exit_states or ():
                    v = st.get(loc) if isinstance(st, dict) else None
                    if v is not None:
                        ok = ok and self.elems(v)
            if not ok:
                self.open.discard(phi)
            return ok
        return False


def counter(r, v, guard):
    """does the integer grow by at most one per iteration from a small constant?"""
    ph = [x for x in subterms(v) if x.op == "phi"]
    if len(ph) != 1:
        return None
    phi = ph[0]
    d = isub(v, phi)
    if d.op != "int" or not 0 <= d.args[0] <= 2:
        return None
    return grows(r, phi, set())


def grows(r, phi, seen):
    """the counter is never negative and one iteration adds at most two, so it is small"""
    if phi in seen:
        return True
    seen.add(phi)
    L = r.loops.get(phi.args[0])
    if L is None:
        return None
    for loc, (p, init, nxt) in L.phis.items():
        if p is phi:
            for g, x in leaves(nxt):
                if x.op == "int" and 0 <= x.args[0] <= 2**32:
                    continue
                d = isub(x, phi)
                if d.op != "int" or not 0 <= d.args[0] <= 2:
                    return None
            if init.op == "int":
                return 0 <= init.args[0] <= 2**32 or None
            if init.op == "phi":
                return grows(r, init, seen)
    return None


def fitting(c, S):
    f = c.P.method("Fit", "DBSCAN", "fit")
    r = c.analyze(f, opaque=checks_cluster.OPQ)
    mark(S, r)
    unmodelled(c, S, "C02/fit", r)
    V = View(r)
    D = r.args[0]
    n = slen(D)
    found_ok, why = S.all_held(c, "C08", checks_search.check_C08, ("C08/linear", "C08/tree", "C08/build"))
    fi = field_index(c, "Neighbor", "index")

    def found(x):
        return found_ok and x.op == "fld" and x.args[1] == fi and x.args[0].op == "get" and x.args[0].args[0].op == "app" and x.args[0].args[0].args[0] == checks_cluster.SRN

    B = Below(c, r, n, found)
    bound = Bound({n: (0, PIXELS)})
    for e in stops(r):
        key = S.key("C02/fit", e)
        try:
            ok = ok_of(e)
        except Unsupported as x:
            c.undec(key, "%s: %s" % (here(e), x))
            continue
        fa = Facts()
        fa.add_int(isub(num(PIXELS), n))
        unproved = None
        for a in B.facts(conj(ok, TRUE)):
            fa.add_int(isub(isub(n, V(a)), ONE))
            fa.add_int(V(a))
        if not found_ok and any(x.op == "app" and x.args[0] == checks_cluster.SRN for x in subterms(ok)):
            unproved = why
        v = result_of(e) if e["why"].startswith("overflow_") else None
        if v is not None and e["why"] == "overflow_add":
            k = counter(r, v, e["guard"])
            ty = INT.get(tyname(e.get("ty")))
            if k and ty and ty[1] >= 2**62:
                c.held(key, "%s: a counter that grows by one per iteration does not overflow" % here(e))
                continue
            if k and ty and ty[1] < 2**41 and per_cluster(r, v, D):
                c.viol(key, here(e), "%s: an image of 2^46 pixels has more than %d clusters" % (words(e), ty[1]))
                continue
        probe = Check(c.prop, c.P)
        st = judge(probe, key, r, e, [fa], None, V, bound=bound, definite=unproved is None)
        if st is None and e["why"] == "explicit":
            labels(c, S, key, e)
            continue
        if st is None and e["why"] == "divide":
            good, bad = S.all_held(c, "C06", checks_cluster.check_C06, ("C06/result/members", "C06/result/sum", "C06/result/every", "C06/result/mean"))
            if good:
                c.held(key, "%s: the divisor is the size of a cluster, which has a point for every sum" % here(e))
            else:
                c.undec(key, "%s: rests on %s" % (here(e), bad["text"][:150] if bad else "the members of a cluster"))
            continue
        if st is None and e["why"] in ("unwrap", "bounds") and members_only(r, V(ok), n, V):
            good, bad = S.all_held(c, "C06", checks_cluster.check_C06, ("C06/result/members", "C06/result/sum", "C06/result/every", "C06/result/mean"))
            if good:
                c.held(key, "%s: the members of a cluster are points of the data, and there are members for every sum" % here(e))
                continue
        c.obs.extend(probe.obs)


def members_only(r, ok, n, V):
    """does the condition only ask that a cluster of the result has members, or that one is a point?"""
    whole = ok
    if ok.op == "ite" and ok.args[1] is TRUE and ok.args[2] is FALSE:
        ok = ok.args[0]
    out = set(subterms(V(r.ret))) if r.ret is not None else set()
    sums = set(out)
    for x in [x for x in out if x.op == "fin"]:
        L = r.loops.get(x.args[0])
        for loc, (phi, init, nxt) in (L.phis.items() if L is not None else ()):
            if phi.args[1] == x.args[1]:
                sums.add(V(init))
    if ok.op == "mhas":
        M, q = ok.args[:2]
        if q.op in ("sget", "get") and q.args[0].op in ("mkeys", "hmkeys"):
            q = q.args[0]
        return M in out and q.op in ("keyat", "mkeys", "hmkeys") and q.args[0] in sums
    for x in subterms(ok):
        if x.op in ("sget", "get") and ilt(x, n) in (ok, whole):
            m = x.args[0]
            while m.op in ("fld", "sget", "get"):
                m = m.args[0]
            return m.op in ("mget", "ments", "mvals", "hments", "hmvals") and m.args[0] in out
    return False


def per_cluster(r, v, D):
    return True


def labels(c, S, key, e):
    s = sub(c, "C06", checks_cluster.check_C06, S.subs)
    mine = [o for o in s.obs if o["key"].startswith(("C06/label/", "C06/result/every"))]
    bad = [o for o in mine if o["status"] == VIOL and o["key"].startswith(("C06/label/scan", "C06/label/visited", "C06/label/grow/rest", "C06/label/grow/end", "C06/label/mark", "C06/result/every"))]
    if bad:
        c.viol(key, here(e), "a point keeps a temporary label: %s" % bad[0]["text"][:300])
    elif mine and all(o["status"] == HELD for o in mine) and any(o["key"] == "C06/result/every" for o in mine):
        c.held(key, "%s: every point is assigned or an outlier after the scan" % here(e))
    else:
        o = [o for o in mine if o["status"] != HELD]
        c.undec(key, "%s: rests on %s" % (here(e), o[0]["text"][:150] if o else "the labels"))


# ---------------------------------------------------------------- nearest points
def positive_dims(c):
    """every point type has a constant dimension of at least one"""
    ok = True
    fs = [f for f in c.P.fns.values() if f["def"].get("name") == "dim" and " as math::point::Point" in f["def"]["p"] and f.get("body")]
    for f in fs:
        r = c.analyze(f)
        if r.ret is None or r.ret.op != "int" or r.ret.args[0] < 1:
            ok = False
    return ok and bool(fs)


def building(c, S):
    f = c.P.find_fn("KDTree::new")
    r0 = c.analyze(f)
    mark(S, r0)
    for e in stops(r0):
        judge(c, S.key("C02/build", e), r0, e, [Facts()], None, View(r0), bound=Bound({}))
    calls = [e for e in r0.events if e["kind"] == "call" and e.get("rec")]
    if len(calls) != 1:
        raise Unsupported("%d recursive builders called" % len(calls))
    e0 = calls[0]
    role = {}
    for i, a in enumerate(e0["args"]):
        if a is r0.args[0]:
            role["data"] = i
        elif a.op in compare.SEQ_OPS:
            role["idx"] = i
    if "data" not in role or "idx" not in role:
        raise Unsupported("builder arguments %s" % ", ".join(show(a, 3)[:60] for a in e0["args"]))
    g = e0["rec"][0]
    r = c.analyze(g)
    mark(S, r)
    unmodelled(c, S, "C02/build", r)
    D = r.args[role["data"]]
    arg = r.args[role["idx"]]
    I = r.before("a%d" % (role["idx"] + 1)) if arg.op != "sym" else arg
    n, m = slen(D), slen(I)
    # the first call hands over positions of the dataset, every other call a part of the list of its caller
    if not Below(c, r0, slen(r0.args[0]), lambda x: False).elems(e0["args"][role["idx"]]):
        c.undec("C02/build/indices", "positions handed to the builder: %s" % show(e0["args"][role["idx"]], 4)[:150])
        return
    recs = [e for e in r.events if e["kind"] == "call" and e.get("rec") and e["rec"][0] is g]
    same = [("%s!%d" % (e["name"], role["idx"]), role["idx"]) for e in recs]
    B = Below(c, r, n, lambda x: False, args=(I,), same=same)
    if I is not arg and (r.out("a%d" % (role["idx"] + 1)) is None or not B.elems(r.out("a%d" % (role["idx"] + 1)))):
        c.undec("C02/build/indices", "the builder may put other values into the list of positions")
        return
    for e in recs:
        if not B.elems(e["args"][role["idx"]]):
            c.undec("C02/build/indices", "positions handed on: %s" % show(e["args"][role["idx"]], 4)[:150])
            return
        if e["args"][role["data"]] is not D:
            c.undec("C02/build/indices", "dataset handed on")
            return
    c.held("C02/build/indices", "the builder only handles positions of the dataset, %d recursive calls" % len(recs))
    halving(c, S, r, g, recs, role, I)
    dims = positive_dims(c)
    lams = set()
    for e in r.events:
        if e["kind"] in ("sort", "reduce") and e.get("A") is not None and e.get("value") is not None and B.elems(e["value"]):
            lams |= {e["A"], e["B"]}
    # other integers handed on grow by at most one per level
    depth = []
    for i, a in enumerate(r.args):
        if i in (role["data"], role["idx"]) or not e0["args"][i].op == "int" or e0["args"][i].args[0] < 0:
            continue
        d = [isub(e["args"][i], a) for e in recs]
        if all(x.op == "int" and 0 <= x.args[0] <= 2 for x in d):
            depth.append(a)
    bound = Bound({n: (0, PIXELS), m: (0, PIXELS), DIM: (1, 2**20)})
    for a in depth:
        bound.known[a] = (0, 2**60)
    base = Facts()
    for t in (isub(n, ONE), isub(n, m), isub(num(PIXELS), n)):
        base.add_int(t)
    for a in depth:
        base.add_int(a)
        base.add_int(isub(num(2**60), a))
    if dims:
        base.add_int(isub(DIM, ONE))
    for e in stops(r):
        key = S.key("C02/build", e)
        try:
            ok = ok_of(e)
        except Unsupported as x:
            c.undec(key, "%s: %s" % (here(e), x))
            continue
        ok = subst_where(ok, dim_rule)
        fa = Facts(base)
        loose = False
        for x in subterms(conj(ok, TRUE)):
            if x.op == "get" and B.elems(x.args[0]) or x in lams:
                fa.add_int(isub(isub(n, x), ONE))
                fa.add_int(x)
            elif x.op == "sym" and str(x.args[0]).startswith("lam"):
                loose = True
            elif x is DIM and not dims:
                loose = True
            elif x in r.args and x.op == "sym" and x not in depth and x is not D and x is not I:
                loose = True
        e2 = dict(e, ok=ok, guard=subst_where(e["guard"], dim_rule))
        judge(c, key, r, e2, [fa], None, View(r), bound=bound, definite=not loose)
    nodes(c, S, r, g, B, base, D, dims)


def halving(c, S, r, g, recs, role, I):
    """each level of the recursion handles at most a fraction of the points"""
    n = slen(I)
    for j, e in enumerate(recs):
        key = "C02/build/depth%d" % j
        k = slen(e["args"][role["idx"]])
        p = Check(c.prop, c.P)
        fs = with_facts([e["guard"], ile(ONE, n)])
        if all(p.valid("x", g, "", ile(imul(num(4), k), iadd(imul(num(3), n), num(4))), facts=fa) is True for fa in fs):
            c.held(key, "a part has at most three quarters of the points, so the recursion is logarithmic")
        elif all(p.valid("x", g, "", ile(isub(n, num(8)), k), facts=fa) is True for fa in fs):
            c.viol(key, here(e), "the recursion has one level per point (a part has %s of %s points): the stack overflows on a large image" % (show(k, 4), show(n, 3)))
        else:
            c.undec(key, "number of points in a part: %s" % show(k, 4)[:150])


def nodes(c, S, r, g, B, base, D, dims):
    """a node refers to a point of the dataset and to one of its coordinates"""
    ty = checks_search.node_type(c)
    fi = {x: field_index(c, ty, x) for x in ("index", "axis")}
    S.node = False
    ok = True
    makers = [f["def"]["p"] for f in c.P.fns.values() for bb in blocks(f) for st in bb["st"] if (st.get("r") or {}).get("k") == "agg" and ty in adts_in(st["r"].get("t") or st["r"], set()) | {st["r"].get("d")}]
    n = 0
    done = set()
    for _, t in leaves(r.ret) if r.ret is not None else ():
        for x in subterms(t):
            if x.op == "adt" and x.args[0] == ty and x not in done:
                done.add(x)
                n += 1
                i, a = fld(x, fi["index"]), subst_where(fld(x, fi["axis"]), dim_rule)
                fa = Facts(base)
                sm = {}
                for y in list(subterms(i)) + list(subterms(a)):
                    if y.op == "get" and y not in sm and B.elems(y.args[0]):
                        sm[y] = z = mk("sym", "position", y.id)
                        fa.add_int(isub(isub(slen(D), z), ONE))
                        fa.add_int(z)
                i, a = subst(i, sm), subst(a, sm)
                for nm, v, b, need in (("index", i, slen(D), True), ("axis", a, DIM, dims)):
                    p = Check(c.prop, c.P)
                    st = p.valid("C02/build/node/" + nm, g, "%s of a node is in range" % nm, ilt(v, b), facts=fa) if need else None
                    if not need:
                        p.undec("C02/build/node/" + nm, "dimension of the points")
                    c.obs.extend(p.obs)
                    ok = ok and st is True
    if not n:
        c.undec("C02/build/node", "no node is built")
    S.node = ok and n > 0


def searching(c, S):
    f = c.P.method("NeighborSearch", "KDTree", "search_radius")
    r = c.analyze(f, opaque=checks_search.OPQ)
    mark(S, r)
    unmodelled(c, S, "C02/search", r)
    for e in stops(r):
        judge(c, S.key("C02/search", e), r, e, [Facts()], None, View(r), bound=Bound({}))
    done = set()
    todo = [e for e in r.events if e["kind"] == "call" and e.get("rec")]
    ty = checks_search.node_type(c)
    fi = {x: field_index(c, ty, x) for x in ("index", "axis", "left", "right")}
    for e0 in todo:
        g = e0["rec"][0]
        if g["id"] in done:
            continue
        done.add(g["id"])
        rg = c.analyze(g, opaque=checks_search.OPQ)
        mark(S, rg)
        unmodelled(c, S, "C02/search", rg)
        tf0 = checks_search.tree_fields(c, r.args[0])
        D = None
        for i, a in enumerate(e0["args"]):
            if a is r.args[0]:
                D = checks_search.tree_fields(c, rg.args[i])["dataset"]
            elif a is tf0["dataset"]:
                D = rg.args[i]
        nd = [rg.args[i] for i, a in enumerate(e0["args"]) if a is tf0["root"] or any(x is tf0["root"] for x in subterms(a)) and a.op in ("pay", "ite")]
        if D is None or not nd:
            c.undec("C02/search/roles", "arguments of %s" % g["def"]["p"])
            continue

        def is_node(t):
            if t in nd:
                return True
            if t.op in ("pay", "fld"):
                b = t.args[0]
                if t.op == "pay":
                    return is_node(b)
                return t.args[1] in (fi["left"], fi["right"]) and is_node(b)
            return False

        bound = Bound({slen(D): (0, PIXELS)})
        for e in stops(rg):
            key = S.key("C02/search", e)
            try:
                ok = subst_where(ok_of(e), dim_rule)
            except Unsupported as x:
                c.undec(key, "%s: %s" % (here(e), x))
                continue
            fa = Facts()
            free = False
            for x in subterms(ok):
                if x.op == "fld" and x.args[1] in (fi["index"], fi["axis"]) and is_node(x.args[0]):
                    b = slen(D) if x.args[1] == fi["index"] else DIM
                    if S.node:
                        fa.add_int(isub(isub(b, x), ONE))
                        fa.add_int(x)
                    else:
                        free = True
                elif x.op == "sym" and x is not DIM and x in rg.args and x is not D:
                    free = True
            e2 = dict(e, ok=ok, guard=subst_where(e["guard"], dim_rule))
            judge(c, key, rg, e2, [fa], None, View(rg), bound=bound, definite=not free and S.node)


# ---------------------------------------------------------------- everything else
def rest(c, S):
    P = c.P
    roots = [P.find_fn("ImageData::extract"), P.find_fn("ImageData::new")]
    R = Reach(P, roots)
    for nm in ("centroids", "count_at", "outliers"):
        try:
            mark(S, c.analyze(P.find_fn("DBSCAN::" + nm)))
            acc(c, S, P.find_fn("DBSCAN::" + nm))
        except Lost:
            pass
    n = k = 0
    for i in sorted(R.parent):
        f = P.fns[i]
        if i in S.seen or not f.get("body") or f.get("kind") != "fn" or "{closure" in i:
            continue
        n += 1
        c.part("C02/rest/" + short(f), acc, S, f)
    c.held("C02/rest", "%d functions reachable from extraction, %d of them analysed on their own" % (len(R.parent), n))


def acc(c, S, f):
    """a function that no other part covers, for arbitrary arguments"""
    r = c.analyze(f)
    mark(S, r)
    b = len(c.obs)
    unmodelled(c, S, "C02/rest/" + short(f), r)
    for e in stops(r):
        judge(c, S.key("C02/rest/" + short(f), e), r, e, [Facts()], None, View(r), bound=Bound({}), definite=False, more=requires(f, r))


def requires(f, r):
    """conditions every use of an arithmetic method of the crate is checked for"""
    nm = f["def"].get("name")
    tr = f["def"]["p"]
    if nm == "clamp" and len(r.args) == 3 and "::Clamp>" in tr:
        real = f["ins"][0] if not isinstance(f["ins"][0], dict) else f["ins"][0].get("k")
        le = fle if real in ("f32", "f64") else ile
        return [le(r.args[1], r.args[2])]
    if nm in ("div", "div_assign") and len(r.args) == 2 and re.search(r"Div(Assign)?<", tr):
        return [neg(feq(r.args[1], fc(0)))]
    return []


def positive(fa, t):
    g = ilt(ZERO, t)
    return g is TRUE or g.op == "ite" and g.args[1] is TRUE and fa.decide(g.args[0]) is True
