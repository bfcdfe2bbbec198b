"""C04, C13, C14, C15, C16: orders, metrics, point arithmetic and numeric conversion."""
from checklib import *

ORD_T = {terms.LESS: "Less", terms.EQUAL: "Equal", terms.GREATER: "Greater"}
REV = {terms.LESS: terms.GREATER, terms.EQUAL: terms.EQUAL, terms.GREATER: terms.LESS}
POINTS = (("Point2", 2), ("Point3", 3), ("Point5", 5))


def adt_info(c, suffix):
    for p, d in c.P.adts.items():
        if p == suffix or p.endswith("::" + suffix):
            return p, d
    raise Lost("type " + suffix)


def strip(t):
    return engine.strip_refs(t)


# ---------------------------------------------------------------- orders
def scalar_keys(c, ty, a, b):
    """[(name, term in a, term in b, is real)] of every scalar component of two values"""
    out = []

    def go(t, x, y, name):
        t = fz(t) if isinstance(t, (list, dict)) else t
        k = t[0]
        if k == "tuple" or k == "tup":
            for i, s in enumerate(t[1]):
                go(s, fld(x, i), fld(y, i), "%s.%d" % (name, i))
        elif k == "adt" and t[1] in c.P.adts and not c.P.adts[t[1]]["enum"]:
            for i, (n, s, _) in enumerate(c.P.adts[t[1]]["variants"][0]["fields"]):
                if "PhantomData" not in str(s):
                    go(s, fld(x, i), fld(y, i), (name + "." if name else "") + n)
        elif k in ("param", "float", "f32", "f64"):
            out.append((name, x, y, True))
        else:
            out.append((name, x, y, False))

    go(("adt", ty, ()), a, b, "")
    return out


def facts_rel(keys, rel, base=None):
    """fact sets with key 'less', 'greater' or 'equal'"""
    n, x, y, real = keys
    f = base or Facts()
    cn = Canon()
    x, y = cn(x), cn(y)
    if real:
        g = {"less": rcmp("flt", x, y), "greater": rcmp("flt", y, x), "equal": conj(neg(rcmp("flt", x, y)), neg(rcmp("flt", y, x)))}[rel]
    else:
        g = {"less": ilt(x, y), "greater": ilt(y, x), "equal": ieq(x, y)}[rel]
    return f.assume_guard(g)


def resolve(t, fsets):
    """set of values t takes over the fact sets: {term: facts}"""
    out = {}
    for f in fsets:
        c = Comparer(limit=6000)
        for fa, (x,) in c.cases((t,), f):
            out.setdefault(x, fa)
    return out


def decompose(t, keys):
    """lexicographic decomposition of an ordering: [(key name, +1/-1)] and the remaining keys, or None"""
    fs = [Facts()]
    chain = []
    rest = list(keys)
    while True:
        v = resolve(t, fs)
        if len(v) == 1 and terms.EQUAL in v:
            return chain, rest
        for k in rest:
            lo, hi = {}, {}
            for f in fs:
                lo.update(resolve(t, facts_rel(k, "less", f)))
                if len(lo) > 1:
                    break
                hi.update(resolve(t, facts_rel(k, "greater", f)))
            if len(lo) == 1 and len(hi) == 1:
                a, b = list(lo)[0], list(hi)[0]
                if a in REV and b is REV[a] and a is not terms.EQUAL:
                    chain.append((k[0], 1 if a is terms.LESS else -1))
                    rest = [x for x in rest if x is not k]
                    fs = [g for f in fs for g in facts_rel(k, "equal", f)]
                    break
        else:
            return None


def swap(t, a, b):
    """t with the two argument values exchanged"""
    ks = {}
    for x, y in zip(leaf_terms(a), leaf_terms(b)):
        ks[x] = y
        ks[y] = x
    return subst(t, ks)


def leaf_terms(t):
    out = []

    def go(t):
        if t.op in ("adt",):
            for x in t.args[2:]:
                go(x)
        elif t.op == "tup":
            for x in t.args:
                go(x)
        else:
            out.append(t)

    go(t)
    return out


def check_order(c, pid, ty, first, direction, eq_all):
    """obligations of an ordering of type ty: first key and direction, total order, both interfaces"""
    path, info = adt_info(c, ty)
    f = c.P.method("Ord", ty, "cmp")
    r = c.analyze(f)
    a, b = r.args
    keys = scalar_keys(c, path, a, b)
    key1 = [k for k in keys if k[0] == first]
    if not key1:
        raise Lost("field %s of %s" % (first, ty))
    key1 = key1[0]
    want = terms.LESS if direction > 0 else terms.GREATER
    t = Canon()(r.ret)
    u = unknown_in(t)
    if u is not None:
        c.undec("%s/%s/order" % (pid, ty), "comparison not resolved: " + show(u, 5))
        return
    try:
        # the first key decides
        for rel, w in (("less", want), ("greater", REV[want])):
            v = resolve(t, facts_rel(key1, rel))
            bad = [x for x in v if x is not w]
            if bad:
                c.viol("%s/%s/first-%s" % (pid, ty, rel), c.at(f), "when %s is %s (%s) the comparison is %s, required is %s" % (first, rel, v[bad[0]].show()[:300], ORD_T.get(bad[0], show(bad[0], 4)), ORD_T[w]))
            else:
                c.held("%s/%s/first-%s" % (pid, ty, rel), "%s of the left %s: %s" % (first, rel, ORD_T[w]))
        d = decompose(t, keys)
        if d:
            chain, rest = d
            c.held("%s/%s/total" % (pid, ty), "lexicographic in %s, hence antisymmetric and transitive" % ", ".join("%s%s" % ("-" if s < 0 else "", n) for n, s in chain))
        else:
            # look for definite counterexamples
            s = swap(t, a, b)
            bad = None
            cm = Comparer(limit=15000)
            for fa, (x, y) in cm.cases((t, s)):
                if x in REV and y in REV and REV[x] is not y:
                    bad = (fa, x, y)
                    break
            if bad:
                c.viol("%s/%s/antisymmetric" % (pid, ty), c.at(f), "when %s the comparison is %s one way and %s the other way" % (bad[0].show()[:400], ORD_T[bad[1]], ORD_T[bad[2]]))
            else:
                w = transitive_witness(c, t, a, b)
                if w:
                    c.viol("%s/%s/transitive" % (pid, ty), c.at(f), w)
                else:
                    c.undec("%s/%s/total" % (pid, ty), "not lexicographic in the fields")
    except TooMany:
        c.undec("%s/%s/total" % (pid, ty), "too many cases")
    # partial comparison agrees
    try:
        g = c.P.method("PartialOrd", ty, "partial_cmp")
        rp = c.analyze(g)
        c.same("%s/%s/partial" % (pid, ty), g, "partial_cmp of %s" % ty, rp.ret, lift1(some, r.ret))
    except Lost:
        g = None
    for i in c.P.impls_of("PartialOrd", ty):
        for nm, iid in i["items"]:
            h = {"lt": lambda x: x is terms.LESS, "le": lambda x: x is not terms.GREATER, "gt": lambda x: x is terms.GREATER, "ge": lambda x: x is not terms.LESS}.get(nm)
            if h:
                c.same("%s/%s/%s" % (pid, ty, nm), c.P.fns[iid], "%s of %s" % (nm, ty), c.analyze(c.P.fns[iid]).ret, lift1(lambda x: TRUE if h(x) else FALSE, r.ret))
    # equality
    e = c.P.method("PartialEq", ty, "eq")
    re_ = c.analyze(e)
    want_eq = TRUE
    for n, x, y, real in keys:
        want_eq = conj(want_eq, feq(x, y) if real else ieq(x, y))
    if eq_all:
        c.same("%s/%s/eq" % (pid, ty), e, "equality of %s" % ty, re_.ret, want_eq)
    else:
        # equal only at equal keys, and always when every field is equal
        k1 = feq(key1[1], key1[2]) if key1[3] else ieq(key1[1], key1[2])
        c.valid("%s/%s/eq" % (pid, ty), e, "values that are equal agree in %s" % first, disj(neg(re_.ret), k1))
        c.valid("%s/%s/reflexive" % (pid, ty), e, "values that agree in every field are equal", disj(neg(want_eq), re_.ret))
    return r, want_eq


def transitive_witness(c, t, a, b):
    """three values with t(a,b) <= , t(b,d) <= but t(a,d) greater"""
    la, lb = leaf_terms(a), leaf_terms(b)
    ld = [mk("sym", "third", i) for i in range(len(la))]
    sb = dict(zip(la, lb))
    sb.update(zip(lb, ld))
    tbd = subst(t, sb)
    tad = subst(t, dict(zip(lb, ld)))
    try:
        for fa, (x, y, z) in Comparer(limit=8000).cases((t, tbd, tad)):
            if x in REV and y in REV and z in REV:
                le = x is not terms.GREATER and y is not terms.GREATER
                if le and (z is terms.GREATER or (z is terms.EQUAL) and (x is terms.LESS or y is terms.LESS)):
                    return "not transitive: first to second %s, second to third %s, but first to third %s, when %s" % (ORD_T[x], ORD_T[y], ORD_T[z], fa.show()[:500])
    except TooMany:
        return None
    return None


def check_C04(c):
    c.rule("the value number of cmp decomposes lexicographically over the fields, beginning with the percentage ascending, and covers every field; partial_cmp and equality agree with it; the vector extraction returns is the result of an ascending sort by that order")
    c.assume("percentages are not NaN")
    x = check_order(c, "C04", "Swatch", "percentage", 1, False)
    if x:
        r, want_eq = x
        e = c.P.method("PartialEq", "Swatch", "eq")
        re_ = c.analyze(e)
        is_eq = lift1(lambda x: TRUE if x is terms.EQUAL else FALSE, r.ret)
        c.same("C04/Swatch/consistent", c.P.method("Ord", "Swatch", "cmp"), "comparing as equal", is_eq, want_eq)
        c.same("C04/Swatch/eq", e, "equality of Swatch", re_.ret, want_eq)
    import checks_image

    checks_image.sorted_result(c)


def check_C16(c):
    c.rule("the value number of each queue element's cmp decomposes lexicographically, beginning with the weight or distance descending; partial_cmp agrees; edge equality is equality of all three fields")
    c.assume("weights and distances are not NaN")
    check_order(c, "C16", "WeightedEdge", "weight", -1, True)
    check_order(c, "C16", "Element", "distance", -1, False)
    # constructors and accessors the order rests on
    f = c.P.find_fn("WeightedEdge::new", must=False)
    if f:
        p, info = adt_info(c, "WeightedEdge")
        r = c.analyze(f)
        byname = {}
        names = [n for n, (l, pr) in sorted(f["body"]["names"], key=lambda q: q[1][0]) if not pr and 1 <= l <= f["body"]["argc"]]
        for i, (n, t, v) in enumerate(info["variants"][0]["fields"]):
            if n in names and len(names) == len(r.args):
                c.same("C16/WeightedEdge::new/" + n, f, "field %s of a new edge" % n, fld(r.ret, i), r.args[names.index(n)])
    for ty in ("WeightedEdge", "Element"):
        p, info = adt_info(c, ty)
        for i, (n, t, v) in enumerate(info["variants"][0]["fields"]):
            for g in c.P.fns.values():
                q = strip_gen(g["def"]["p"])
                if g.get("body") and (q.endswith("%s::%s" % (ty, n)) or (g["def"].get("name") == n and p in str(g["def"].get("impl_self")))) and len(g["ins"]) == 1:
                    r = c.analyze(g)
                    c.same("C16/%s.%s" % (ty, n), g, "accessor %s of %s" % (n, ty), r.ret, fld(r.args[0], i))


# ---------------------------------------------------------------- metrics
def enum_path(c, suffix):
    for p, d in c.P.adts.items():
        if p.endswith("::" + suffix) and d["enum"]:
            return p, [v["name"] for v in d["variants"]]
    raise Lost("enum " + suffix)


def check_C13(c):
    c.rule("for each metric and each point type, measure's value number is the sum over all coordinates of squared differences, or its square root")
    c.assume("real arithmetic; rounding is not modelled")
    m = c.P.find_fn("DistanceMetric::measure")
    ep, names = enum_path(c, "DistanceMetric")
    pt = strip(fz(m["ins"][1]))
    for ty, n in POINTS:
        p, info = adt_info(c, ty)
        if pt[0] == "param":
            sub = {pt[1]: ("adt", p, (("param", "F"),))}
        elif pt[0] == "adt" and pt[1] == p:
            sub = {}
        else:
            continue
        for vi, vn in enumerate(names):
            if vn not in ("Euclidean", "SquaredEuclidean"):
                continue
            r = c.analyze(m, sub=sub, args=[adt(ep, vi), None, None])
            s = sum_terms([fmul(fsub(fld(r.args[1], i), fld(r.args[2], i)), fsub(fld(r.args[1], i), fld(r.args[2], i))) for i in range(n)])
            c.same("C13/%s/%s" % (vn, ty), m, "%s distance of %s" % (vn, ty), r.ret, s if vn == "SquaredEuclidean" else f_un("sqrt")(s))
            fails(c, "C13/%s/%s" % (vn, ty), m, r)


def fail_cond(e):
    """condition under which a panic event fires"""
    return conj(e["guard"], neg(e["ok"])) if e.get("ok") is not None else None


def fails(c, key, f, r, when=TRUE, what="cannot fail"):
    """no panic event of an analysed function fires"""
    n = 0
    for e in r.events:
        if e["kind"] != "panic" or e.get("ctx"):
            continue
        g = fail_cond(e)
        if g is None:
            continue
        n += 1
        c.valid("%s/panic-%s-%d" % (key, e["why"], n), f, what, neg(g), when=when)


# ---------------------------------------------------------------- points
def check_C14(c):
    c.rule("each operator's result has, at every coordinate, the value number of the operation on that coordinate of both operands; indexing, listing, dimension and constructor enumerate the same coordinates")
    c.assume("real arithmetic; rounding is not modelled")
    for ty, n in POINTS:
        p, info = adt_info(c, ty)
        k = "C14/%s/" % ty
        names = [x[0] for x in info["variants"][0]["fields"]]

        def each(name, f, r, val, want, facts=None):
            for i in range(n):
                c.same("%s%s/%d" % (k, name, i), f, "coordinate %d of %s on %s" % (i, name, ty), None if val is None else fld(val, i), want(i), facts)

        f = c.P.find_fn(ty + "::new", must=False)
        if f:
            r = c.analyze(f)
            if len(r.args) == n:
                each("new", f, r, r.ret, lambda i: r.args[i])
        for tr, op, asg in (("Add", fadd, "AddAssign"), ("Sub", fsub, "SubAssign")):
            f = c.P.method(tr, ty, tr.lower())
            r = c.analyze(f)
            each(tr.lower(), f, r, r.ret, lambda i: op(fld(r.args[0], i), fld(r.args[1], i)))
            fails(c, k + tr.lower(), f, r)
            f = c.P.method(asg, ty, tr.lower() + "_assign")
            r = c.analyze(f)
            each(tr.lower() + "_assign", f, r, r.out("a1"), lambda i: op(fld(r.before("a1"), i), fld(r.args[1], i)))
            fails(c, k + tr.lower() + "_assign", f, r)
        f = c.P.method("Mul", ty, "mul")
        r = c.analyze(f)
        each("mul", f, r, r.ret, lambda i: fmul(fld(r.args[0], i), r.args[1]))
        fails(c, k + "mul", f, r)
        f = c.P.method("MulAssign", ty, "mul_assign")
        r = c.analyze(f)
        each("mul_assign", f, r, r.out("a1"), lambda i: fmul(fld(r.before("a1"), i), r.args[1]))
        fails(c, k + "mul_assign", f, r)
        for tr, nm in (("Div", "div"), ("DivAssign", "div_assign")):
            f = c.P.method(tr, ty, nm)
            r = c.analyze(f)
            nz = neg(feq(r.args[1], F0))
            val = r.ret if nm == "div" else r.out("a1")
            fs = Facts().assume_guard(Canon()(nz))
            for j, fa in enumerate(fs):
                for i in range(n):
                    c.same("%s%s/%d/%d" % (k, nm, i, j), f, "coordinate %d of %s on %s" % (i, nm, ty), None if val is None else fld(val, i), fdiv(fld(r.args[0] if nm == "div" else r.before("a1"), i), r.args[1]), fa)
            rejects(c, k + nm, f, r, feq(r.args[1], F0), "division by zero")
        f = c.P.method("Zero", ty, "zero")
        r = c.analyze(f)
        each("zero", f, r, r.ret, lambda i: F0)
        f = c.P.method("Zero", ty, "is_zero")
        r = c.analyze(f)
        w = TRUE
        for i in range(n):
            w = conj(w, feq(fld(r.args[0], i), F0))
        c.same(k + "is_zero", f, "is_zero of %s" % ty, r.ret, w)
        f = c.P.method("Index", ty, "index")
        for i in range(n):
            r = c.analyze(f, args=[None, num(i)])
            c.same("%sindex/%d" % (k, i), f, "%s[%d]" % (ty, i), r.ret, fld(r.args[0], i))
            fails(c, "%sindex/%d" % (k, i), f, r)
        r = c.analyze(f)
        rejects(c, k + "index", f, r, ile(num(n), r.args[1]), "an index beyond the dimension")
        f = c.P.method("Point", ty, "dim")
        c.same(k + "dim", f, "dimension of %s" % ty, c.analyze(f).ret, num(n))
        f = c.P.method("Point", ty, "to_vec")
        r = c.analyze(f)
        c.same(k + "to_vec/len", f, "number of listed coordinates of %s" % ty, slen(r.ret), num(n))
        for i in range(n):
            c.same("%sto_vec/%d" % (k, i), f, "listed coordinate %d of %s" % (i, ty), sget(r.ret, num(i)), fld(r.args[0], i))


def rejects(c, key, f, r, bad, what):
    """the function panics exactly under `bad`"""
    fire = FALSE
    for e in r.events:
        if e["kind"] == "panic" and not e.get("ctx"):
            g = fail_cond(e)
            if g is None:
                c.undec(key + "/rejects", "failure condition of %s not resolved" % e["why"])
                return
            fire = disj(fire, g)
    c.same(key + "/rejects", f, "rejecting %s" % what, ite(fire, TRUE, FALSE), bad)


# ---------------------------------------------------------------- numbers
UB = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
FB = {"f32": 24, "f64": 53}


def conv_value(t, src, need, bound, path):
    """exact value carried by a chain of numeric casts, noting the precision it goes through"""
    if t.op == "ite":
        fs = Facts()
        fs.add_int(isub(num(bound), src)) if is_int_src(src, path) else None
        d = fs.decide(t.args[0])
        if d is None:
            return None
        return conv_value(t.args[1] if d else t.args[2], src, need, bound, path)
    if t is src:
        return t
    if t.op == "trunc":
        n = t.args[1].args[0] if isinstance(t.args[1], T) and t.args[1].op == "int" else t.args[1]
        path.append(("integer of %s bits" % n, int(n)))
        return conv_value(t.args[0], src, need, bound, path)
    if t.op == "sint":
        # through a signed type of n bits: values up to n - 1 bits are kept, and up to n when cut to n or fewer bits at once
        a, b = [x if not isinstance(x, T) else x.args[0] for x in t.args[1:3]]
        n = engine.SINTS.get(b)
        if n is not None:
            path.append(("signed integer of %d bits" % n, n - 1))
            return conv_value(t.args[0], src, need, bound, path)
        m, n = engine.INTS.get(b), engine.SINTS.get(a)
        if m is None or n is None:
            return None
        path.append(("integer of %d bits" % m, m))
        k = len(path)
        r = conv_value(t.args[0], src, need, bound, path)
        if m <= n and len(path) > k and path[k][0] == "signed integer of %d bits" % n:
            path[k] = (path[k][0], n)  # the sign bit is reinterpreted
        return r
    if t.op in ("i2f", "f2f"):
        ty = t.args[2] if not isinstance(t.args[2], T) else t.args[2].args[0]
        if ty not in FB:
            return None
        path.append((ty, FB[ty]))
        return conv_value(t.args[0], src, need, bound, path)
    if t.op == "tof":
        return conv_value(t.args[0], src, need, bound, path)
    if t.op == "imin" and src in t.args:
        o = [x for x in t.args if x is not src]
        if len(o) == 1 and o[0].op == "int":
            if o[0].args[0] >= bound:
                return src
            path.append(("limit %d" % o[0].args[0], o[0].args[0].bit_length() - 1))
            return src
    return None


def is_int_src(src, path):
    return True


def check_C15(c):
    c.rule("the value number of every from_* conversion is the argument itself through casts whose precision is at least that of the narrower of source and target; clamp's value number is the limit function and it rejects exactly inverted ranges")
    c.assume("values are not NaN")
    n = 0
    for i in c.P.impls_of("number::Clamp"):
        s = i["fself"]
        for nm, iid in i["items"]:
            if nm != "clamp":
                continue
            f = c.P.fns[iid]
            r = c.analyze(f)
            ty = engine.tname(s)
            x, lo, hi = r.args
            key = "C15/clamp/%s" % ty
            n += 1
            if ty in UB:
                g = ile(lo, hi)
                want = ite(ilt(x, lo), lo, ite(ilt(hi, x), hi, x))
                bad = ilt(hi, lo)
            else:
                g = fle(lo, hi)
                want = clamp_t(x, lo, hi)
                bad = flt(hi, lo)
            for fa in Facts().assume_guard(Canon()(g)):
                c.same(key, f, "limited value of %s" % ty, r.ret, want, fa)
            rejects(c, key, f, r, bad, "an inverted range")
    if n == 0:
        raise Lost("implementations of Clamp")
    for tr in ("number::Number", "number::Float"):
        for i in c.P.impls_of(tr):
            ty = engine.tname(i["fself"])
            for nm, iid in i["items"]:
                if not nm.startswith("from_"):
                    continue
                src = nm[5:]
                f = c.P.fns[iid]
                r = c.analyze(f)
                key = "C15/%s/%s" % (ty, nm)
                sp = UB.get(src) or FB.get(src)
                tp = UB.get(ty) or FB.get(ty)
                if sp is None or tp is None:
                    continue
                need = min(sp, tp)
                bound = (1 << min(sp, tp)) - 1
                path = []
                if r.ret is None:
                    c.viol(key, c.at(f), "never returns")
                    continue
                v = conv_value(r.ret, r.args[0], need, bound, path)
                if v is None:
                    k = Canon()(r.ret)
                    const = [(g, l) for g, l in leaves(k) if l.op in ("fc", "int")]
                    if const and sp <= tp and (src in FB) == (ty in FB) and not any(unknown_in(a) is not None for a in terms.atoms_of(k)):
                        hit = [(fb, l) for g, l in const for fb in Facts().assume_guard(g)]
                        if hit:
                            c.viol(key, c.at(f), "%s from %s is always %s when %s" % (ty, src, show(hit[0][1], 4), hit[0][0].show()[:200]))
                            continue
                    if unknown_in(r.ret) is None or r.ret.op in ("int", "fc", "lin"):
                        c.viol(key, c.at(f), "%s from %s is %s, not the converted argument" % (ty, src, show(r.ret, 6)[:200]))
                    else:
                        c.undec(key, "conversion not resolved: " + show(r.ret, 5)[:200])
                    continue
                lossy = [p for p in path if p[1] < need]
                if lossy:
                    c.viol(key, c.at(f), "%s from %s goes through %s and loses values the target represents" % (ty, src, lossy[0][0]))
                else:
                    c.held(key, "%s from %s keeps every representable value%s" % (ty, src, " (through %s)" % ", ".join(p[0] for p in path) if path else ""))
                rejects(c, key, f, r, FALSE, "a value")
