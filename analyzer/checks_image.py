"""C03, C05, C04 (order of the result): extraction."""
from loops import *
import compare
from checks_num import adt_info
from checks_graph import field_index, order_rule

OPQ = ("<XYZ as From>::from", "<Lab as From>::from", "<Rgba as From>::from", "<DBSCAN as Fit>::fit", "DBSCAN::centroids", "DBSCAN::count_at")
XYZ, LAB, RGBA, FIT, CENT, COUNT = ("op:" + x for x in OPQ)


def app(name, *a):
    return mk("app", name, *a)


def atom_of(g):
    return g


class Image:
    """analysed extraction of a well-formed image: n = width * height pixels, 4 * n bytes"""

    def __init__(self, c):
        self.f = c.P.find_fn("ImageData::extract")
        self.r = c.analyze(self.f, opaque=OPQ)
        s = self.r.args[0]
        self.data, self.w, self.h = (fld(s, field_index(c, "ImageData", x)) for x in ("data", "width", "height"))
        self.n = mk("sym", "pixels")
        self.m = {slen(self.data): imul(num(4), self.n)}
        self.memo = {}
        self.facts = Facts()
        for e in (isub(self.n, ONE), isub(self.w, ONE), isub(self.h, ONE), isub(self.n, self.w), isub(self.n, self.h)):
            self.facts.add_int(e)
        fits = [e for e in self.r.events if e["kind"] == "call" and e["name"] == FIT]
        if not fits:
            raise Unsupported("no call of the clustering")
        if len(fits) > 1 or any(e["ctx"] for e in fits):
            raise Unsupported("several calls of the clustering")
        self.fit = fits[0]

    def __call__(self, t):
        return subst(t, self.m, self.memo)

    def canon(self, extra=()):
        return Canon((self.nested, self.area, self.coords, alpha) + tuple(extra))

    def nested(self, t):
        """length of a sequence built by two nested counted loops"""
        if t.op == "len" and t.args[0].op == "fin":
            el = elements(self.r, t.args[0])
            if el and len(el[3]) == 2 and not any(x in el[2] for x in subterms(el[3][1])):
                g = self(el[0])
                if g is TRUE or all(fa.decide(a) is True for fa in [self.facts] for a in ([g.args[0]] if g.op == "ite" and g.args[1] is TRUE and g.args[2] is FALSE else [])) and g.op == "ite":
                    r = imul(self(el[3][0]), self(el[3][1]))
                    return self.area(r) or r
        return None

    def area(self, t):
        """width * height = number of pixels"""
        if t.op == "imul":
            a = list(t.args)
            if self.w in a and self.h in a:
                a.remove(self.w)
                a.remove(self.h)
                r = self.n
                for x in a:
                    r = imul(r, x)
                return r
        if t.op in ("poly",) or t.op == "fc":
            fw, fh, fn = tof(self.w), tof(self.h), tof(self.n)
            p = p_of(t)
            out = compare.Poly()
            hit = False
            for m, k in p.items():
                d = dict(m)
                a, b = d.get(fw, 0), d.get(fh, 0)
                while a and b and (a > 0) == (b > 0):
                    s = 1 if a > 0 else -1
                    hit = True
                    a, b = a - s, b - s
                    d[fw], d[fh], d[fn] = a, b, d.get(fn, 0) + s
                mm = tuple(sorted(((x, q) for x, q in d.items() if q), key=lambda z: z[0].id))
                out[mm] = out.get(mm, 0) + k
            if hit:
                return p_term(out)
        return None

    def coords(self, t):
        if t.op == "irem":
            a, b = t.args
            if b is self.h and a.op == "idiv" and a.args[1] is self.w:
                return a
            if b is self.n:
                return None
            if b is self.w:
                return isub(a, imul(self.w, idiv(a, self.w)))
        if t.op == "idiv" and t.args[1] is self.w:
            # (k + 1) / w after the last column of a row
            c0, d = terms.to_lin(t.args[0])
            if c0 == 1 and len(d) == 1:
                (x, j), = d.items()
                if j == 1 and x.op == "sym" and x.args[0] == "px":
                    q = mk("idiv", x, self.w)
                    col = isub(x, imul(self.w, q))
                    return ite(atom_of(ieq(iadd(col, ONE), self.w)), iadd(q, ONE), q)
        if t.op == "idiv" and t.args[1] is self.w:
            # (w * q + i) / w with 0 <= i < w
            c0, d = terms.to_lin(t.args[0])
            for x, k in d.items():
                if x.op == "imul" and self.w in x.args:
                    q = list(x.args)
                    q.remove(self.w)
                    y = num(1)
                    for z in q:
                        y = imul(y, z)
                    rest = isub(t.args[0], imul(num(k), x))
                    if rest.op == "sym" and rest.args[0] == "column":
                        return imul(num(k), y)
        return None


def alpha(t):
    """the alpha channel does not take part in the color conversion (C11)"""
    if t.op == "app" and t.args[0] == XYZ and len(t.args) == 2 and t.args[1].op == "adt" and t.args[1].args[0].endswith("::Rgba") and t.args[1].args[-1] is not ZERO:
        a = t.args[1]
        return app(XYZ, mk("adt", *a.args[:-1], ZERO))
    return None


def elements(r, D):
    """(guard, element, index terms, [trip counts]) of a sequence with one place that produces its elements"""
    if D.op == "comp":
        i = mk("sym", "px")
        m = {D.args[0]: i}
        return subst(D.args[2], m), subst(D.args[3], m), [i], [D.args[1]]
    if D.op == "fin":
        lid = D.args[0]
        L = r.loops.get(lid)
        st = None
        if L is not None:
            for loc, (phi, init, nxt) in L.phis.items():
                if phi.args[1] == D.args[1]:
                    st = (phi, init, nxt)
        if st and st[1] is EMPTY and L.trip is not None:
            phi, init, nxt = st
            if nxt.op == "cat" and nxt.args[0] is phi:
                inner = elements(r, nxt.args[1])
                if inner:
                    i = mk("sym", "row")
                    m = {L.k: i}
                    g, e, ix, tr = inner
                    ix = [mk("sym", "column") if x.args[0] == "px" else x for x in ix]
                    m[mk("sym", "px")] = mk("sym", "column")
                    return subst(g, m), subst(e, m), [i] + ix, [L.trip] + [subst(t, m) for t in tr]
    return None


def counters(c, I, f, r, fa, k, g, e, trip):
    """replaces loop variables the element depends on by closed forms that are inductive"""
    used = {x for t in (g, e) for x in subterms(t) if x.op == "phi"}
    lids = {x.args[0] for x in used} | ({trip.args[1]} if trip.op == "sym" and trip.args[0] == "kx" else set())
    if not lids or len(lids) > 1:
        return g, e, False
    L = r.loops.get(lids.pop())
    if L is None or L.parent:
        return g, e, False
    cn = I.canon()
    f2 = Facts(fa)
    f2.add_int(k)
    f2.add_int(isub(isub(I.n, k), ONE))
    row = idiv(k, I.w)
    f2.add_int(isub(isub(I.h, row), ONE))
    col = isub(k, imul(I.w, row))
    f2.add_int(col)
    f2.add_int(isub(isub(I.w, col), ONE))
    forms = {"4k": imul(num(4), k), "k": k, "column": col, "row": row}
    ints = [(p, i, n) for loc, (p, i, n) in L.phis.items() if i is ZERO]
    done, broken = {}, {}
    m0 = {L.k: k}
    for p, i, n in ints + ints:
        if p in done:
            continue
        for nm, t in forms.items():
            cur = {**done, p: t, **m0}
            nx = I(subst(n, cur))
            want = subst(t, {k: iadd(k, ONE)})
            q = Comparer(cn).equal(nx, want, f2)
            if q[0] == "eq":
                done[p] = t
                break
            if q[0] == "ne" and nm == "4k":
                broken[p] = (nm, q)
    m = dict(m0)
    m.update(done)
    e2, g2 = subst(e, m), subst(g, m)
    # a byte offset that does not always advance by one pixel
    for p in used:
        if p not in done and p in broken and any(x.op == "get" and x.args[0] is I.data and any(y is p for y in subterms(x.args[1])) for x in subterms(e)):
            nx = [n for q_, i, n in ints if q_ is p][0]
            steps = {v for _, v in leaves(isub(nx, p))}
            if all(s.op == "int" for s in steps) and num(4) in steps and len(steps) > 1 or I(g) is TRUE and unknown_in(I(subst(nx, {p: forms["4k"], **m0}))) is None:
                fq = broken[p][1]
                c.viol("C05/step", c.at(f), "the offset of the pixel bytes advances by %s when %s" % (" or ".join(show(s) for s in steps), fq[1].show()[:300]))
                return None
    counted = False
    if trip.op == "sym":
        # leaves the loop exactly after the last pixel
        stop = FALSE
        for t, gx in L.exits:
            stop = disj(stop, I(subst(gx, m)))
        # whichever way it is left
        f3 = Facts(I.facts)
        for a, v in fa.trail[len(I.facts.trail):]:
            if not any(x.op == "exit" and x.args[0] == L.lid for x in subterms(a)):
                f3 = f3.assume(a, v)
        f3.add_int(k)
        f3.add_int(isub(isub(I.n, k), ONE))
        f3.add_int(isub(isub(I.h, row), ONE))
        f3.add_int(col)
        f3.add_int(isub(isub(I.w, col), ONE))
        ok1 = c.valid("C05/count", f, "no pixel is left out: the loop goes on while pixels remain", neg(stop), f3, canon=cn)
        counted = True
    return g2, e2, counted


def left_out(c, I, f, r, L, name, fa):
    """reports a pass over a pixel that adds no point although more passes follow, chosen by the pixel's bytes"""
    phi, nxt = next(((p, n) for p, i, n in L.phis.values() if p.args[1] == name), (None, None))
    if phi is None or not any(any(y is phi for y in subterms(v)) and v is not phi for _, v in leaves(nxt)):
        return False
    V = View(r)
    s = V(phi)
    stop = FALSE
    for t, gx in L.exits:
        stop = disj(stop, I(V(gx)))
    for f2, (g, x) in Comparer(I.canon()).cases((stop, I(V(nxt))), fa):
        if g is not FALSE or x is not s:
            continue
        qs = [q for q, v in f2.trail]
        if any(unknown_in(q) is not None for q in qs) or not f2.confirm():
            continue
        if any(y.op == "get" and y.args[0] is I.data for q in qs for y in subterms(q)):
            c.viol("C05/unconditional", c.at(f), "a pixel contributes no point when %s" % f2.show()[:300])
            return True
    return False


def color_ops(t, names):
    have = {x.args[0] for x in subterms(t) if x.op == "app"}
    return all(n in have for n in names)


# ---------------------------------------------------------------- C05
def check_C05(c):
    c.rule("the sequence handed to the clustering has one element per pixel, produced unconditionally in byte order; its element at pixel k is the point whose coordinates are the three Lab components converted from bytes 4k, 4k+1, 4k+2 over their extents, and (k mod width)/width, (k div width)/height")
    c.assume("the buffer holds exactly 4 * width * height bytes")
    c.part("C05/points", points)


def points(c):
    I = Image(c)
    f, r = I.f, I.r
    for g, v in leaves(r.state.guard if False else TRUE):
        pass
    # the clustering runs for every image with pixels
    c.valid("C05/runs", f, "clustering is run for every image with pixels", I(full_guard(r, I.fit)), I.facts, canon=I.canon())
    D = I(I.fit["args"][0])
    for fa, (d,) in Comparer(I.canon()).cases((D,), I.facts) if D.op == "ite" else [(I.facts, (D,))]:
        points_of(c, I, f, r, d, fa)
    outs = r.before("a1") if False else None


def points_of(c, I, f, r, D, fa):
    el = elements(r, D)
    if el is None:
        if D.op == "fin" and D.args[0] in r.loops and left_out(c, I, f, r, r.loops[D.args[0]], D.args[1], fa):
            return
        drop = dropping(D, fa)
        if drop:
            c.viol("C05/sequence", c.at(f), "points are removed before the clustering by %s" % drop)
            return
        c.undec("C05/sequence", "points are built as %s" % show(D, 3)[:200])
        return
    g, e, ix, trips = el
    g, e, trips = I(g), I(e), [I(t) for t in trips]
    cn = I.canon()
    if len(ix) == 1:
        k = ix[0]
        col, row = None, None
        got = counters(c, I, f, r, fa, k, g, e, trips[0])
        if got is None:
            return
        g, e, counted = got
        if not counted:
            c.same("C05/count", f, "number of points", trips[0], I.n, fa, canon=cn)
    else:
        if len(ix) != 2:
            c.undec("C05/sequence", "more than two nested loops")
            return
        a = c.same("C05/rows", f, "number of rows", trips[0], I.h, fa, canon=cn)
        b = c.same("C05/columns", f, "number of points per row", trips[1], I.w, fa, canon=cn)
        if not (a and b):
            return
        row, col = ix
        k = iadd(imul(I.w, row), col)
    f2 = Facts(fa)
    if col is None:
        col, row = isub(k, imul(I.w, idiv(k, I.w))), idiv(k, I.w)
        f2.add_int(k)
        f2.add_int(isub(isub(I.n, k), ONE))
        f2.add_int(isub(isub(I.h, row), ONE))
    else:
        for x, b in ((row, I.h), (col, I.w)):
            f2.add_int(x)
            f2.add_int(isub(isub(b, x), ONE))
        # 4 * (w * row + col) + 3 < 4 * n
        f2.add_int(isub(isub(I.n, k), ONE))
    c.valid("C05/unconditional", f, "every pixel contributes a point", g, f2, canon=cn)
    P5, info = adt_info(c, "Point5")
    b = [sget(I.data, iadd(imul(num(4), k), num(j))) for j in range(4)]
    rp, rinfo = adt_info(c, "Rgba")
    rn = [x[0] for x in rinfo["variants"][0]["fields"]]
    want = {"r": b[0], "g": b[1], "b": b[2], "a": b[3]}
    rgba = adt(rp, 0, *[want[x] for x in rn])
    lab = app(LAB, app(XYZ, rgba))
    il = [field_index(c, "Lab", x) for x in ("l", "a", "b")]
    if not color_ops(e, (XYZ, LAB)):
        c.undec("C05/color", "color conversion not recognised in %s" % show(e, 3)[:200])
    else:
        for j, (nm, ext) in enumerate((("lightness", 100), ("first opponent", 255), ("second opponent", 255))):
            same_point(c, I, f, r, "C05/color/" + nm, nm + " coordinate of pixel k", fld(e, j), fdiv(fld(lab, il[j]), fc(ext)), f2, fa, k)
    same_point(c, I, f, r, "C05/place/x", "horizontal coordinate of pixel k", fld(e, 3), fdiv(tof(col), tof(I.w)), f2, fa, k)
    same_point(c, I, f, r, "C05/place/y", "vertical coordinate of pixel k", fld(e, 4), fdiv(tof(row), tof(I.h)), f2, fa, k)


def same_point(c, I, f, r, key, what, actual, want, f2, fa, k):
    """a coordinate that depends on values carried from pixel to pixel is examined for the first pixels"""
    cn = I.canon()
    probe = Check(c.prop, c.P)
    if probe.same(key, f, what, actual, want, f2, canon=cn) is None and k.op == "sym":
        ph = {x for x in subterms(actual) if x.op == "phi"}
        lids = {x.args[0] for x in ph}
        L = r.loops.get(lids.pop()) if len(lids) == 1 else None
        if L is not None and not L.parent:
            for i, m, path in rounds(L, 3):
                at = {k: num(i)}
                at.update(m)
                f3 = Facts(fa)
                f3.add_int(isub(I.n, num(i + 1)))
                x, y = I(subst(actual, at)), I(subst(want, at))
                if x is y:
                    continue
                for u in {u for t in (x, y, I(subst(path, {k: num(i)}))) for u in subterms(t) if u.op == "get" and u.args[0] is I.data}:
                    f3.add_int(u)
                    f3.add_int(isub(num(255), u))
                # pixel i lies in one of the rows
                wide = [(ieq(I.w, num(u)), i // u, {I.w: num(u)}) for u in range(1, i + 1)] + [(ilt(num(i), I.w), 0, {})]
                fs = []
                for g, y_, side in wide if i else [(TRUE, 0, {})]:
                    f5 = Facts(f3)
                    f5.add_int(isub(I.h, num(y_ + 1)))
                    fs += [(f6, side) for f5_ in f5.assume_guard(I(g)) for f6 in f5_.assume_guard(I(subst(path, {k: num(i)})))]
                for f4, side in fs:
                    x4, y4 = subst(x, side), subst(y, side)
                    for _ in range(4):
                        small = {}
                        for u in {u for t in (x4, y4) for u in subterms(t) if u.op in ("irem", "idiv") and u.args[0].op == "int" and u.args[1].op != "int"}:
                            if f4.implied_int(isub(u.args[1], iadd(u.args[0], ONE))):
                                small[u] = u.args[0] if u.op == "irem" else ZERO
                        if not small:
                            break
                        x4, y4 = subst(x4, small), subst(y4, small)
                    if x4 is y4:
                        continue
                    q = Check(c.prop, c.P)
                    if q.same(key, f, "%s, pixel %d" % (what, i), x4, y4, f4, canon=cn) is False:
                        c.obs.extend(q.obs)
                        return False
    c.obs.extend(probe.obs)


# ---------------------------------------------------------------- C03, C04
def result_of(I):
    """returned sequence for an image with pixels, without ordering steps"""
    t = I(I.r.ret)
    out = []
    for fa, (x,) in Comparer(I.canon()).cases((t,), I.facts) if t.op == "ite" else [(I.facts, (t,))]:
        steps = []
        while x.op in ("sorted", "rev"):
            steps.append(x)
            x = x.args[0]
        out.append((fa, steps, x))
    return out


def check_C03(c):
    c.rule("the returned sequence is a permutation of one swatch per listed centroid; the swatch of centroid j is built from centroid j (each coordinate times the factor it was divided by, through the inverse color conversion; positions truncated) and from the member count reported for cluster j over the number of pixels, all of one clustering of the pixel points")
    c.assume("the buffer holds exactly 4 * width * height bytes; the clustering lists one centroid per cluster number and counts its members (C06)")
    c.part("C03/swatches", swatches)
    c.part("C03/clusters", accessors)


def accessors(c):
    """the j-th listed centroid and the j-th member count speak about the same cluster"""
    import checks_cluster
    from checklib import Check, HELD, VIOL
    s = Check("C06", c.P)
    s._cache = c._cache
    checks_cluster.density_access(s)
    for o in s.obs:
        k = o["key"].replace("C06/access", "C03/clusters")
        if o["key"] not in ("C06/access/centroids", "C06/access/count/known"):
            continue
        if o["status"] == VIOL:
            c.viol(k, o["where"], o["text"])
        elif o["status"] == HELD:
            c.held(k, o["text"])
        else:
            c.undec(k, o["text"])


def swatches(c):
    I = Image(c)
    f, r = I.f, I.r
    fit = I(I.fit["result"])
    cent = app(CENT, fit)
    cn = I.canon()
    iS = {x: field_index(c, "Swatch", x) for x in ("color", "position", "percentage")}
    lp, linfo = adt_info(c, "Lab")
    for fa, steps, S in result_of(I):
        if S.op == "fin":
            c.undec("C03/sequence", "swatches are built as %s" % show(S, 3)[:200])
            continue
        if S is EMPTY:
            if fa.implied_int(imul(num(-1), cn(slen(cent)))):
                continue
            u = next((u for q, _ in fa.trail for u in [unknown_in(q)] if u is not None), None)
            if u is not None:
                c.undec("C03/groups", "condition of an early empty result: %s" % show(u, 4)[:150])
                continue
            c.viol("C03/groups", c.at(f), "an image with pixels gives no swatches when %s" % fa.show()[:300])
            continue
        drop = dropping(S, fa)
        if drop:
            c.viol("C03/every", c.at(f), "groups are removed from the result by %s" % drop)
            continue
        x = crossed(S)
        if x:
            c.viol("C03/sequence", c.at(f), x)
            continue
        if S.op != "comp":
            c.undec("C03/sequence", "swatches are built as %s" % show(S, 3)[:200])
            continue
        if not color_ops(S, (CENT, FIT)):
            c.undec("C03/sequence", "swatches are not built from the listed centroids: %s" % show(S, 3)[:200])
            continue
        c.same("C03/groups", f, "number of swatches", S.args[1], slen(cent), fa, canon=cn)
        j = mk("sym", "cluster")
        e, g = subst(S.args[3], {S.args[0]: j}), subst(S.args[2], {S.args[0]: j})
        f2 = Facts(fa)
        f2.add_int(j)
        f2.add_int(isub(isub(slen(cent), j), ONE))
        c.valid("C03/every", f, "every group gives a swatch", g, f2, canon=cn)
        ctr = sget(cent, j)
        # color
        col = fld(e, iS["color"])
        iR = [field_index(c, "Rgba", x) for x in ("r", "g", "b")]
        iL = [field_index(c, "Lab", x) for x in ("l", "a", "b")]
        if not color_ops(col, (RGBA, XYZ)):
            c.undec("C03/color", "color conversion not recognised: %s" % show(col, 4)[:200])
        else:
            labf = c.P.find_fn("Lab::new")
            fl = [None] * len(linfo["variants"][0]["fields"])
            rl = c.analyze(labf)
            m = {rl.args[i]: fmul(fld(ctr, i), fc(x)) for i, x in enumerate((100, 255, 255))}
            lab = subst(rl.ret, m)
            want = app(RGBA, app(XYZ, lab))
            for i, nm in enumerate(("red", "green", "blue")):
                c.same("C03/color/" + nm, f, nm + " of swatch j", fld(col, i), fld(want, iR[i]), f2, canon=cn)
        pos = fld(e, iS["position"])
        for i, (nm, d) in enumerate((("x", I.w), ("y", I.h))):
            want = mk("f2u", fmul(fld(ctr, 3 + i), tof(d)), mk("str", "u32"))
            want = f2u_like(fld(pos, i), want)
            # the mean of columns below the width is below the width (C05, C06)
            f3 = Facts(f2)
            f3.add_int(isub(isub(d, cn(want)), ONE))
            x = cn(fmul(fld(ctr, 3 + i), tof(d)))
            f3.add_real(compare.p_of(cn(fsub(fsub(tof(d), F1), x))), False)
            f3.add_real(compare.p_of(x), False)
            c.same("C03/position/" + nm, f, nm + " of swatch j", minmax(fld(pos, i)), want, f3, canon=cn)
        pct = fld(e, iS["percentage"])
        # a listed cluster has a member, and no more members than there are points
        f2 = Facts(f2)
        f2.add_int(isub(cn(app(COUNT, fit, j)), ONE))
        f2.add_int(isub(I.n, cn(app(COUNT, fit, j))))
        share = cn(fdiv(tof(app(COUNT, fit, j)), tof(I.n)))
        f2.add_real(compare.p_of(cn(fsub(F1, share))), False)
        f2.add_real(compare.p_of(share), False)
        pct = minmax(pct)
        c.same("C03/percentage", f, "percentage of swatch j", pct, fdiv(tof(app(COUNT, fit, j)), tof(I.n)), f2, canon=cn)


DROPS = ("dedup", "dedup_by", "dedup_by_key", "truncate", "drain", "split_off", "swap_remove", "remove", "pop")


def dropping(S, fa=None):
    """name of a vector operation that removes elements, as the outermost step"""
    if S.op == "app" and isinstance(S.args[0], str) and S.args[0].startswith("x:std::vec::Vec"):
        nm = S.args[0].split("!")[0].rsplit("::", 1)[1]
        return nm if nm in DROPS else None
    x = S
    while x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith("x:std::iter::Iterator::") and len(x.args) > 1 and isinstance(x.args[1], T):
        nm = x.args[0].rsplit("::", 1)[1]
        if nm in ("skip_while", "take_while", "map_while", "step_by"):
            return nm
        x = x.args[1]
    # a prefix or another part of what was built
    if S.op == "slice" and Comparer().equal(slen(S), slen(S.args[0]), fa)[0] == "ne":
        return "keeping a part of the sequence"
    return None


def f2u_like(t, want):
    """the conversion to the position type as the analysis writes it"""
    for x in subterms(t):
        if x.op == "f2u":
            return mk("f2u", want.args[0], *x.args[1:])
    return want


def minmax(t):
    """minima and maxima of whole numbers written as cases"""
    m = {}
    for x in subterms(t):
        if x.op in ("imin", "imax") and not any(y.op in ("imin", "imax") for z in x.args for y in subterms(z)):
            a, b = x.args
            m[x] = ite(ile(a, b), a, b) if x.op == "imin" else ite(ile(a, b), b, a)
    return subst(t, m) if m else t


def crossed(S):
    """a field of one listed swatch overwritten by the same field of another one, or None"""
    while S.op == "setat":
        s, i, v = S.args
        if v.op == "updf":
            u, k, x = v.args
            k = k.args[0] if isinstance(k, T) and k.op == "int" else k
            if x.op == "fld" and x.args[0].op == "get" and x.args[1] == k and unknown_in(x.args[0].args[1]) is None and unknown_in(i) is None:
                if x.args[0].args[1] is not i and Comparer().equal(x.args[0].args[1], i)[0] == "ne":
                    return "swatch %s takes a field of swatch %s" % (show(i, 3), show(x.args[0].args[1], 3))
        S = s
    return None


def part_sorted(S, fa):
    """only a part of the sequence is put in order"""
    if S.op != "setsl" or S.args[3].op != "sorted":
        return False
    s, a, b, x = S.args
    x = x.args[0]
    if x.op != "slice" or x.args[0] is not s or x.args[1] is not a or x.args[2] is not b or s.op != "comp":
        return False
    q = Comparer()
    return q.equal(a, ZERO, fa)[0] == "ne" or q.equal(b, slen(s), fa)[0] == "ne"


def moved(S):
    """elements of a sorted sequence overwritten by other elements of the same sequence"""
    if S.op == "cat" and all(x.op == "slice" and x.args[0].op == "sorted" for x in S.args) and S.args[0].args[0] is S.args[1].args[0]:
        (s, a, b), (_, i, j) = S.args[0].args, S.args[1].args
        return b is slen(s) and i is ZERO and j is a
    base = S
    while base.op == "setat":
        base = base.args[0]
    if base is S or base.op not in ("sorted", "rev"):
        return False
    x = S
    while x is not base:
        v = x.args[2]
        if not (v.op == "get" and v.args[0] is base) or unknown_in(x.args[1]) is not None or unknown_in(v.args[1]) is not None:
            return False
        x = x.args[0]
    return True


def sorted_result(c):
    c.part("C04/result", result_order)


def unsure(t):
    """does the choice of the result depend on something unknown?"""
    return t.op == "ite" and (unknown_in(t.args[0]) is not None or unsure(t.args[1]) or unsure(t.args[2]))


def result_order(c):
    I = Image(c)
    f, r = I.f, I.r
    ip = field_index(c, "Swatch", "percentage")
    sorts = {e["value"]: e for e in r.events if e["kind"] == "sort"}
    for fa, steps, S in result_of(I):
        if S is EMPTY:
            continue
        if not steps:
            if S.op == "comp" and unsure(I(r.ret)):
                c.undec("C04/result", "the swatches are returned unsorted on a condition that is not resolved")
            elif S.op == "comp":
                c.viol("C04/result", c.at(f), "the swatches are returned in the order they were built, without sorting")
            elif part_sorted(S, fa):
                c.viol("C04/result", c.at(f), "only a part of the swatches is sorted: %s" % show(S, 3)[:150])
            elif moved(S):
                c.viol("C04/result", c.at(f), "elements are moved after the swatches are sorted: %s" % show(S, 3)[:150])
            else:
                c.undec("C04/result", "the result is not recognised as sorted: %s" % show(S, 3)[:150])
            continue
        d = 1
        while steps and steps[0].op == "rev":
            d = -d
            steps = steps[1:]
        if not steps:
            c.viol("C04/result", c.at(f), "the swatches are reversed but not sorted")
            continue
        ev = [e for e in r.events if e["kind"] == "sort"]
        if len(ev) != 1:
            ev = [e for e in ev if I(e["value"]) is steps[0].args[0]]
        if len(ev) != 1:
            c.undec("C04/result", "ordering step not identified")
            continue
        order_rule(c, "C04/result", f, ev[0], lambda s: fld(s, ip), d, "sorting the swatches")
