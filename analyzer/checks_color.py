"""C10, C11, C12: color values and conversions."""
from checklib import *

STD = [
    "0.4123907992659595", "0.35758433938387796", "0.1804807884018343",
    "0.21263900587151036", "0.7151686787677559", "0.07219231536073371",
    "0.01933081871559185", "0.11919477979462599", "0.9505321522496606",
    "3.2409699419045213", "1.5373831775700935", "0.4986107602930033",
    "0.9692436362808798", "1.8759675015077206", "0.04155505740717561",
    "0.05563007969699361", "0.20397695888897657", "1.0569715142428786",
    "0.04045", "0.0031308", "12.92", "1.055", "0.055", "2.4", "0.0031306684425005883",
]
STD += ["-" + x for x in STD]
M_FWD = [["0.4123907992659595", "0.35758433938387796", "0.1804807884018343"],
         ["0.21263900587151036", "0.7151686787677559", "0.07219231536073371"],
         ["0.01933081871559185", "0.11919477979462599", "0.9505321522496606"]]
M_BWD = [["3.2409699419045213", "-1.5373831775700935", "-0.4986107602930033"],
         ["-0.9692436362808798", "1.8759675015077206", "0.04155505740717561"],
         ["0.05563007969699361", "-0.20397695888897657", "1.0569715142428786"]]
# the forward matrix is published with six digits; coefficients are matched to that precision
SNAP = [x for x in STD] + [str(Fraction(216, 24389)), str(Fraction(841, 108)), str(Fraction(24389, 27) / 116), str(Fraction(108, 841))]
LAB_RANGE = [("l", "0", "100"), ("a", "-128", "127"), ("b", "-128", "127")]
XYZ_RANGE = [("x", "0", "0.950456"), ("y", "0", "1"), ("z", "0", "1.088644")]


def cc():
    return Canon(rules=(snap_rule(SNAP, 3e-5),))


def srgb_decode(c):
    u = fdiv(tof(c), fc(255))
    return ite(flt(fcs("0.04045"), u), f_un("powf")(fdiv(fadd(u, fcs("0.055")), fcs("1.055")), fcs("2.4")), fdiv(u, fcs("12.92")))


def srgb_encode(v):
    return ite(flt(fcs("0.0031308"), v), fsub(fmul(fcs("1.055"), f_un("powf")(v, fdiv(F1, fcs("2.4")))), fcs("0.055")), fmul(fcs("12.92"), v))


def row(m, v):
    return sum_terms([fmul(fcs(c), x) for c, x in zip(m, v)])


def lab_f(t):
    return ite(flt(fcs("216/24389"), t), f_un("cbrt")(t), fadd(fmul(fcs("841/108"), t), fcs("4/29")))


def lab_finv(t):
    return ite(flt(fcs("6/29"), t), fpowi(t, num(3)), fmul(fcs("108/841"), fsub(t, fcs("4/29"))))


def meets(x, y, f):
    """at the exact switching point of a continuous curve either branch may be taken"""
    neg_ = [q.args[0] for q, v in f.trail if q.op == "flt" and q.args[1] is F0 and not v]
    for p in neg_:
        if () not in p_of(p):
            continue            # two quantities that happen to agree: no switching point
        m = p_term(compare.p_scale(p_of(p), -1))
        if m in neg_:
            return True
    return None


def app_or(name, w):
    return mk("app", name, mk("ty", w))


def wp(axis):
    return mk("app", "t:WhitePoint::" + axis, mk("ty", ("param", "W")))


def named(c, adt_suffix, r):
    """field name -> value of a returned struct"""
    a = None
    for p, d in c.P.adts.items():
        if p.endswith("::" + adt_suffix):
            a = d
    if a is None:
        raise Lost("type " + adt_suffix)
    return {n: fld(r, i) for i, (n, t, v) in enumerate(a["variants"][0]["fields"])}


def returns_type(c, suffix):
    out = []
    for f in c.P.fns.values():
        t = fz(f["out"]) if f.get("out") else None
        if t and t[0] == "adt" and t[1].endswith("::" + suffix) and f.get("body") and "{closure" not in f["id"]:
            out.append(f)
    return out


def in_range_facts(c, f, r, ranges):
    """arguments of the color types are in range themselves"""
    return None


def check_C10(c):
    c.rule("Lab::new / XYZ::new return, field by field, the limit of the matching argument to the field's own range; every other function returning such a color returns fields within the same ranges")
    c.assume("no NaN reaches a color value")
    n = 0
    for ty, ranges in (("Lab", LAB_RANGE), ("XYZ", XYZ_RANGE)):
        f = c.P.find_fn("%s::new" % ty)
        r = c.analyze(f)
        v = named(c, ty, r.ret)
        for i, (fn_, lo, hi) in enumerate(ranges):
            c.same("C10/%s::new/%s" % (ty, fn_), f, "%s::new field %s" % (ty, fn_), v[fn_], clamp_t(r.args[i], fcs(lo), fcs(hi)))
        for g in returns_type(c, ty):
            if g is f:
                continue
            r = c.analyze(g)
            if r.ret is None:
                continue
            n += 1
            v = named(c, ty, r.ret)
            pre = TRUE
            # values of the same types given as arguments are in range
            for ty2, ranges2 in (("Lab", LAB_RANGE), ("XYZ", XYZ_RANGE)):
                for a in r.args:
                    if a.op == "adt" and a.args[0].endswith("::" + ty2):
                        w = named(c, ty2, a)
                        for fn_, lo, hi in ranges2:
                            pre = conj(pre, conj(fle(fcs(lo), w[fn_]), fle(w[fn_], fcs(hi))))
            for fn_, lo, hi in ranges:
                c.valid("C10/%s/%s" % (g["def"]["p"], fn_), g, "field %s within %s..%s" % (fn_, lo, hi), conj(fle(fcs(lo), v[fn_]), fle(v[fn_], fcs(hi))), when=pre)
        for fn_, lo, hi in ranges:
            for side, val in (("min", lo), ("max", hi)):
                g = c.P.find_fn("%s::%s_%s" % (ty, side, fn_), must=False)
                if g is not None:
                    c.same("C10/%s_%s" % (side, fn_), g, "%s %s of %s" % (side, fn_, ty), c.analyze(g).ret, fcs(val))


def from_impl(c, target, source):
    return c.P.method("From", target, "from", lambda ta: len(ta) > 1 and engine.strip_refs(ta[1])[0] == "adt" and engine.strip_refs(ta[1])[1].endswith("::" + source))


def check_C11(c):
    c.rule("the value number of every output component equals the reference formula for that component (sRGB transfer curve, D65 matrix, CIE 1976 functions), constants matched to the published precision")
    c.assume("real arithmetic; rounding of the floating-point type is not modelled")
    cn = cc()
    # RGB -> XYZ
    f = from_impl(c, "XYZ", "Rgba")
    r = c.analyze(f)
    src = named(c, "Rgba", r.args[0])
    out = named(c, "XYZ", r.ret)
    lin_ = [srgb_decode(src[k]) for k in "rgb"]
    for i, (k, lo, hi) in enumerate(XYZ_RANGE):
        e = rlift(lambda *v: clamp_t(row(M_FWD[i], v), fcs(lo), fcs(hi)), *lin_, limit=64)
        c.same("C11/XYZ<-Rgba/" + k, f, "tristimulus %s of an RGB color" % k, out[k], e, eq=meets, canon=cn)
    # XYZ -> Lab
    f = from_impl(c, "Lab", "XYZ")
    r = c.analyze(f)
    src, out = named(c, "XYZ", r.args[0]), named(c, "Lab", r.ret)
    fx, fy, fz_ = [lab_f(fdiv(src[k], wp(k))) for k in "xyz"]
    L = rlift(lambda y: fsub(fmul(fc(116), y), fc(16)), fy)
    A = rlift(lambda x, y: fmul(fc(500), fsub(x, y)), fx, fy)
    B = rlift(lambda y, z: fmul(fc(200), fsub(y, z)), fy, fz_)
    for (k, lo, hi), e in zip(LAB_RANGE, (L, A, B)):
        e = rlift(lambda x: clamp_t(x, fcs(lo), fcs(hi)), e)
        c.same("C11/Lab<-XYZ/" + k, f, "component %s from tristimulus values" % k, out[k], e, eq=meets, canon=cn)
    # Lab -> XYZ
    f = from_impl(c, "XYZ", "Lab")
    r = c.analyze(f)
    src, out = named(c, "Lab", r.args[0]), named(c, "XYZ", r.ret)
    ty = fdiv(fadd(src["l"], fc(16)), fc(116))
    tx, tz = fadd(ty, fdiv(src["a"], fc(500))), fsub(ty, fdiv(src["b"], fc(200)))
    for (k, lo, hi), t in zip(XYZ_RANGE, (tx, ty, tz)):
        e = rlift(lambda x: clamp_t(fmul(wp(k), x), fcs(lo), fcs(hi)), lab_finv(t))
        c.same("C11/XYZ<-Lab/" + k, f, "tristimulus %s from lightness-opponent values" % k, out[k], e, eq=meets, canon=cn)
    # XYZ -> RGB (curve and matrix; rounding is C12)
    f, chans = rgb_channels(c)
    for k, cases in chans:
        bad = None
        n = und = 0
        for fa, leaf, w in cases:
            got = channel_arg(leaf)
            if got is None:
                continue
            n += 1
            kind, x = got
            if any(compare_real(x2, w) for x2 in unround(x)):
                continue
            if meets(None, None, fa):
                continue
            if unknown_in(x) is not None:
                und += 1
                continue
            bad = (fa, x, w)
        if bad:
            c.viol("C11/Rgba<-XYZ/" + k, c.at(f), "channel %s: when %s the scaled value is %s, required is %s" % (k, bad[0].show()[:300], show(bad[1], 9)[:300], show(bad[2], 9)[:300]))
        elif und or not n:
            c.undec("C11/Rgba<-XYZ/" + k, "channel value not resolved")
        else:
            c.held("C11/Rgba<-XYZ/" + k, "channel %s uses its matrix row and the transfer curve (%d cases)" % (k, n))
    # white point
    for axis, ref in (("x", "0.95047"), ("y", "1"), ("z", "1.08883")):
        g = c.P.method("WhitePoint", "D65", axis)
        v = c.analyze(g).ret
        key = "C11/D65/" + axis
        if v is None or v.op != "fc":
            c.undec(key, "white point %s is not a constant: %s" % (axis, show(v) if v is not None else "-"))
        elif abs(v.args[0] - Fraction(ref)) > Fraction("0.0005"):
            c.viol(key, c.at(g), "D65 white point %s is %s, required is %s" % (axis, float(v.args[0]), ref))
        else:
            c.held(key, "white point %s = %s" % (axis, float(v.args[0])))


def compare_real(x, y):
    """equal polynomials up to coefficient precision"""
    return x is y or Comparer().leaf_equal(x, y, Facts())[0] == "eq"


def channel_arg(leaf):
    """what is converted to an integer in this case"""
    if leaf.op == "f2u":
        return "f2u", leaf.args[0]
    return None


def unround(x):
    """candidates w such that x is w rounded to nearest (or x itself)"""
    out = []
    if x.op == "f.round":
        out.append(x.args[0])
        return out
    if x.op == "f.floor":
        x2 = x.args[0]
        out.append(p_term(compare.p_add(p_of(x2), compare.p_const(Fraction(-1, 2)))))
        return out
    if x.op == "f.trunc":
        x = x.args[0]
    out.append(p_term(compare.p_add(p_of(x), compare.p_const(Fraction(-1, 2)))))
    out.append(x)
    return out


_rgb = {}


def rgb_channels(c):
    """[(channel, [(facts, leaf, expected scaled value)])] for the conversion of tristimulus values to RGB"""
    f = from_impl(c, "Rgba", "XYZ")
    r = c.analyze(f)
    src, out = named(c, "XYZ", r.args[0]), named(c, "Rgba", r.ret)
    xyz = [src[k] for k in "xyz"]
    res = []
    for i, k in enumerate("rgb"):
        w = rlift(lambda v: fmul(fc(255), v), srgb_encode(row(M_BWD[i], xyz)))
        cases = []
        for fa, (leaf, wv) in Comparer(cc()).cases((out[k], w)):
            cases.append((fa, leaf, wv))
        res.append((k, cases))
    return f, res


def check_C12(c):
    c.rule("in every case of the channel's value number the channel is the integer part of a rounded value, or 0 where the value is at most 1/2, or 255 where it is at least 254.5; alpha is 255")
    f, chans = rgb_channels(c)
    half, top = fcs("1/2"), fcs("509/2")
    r = c.analyze(f)
    for k, cases in chans:
        key = "C12/" + k
        bad = und = None
        for fa, leaf, w in cases:
            x = w
            if leaf.op == "f2u":
                a = leaf.args[0]
                if a.op == "f.round" or a.op == "f.floor" and not compare_real(a.args[0], w):
                    arg = unround(a)[0]
                elif any(compare_real(u, w) for u in unround(a)[:1]):
                    arg = w
                elif compare_real(a, w) or a.op in ("f.floor", "f.ceil", "f.trunc"):
                    bad = bad or (fa, "the value %s is not rounded to nearest" % show(a, 6)[:200])
                    continue
                else:
                    und = und or (fa, "conversion of %s" % show(a, 6)[:200])
                    continue
                # scale: 255 exactly
                q = ratio(arg, w)
                if q is None and not compare_real(arg, w) and not meets(None, None, fa):
                    if unknown_in(arg) is not None:
                        und = und or (fa, "conversion of %s" % show(arg, 6)[:200])
                    else:
                        bad = bad or (fa, "the rounded value is %s instead of %s" % (show(arg, 7)[:200], show(w, 7)[:200]))
                    continue
                if q is not None and q != 1 and abs(q - 1) > Fraction(1, 10**6):
                    bad = bad or (fa, "scaled by %s instead of 255" % float(q * 255))
                # saturation must not be needed here
                lo = rcmp("flt", arg, fcs("-1/2"))
                hi = rcmp("flt", fcs("511/2"), arg)
                for g, t in ((lo, "below 0"), (hi, "above 255")):
                    if g is TRUE or (g.op == "ite" and fa_decide(fa, g) is True):
                        bad = bad or (fa, "a value %s reaches the integer conversion" % t)
                continue
            if leaf.op == "int":
                v = leaf.args[0]
                # candidates for the rounded value in this case
                args = [t.args[0] for q, _ in fa.trail for t in subterms(q) if t.op == "f.round"]
                args = [a for a in args if compare_real(a, w) or ratio(a, w) is not None] or [w]
                okk = False
                for a in args:
                    if v == 0 and fa_decide(fa, rcmp("flt", half, a)) is False:
                        okk = True
                    if v == 255 and fa_decide(fa, rcmp("flt", a, top)) is False:
                        okk = True
                if not okk:
                    bad = bad or (fa, "the channel is %d although the scaled value %s need not be there" % (v, show(args[0], 6)[:160]))
                continue
            und = und or (fa, "channel value %s" % show(leaf, 6)[:200])
        if bad and unknown_in(mk("tup", *[q for q, _ in bad[0].trail])) is None:
            c.viol(key, c.at(f), "channel %s: when %s: %s" % (k, bad[0].show()[:300], bad[1]))
        elif bad or und:
            c.undec(key, (bad or und)[1])
        else:
            c.held(key, "channel %s rounds to nearest and saturates (%d cases)" % (k, len(cases)))
    a = named(c, "Rgba", r.ret)["a"]
    c.same("C12/alpha", f, "alpha of a converted color", a, num(255))
    # no panic inside the conversion
    for i, e in enumerate(x for x in r.events if x["kind"] == "panic"):
        if e["ok"] is None:
            continue
        c.valid("C12/panic/%s/%d" % (e["why"], i), f, "%s cannot fail" % e["why"], e["ok"], when=e["guard"], canon=cc())


def fa_decide(fa, g):
    """truth of a one-atom condition under the facts"""
    if g is TRUE or g is FALSE:
        return g is TRUE
    if g.args[1] is TRUE and g.args[2] is FALSE:
        return fa.decide(g.args[0])
    if g.args[1] is FALSE and g.args[2] is TRUE:
        d = fa.decide(g.args[0])
        return None if d is None else not d
    return None


def ratio(x, y):
    """constant q with x = q*y, if any"""
    p, q = p_of(x), p_of(y)
    if not p or not q:
        return None
    m = next(iter(q))
    if m not in p:
        return None
    r = p[m] / q[m]
    for k in set(p) | set(q):
        if abs(p.get(k, 0) - r * q.get(k, 0)) > abs(r) * Fraction(1, 10**6):
            return None
    return r
