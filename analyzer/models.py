"""Contracts of the standard-library and num-traits/rand operations the crate can call.

Each model is a transfer function of the value-flow analysis: it maps abstract
arguments to an abstract result (and abstract writes through mutable
references).  Anything not listed here stays an opaque application and makes
whatever depends on it undecided.
"""
from terms import *
import terms as TM

INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
SINTS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
FLOATS = {"f32", "f64"}

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f

    return deco


class C:
    """one call"""

    __slots__ = ("E", "st", "d", "ga", "a", "at", "dty", "site", "sp", "name")

    def __init__(self, E, st, d, ga, args, ats, dty, site, sp, name):
        self.E, self.st, self.d, self.ga, self.a, self.at, self.dty, self.site, self.sp, self.name = E, st, d, ga, args, ats, dty, site, sp, name

    def v(self, i):
        """value of argument i (mutable references are read through)"""
        return self.E.read(self.st, self.a[i])

    def w(self, i, x):
        self.E.write(self.st, self.a[i], x, self.sp, log=False)

    def ty(self, i):
        t = self.at[i] if i < len(self.at) else None
        return strip(t)

    def self_ty(self):
        return strip(self.ga[0]) if self.ga else None

    def panic(self, why, ok, ops=()):
        self.E.event(self.st, "panic", why=why, ops=tuple(ops), ok=ok, ty=None, sp=self.sp)

    def callv(self, f, args, tag="", st=None):
        return self.E.call_value(st if st is not None else self.st, f, args, self.site + tag, self.sp)


def strip(t):
    while t and (t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] == "std::boxed::Box")):
        t = t[1] if t[0] != "adt" else t[2][0]
    return t


def is_mut(t):
    return bool(t and t[0] in ("ref", "ptr") and t[2])


def kind(t):
    """coarse kind of a type"""
    if t is None:
        return "?"
    k = t[0]
    if k in INTS or k == "char":
        return "int"
    if k in SINTS:
        return "sint"
    if k in FLOATS:
        return "float"
    if k in ("param", "alias"):
        return "real"
    if k == "adt":
        p = t[1]
        n = p.split("::")[-1]
        if p.startswith("std::") or p.startswith("core::") or p.startswith("alloc::"):
            return {"Vec": "vec", "VecDeque": "vec", "Option": "option", "BTreeMap": "map", "HashMap": "map", "BTreeSet": "set", "HashSet": "set", "BinaryHeap": "heap", "Range": "range", "RangeInclusive": "rangeinc", "RangeFrom": "rangefrom", "RangeTo": "rangeto", "RangeFull": "rangefull", "RangeToInclusive": "rangetoinc", "PhantomData": "unit", "Ordering": "ordering", "Reverse": "reverse", "String": "string"}.get(n, n)
        return "local"
    if k in ("slice", "array"):
        return "vec"
    return k


def call(E, st, d, ga, args, ats, dty, site, sp):
    from engine import strip_gen

    if d.get("trait"):
        name = strip_gen(d["trait"]) + "::" + d["name"]
    else:
        name = strip_gen(d["p"])
    f = M.get(name)
    if f is None:
        base = name.split("::")[-1]
        pre = name.rsplit("::", 1)[0]
        for p, table in PREFIX:
            if pre == p or (p.endswith("*") and pre.startswith(p[:-1])):
                f = M.get(table + "." + base)
                if f:
                    break
    if f is None:
        return NotImplemented
    if any(a is BOT for a in args):
        pass
    c = C(E, st.copy(), d, ga, args, ats, dty, site, sp, name)
    r = f(c)
    if r is NotImplemented or r is None:
        return r
    if isinstance(r, tuple) and len(r) == 2 and not isinstance(r, T):
        return r
    return c.st, r


PREFIX = [
    ("core::slice", "seq"), ("std::slice", "seq"), ("alloc::slice", "seq"), ("std::vec::Vec", "seq"), ("alloc::vec::Vec", "seq"), ("std::collections::VecDeque", "seq"), ("core::array", "arr"), ("std::array", "arr"), ("core::array", "seq"), ("std::array", "seq"),
    ("std::collections::BTreeMap", "map"), ("std::collections::HashMap", "map"), ("std::collections::btree_map::Entry", "entry"), ("std::collections::hash_map::Entry", "entry"),
    ("std::collections::HashSet", "set"), ("std::collections::BTreeSet", "set"), ("std::collections::BinaryHeap", "heap"),
    ("std::option::Option", "opt"), ("std::cmp::Ordering", "ordering"), ("core::num", "num"), ("std::num", "num"), ("core::f32*", "fl"), ("core::f64*", "fl"), ("std::f32*", "fl"), ("std::f64*", "fl"), ("core::num::*", "num"),
    ("num_traits::real::Real", "fl"), ("num_traits::Float", "fl"), ("num_traits::float::Float", "fl"), ("num_traits::float::FloatCore", "fl"),
    ("std::iter::DoubleEndedIterator", "it"), ("std::iter::ExactSizeIterator", "it"), ("std::iter::Iterator", "it"),
]


def derived(E, st, impl, name, args, ats, site, sp):
    t = impl["trait"]
    if t.endswith("clone::Clone") and name == "clone":
        return st, E.read(st, args[0])
    if t.endswith("default::Default"):
        return None
    if t.endswith("cmp::PartialEq") and name in ("eq", "ne"):
        r = val_eq(E, st, E.read(st, args[0]), E.read(st, args[1]), impl["fself"])
        if r is None:
            return None
        return st, (r if name == "eq" else neg(r))
    return None


# ---------------------------------------------------------------- comparison of values by type
def val_eq(E, st, a, b, ty, depth=0):
    ty = strip(ty)
    a, b = E.read(st, a), E.read(st, b)
    k = kind(ty)
    if k in ("int", "sint"):
        return ieq(a, b)
    if k in ("float", "real"):
        return rlift(feq, a, b)
    if k == "bool":
        return iff(a, b)
    if k == "unit":
        return TRUE
    if k == "tuple":
        r = TRUE
        for i, t in enumerate(ty[1]):
            e = val_eq(E, st, fld(a, i), fld(b, i), t, depth + 1)
            if e is None:
                return None
            r = conj(r, e)
        return r
    if k == "ordering":
        return liftn(lambda x, y: TRUE if x is y else enum_eq(x, y, ORD), a, b)
    if k == "option":
        r = val_eq(E, st, pay(a, 1, 0), pay(b, 1, 0), ty[2][0], depth + 1)
        if r is None:
            return None
        sa, sb = isv(a, OPT, 1), isv(b, OPT, 1)
        return ite(sa, conj(sb, r if r is not BOT else FALSE), neg(sb))
    if k == "local" and ty[1] in E.prog.adts and depth < 5:
        # structural only if the type derives its equality
        imp = [i for i in E.prog.by_trait.get("std::cmp::PartialEq", []) if i["fself"][0] == "adt" and i["fself"][1] == ty[1]]
        if not imp or not imp[0].get("derived"):
            if imp and imp[0]["items"]:
                iid = dict(imp[0]["items"]).get("eq")
                fn = E.prog.fns.get(iid)
                if fn:
                    from engine import unify

                    sub = {}
                    unify(imp[0]["fself"], ty, sub)
                    r = E.call_fn(st, fn, sub, [a, b], "eq", None)
                    if r is not None:
                        return r[1]
            return None
        A = E.prog.adts[ty[1]]
        sub = dict(zip(A["generics"], ty[2]))
        from engine import fz, tsub

        if not A["enum"]:
            r = TRUE
            for i, (n, t, _) in enumerate(A["variants"][0]["fields"]):
                e = val_eq(E, st, fld(a, i), fld(b, i), tsub(fz(t), sub), depth + 1)
                if e is None:
                    return None
                r = conj(r, e)
            return r
        r = FALSE
        for vi, v in enumerate(A["variants"]):
            both = conj(isv(a, ty[1], vi), isv(b, ty[1], vi))
            e = TRUE
            for i, (n, t, _) in enumerate(v["fields"]):
                x = val_eq(E, st, pay(a, vi, i), pay(b, vi, i), tsub(fz(t), sub), depth + 1)
                if x is None:
                    return None
                if x is BOT:
                    x = FALSE
                e = conj(e, x)
            r = disj(r, conj(both, e))
        return r
    return liftn(lambda x, y: TRUE if x is y else atom(mk("eqv", *sorted([x, y], key=lambda q: q.id))), a, b)


def enum_eq(x, y, path):
    n = len(ENUMS[path][0])
    r = FALSE
    for i in range(n):
        r = disj(r, conj(isv(x, path, i), isv(y, path, i)))
    return r


def val_partial_cmp(c, a, b, ty):
    """Option<Ordering>"""
    E, st = c.E, c.st
    ty = strip(ty)
    a, b = E.read(st, a), E.read(st, b)
    k = kind(ty)
    if k in ("int", "sint"):
        return lift1(some, E.int_ordering(a, b))
    if k in ("float", "real"):
        return E.float_partial(a, b)
    if k == "bool":
        return ite(conj(neg(a), b), some(LESS), ite(conj(a, neg(b)), some(GREATER), some(EQUAL)))
    if k == "unit":
        return some(EQUAL)
    if k == "tuple":
        r = some(EQUAL)
        for i in range(len(ty[1]) - 1, -1, -1):
            o = val_partial_cmp(c, fld(a, i), fld(b, i), ty[1][i])
            if o is None:
                return None
            rr = r
            r = lift1(lambda l: rr if l is some(EQUAL) else l, o)
        return r
    if k == "reverse":
        o = val_partial_cmp(c, fld(b, 0), fld(a, 0), ty[2][0])
        return o
    if k == "local":
        for tr, nm in (("std::cmp::PartialOrd", "partial_cmp"), ("std::cmp::Ord", "cmp")):
            for i in E.prog.by_trait.get(tr, []):
                if i["fself"][0] == "adt" and i["fself"][1] == ty[1]:
                    iid = dict(i["items"]).get(nm)
                    fn = E.prog.fns.get(iid)
                    if fn:
                        from engine import unify

                        sub = {}
                        unify(i["fself"], ty, sub)
                        r = E.call_fn(st, fn, sub, [a, b], c.site + ":" + nm, c.sp)
                        if r is None:
                            return None
                        c.st = r[0]
                        return r[1] if nm == "partial_cmp" else lift1(some, r[1])
    if k == "option":
        inner = val_partial_cmp(c, pay(a, 1, 0), pay(b, 1, 0), ty[2][0])
        if inner is None:
            return None
        sa, sb = isv(a, OPT, 1), isv(b, OPT, 1)
        return ite(sa, ite(sb, inner, some(GREATER)), ite(sb, some(LESS), some(EQUAL)))
    return None


def val_cmp(c, a, b, ty):
    E, st = c.E, c.st
    ty = strip(ty)
    k = kind(ty)
    if k in ("int", "sint"):
        return E.int_ordering(E.read(st, a), E.read(st, b))
    if k == "local":
        for i in E.prog.by_trait.get("std::cmp::Ord", []):
            if i["fself"][0] == "adt" and i["fself"][1] == ty[1]:
                iid = dict(i["items"]).get("cmp")
                fn = E.prog.fns.get(iid)
                if fn:
                    from engine import unify

                    sub = {}
                    unify(i["fself"], ty, sub)
                    r = E.call_fn(st, fn, sub, [E.read(st, a), E.read(st, b)], c.site + ":cmp", c.sp)
                    if r is None:
                        return None
                    c.st = r[0]
                    return r[1]
    if k == "ordering":
        ra, rb = discr(E.read(st, a), ORD), discr(E.read(st, b), ORD)
        return E.int_ordering(ra, rb)
    o = val_partial_cmp(c, a, b, ty)
    if o is None:
        return None
    return lift1(lambda l: pay(l, 1, 0), o)


# ---------------------------------------------------------------- operators
def arith(c, op):
    a, b = c.v(0), c.v(1)
    t = strip(c.ga[0]) if c.ga else c.ty(0)
    return do_arith(c, op, a, b, t)


def do_arith(c, op, a, b, t):
    k = kind(t)
    if k in ("int", "sint"):
        if op in ("add", "sub", "mul"):
            f = {"add": iadd, "sub": isub, "mul": imul}[op]
            c.panic("overflow_" + op, None, (a, b))
            c.E.events[-1]["ty"] = t
            return f(a, b)
        if op in ("div", "rem"):
            c.panic(op + "_zero", neg(ieq(b, ZERO)), (a,))
            if k == "sint":
                return mk("sint", a, b, op)
            return (idiv if op == "div" else irem)(a, b)
        return NotImplemented
    f = {"add": fadd, "sub": fsub, "mul": fmul, "div": fdiv, "rem": frem}[op]
    if op in ("div", "rem") and len(c.ga) > 1 and strip(c.ga[1]) != strip(c.ga[0]):
        # a vector by a scalar: the implementations reject zero
        c.E.event(c.st, "partial", why="divide", ok=neg(feq(b, F0)), sp=c.sp)
    return rlift(f, a, b)


for _op in ("add", "sub", "mul", "div", "rem"):
    _tr = _op.capitalize()

    def _mkop(op):
        def f(c):
            if kind(strip(c.ga[0])) not in ("int", "sint", "float", "real"):
                return NotImplemented
            return arith(c, op)

        def g(c):
            if kind(strip(c.ga[0])) not in ("int", "sint", "float", "real"):
                return NotImplemented
            r = arith(c, op)
            if r is NotImplemented:
                return r
            if c.a[0].op != "ref" and not any(l.op == "ref" for _, l in leaves(c.a[0])):
                return NotImplemented
            c.E.write(c.st, c.a[0], r, c.sp)
            return UNIT

        return f, g

    _f, _g = _mkop(_op)
    M["std::ops::%s::%s" % (_tr, _op)] = _f
    M["std::ops::%sAssign::%s_assign" % (_tr, _op)] = _g


@model("std::ops::Neg::neg")
def _(c):
    k = kind(strip(c.ga[0]))
    if k in ("float", "real"):
        return lift1(fneg, c.v(0))
    return imul(num(-1), c.v(0))


@model("std::ops::Not::not")
def _(c):
    return neg(c.v(0)) if kind(strip(c.ga[0])) == "bool" else NotImplemented


@model("std::ops::BitAnd::bitand")
def _(c):
    return conj(c.v(0), c.v(1)) if kind(strip(c.ga[0])) == "bool" else NotImplemented


@model("std::ops::BitOr::bitor")
def _(c):
    return disj(c.v(0), c.v(1)) if kind(strip(c.ga[0])) == "bool" else NotImplemented


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(c):
    r = val_eq(c.E, c.st, c.v(0), c.v(1), c.ga[0])
    if r is None:
        return NotImplemented
    return neg(r) if c.name.endswith("ne") else r


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _(c):
    n = c.name.split("::")[-1]
    t = strip(c.ga[0])
    k = kind(t)
    a, b = c.v(0), c.v(1)
    if n in ("gt", "ge"):
        a, b = b, a
    strict = n in ("lt", "gt")
    if k in ("int", "sint"):
        return ilt(a, b) if strict else ile(a, b)
    if k in ("float", "real"):
        return rlift(flt if strict else fle, a, b)
    o = val_partial_cmp(c, c.v(0), c.v(1), t)
    if o is None:
        return NotImplemented
    if n in ("gt", "ge"):
        ok = (some(GREATER),) if strict else (some(GREATER), some(EQUAL))
    else:
        ok = (some(LESS),) if strict else (some(LESS), some(EQUAL))
    return lift1(lambda l: TRUE if l in ok else FALSE if l.op == "adt" and (not l.args[2:] or l.args[2].op == "adt") else atom(mk("rel", n, l)), o)


@model("std::cmp::PartialOrd::partial_cmp")
def _(c):
    r = val_partial_cmp(c, c.v(0), c.v(1), c.ga[0])
    return NotImplemented if r is None else r


@model("std::cmp::Ord::cmp", "std::iter::Iterator::cmp_")
def _(c):
    r = val_cmp(c, c.v(0), c.v(1), c.ga[0])
    return NotImplemented if r is None else r


@model("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max")
def _(c):
    mn = c.name.endswith("min")
    t = strip(c.ga[0])
    if kind(t) in ("int", "sint"):
        return (imin if mn else imax)(c.v(0), c.v(1))
    o = val_cmp(c, c.v(0), c.v(1), t)
    if o is None:
        return NotImplemented
    gt = isv(o, ORD, 2)
    return ite(gt, c.v(1), c.v(0)) if mn else ite(gt, c.v(0), c.v(1))


@model("std::cmp::Ord::clamp")
def _(c):
    if kind(strip(c.ga[0])) not in ("int", "sint"):
        return NotImplemented
    c.panic("clamp", ile(c.v(1), c.v(2)))
    return imin(imax(c.v(0), c.v(1)), c.v(2))


def _ordtest(var_ok):
    def f(c):
        o = c.v(0)
        r = FALSE
        for v in var_ok:
            r = disj(r, isv(o, ORD, v))
        return r

    return f


for _n, _v in (("is_lt", (0,)), ("is_le", (0, 1)), ("is_gt", (2,)), ("is_ge", (1, 2)), ("is_eq", (1,)), ("is_ne", (0, 2))):
    M["ordering." + _n] = _ordtest(_v)


@model("core::bool::then", "bool::then")
def _(c):
    return guarded_call(c, c.v(0), c.a[1], [], some, NONE)


@model("core::bool::then_some", "bool::then_some")
def _(c):
    return ite(c.v(0), some(c.v(1)), NONE)


@model("ordering.reverse")
def _(c):
    o = c.v(0)
    return ite(isv(o, ORD, 0), GREATER, ite(isv(o, ORD, 1), EQUAL, LESS)) if o.op != "adt" else [GREATER, EQUAL, LESS][o.args[1]]


@model("ordering.then")
def _(c):
    o = c.v(0)
    return ite(isv(o, ORD, 1), c.v(1), o)


@model("ordering.then_with")
def _(c):
    o = c.v(0)
    g = isv(o, ORD, 1)
    return guarded_call(c, g, c.a[1], [], lambda r: r, o)


def guarded_call(c, g, f, args, post, other):
    """call f under g, use `other` otherwise"""
    if g is FALSE:
        return other
    s1 = c.st.under(g)
    if s1.guard is FALSE:
        return other
    r = c.callv(f, args, ":g", st=s1)
    if g is TRUE:
        if r is None:
            return None
        c.st = r[0]
        return post(r[1])
    s0 = c.st.under(neg(g))
    if r is None:
        if s0.guard is FALSE:
            return None
        s0.guard = c.st.guard
        c.st = s0
        return other
    from engine import merge_val

    m, v = merge_val([(r[0], post(r[1])), (s0, other)])
    if m is None:
        return None
    c.st = m
    # the merged value is keyed by the full path condition
    return v


# ---------------------------------------------------------------- conversion, construction
@model("std::convert::From::from")
def _(c):
    return conv(c, c.v(0), strip(c.ga[1]), c.ga[0])


@model("std::convert::Into::into")
def _(c):
    src, dst = c.ga[0], c.ga[1]
    d = {"id": "core::convert::From::from", "p": "std::convert::From::from", "trait": "std::convert::From", "name": "from"}
    rf = c.E.resolve(d, (dst, src))
    if rf is not None:
        return c.E.call_def(c.st, d, (dst, src), c.a, c.at, c.dty, c.site, c.sp)
    return conv(c, c.v(0), strip(src), dst)


def conv(c, x, src, dst):
    if src is None or dst is None:
        return NotImplemented
    if kind(dst) in ("int", "sint") and kind(src) in ("int", "sint", "bool"):
        return lift1(lambda l: c.E.int_cast(l, src, dst), x)
    if kind(dst) == "float" and kind(src) == "int":
        return lift1(lambda l: mk("i2f", l, src[0], dst[0]), x)
    if kind(dst) == "float" and kind(src) == "float" and src != dst:
        return lift1(lambda l: mk("f2f", l, src[0], dst[0]), x)
    if src == dst or kind(dst) == "vec" and kind(src) == "vec":
        return x
    if kind(dst) == "option":
        return some(x)
    if kind(dst) == "heap" and kind(src) == "vec":
        return mk("heapof", x)
    return NotImplemented


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(c):
    if c.name.endswith("try_from"):
        dst, src = c.ga[0], c.ga[1]
    else:
        src, dst = c.ga[0], c.ga[1]
    if src and dst and src[0] in INTS and dst[0] in INTS:
        x = c.v(0)
        ok = ile(x, num((1 << INTS[dst[0]]) - 1)) if INTS[dst[0]] < INTS[src[0]] else TRUE
        return ite(ok, adt("std::result::Result", 0, x), adt("std::result::Result", 1, UNIT))
    return NotImplemented


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::hint::black_box", "std::convert::AsRef::as_ref", "std::convert::identity", "std::borrow::Borrow::borrow")
def _(c):
    return c.v(0)


@model("std::ops::Deref::deref")
def _(c):
    return c.a[0]


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut")
def _(c):
    return c.a[0]


@model("std::boxed::Box::new", "std::boxed::box_new", "std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::pin", "std::rc::Rc::new", "std::slice::into_vec", "alloc::slice::into_vec", "seq.into_vec", "seq.into_boxed_slice")
def _(c):
    return c.v(0)


@model("std::boxed::Box::new_uninit")
def _(c):
    return BOT_BOX


BOT_BOX = mk("uninit")


@model("std::mem::drop", "core::mem::drop", "std::mem::forget")
def _(c):
    return UNIT


@model("std::mem::swap", "core::mem::swap")
def _(c):
    a, b = c.v(0), c.v(1)
    c.E.write(c.st, c.a[0], b, c.sp)
    c.E.write(c.st, c.a[1], a, c.sp)
    return UNIT


@model("std::mem::replace", "core::mem::replace")
def _(c):
    a = c.v(0)
    c.E.write(c.st, c.a[0], c.v(1), c.sp)
    return a


@model("std::mem::take", "core::mem::take")
def _(c):
    a = c.v(0)
    d = default_of(strip(c.ga[0]))
    if d is None:
        return NotImplemented
    c.E.write(c.st, c.a[0], d, c.sp)
    return a


def default_of(t):
    k = kind(t)
    if k in ("int", "sint"):
        return ZERO
    if k in ("float", "real"):
        return F0
    if k == "vec":
        return EMPTY
    if k == "bool":
        return FALSE
    if k == "option":
        return NONE
    if k == "map":
        return MEMPTY
    if k == "set":
        return SEMPTY
    if k == "heap":
        return HEMPTY
    if k == "unit":
        return adt(t[1], 0)
    if k == "tuple":
        xs = [default_of(strip(x)) for x in t[1]]
        return None if any(x is None for x in xs) else tup(*xs)
    return None


@model("std::default::Default::default")
def _(c):
    d = default_of(c.ga[0])
    return NotImplemented if d is None else d


@model("num_traits::Zero::zero")
def _(c):
    return ZERO if kind(c.ga[0]) in ("int", "sint") else F0


@model("num_traits::One::one")
def _(c):
    return ONE if kind(c.ga[0]) in ("int", "sint") else F1


@model("num_traits::Zero::is_zero")
def _(c):
    return ieq(c.v(0), ZERO) if kind(strip(c.ga[0])) in ("int", "sint") else liftn(feq, c.v(0), F0)


@model("num_traits::One::is_one")
def _(c):
    return ieq(c.v(0), ONE) if kind(strip(c.ga[0])) in ("int", "sint") else liftn(feq, c.v(0), F1)


@model("num_traits::Zero::set_zero")
def _(c):
    c.E.write(c.st, c.a[0], ZERO if kind(strip(c.ga[0])) in ("int", "sint") else F0, c.sp)
    return UNIT


# ---------------------------------------------------------------- panics
@model("std::rt::panic_fmt", "core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_explicit", "std::rt::begin_panic", "core::panicking::unreachable_display", "core::panicking::panic_display",
       "core::panicking::assert_failed", "core::panicking::assert_failed_inner", "core::panicking::panic_nounwind", "core::option::expect_failed", "core::option::unwrap_failed", "core::panicking::panic_str_2015", "std::process::abort", "std::process::exit", "core::panicking::todo_default_msg", "core::panicking::unreachable_default_msg", "std::rt::panic_display", "core::panicking::panic_str_literal")
def _(c):
    c.panic("explicit", FALSE, ())
    return None


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::format")
def _(c):
    return mk("fmt")


# ---------------------------------------------------------------- integers
def _it(c):
    t = c.ty(0)
    return t[0] if t else None


def _max(c):
    n = _it(c)
    return (1 << INTS[n]) - 1 if n in INTS else None


@model("num.saturating_add", "num.saturating_mul")
def _(c):
    if _max(c) is None:
        return NotImplemented
    f = iadd if c.name.endswith("add") else imul
    r = f(c.v(0), c.v(1))
    return imin(r, num(_max(c)))


@model("num.saturating_sub")
def _(c):
    return nsub(c.v(0), c.v(1)) if _max(c) is not None else NotImplemented


@model("num.wrapping_add", "num.wrapping_sub", "num.wrapping_mul", "num.overflowing_add")
def _(c):
    return mk(c.name.split("::")[-1], c.v(0), c.v(1))


@model("num.checked_add", "num.checked_mul")
def _(c):
    if _max(c) is None:
        return NotImplemented
    f = iadd if c.name.endswith("add") else imul
    r = f(c.v(0), c.v(1))
    return ite(ile(r, num(_max(c))), some(r), NONE)


@model("num.checked_sub")
def _(c):
    if _max(c) is None:
        return NotImplemented
    return ite(ile(c.v(1), c.v(0)), some(isub(c.v(0), c.v(1))), NONE)


@model("num.checked_div", "num.checked_rem")
def _(c):
    if _max(c) is None:
        return NotImplemented
    f = idiv if c.name.endswith("div") else irem
    return ite(ieq(c.v(1), ZERO), NONE, some(f(c.v(0), c.v(1))))


@model("num.abs_diff")
def _(c):
    if _max(c) is None:
        return NotImplemented
    return ite(ile(c.v(1), c.v(0)), isub(c.v(0), c.v(1)), isub(c.v(1), c.v(0)))


@model("num.div_ceil")
def _(c):
    b = c.v(1)
    if b.op == "int" and b.args[0] > 0:
        return cdiv(c.v(0), b.args[0])
    return NotImplemented


@model("num.pow")
def _(c):
    n = c.v(1)
    if n.op != "int" or n.args[0] > 8:
        return NotImplemented
    r = ONE
    for _ in range(n.args[0]):
        c.panic("overflow_mul", None, (r, c.v(0)))
        c.E.events[-1]["ty"] = c.ty(0)
        r = imul(r, c.v(0))
    return r


@model("num.min", "num.max")
def _(c):
    return (imin if c.name.endswith("min") else imax)(c.v(0), c.v(1))


@model("num.is_multiple_of")
def _(c):
    return ieq(irem(c.v(0), c.v(1)), ZERO)


# ---------------------------------------------------------------- reals
def _fl(name, n):
    def f(c):
        return rlift(lambda *x: mk("f." + name, *x), *[c.v(i) for i in range(n)])

    return f


for _n in ("sqrt", "cbrt", "abs", "round", "floor", "ceil", "trunc", "ln", "exp", "sin", "cos", "recip", "fract", "signum", "exp2", "log2", "log10", "tan", "atan"):
    M["fl." + _n] = _fl(_n, 1)
M["fl.powf"] = _fl("powf", 2)
M["fl.atan2"] = _fl("atan2", 2)
M["fl.hypot"] = _fl("hypot", 2)
M["fl.powi"] = lambda c: rlift(fpowi, c.v(0), c.v(1))
M["fl.mul_add"] = lambda c: rlift(lambda a, b, d: fadd(fmul(a, b), d), c.v(0), c.v(1), c.v(2))
M["fl.recip"] = lambda c: lift1(lambda a: fdiv(F1, a), c.v(0))
M["fl.max"] = lambda c: rlift(lambda a, b: ite(flt(a, b), b, a), c.v(0), c.v(1))
M["fl.min"] = lambda c: rlift(lambda a, b: ite(flt(b, a), b, a), c.v(0), c.v(1))
M["fl.clamp"] = lambda c: clamp(c.v(0), c.v(1), c.v(2))
M["fl.is_nan"] = lambda c: FALSE
M["fl.is_sign_negative"] = lambda c: lift1(lambda a: flt(a, F0), c.v(0))
M["fl.is_sign_positive"] = lambda c: lift1(lambda a: neg(flt(a, F0)), c.v(0))
M["fl.max_value"] = lambda c: mk("fspecial", "max")
M["fl.min_value"] = lambda c: mk("fspecial", "min")
M["fl.epsilon"] = lambda c: mk("fspecial", "eps")
M["fl.min_positive_value"] = lambda c: mk("fspecial", "tiny")
M["fl.infinity"] = lambda c: mk("fspecial", "inf")
M["fl.neg_infinity"] = lambda c: mk("fspecial", "-inf")
M["num_traits::Bounded::max_value"] = M["fl.max_value"]
M["num_traits::Bounded::min_value"] = M["fl.min_value"]


def clamp(x, lo, hi):
    return rlift(lambda x, lo, hi: ite(flt(x, lo), lo, ite(flt(hi, x), hi, x)), x, lo, hi)


@model("fl.total_cmp")
def _(c):
    return lift1(lambda l: pay(l, 1, 0), c.E.float_partial(c.v(0), c.v(1)))


def _toprim(ty):
    def f(c):
        x = c.v(0)
        if kind(strip(c.ga[0])) == "int":
            src = strip(c.ga[0])[0]
            if INTS.get(src, 999) <= INTS[ty]:
                return some(x)
            return ite(ile(x, num((1 << INTS[ty]) - 1)), some(x), NONE)

        def g(l):
            if l.op == "fc":
                n = int(l.args[0])
                return some(num(n)) if l.args[0] > -1 and n < 1 << INTS[ty] else NONE
            ok = conj(flt(fc(-1), l), flt(l, fc(1 << INTS[ty])))
            return ite(ok, some(mk("f2u", l, ty)), NONE)

        return lift1(g, x)

    return f


for _n in INTS:
    M["num_traits::ToPrimitive::to_" + _n] = _toprim(_n)


def _tosigned(bits):
    def f(c):
        x = c.v(0)
        if kind(strip(c.ga[0])) == "int":
            return ite(ile(x, num((1 << bits - 1) - 1)), some(x), NONE)
        lo, hi = fc(-(1 << bits - 1) - 1), fc(1 << bits - 1)
        return lift1(lambda l: ite(conj(flt(lo, l), flt(l, hi)), some(mk("f2s", l)), NONE), x)

    return f


for _n, _b in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("isize", 64)):
    M["num_traits::ToPrimitive::to_" + _n] = _tosigned(_b)
M["num_traits::ToPrimitive::to_f64"] = lambda c: some(c.v(0))
M["num_traits::ToPrimitive::to_f32"] = lambda c: some(mk("f2f", c.v(0), "?", "f32"))


@model("rand::Rng::gen_range", "rand::Rng::gen", "rand::Rng::gen_bool", "rand::RngCore::next_u32", "rand::RngCore::next_u64")
def _(c):
    return c.E.opaque_call(c.st, "rng:" + c.name.split("::")[-1], c.a, c.at, c.dty, c.site, c.sp, c.d, c.ga)


@model("rand::seq::index::sample")
def _(c):
    return c.E.opaque_call(c.st, "rng:sample", c.a, c.at, c.dty, c.site, c.sp, c.d, c.ga)


# ---------------------------------------------------------------- local traits on type parameters
def param_trait(E, st, name, args, ats, ga, sp):
    """contracts of the crate's own numeric traits on a type parameter (checked against the impls by C15)"""
    if name in ("Number::from_u8", "Number::from_u32", "Number::from_u64", "Number::from_usize"):
        return lift1(tof, E.read(st, args[0]))
    if name in ("Float::from_f32", "Float::from_f64"):
        return E.read(st, args[0])
    if name == "Clamp::clamp":
        x, lo, hi = (E.read(st, a) for a in args)
        E.event(st, "panic", why="clamp", ops=(x, lo, hi), ok=liftn(fle, lo, hi), ty=None, sp=sp)
        return clamp(x, lo, hi)
    if name == "Point::to_vec":
        x = E.read(st, args[0])
        return mk("coords", x)
    return None


# ---------------------------------------------------------------- options
def is_some(o):
    return isv(o, OPT, 1)


@model("opt.is_some")
def _(c):
    return is_some(c.v(0))


@model("opt.is_none")
def _(c):
    return neg(is_some(c.v(0)))


@model("opt.unwrap", "opt.expect", "opt.unwrap_unchecked")
def _(c):
    o = c.v(0)
    g = is_some(o)
    if g is FALSE:
        c.panic("unwrap", FALSE, (o,))
        return None
    if g is not TRUE:
        c.panic("unwrap", g, (o,))
    return restrict(pay(o, 1, 0), g)


@model("opt.unwrap_or")
def _(c):
    o = c.v(0)
    return lift_opt(o, lambda x: x, c.a[1])


def lift_opt(o, f, other):
    def g(l):
        if l.op == "adt":
            return f(l.args[2]) if l.args[1] == 1 else other
        return ite(is_some(l), f(pay(l, 1, 0)), other)

    return lift1(g, o)


@model("opt.unwrap_or_default")
def _(c):
    d = default_of(strip(c.ga[0]))
    return NotImplemented if d is None else lift_opt(c.v(0), lambda x: x, d)


def opt_branch(c, o, f_some, none_val=None, none_f=None):
    """call f_some(payload) when Some; none value otherwise (or none_f())"""
    from engine import merge_val

    g = is_some(o)
    pairs = []
    if g is not FALSE:
        s1 = c.st.under(g)
        if s1.guard is not FALSE:
            r = f_some(s1, restrict(pay(o, 1, 0), g))
            if r is not None:
                pairs.append(r)
    if g is not TRUE:
        s0 = c.st.under(neg(g))
        if s0.guard is not FALSE:
            if none_f is not None:
                r = none_f(s0)
                if r is not None:
                    pairs.append(r)
            else:
                pairs.append((s0, none_val))
    if not pairs:
        return None
    g0 = c.st.guard
    m, v = merge_val(pairs)
    if m is None:
        return None
    if len(pairs) == 2:
        m.guard = g0
        v = restrict(v, g0)
    c.st = m
    return v


@model("opt.map")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: post(c.callv(c.a[1], [x], st=s), some), NONE)


def post(r, f):
    return None if r is None else (r[0], lift1(f, r[1]))


def post2(r, f):
    return None if r is None else (r[0], f(r[1]))


@model("opt.and_then")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: c.callv(c.a[1], [x], st=s), NONE)


@model("opt.map_or")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: c.callv(c.a[2], [x], st=s), c.a[1])


@model("opt.map_or_else")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: c.callv(c.a[2], [x], st=s), none_f=lambda s: c.callv(c.a[1], [], ":n", st=s))


@model("opt.unwrap_or_else")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: (s, x), none_f=lambda s: c.callv(c.a[1], [], ":n", st=s))


@model("opt.is_some_and")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: c.callv(c.a[1], [x], st=s), FALSE)


@model("opt.is_none_or")
def _(c):
    return opt_branch(c, c.v(0), lambda s, x: c.callv(c.a[1], [x], st=s), TRUE)


@model("opt.or")
def _(c):
    o = c.v(0)
    return ite(is_some(o), o, c.v(1))


@model("opt.or_else")
def _(c):
    o = c.v(0)
    return opt_branch(c, o, lambda s, x: (s, some(x)), none_f=lambda s: c.callv(c.a[1], [], ":n", st=s))


@model("opt.filter")
def _(c):
    o = c.v(0)

    def f(s, x):
        r = c.callv(c.a[1], [x], st=s)
        return None if r is None else (r[0], ite(r[1], some(x), NONE))

    return opt_branch(c, o, f, NONE)


@model("opt.as_ref", "opt.cloned", "opt.copied", "opt.as_deref", "opt.flatten_")
def _(c):
    return c.v(0)


@model("opt.as_mut", "opt.as_deref_mut")
def _(c):
    o = c.v(0)
    return ite(is_some(o), some_loc(c, c.a[0], ("p", 1, 0)), NONE)


def some_loc(c, loc, e):
    return lift1(some, c.E.ext(loc, e))


@model("opt.take")
def _(c):
    o = c.v(0)
    c.w(0, NONE)
    return o


@model("opt.replace")
def _(c):
    o = c.v(0)
    c.w(0, some(c.v(1)))
    return o


@model("opt.zip")
def _(c):
    a, b = c.v(0), c.v(1)
    return ite(conj(is_some(a), is_some(b)), some(tup(pay(a, 1, 0), pay(b, 1, 0))), NONE)


@model("opt.ok_or", "opt.ok_or_else")
def _(c):
    return lift_opt(c.v(0), lambda x: adt("std::result::Result", 0, x), adt("std::result::Result", 1, UNIT))


@model("std::result::Result::ok")
def _(c):
    o = c.v(0)
    return ite(isv(o, "std::result::Result", 0), some(pay(o, 0, 0)), NONE)


@model("std::result::Result::unwrap", "std::result::Result::expect")
def _(c):
    o = c.v(0)
    g = isv(o, "std::result::Result", 0)
    if g is FALSE:
        c.panic("unwrap", FALSE, (o,))
        return None
    if g is not TRUE:
        c.panic("unwrap", g, (o,))
    return restrict(pay(o, 0, 0), g)


@model("std::result::Result::is_ok")
def _(c):
    return isv(c.v(0), "std::result::Result", 0)


@model("std::result::Result::unwrap_or")
def _(c):
    o = c.v(0)
    return ite(isv(o, "std::result::Result", 0), pay(o, 0, 0), c.v(1))


@model("std::ops::Try::branch")
def _(c):
    o = c.v(0)
    t = strip(c.ga[0])
    if kind(t) != "option":
        return NotImplemented
    CF = "std::ops::ControlFlow"
    return lift_opt(o, lambda x: adt(CF, 0, x), adt(CF, 1, NONE))


@model("std::ops::FromResidual::from_residual")
def _(c):
    t = strip(c.ga[0])
    return NONE if kind(t) == "option" else NotImplemented


# ---------------------------------------------------------------- closures
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _(c):
    a = c.a[1]
    args = list(a.args) if a.op == "tup" else None
    if args is None:
        return NotImplemented
    return c.E.call_value(c.st, c.a[0], args, c.site, c.sp, c.dty)


# ---------------------------------------------------------------- sequences
def seqv(c, i=0):
    return c.v(i)


@model("seq.new", "seq.with_capacity", "seq.with_capacity_in")
def _(c):
    if c.a:
        c.E.event(c.st, "capacity", value=c.v(0), ty=c.ga[0] if c.ga else None, sp=c.sp)
    return EMPTY


@model("seq.reserve", "seq.reserve_exact", "seq.shrink_to_fit")
def _(c):
    if len(c.a) > 1:
        c.E.event(c.st, "capacity", value=c.v(1), ty=c.ga[0] if c.ga else None, sp=c.sp)
    return UNIT


@model("seq.len", "seq.capacity_")
def _(c):
    return slen(c.v(0))


@model("seq.is_empty")
def _(c):
    return ieq(slen(c.v(0)), ZERO)


@model("seq.push", "seq.push_back")
def _(c):
    v = c.v(1) if c.a[1].op != "ref" else c.a[1]
    c.E.event(c.st, "push", loc=c.a[0], value=v, sp=c.sp)
    c.w(0, push(c.v(0), v))
    return UNIT


@model("seq.push_front")
def _(c):
    c.E.event(c.st, "push", loc=c.a[0], value=c.v(1), sp=c.sp)
    c.w(0, cat(lit(c.v(1)), c.v(0)))
    return UNIT


@model("seq.pop", "seq.pop_back")
def _(c):
    s = c.v(0)
    ne = neg(ieq(slen(s), ZERO))
    c.E.event(c.st, "pop", loc=c.a[0], value=s, sp=c.sp)
    c.w(0, ite(ne, pop_init(s), s))
    return ite(ne, some_d(slast(s)), NONE)


def some_d(x):
    return lift1(some, x)


@model("seq.pop_front")
def _(c):
    s = c.v(0)
    n = slen(s)
    ne = neg(ieq(n, ZERO))
    c.E.event(c.st, "pop", loc=c.a[0], value=s, sp=c.sp)
    c.w(0, ite(ne, lift1(lambda l: mk("tail", l), s) if s.op != "lit" else slice_(s, ONE, n), s))
    return ite(ne, some_d(sget(s, ZERO)), NONE)


@model("seq.insert")
def _(c):
    s, i, x = c.v(0), c.v(1), c.v(2)
    c.panic("bounds", ile(i, slen(s)), (slen(s), i))
    c.E.event(c.st, "push", loc=c.a[0], value=x, at=i, sp=c.sp)
    n = slen(s)
    c.w(0, ite(ieq(i, n), push(s, x), lift1(lambda l: mk("insat", l, i, x), s)))
    return UNIT


@model("seq.remove", "seq.swap_remove")
def _(c):
    s, i = c.v(0), c.v(1)
    nm = "rem" if c.name.endswith("::remove") else "swaprem"
    c.panic("bounds", ilt(i, slen(s)), (slen(s), i))
    c.w(0, mk("seqrem", s, i, mk("str", nm)))
    return sget(s, i)


@model("seq.clear")
def _(c):
    c.w(0, EMPTY)
    return UNIT


@model("seq.truncate")
def _(c):
    s, n = c.v(0), c.v(1)
    c.w(0, slice_(s, ZERO, imin(n, slen(s))))
    return UNIT


@model("seq.split_off")
def _(c):
    s, n = c.v(0), c.v(1)
    m = slen(s)
    c.panic("slice", ile(n, m), (m, ZERO, n))
    c.w(0, slice_(s, ZERO, n))
    return slice_(s, n, m)


@model("seq.first")
def _(c):
    s = c.v(0)
    return ite(ieq(slen(s), ZERO), NONE, some_d(sget(s, ZERO)))


@model("seq.last")
def _(c):
    s = c.v(0)
    return ite(ieq(slen(s), ZERO), NONE, some_d(slast(s)))


@model("seq.front")
def _(c):
    s = c.v(0)
    return ite(ieq(slen(s), ZERO), NONE, some_d(sget(s, ZERO)))


@model("seq.back")
def _(c):
    s = c.v(0)
    return ite(ieq(slen(s), ZERO), NONE, some_d(slast(s)))


def range_of(t, v, n):
    """(lo, hi) of a range value over a sequence of length n"""
    k = kind(t)
    if k == "range":
        return fld(v, 0), fld(v, 1)
    if k == "rangefrom":
        return fld(v, 0), n
    if k == "rangeto":
        return ZERO, fld(v, 0)
    if k == "rangefull":
        return ZERO, n
    if k == "rangeinc":
        return pay0(v, 0), iadd(pay0(v, 1), ONE)
    if k == "rangetoinc":
        return ZERO, iadd(fld(v, 0), ONE)
    return None


def pay0(v, i):
    return fld(v, i)


@model("std::ops::RangeInclusive::new")
def _(c):
    return adt("std::ops::RangeInclusive", 0, c.v(0), c.v(1))


@model("seq.get")
def _(c):
    s = c.v(0)
    it = c.ty(1)
    if kind(it) == "int":
        i = c.v(1)
        return ite(ilt(i, slen(s)), some_d(sget(s, i)), NONE)
    r = range_of(it, c.v(1), slen(s))
    if r is None:
        return NotImplemented
    return ite(conj(ile(r[0], r[1]), ile(r[1], slen(s))), some_d(slice_(s, r[0], r[1])), NONE)


@model("seq.get_mut", "seq.first_mut", "seq.last_mut")
def _(c):
    s = c.v(0)
    n = slen(s)
    if c.name.endswith("first_mut"):
        i = ZERO
    elif c.name.endswith("last_mut"):
        i = iadd(n, num(-1))
    else:
        if kind(c.ty(1)) != "int":
            return NotImplemented
        i = c.v(1)
    return ite(ilt(i, n), some_loc(c, c.a[0], ("idx", i)), NONE)


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(c):
    t = strip(c.ga[0])
    it = strip(c.ga[1]) if len(c.ga) > 1 else c.ty(1)
    mut = c.name.endswith("index_mut")
    k = kind(t)
    if k == "real":
        c.E.event(c.st, "partial", why="coordinate", ok=ilt(c.v(1), mk("app", "t:Point::dim", c.v(0))), sp=c.sp)
        if mut:
            return c.E.ext(c.a[0], ("idx", c.v(1)))
        return sget(c.v(0), c.v(1))
    if k == "vec":
        s = c.v(0)
        n = slen(s)
        if kind(it) == "int":
            i = c.v(1)
            c.panic("bounds", ilt(i, n), (n, i))
            if mut:
                return c.E.ext(c.a[0], ("idx", i))
            return sget(s, i)
        r = range_of(it, c.v(1), n)
        if r is None:
            return NotImplemented
        c.panic("slice", conj(ile(r[0], r[1]), ile(r[1], n)), (n, r[0], r[1]))
        if mut:
            if kind(it) == "rangefull":
                return c.a[0]
            return c.E.ext(c.a[0], ("sl", r[0], r[1]))
        return slice_(s, r[0], r[1])
    if k == "map":
        m, key = c.v(0), c.v(1)
        c.panic("unwrap", mhas(m, key), (m, key))
        return mget(m, key)
    return NotImplemented


@model("seq.as_slice", "seq.to_vec", "seq.to_owned", "seq.as_ref", "seq.as_mut_slice", "seq.clone", "seq.into_iter_")
def _(c):
    if c.name.endswith("as_mut_slice"):
        return c.a[0]
    return c.v(0)


@model("std::vec::from_elem", "alloc::vec::from_elem")
def _(c):
    n = c.v(1)
    if n.op == "int" and n.args[0] <= 8:
        return lit(*([c.v(0)] * n.args[0]))
    return mk("repeat", c.v(0), n)


@model("seq.resize")
def _(c):
    s, n, x = c.v(0), c.v(1), c.v(2)
    if s is EMPTY:
        c.w(0, mk("repeat", x, n))
        return UNIT
    k = slen(s)
    c.w(0, ite(ge0(isub(n, k)), cat(s, mk("repeat", x, isub(n, k))), slice_(s, ZERO, n)))
    return UNIT


@model("seq.fill")
def _(c):
    s = c.v(0)
    c.w(0, mk("repeat", c.v(1), slen(s)))
    return UNIT


@model("seq.extend_from_slice", "seq.append")
def _(c):
    s, t = c.v(0), c.v(1)
    c.E.event(c.st, "extend", loc=c.a[0], value=t, sp=c.sp)
    c.w(0, cat(s, t))
    if c.name.endswith("append"):
        c.w(1, EMPTY)
    return UNIT


@model("seq.swap")
def _(c):
    s, i, j = c.v(0), c.v(1), c.v(2)
    n = slen(s)
    c.panic("bounds", ilt(i, n), (n, i))
    c.panic("bounds", ilt(j, n), (n, j))
    a, b = sget(s, i), sget(s, j)
    c.E.write(c.st, c.E.ext(c.a[0], ("idx", i)), b, c.sp)
    c.E.write(c.st, c.E.ext(c.a[0], ("idx", j)), a, c.sp)
    return UNIT


@model("seq.reverse")
def _(c):
    c.w(0, lift1(lambda l: mk("rev", l), c.v(0)))
    return UNIT


@model("seq.retain", "seq.retain_mut")
def _(c):
    if c.name.endswith("_mut"):
        return NotImplemented
    q = collect_seq(c, S("filter", S("vec", c.v(0)), c.a[1]), ":retain")
    if q is None or q is NotImplemented:
        return q
    c.w(0, q)
    return UNIT


@model("seq.rotate_left", "seq.rotate_right")
def _(c):
    s, k = c.v(0), c.v(1)
    n = slen(s)
    c.panic("bounds", ile(k, n), (n, k))
    if c.name.endswith("right"):
        k = isub(n, k)
    c.w(0, cat(slice_(s, k, n), slice_(s, ZERO, k)))
    return UNIT


@model("num.from_be_bytes", "num.from_le_bytes")
def _(c):
    t, at = strip(c.dty), strip(c.at[0])
    if not t or t[0] not in ("u16", "u32", "u64", "u128", "usize") or not at or at[0] != "array":
        return NotImplemented
    n = {"u16": 2, "u32": 4, "u64": 8, "usize": 8, "u128": 16}[t[0]]
    r = ZERO
    for i in range(n):
        r = iadd(r, imul(num(256 ** (n - 1 - i if c.name.endswith("be_bytes") else i)), sget(c.v(0), num(i))))
    return r


@model("seq.contains")
def _(c):
    s, x = c.v(0), c.v(1)
    return lift1(lambda l: atom(mk("elem", l, x)), s)


@model("seq.split_at")
def _(c):
    s, i = c.v(0), c.v(1)
    n = slen(s)
    c.panic("slice", ile(i, n), (n, ZERO, i))
    return tup(slice_(s, ZERO, i), slice_(s, i, n))


@model("seq.split_at_mut")
def _(c):
    s, i = c.v(0), c.v(1)
    n = slen(s)
    c.panic("slice", ile(i, n), (n, ZERO, i))
    return tup(c.E.ext(c.a[0], ("sl", ZERO, i)), c.E.ext(c.a[0], ("sl", i, n)))


@model("seq.split_first")
def _(c):
    s = c.v(0)
    n = slen(s)
    return ite(ieq(n, ZERO), NONE, some(tup(sget(s, ZERO), slice_(s, ONE, n))))


def const_arg(c):
    """the constant generic of the call"""
    for t in reversed(c.ga or ()):
        v = array_len(t)
        if v is not None:
            return num(v)
    return None


def array_len(t):
    if isinstance(t, int):
        return t
    if isinstance(t, (tuple, list)) and len(t) == 2 and t[0] in ("const", "c"):
        return array_len(t[1])
    if isinstance(t, str) and t.split("_")[0].isdigit():
        return int(t.split("_")[0])
    return None


@model("seq.as_chunks")
def _(c):
    s, k = c.v(0), const_arg(c)
    if k is None or k.args[0] <= 0:
        return NotImplemented
    n = idiv(slen(s), k)
    b = mk("sym", "chunk", c.site)
    return tup(comp(b, n, TRUE, slice_(s, imul(k, b), iadd(imul(k, b), k))), slice_(s, imul(k, n), slen(s)))


@model("seq.split_first_chunk")
def _(c):
    s, k = c.v(0), const_arg(c)
    if k is None:
        return NotImplemented
    n = slen(s)
    return ite(ile(k, n), some(tup(slice_(s, ZERO, k), slice_(s, k, n))), NONE)


@model("seq.first_chunk")
def _(c):
    s, k = c.v(0), const_arg(c)
    if k is None:
        return NotImplemented
    return ite(ile(k, slen(s)), some(slice_(s, ZERO, k)), NONE)


@model("seq.copy_from_slice", "seq.clone_from_slice")
def _(c):
    s, t = c.v(0), c.v(1)
    c.panic("slice", ieq(slen(s), slen(t)), (slen(s), ZERO, slen(t)))
    n = slen(s)
    c.w(0, mk("lit", *[sget(t, num(i)) for i in range(n.args[0])]) if n.op == "int" and n.args[0] <= 16 else t)
    return UNIT


@model("num.rem_euclid", "num.div_euclid")
def _(c):
    if _max(c) is None:
        return NotImplemented
    c.panic("rem_zero" if "rem" in c.name else "div_zero", neg(ieq(c.v(1), ZERO)), (c.v(1),))
    return (irem if "rem" in c.name else idiv)(c.v(0), c.v(1))


@model("seq.split_last")
def _(c):
    s = c.v(0)
    n = slen(s)
    m = iadd(n, num(-1))
    return ite(ieq(n, ZERO), NONE, some(tup(sget(s, m), slice_(s, ZERO, m))))


@model("seq.split_last_mut", "seq.split_first_mut")
def _(c):
    s = c.v(0)
    n = slen(s)
    m = iadd(n, num(-1))
    if c.name.endswith("split_last_mut"):
        r = tup(c.E.ext(c.a[0], ("idx", m)), c.E.ext(c.a[0], ("sl", ZERO, m)))
    else:
        r = tup(c.E.ext(c.a[0], ("idx", ZERO)), c.E.ext(c.a[0], ("sl", ONE, n)))
    return ite(ieq(n, ZERO), NONE, some(r))


def elem_ty(t):
    t = strip(t)
    if t and t[0] in ("slice", "array"):
        return t[1]
    if t and t[0] == "adt" and t[2]:
        return t[2][0]
    return None


LAM = [mk("sym", "lam", i) for i in range(4)]


def cmp_term(c, f, el):
    """ordering term of a comparator on two placeholders; el(i) gives the i-th placeholder item"""
    a, b = el(0), el(1)
    st = c.st.copy()
    st.guard = TRUE
    n = len(c.E.events)
    r = c.E.call_value(st, f, [a, b], c.site + ":cmp", c.sp)
    for e in c.E.events[n:]:
        e["lambda"] = True
    return None if r is None else r[1]


def sym_item(c, t, name):
    """placeholder of a type (aggregates split)"""
    st = c.st
    if t is not None and t[0] == "ref":
        t = strip(t)
    return c.E.sym_of(name, t, st)


def sort_model(c, kindname):
    s = c.v(0)
    t = elem_ty(c.at[0] if c.at[0] else c.ga[0])
    A, B = sym_item(c, t, "lamA"), sym_item(c, t, "lamB")
    if kindname == "by":
        r = cmp_term(c, c.a[1], lambda i: (A, B)[i])
    elif kindname == "key":
        st = c.st.copy()
        ka = c.E.call_value(st, c.a[1], [A], c.site + ":ka", c.sp)
        kb = c.E.call_value(st, c.a[1], [B], c.site + ":kb", c.sp)
        if ka is None or kb is None:
            return NotImplemented
        kt = c.ga[1] if len(c.ga) > 1 else None
        r = val_cmp(c, ka[1], kb[1], kt)
    else:
        r = val_cmp(c, A, B, t)
    if r is None:
        return NotImplemented
    c.E.event(c.st, "sort", loc=c.a[0], value=s, cmp=r, A=A, B=B, sp=c.sp)
    c.w(0, lift1(lambda l: l if l is EMPTY else mk("sorted", l, r), s))
    return UNIT


M["seq.sort"] = lambda c: sort_model(c, "")
M["seq.sort_unstable"] = lambda c: sort_model(c, "")
M["seq.sort_by"] = lambda c: sort_model(c, "by")
M["seq.sort_unstable_by"] = lambda c: sort_model(c, "by")
M["seq.sort_by_key"] = lambda c: sort_model(c, "key")
M["seq.sort_unstable_by_key"] = lambda c: sort_model(c, "key")
M["seq.sort_by_cached_key"] = lambda c: sort_model(c, "key")


@model("seq.select_nth_unstable_by")
def _(c):
    s, n = c.v(0), c.v(1)
    t = elem_ty(c.at[0])
    A, B = sym_item(c, t, "lamA"), sym_item(c, t, "lamB")
    r = cmp_term(c, c.a[2], lambda i: (A, B)[i])
    if r is None:
        return NotImplemented
    c.panic("bounds", ilt(n, slen(s)), (slen(s), n))
    c.E.event(c.st, "sort", loc=c.a[0], value=s, cmp=r, A=A, B=B, nth=n, sp=c.sp)
    c.w(0, lift1(lambda l: mk("nthsorted", l, r, n), s))
    return tup(c.E.ext(c.a[0], ("sl", ZERO, n)), c.E.ext(c.a[0], ("idx", n)), c.E.ext(c.a[0], ("sl", iadd(n, ONE), slen(s))))


# ---------------------------------------------------------------- maps and sets
@model("map.new", "map.with_capacity")
def _(c):
    return MEMPTY


@model("map.get")
def _(c):
    m, k = c.v(0), c.v(1)
    return ite(mhas(m, k), some_d(mget(m, k)), NONE)


@model("map.contains_key")
def _(c):
    return mhas(c.v(0), c.v(1))


@model("map.get_mut")
def _(c):
    m, k = c.v(0), c.v(1)
    return ite(mhas(m, k), some_loc(c, c.a[0], ("key", k)), NONE)


@model("map.insert")
def _(c):
    m, k, x = c.v(0), c.v(1), c.v(2)
    c.E.event(c.st, "write", cell=None, loc=c.a[0], path=(("key", k),), value=x, sp=c.sp)
    c.w(0, lift1(lambda l: mset(l, k, x), m))
    return ite(mhas(m, k), some_d(mget(m, k)), NONE)


@model("map.remove")
def _(c):
    m, k = c.v(0), c.v(1)
    c.w(0, lift1(lambda l: mk("mdel", l, k), m))
    return ite(mhas(m, k), some_d(mget(m, k)), NONE)


@model("map.len")
def _(c):
    return mcard(c.v(0))


@model("map.is_empty")
def _(c):
    return ieq(mcard(c.v(0)), ZERO)


@model("map.clear")
def _(c):
    c.w(0, MEMPTY)
    return UNIT


@model("map.entry")
def _(c):
    return lift1(lambda l: mk("entry", l, c.v(1)), c.a[0])


def entry_ins(c, mkval):
    e = c.a[0]
    if e.op != "entry":
        return NotImplemented
    loc, k = e.args
    m = c.E.read(c.st, loc)
    has = mhas(m, k)
    g = conj(c.st.guard, neg(has))
    if has is not TRUE:
        x = mkval(c)
        if x is NotImplemented or x is None:
            return x
        m = c.E.read(c.st, loc)
        new = ite(has, m, lift1(lambda l: mset(l, k, x), m))
        c.E.event(c.st.under(neg(has)), "write", cell=loc.args[0], loc=loc, path=loc.args[1] + (("key", k),), value=x, sp=c.sp)
        c.E.write(c.st, loc, new, c.sp, log=False)
    return c.E.ext(loc, ("key", k))


M["entry.or_insert"] = lambda c: entry_ins(c, lambda c: c.a[1])


def _lazy(c):
    r = c.callv(c.a[1], [], ":ins")
    if r is None:
        return None
    c.st = r[0]
    return r[1]


M["entry.or_insert_with"] = lambda c: entry_ins(c, _lazy)


def _dflt(c):
    # Entry<'a, K, V>
    d = default_of(strip(c.dty))
    return NotImplemented if d is None else d


M["entry.or_default"] = lambda c: entry_ins(c, _dflt)


@model("entry.and_modify")
def _(c):
    e = c.a[0]
    if e.op != "entry":
        return NotImplemented
    loc, k = e.args
    has = mhas(c.E.read(c.st, loc), k)
    guarded_call(c, has, c.a[1], [c.E.ext(loc, ("key", k))], lambda r: UNIT, UNIT)
    return e


@model("set.new", "set.with_capacity")
def _(c):
    return SEMPTY


@model("set.insert")
def _(c):
    s, x = c.v(0), c.v(1)
    c.E.event(c.st, "setins", loc=c.a[0], value=x, sp=c.sp)
    c.w(0, sins(s, x))
    return neg(shas(s, x))


@model("set.contains")
def _(c):
    return shas(c.v(0), c.v(1))


@model("set.remove")
def _(c):
    s, x = c.v(0), c.v(1)
    c.w(0, lift1(lambda l: mk("srem", l, x), s))
    return shas(s, x)


@model("set.len")
def _(c):
    return scard(c.v(0))


@model("set.is_empty")
def _(c):
    return ieq(scard(c.v(0)), ZERO)


@model("set.clear")
def _(c):
    c.w(0, SEMPTY)
    return UNIT


@model("heap.new", "heap.with_capacity")
def _(c):
    if c.a:
        c.E.event(c.st, "capacity", value=c.v(0), ty=c.ga[0] if c.ga else None, sp=c.sp)
    return HEMPTY


@model("heap.push")
def _(c):
    c.E.event(c.st, "push", loc=c.a[0], value=c.v(1), heap=True, sp=c.sp)
    c.w(0, hpush(c.v(0), c.v(1)))
    return UNIT


@model("heap.pop")
def _(c):
    h = c.v(0)
    ne = neg(ieq(hlen(h), ZERO))
    c.E.event(c.st, "pop", loc=c.a[0], value=h, heap=True, sp=c.sp)
    c.w(0, ite(ne, hrest(h), h))
    return ite(ne, some_d(htop(h)), NONE)


@model("heap.peek")
def _(c):
    h = c.v(0)
    return ite(ieq(hlen(h), ZERO), NONE, some_d(htop(h)))


@model("heap.len")
def _(c):
    return hlen(c.v(0))


@model("heap.is_empty")
def _(c):
    return ieq(hlen(c.v(0)), ZERO)


@model("heap.clear")
def _(c):
    c.w(0, HEMPTY)
    return UNIT


@model("heap.into_sorted_vec")
def _(c):
    return lift1(lambda l: mk("heapsorted", l), c.v(0))


# ---------------------------------------------------------------- iterators
def S(op, *a):
    return mk("S." + op, *a)


def it(s, pos=ZERO):
    return mk("iter", s, pos)


def exact(s):
    o = s.op
    if o in ("S.filter", "S.filtermap", "S.takewhile", "S.skipwhile", "S.flat"):
        return False
    return all(exact(x) for x in s.args if isinstance(x, T) and x.op.startswith("S."))


def len_of(E, st, s):
    o = s.op
    a = s.args
    if o == "S.vec":
        return slen(a[0])
    if o == "S.mut":
        return a[1]
    if o == "S.rng":
        return nsub(a[1], a[0]) if ge0(isub(a[1], a[0])) is not TRUE else isub(a[1], a[0])
    if o in ("S.enum", "S.map", "S.rev"):
        return len_of(E, st, a[0])
    if o == "S.entmut" or o == "S.valmut":
        return mcard(a[1])
    if o == "S.zip":
        x, y = len_of(E, st, a[0]), len_of(E, st, a[1])
        if x is None or y is None:
            return None
        return y if x.op == "infinite" else x if y.op == "infinite" else imin(x, y)
    if o == "S.take":
        x = len_of(E, st, a[0])
        return a[1] if x is not None and x.op == "infinite" else imin(x, a[1])
    if o == "S.skip":
        x = len_of(E, st, a[0])
        if x is not None and x.op == "infinite":
            return x
        return nsub(len_of(E, st, a[0]), a[1])
    if o == "S.step":
        if a[1].op == "int":
            return cdiv(len_of(E, st, a[0]), a[1].args[0])
        return mk("cdiv", len_of(E, st, a[0]), a[1])
    if o == "S.chunks":
        n = slen(a[0])
        if a[1].op == "int":
            return cdiv(n, a[1].args[0]) if a[2].args[0] == "chunks" else idiv(n, a[1])
        return mk("nchunks", n, a[1], a[2])
    if o == "S.chunksmut":
        n = a[3]
        if a[1].op == "int":
            return cdiv(n, a[1].args[0]) if a[2].args[0] == "chunks" else idiv(n, a[1])
        return mk("nchunks", n, a[1], a[2])
    if o == "S.windows":
        return nsub(iadd(slen(a[0]), ONE), a[1])
    if o == "S.chain":
        return iadd(len_of(E, st, a[0]), len_of(E, st, a[1]))
    if o == "S.opt":
        return ite(is_some(a[0]), ONE, ZERO)
    if o == "S.from":
        return mk("infinite")
    if o in ("S.filter", "S.filtermap", "S.takewhile", "S.skipwhile"):
        return mk("flen", s)
    return None


def item(c, st, s, i):
    """item i of s: returns (state, value) or None; i is known to be below the length"""
    E = c.E
    o, a = s.op, s.args
    if o == "S.vec":
        return st, sget(a[0], i)
    if o == "S.mut":
        return st, E.ext(a[0], ("idx", i))
    if o == "S.rng":
        return st, iadd(a[0], i)
    if o == "S.from":
        return st, iadd(a[0], i)
    if o == "S.opt":
        return st, pay(a[0], 1, 0)
    if o == "S.entmut":
        k = keyat(a[1], i)
        return st, tup(k, E.ext(a[0], ("key", k)))
    if o == "S.valmut":
        return st, E.ext(a[0], ("key", keyat(a[1], i)))
    if o == "S.enum":
        r = item(c, st, a[0], i)
        return r and (r[0], tup(i, r[1]))
    if o == "S.map":
        r = item(c, st, a[0], i)
        if r is None:
            return None
        return E.call_value(r[0], a[1], [r[1]], c.site + ":map", c.sp)
    if o == "S.zip":
        r = item(c, st, a[0], i)
        if r is None:
            return None
        q = item(c, r[0], a[1], i)
        return q and (q[0], tup(r[1], q[1]))
    if o == "S.rev":
        n = len_of(E, st, a[0])
        return item(c, st, a[0], iadd(isub(n, i), num(-1)))
    if o == "S.take":
        return item(c, st, a[0], i)
    if o == "S.skip":
        return item(c, st, a[0], iadd(i, a[1]))
    if o == "S.step":
        return item(c, st, a[0], imul(i, a[1]))
    if o == "S.chunks":
        lo = imul(i, a[1])
        hi = iadd(lo, a[1])
        if a[2].args[0] == "chunks":
            hi = imin(hi, slen(a[0]))
        return st, slice_(a[0], lo, hi)
    if o == "S.chunksmut":
        lo = imul(i, a[1])
        hi = iadd(lo, a[1])
        if a[2].args[0] == "chunks":
            hi = imin(hi, a[3])
        return st, E.ext(a[0], ("sl", lo, hi))
    if o == "S.windows":
        return st, slice_(a[0], i, iadd(i, a[1]))
    if o == "S.filter":
        f = mk("fidx", s, i)
        r = item(c, st, a[0], f)
        if r is None:
            return None
        st2, v = r
        if f not in E.fidx:
            n = len(E.events)
            p = E.call_value(st2.copy(), a[1], [v], c.site + ":filter", c.sp)
            if p is None:
                return None
            inner = len_of(E, st, a[0])
            more = ge0(iadd(isub(mk("flen", s), i), num(-1)))
            if inner is None:
                return None
            E.fidx[f] = (s, p[1], inner, more)
        return st2, v
    return st, E.unk("iterator " + o, c.sp)


def keyat(m, i):
    return mk("keyat", m, i)


def as_iter(c, i=0):
    """iterator value held by argument i (by value or by mutable reference)"""
    v = c.v(i)
    if v.op == "iter":
        return v
    if v.op == "adt" and v.args[0] == "std::ops::Range":
        return it(S("rng", v.args[2], v.args[3]))
    if v.op == "adt" and v.args[0] == "std::ops::RangeInclusive":
        return it(S("rng", v.args[2], iadd(v.args[3], ONE)))
    if v.op == "adt" and v.args[0] == "std::ops::RangeFrom":
        return it(S("from", v.args[2]))
    return None


def into_iter(c, i, ty):
    """iterator made from argument i of (unstripped) type ty"""
    if ty is None:
        ty = c.at[i] if i < len(c.at) else None
    v = c.v(i)
    base = strip(ty)
    k = kind(base)
    if v.op == "iter":
        return v
    if k == "vec":
        if is_mut(ty):
            return it(S("mut", c.a[i], slen(v)))
        return it(S("vec", v))
    if v.op == "adt" and v.args[0].startswith("std::ops::Range"):
        return as_iter(c, i)
    if k == "option":
        return it(S("opt", v))
    if k == "map":
        if is_mut(ty):
            return it(S("entmut", c.a[i], v))
        return it(S("vec", mk("hments" if "HashMap" in str(base) else "ments", v)))
    if k == "set":
        return it(S("vec", mk("setseq", v)))
    if k == "heap":
        return it(S("vec", mk("heapseq", v)))
    if k in ("range", "rangeinc"):
        return it(S("rng", fld(v, 0), fld(v, 1) if k == "range" else iadd(fld(v, 1), ONE)))
    if v.op in ("phi", "sym", "fin") and base and base[0] == "adt" and "iter" in base[1].lower():
        return v
    return None


@model("std::iter::IntoIterator::into_iter")
def _(c):
    t = c.ga[0] if c.ga else None
    at = c.at[0] if c.at else None
    r = into_iter(c, 0, at if at is not None else t)
    return NotImplemented if r is None else r


@model("seq.iter", "seq.into_iter", "seq.drain_all")
def _(c):
    return it(S("vec", c.v(0)))


@model("seq.iter_mut")
def _(c):
    return it(S("mut", c.a[0], slen(c.v(0))))


@model("seq.chunks", "seq.chunks_exact")
def _(c):
    c.panic("chunk_zero", neg(ieq(c.v(1), ZERO)), (c.v(1),))
    return it(S("chunks", c.v(0), c.v(1), mk("str", c.name.split("::")[-1])))


@model("seq.chunks_mut", "seq.chunks_exact_mut")
def _(c):
    c.panic("chunk_zero", neg(ieq(c.v(1), ZERO)), (c.v(1),))
    return it(S("chunksmut", c.a[0], c.v(1), mk("str", c.name.split("::")[-1].replace("_mut", "")), slen(c.v(0))))


@model("seq.windows")
def _(c):
    return it(S("windows", c.v(0), c.v(1)))


def hashed(c, op):
    """iteration order of a hash map is not its key order"""
    return "h" + op if "HashMap" in str(c.at[0] if c.at else "") + str(c.name) else op


@model("map.iter", "map.into_iter")
def _(c):
    return it(S("vec", mk(hashed(c, "ments"), c.v(0))))


@model("map.iter_mut")
def _(c):
    return it(S("entmut", c.a[0], c.v(0)))


@model("map.values_mut")
def _(c):
    return it(S("valmut", c.a[0], c.v(0)))


@model("map.values", "map.into_values")
def _(c):
    return it(S("vec", mk(hashed(c, "mvals"), c.v(0))))


@model("map.keys", "map.into_keys")
def _(c):
    return it(S("vec", mk(hashed(c, "mkeys"), c.v(0))))


@model("set.iter")
def _(c):
    return it(S("vec", mk("setseq", c.v(0))))


@model("heap.iter", "heap.into_iter", "heap.drain")
def _(c):
    v = c.v(0)
    if c.name.endswith("drain"):
        c.w(0, HEMPTY)
    return it(S("vec", mk("heapseq", v)))


@model("heap.into_vec")
def _(c):
    return mk("heapseq", c.v(0))


@model("opt.iter", "opt.into_iter")
def _(c):
    return it(S("opt", c.v(0)))


@model("std::iter::repeat", "core::iter::repeat")
def _(c):
    return it(S("vec", mk("repeat", c.v(0), mk("infinite"))))


def _adaptor(f):
    def g(c):
        i = as_iter(c)
        if i is None:
            return NotImplemented
        if i.op != "iter":
            return NotImplemented
        s, pos = i.args
        if pos is not ZERO:
            if not exact(s):
                return NotImplemented
            s = S("skip", s, pos)
        return f(c, s)

    return g


M["it.map"] = _adaptor(lambda c, s: it(S("map", s, c.a[1])))
M["it.filter"] = _adaptor(lambda c, s: it(S("filter", s, c.a[1])))
M["it.filter_map"] = _adaptor(lambda c, s: it(S("filtermap", s, c.a[1])))
M["it.enumerate"] = _adaptor(lambda c, s: it(S("enum", s)))
def eager(c, s):
    """a sequence of unknown length, materialised: the closures behind it must have no effect"""
    if exact(s):
        return s
    before, mark = dict(c.st.cells), len(c.E.events)
    q = collect_seq(c, s, ":eager")
    if q is NotImplemented or q is None:
        return q
    if any(c.st.cells.get(k) is not v for k, v in before.items()):
        return NotImplemented
    if any(e["kind"] not in ("call", "push") for e in c.E.events[mark:]):
        return NotImplemented
    return S("vec", q)


def _eagerly(f):
    def g(c, s):
        s = eager(c, s)
        return s if s is None or s is NotImplemented else it(f(c, s))

    return _adaptor(g)


M["it.take"] = _eagerly(lambda c, s: S("take", s, c.v(1)))
M["it.skip"] = _eagerly(lambda c, s: S("skip", s, c.v(1)))
M["it.rev"] = _eagerly(lambda c, s: S("rev", s))
M["it.cloned"] = _adaptor(lambda c, s: it(s))
M["it.copied"] = M["it.by_ref_"] = M["it.fuse"] = M["it.into_iter"] = M["it.iter"] = M["it.cloned"]
M["it.peekable"] = M["it.cloned"]
M["it.flat_map"] = _adaptor(lambda c, s: it(S("flat", s, c.a[1])))
M["it.inspect"] = lambda c: NotImplemented


@model("it.by_ref")
def _(c):
    return c.a[0]


@model("it.step_by")
def _(c):
    c.panic("chunk_zero", neg(ieq(c.v(1), ZERO)), (c.v(1),))
    return _adaptor(lambda c, s: it(S("step", s, c.v(1))) if exact(s) else NotImplemented)(c)


@model("it.zip")
def _(c):
    a = as_iter(c)
    b = into_iter(c, 1, c.at[1] if len(c.at) > 1 else None)
    if a is None or b is None or a.op != "iter" or b.op != "iter" or a.args[1] is not ZERO or b.args[1] is not ZERO or not exact(a.args[0]) or not exact(b.args[0]):
        return NotImplemented
    return it(S("zip", a.args[0], b.args[0]))


@model("it.chain")
def _(c):
    a = as_iter(c)
    b = into_iter(c, 1, c.at[1] if len(c.at) > 1 else None)
    if a is None or b is None or a.op != "iter" or b.op != "iter" or a.args[1] is not ZERO or b.args[1] is not ZERO:
        return NotImplemented
    return it(S("chain", a.args[0], b.args[0]))


@model("it.len", "it.count_exact")
def _(c):
    i = as_iter(c)
    if i is None or i.op != "iter" or not exact(i.args[0]):
        return NotImplemented
    return isub(len_of(c.E, c.st, i.args[0]), i.args[1])


def materialise(s):
    """flatten S nodes usable by `next` into simple ones"""
    return s


@model("it.next")
def _(c):
    i = as_iter(c)
    if i is None or i.op != "iter":
        return NotImplemented
    s, pos = i.args
    n = len_of(c.E, c.st, s)
    if n is None:
        return NotImplemented
    if s.op == "S.filter" or not exact(s):
        if not (s.op == "S.filter" or s.op in ("S.enum", "S.map")):
            return NotImplemented
    from engine import merge_val

    if n.op == "infinite" or any_op(n, lambda t: t.op == "infinite"):
        more = TRUE if n.op == "infinite" else None
        if more is None:
            return NotImplemented
    else:
        more = liftn(lambda a, b: ge0(iadd(isub(a, b), num(-1))), n, pos)
    g0 = c.st.guard
    pairs = []
    s1 = c.st.under(more)
    if s1.guard is not FALSE:
        c.E.write(s1, c.a[0], it(s, iadd(pos, ONE)), c.sp, log=False)
        r = item(c, s1, s, pos)
        if r is not None:
            pairs.append((r[0], lift1(some, r[1])))
    s0 = c.st.under(neg(more))
    if s0.guard is not FALSE:
        pairs.append((s0, NONE))
    if not pairs:
        return None
    m, v = merge_val(pairs)
    if len(pairs) == 2:
        m.guard = g0
        v = restrict(v, g0)
    c.st = m
    return v


# ---- consumers
def drive(c, s, st, body, tag="", pos=ZERO):
    """internal iteration over s: body(state, item) -> state or None (diverges) or (state, stop_guard).

    Returns the state after the loop, or None."""
    E = c.E
    if s.op == "S.chain":
        st = drive(c, s.args[0], st, body, tag + "a")
        if st is None:
            return None
        return drive(c, s.args[1], st, body, tag + "b")
    # peel non-exact stages down to an exact base
    stages = []
    b = s
    while not exact(b):
        if b.op in ("S.filter", "S.map", "S.filtermap"):
            stages.append(b)
            b = b.args[0]
        elif b.op == "S.enum":
            stages.append(b)
            b = b.args[0]
        elif b.op == "S.chain":
            return NotImplemented
        else:
            return NotImplemented
    stages.reverse()
    if any(x.op == "S.enum" for x in stages):
        cnt = True
    n = len_of(E, st, b)
    if n is None or any_op(n, lambda t: t.op == "infinite"):
        return NotImplemented
    if n is ZERO:
        return st
    cell = (c.site + ":it" + tag, 0)
    st = st.copy()
    st.cells[cell] = it(b, pos)
    for j, x in enumerate(stages):
        if x.op == "S.enum":
            st.cells[(c.site + ":cnt%d" % j + tag, 0)] = ZERO

    from engine import merge

    def one(h):
        i = h.cells[cell]
        p = i.args[1]
        more = liftn(lambda a, q: ge0(iadd(isub(a, q), num(-1))), n, p)
        ex = h.under(neg(more))
        cur = h.under(more)
        done = []
        if cur.guard is FALSE:
            return None, [("done", ex)]
        cur.cells[cell] = it(b, iadd(p, ONE))
        r = item(c, cur, b, p)
        if r is None:
            return None, [("done", ex)]
        cur, v = r
        for j, x in enumerate(stages):
            if x.op == "S.filter":
                r = E.call_value(cur, x.args[1], [v], c.site + ":filter%d" % j, c.sp)
                if r is None:
                    return merge(done), [("done", ex)]
                s2, p_ = r
                done.append(s2.under(neg(p_)))
                cur = s2.under(p_)
                v = restrict(v, cur.guard)
            elif x.op == "S.map":
                r = E.call_value(cur, x.args[1], [v], c.site + ":map%d" % j, c.sp)
                if r is None:
                    return merge(done), [("done", ex)]
                cur, v = r
            elif x.op == "S.filtermap":
                r = E.call_value(cur, x.args[1], [v], c.site + ":fm%d" % j, c.sp)
                if r is None:
                    return merge(done), [("done", ex)]
                s2, o = r
                g = is_some(o)
                done.append(s2.under(neg(g)))
                cur = s2.under(g)
                v = restrict(pay(o, 1, 0), g)
            elif x.op == "S.enum":
                cc = (c.site + ":cnt%d" % j + tag, 0)
                v = tup(cur.cells[cc], v)
                cur = cur.copy()
                cur.cells[cc] = iadd(cur.cells[cc], ONE)
            if cur.guard is FALSE:
                return merge(done), [("done", ex)]
        r = body(cur, v)
        exits = [("done", ex)]
        if isinstance(r, tuple):
            r, stop = r
            if stop is not FALSE:
                exits.append(("stop", r.under(stop)))
                done.append(r.under(neg(stop)))
            else:
                done.append(r)
        elif r is not None:
            done.append(r)
        return merge(done), exits

    res = E.run_loop(c.site + ":loop" + tag, st, one, sp=c.sp)
    out = {}
    for t, s2 in res:
        s2 = s2.copy()
        s2.cells.pop(cell, None)
        for j in range(len(stages)):
            s2.cells.pop((c.site + ":cnt%d" % j + tag, 0), None)
        out[t] = s2
    if "stop" in out:
        return out
    return out.get("done")


def _it_start(c, i=0):
    v = as_iter(c, i)
    if v is None or v.op != "iter":
        return None
    s, pos = v.args
    if pos is not ZERO:
        if not exact(s):
            return None
        s = S("skip", s, pos)
    return s


def drive_acc(c, s, init, step, tag=""):
    """accumulate: step(state, acc, item) -> (state, acc); returns the final accumulator"""
    acc = (c.site + ":acc" + tag, 0)
    c.st.cells[acc] = init

    def body(st, v):
        r = step(st, st.cells[acc], v)
        if r is None:
            return None
        st2, a = r
        st2 = st2.copy()
        st2.cells[acc] = a
        return st2

    st = drive(c, s, c.st, body, tag)
    if st is NotImplemented:
        return st
    if st is None:
        return None
    r = st.cells.pop(acc)
    c.st = st
    return r


def collect_seq(c, s, tag=""):
    if s.op == "S.vec":
        return s.args[0]
    if s.op == "S.rng" and s.args[0] is ZERO:
        k = sym("ck")
        return comp(k, s.args[1], TRUE, k)
    return drive_acc(c, s, EMPTY, lambda st, a, v: (st, push(a, v)), tag)


@model("it.collect", "std::iter::FromIterator::from_iter")
def _(c):
    s = _it_start(c)
    if s is None:
        return NotImplemented
    t = strip(c.dty)
    k = kind(t)
    if k == "vec":
        return collect_seq(c, s)
    if k == "set":
        return drive_acc(c, s, SEMPTY, lambda st, a, v: (st, sins(a, c.E.read(st, v))))
    if k == "map":
        return drive_acc(c, s, MEMPTY, lambda st, a, v: (st, lift1(lambda l: mset(l, fld(v, 0), fld(v, 1)), a)))
    if k == "heap":
        return drive_acc(c, s, HEMPTY, lambda st, a, v: (st, hpush(a, v)))
    return NotImplemented


@model("arr.map")
def _(c):
    return collect_seq(c, S("map", S("vec", c.v(0)), c.a[1]))


@model("arr.from_fn")
def _(c):
    t = strip(c.dty)
    if not t or t[0] != "array" or not isinstance(t[2], int):
        return NotImplemented
    return collect_seq(c, S("map", S("rng", ZERO, num(t[2])), c.a[0]))


@model("arr.each_ref")
def _(c):
    return c.v(0)


@model("it.for_each")
def _(c):
    s = _it_start(c)
    if s is None:
        return NotImplemented
    # a closure that mutates its environment keeps it in a cell
    f = c.a[1]
    key = (c.site + ":fenv", 0)
    c.st.cells[key] = f
    r = drive(c, s, c.st, lambda st, v: first(c.E.call_value(st, c.E.ref(key), [v], c.site + ":body", c.sp)))
    if r is NotImplemented:
        return r
    if r is None:
        return None
    r.cells.pop(key, None)
    c.st = r
    return UNIT


def first(r):
    return None if r is None else r[0]


@model("it.fold")
def _(c):
    s = _it_start(c)
    if s is None:
        return NotImplemented
    f = c.a[2]
    return drive_acc(c, s, c.a[1], lambda st, a, v: c.E.call_value(st, f, [a, v], c.site + ":body", c.sp))


@model("it.sum", "it.product")
def _(c):
    s = _it_start(c)
    if s is None:
        return NotImplemented
    t = strip(c.dty)
    isint = kind(t) in ("int", "sint")
    if c.name.endswith("sum"):
        f = iadd if isint else (lambda a, b: liftn(fadd, a, b))
        z = ZERO if isint else F0
    else:
        f = imul if isint else (lambda a, b: liftn(fmul, a, b))
        z = ONE if isint else F1
    return drive_acc(c, s, z, lambda st, a, v: (st, f(a, c.E.read(st, v))))


@model("it.count")
def _(c):
    s = _it_start(c)
    if s is None:
        return NotImplemented
    if exact(s) and s.op != "S.map":
        return len_of(c.E, c.st, s)
    return drive_acc(c, s, ZERO, lambda st, a, v: (st, iadd(a, ONE)))


@model("std::iter::Extend::extend", "seq.extend", "set.extend", "heap.extend")
def _(c):
    i = into_iter(c, 1, c.at[1] if len(c.at) > 1 else None)
    if i is None or i.op != "iter" or i.args[1] is not ZERO:
        return NotImplemented
    k = kind(strip(c.at[0]))
    if k == "vec":
        items = collect_seq(c, i.args[0])
        if items is None or items is NotImplemented:
            return items
        c.E.event(c.st, "extend", loc=c.a[0], value=items, sp=c.sp)
        c.w(0, cat(c.v(0), items))
        return UNIT
    f = {"set": sins, "heap": hpush}.get(k)
    if f is None:
        return NotImplemented
    r = drive_acc(c, i.args[0], c.v(0), lambda st, a, v: (st, f(a, c.E.read(st, v))))
    if r is None or r is NotImplemented:
        return r
    c.w(0, r)
    return UNIT


@model("it.any", "it.all")
def _(c):
    s = _it_start(c)
    if s is None or not exact(s):
        return NotImplemented
    E = c.E
    n = len_of(E, c.st, s)
    k = sym("k", c.site + ":any")
    more = ge0(iadd(isub(n, k), num(-1)))
    st = c.st.under(more)
    mark = len(E.events)
    r = item(c, st, s, k)
    if r is None:
        return NotImplemented
    r = E.call_value(r[0], c.a[1], [r[1]], c.site + ":body", c.sp)
    if r is None:
        return NotImplemented
    p = restrict(r[1], more)
    if c.name.endswith("all"):
        p = neg(p)
    d = 1 + TM.bound_depth(p)
    b = mk("bvar", d)
    ex = exists(b, n, subst(p, {k: b}))
    return neg(ex) if c.name.endswith("all") else ex


def exists_k(k, n, p):
    b = mk("bvar", 1 + TM.bound_depth(p))
    return exists(b, n, subst(p, {k: b}))


def exists(b, n, p):
    if p is FALSE or n is ZERO:
        return FALSE
    if p is TRUE:
        return neg(ieq(n, ZERO))
    if n.op == "int" and n.args[0] <= 16:
        r = FALSE
        for i in range(n.args[0]):
            r = disj(r, subst(p, {b: num(i)}))
        return r
    return atom(mk("exists", b, n, p, UNIT))


@model("it.position", "it.find", "it.find_map", "it.last", "it.nth", "it.min", "it.max", "it.min_by_key", "it.max_by_key", "it.reduce", "it.min_by", "it.max_by")
def _(c):
    nm = c.name.split("::")[-1]
    s = _it_start(c)
    if s is None:
        return NotImplemented
    E = c.E
    if nm == "nth" and exact(s):
        n = len_of(E, c.st, s)
        i = c.v(1)
        g = ilt(i, n)
        r = item(c, c.st, s, i)
        if r is None:
            return NotImplemented
        return ite(g, some_d(r[1]), NONE)
    if nm == "last" and exact(s):
        n = len_of(E, c.st, s)
        r = item(c, c.st, s, iadd(n, num(-1)))
        if r is None:
            return NotImplemented
        return ite(ieq(n, ZERO), NONE, some_d(r[1]))
    if nm in ("find", "position") and exact(s) and s.op != "S.map":
        n = len_of(E, c.st, s)
        k = sym("k", c.site + ":find")
        more = ge0(iadd(isub(n, k), num(-1)))
        st = c.st.under(more)
        r = item(c, st, s, k)
        if r is None:
            return NotImplemented
        v0 = r[1]
        r = E.call_value(r[0], c.a[1], [r[1]], c.site + ":body", c.sp)
        if r is None:
            return NotImplemented
        p = restrict(r[1], more)
        d = 1 + TM.bound_depth(p)
        b = mk("bvar", d)
        pb = subst(p, {k: b})
        ex = exists(b, n, pb)
        fi = mk("firstidx", b, n, pb, UNIT)
        v = fi if nm == "position" else subst(v0, {k: fi})
        return ite(ex, some_d(v), NONE)
    if nm in ("min", "max", "min_by", "max_by", "min_by_key", "max_by_key"):
        seq = collect_seq(c, s, ":mm")
        if seq is NotImplemented or seq is None:
            return seq
        # element type from the result Option<T>
        t = strip(c.dty)
        et = t[2][0] if t and t[0] == "adt" and t[2] else None
        A, B = sym_item(c, et, "lamA"), sym_item(c, et, "lamB")
        if nm.endswith("_by"):
            r = cmp_term(c, c.a[1], lambda i: (A, B)[i])
        elif nm.endswith("_key"):
            st = c.st.copy()
            ka = c.E.call_value(st, c.a[1], [A], c.site + ":ka", c.sp)
            kb = c.E.call_value(st, c.a[1], [B], c.site + ":kb", c.sp)
            if ka is None or kb is None:
                return NotImplemented
            kt = c.ga[1] if len(c.ga) > 1 else None
            r = val_cmp(c, ka[1], kb[1], kt)
        else:
            r = val_cmp(c, A, B, et)
        if r is None:
            return NotImplemented
        op = "minby" if nm.startswith("min") else "maxby"
        c.E.event(c.st, "reduce", op=op, value=seq, cmp=r, A=A, B=B, sp=c.sp)
        n = slen(seq)
        return lift1(lambda l: ite(ieq(slen(l), ZERO), NONE, some(mk(op, l, r))), seq)
    return NotImplemented


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains")
def _(c):
    v, x = c.v(0), c.v(1)
    t = strip(c.ga[0])
    lo, hi = fld(v, 0), fld(v, 1)
    if kind(t) in ("int",):
        return conj(ile(lo, x), ilt(x, hi) if "Inclusive" not in c.name else ile(x, hi))
    if kind(t) in ("float", "real"):
        return conj(liftn(fle, lo, x), liftn(flt if "Inclusive" not in c.name else fle, x, hi))
    return NotImplemented


@model("std::ops::Range::is_empty")
def _(c):
    v = c.v(0)
    return ile(fld(v, 1), fld(v, 0))


@model("core::intrinsics::discriminant_value", "std::intrinsics::discriminant_value", "std::mem::discriminant")
def _(c):
    t = strip(c.ga[0])
    if t and t[0] == "adt" and t[1] in ENUMS:
        return discr(c.v(0), t[1])
    return NotImplemented
