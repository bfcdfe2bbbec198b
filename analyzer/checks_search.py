"""C08, C09: exhaustive and tree-based neighbor search."""
import json
from loops import *
from checks_num import adt_info, enum_path, resolve, check_order, check_C13
from checks_graph import field_index, order_rule, hp_cell

MEASURE = "op:DistanceMetric::measure"
OPQ = ("DistanceMetric::measure",)


def sym_measure(t):
    """the metric is symmetric (C13): order the two points"""
    if t.op == "app" and t.args[0] == MEASURE and t.args[2].id > t.args[3].id:
        return mk("app", MEASURE, t.args[1], t.args[3], t.args[2])
    return None


def abs_cases(t):
    if t.op == "f.abs":
        return ite(rcmp("flt", t.args[0], F0), Canon()(fneg(t.args[0])), t.args[0])
    return None


RULES = (sym_measure, abs_cases)


def canon():
    return Canon(RULES)


def measure(m, p, q):
    return mk("app", MEASURE, m, p, q)


def foreign(t, allowed=()):
    """a distance computed between other things than expected makes a guard undecidable"""
    for x in subterms(t):
        if x.op == "app" and x not in allowed and x.args[0] == MEASURE:
            return x
    return None


class Neigh:
    def __init__(self, c):
        self.p, _ = adt_info(c, "Neighbor")
        self.i, self.d = field_index(c, "Neighbor", "index"), field_index(c, "Neighbor", "distance")


# ---------------------------------------------------------------- exhaustive search
def is_neighbor_at(c, key, f, what, e, j, D, q, m, nb, fa):
    """e = Neighbor(j, measure(D[j], q))"""
    a = c.same(key + "/index", f, what + " index", fld(e, nb.i), j, fa, canon=canon())
    b = c.same(key + "/distance", f, what + " distance", fld(e, nb.d), measure(m, sget(D, j), q), fa, canon=canon())
    return a and b


def linear_parts(c, f, r):
    ty = "LinearSearch"
    s = r.args[0]
    return fld(s, field_index(c, ty, "dataset")), fld(s, field_index(c, ty, "metric"))


def all_neighbors(c, key, f, S, D, q, m, nb):
    """S lists every point of the dataset once with its own index and distance"""
    n = slen(D)
    j = mk("sym", "j")
    if any(x.op == "nthsorted" for x in subterms(S)):
        c.undec(key + "/all", "candidates selected before ordering: %s" % show(S, 3)[:150])
        return
    ok = c.same(key + "/all", f, "number of candidates", slen(S), n)
    for fa in with_facts([ilt(j, n)]):
        ok2 = is_neighbor_at(c, key, f, "candidate j:", sget(S, j), j, D, q, m, nb, fa)
        ok = ok and ok2
    return ok


def linear_search(c):
    f = c.P.method("NeighborSearch", "LinearSearch", "search")
    r = c.analyze(f, opaque=OPQ)
    nb = Neigh(c)
    D, m = linear_parts(c, f, r)
    q, k = r.args[1], r.args[2]
    key = "C09/linear/search"
    no_overrun(c, key, f, r, [k])
    if r.ret is None:
        c.viol(key, c.at(f), "never returns")
        return
    prefix_rules(c, key, f, r, r.ret, D, q, m, k, nb)


def cut_min(t):
    """minima of lengths written as cases"""
    for _ in range(3):
        ms = [x for x in subterms(t) if x.op == "imin" and not any(y.op == "imin" for y in subterms(x) if y is not x)]
        if not ms:
            break
        t = subst(t, {x: ite(ile(x.args[0], x.args[1]), x.args[0], x.args[1]) for x in ms})
    return t


def prefix_rules(c, key, f, r, ret, D, q, m, k, nb):
    n = slen(D)
    c.same(key + "/count", f, "number of results", cut_min(slen(ret)), ite(ile(k, n), k, n), canon=canon())
    j = mk("sym", "j")
    done = set()
    try:
        for fa, (e,) in c.cmp.__class__(canon()).cases((sget(ret, j),), with_facts([ilt(j, n), ilt(j, k), ile(ONE, k), ile(ONE, n)])[0]):
            element_rule(c, key, f, r, e, j, D, q, m, nb, fa, done)
    except TooMany:
        c.undec(key + "/order", "too many cases")


def element_rule(c, key, f, r, e, j, D, q, m, nb, fa, done):
    n = slen(D)
    srt = {x for x in subterms(e) if x.op == "sorted"}
    ext = {x for x in subterms(e) if x.op in ("minby", "maxby")}
    if len(ext) == 1 and not srt:
        X = ext.pop()
        if X in done:
            return
        done.add(X)
        ev = [x for x in r.events if x["kind"] == "reduce" and canon()(x["cmp"]) is canon()(X.args[1])]
        dk = neighbor_key(X.args[0], nb, D, q, m, None, c)
        if not ev or dk is None or X.args[0].op != "comp":
            c.undec(key + "/order", "selected by %s" % show(X, 4)[:200])
            return
        order_rule(c, key + "/order", f, ev[0], dk, 1 if X.op == "minby" else -1, "candidates by distance")
        place_rules(c, key, f, e, X, X.args[0], D, q, m, nb, n)
        return
    if len(srt) != 1:
        u = unknown_in(e)
        if u is not None or srt:
            c.undec(key + "/order", "element %s" % show(u or e, 5)[:200])
            return
        if any(x.op not in ("comp", "lit") and x.op in compare.SEQ_OPS for x in subterms(e)):
            c.undec(key + "/order", "element %s" % show(e, 5)[:200])
            return
        # an element that is not taken from an ordered list
        c.viol(key + "/order", c.at(f), "result j is %s: the results are not ordered by distance" % show(e, 6)[:300])
        return
    S = srt.pop()
    # the whole element, or its fields, are taken from one place of the sorted list
    gets = {x for x in subterms(e) if x.op == "get" and x.args[0] is S}
    if len(gets) == 2 and mixed_places(c, key, f, e, S, nb, fa):
        return
    if len(gets) != 1:
        c.undec(key + "/order", "element %s" % show(e, 5)[:200])
        return
    g = gets.pop()
    idx = g.args[1]
    asc = Comparer().equal(idx, j, fa)[0] == "eq"
    desc = Comparer().equal(idx, isub(iadd(n, num(-1)), j), fa)[0] == "eq"
    if (asc, desc, S) in done:
        return
    done.add((asc, desc, S))
    if not asc and not desc:
        c.viol(key + "/place", c.at(f), "result j is the candidate at place %s of the ordered list" % show(idx, 5))
        return
    c.held(key + "/place", "result j is the j-th candidate of the ordered list")
    ev = find_sort(r, S)
    if not ev:
        c.undec(key + "/order", "sort call not found")
    else:
        A = ev[0]["A"]
        dist_key = neighbor_key(S.args[0], nb, D, q, m, A, c)
        if dist_key is None:
            c.undec(key + "/order", "sorted elements %s" % show(S.args[0], 4)[:200])
        else:
            order_rule(c, key + "/order", f, ev[0], dist_key, 1 if asc else -1, "candidates by distance")
    place_rules(c, key, f, e, g, S.args[0], D, q, m, nb, n)


def mixed_places(c, key, f, e, S, nb, fa):
    """the index and the distance of one result are taken from two places of the ordered list"""
    at = []
    for i in (nb.i, nb.d):
        g = {x for x in subterms(fld(e, i)) if x.op == "get" and x.args[0] is S}
        if len(g) != 1:
            return False
        at.append(g.pop().args[1])
    if unknown_in(at[0]) is not None or unknown_in(at[1]) is not None or any(unknown_in(a) is not None for a, _ in fa.trail):
        return False
    if Comparer().equal(at[0], at[1], fa)[0] == "eq":
        return False
    c.viol(key + "/place", c.at(f), "the index of a result is that of place %s of the ordered list and its distance that of place %s" % (show(at[0], 4), show(at[1], 4)))
    return True


def place_rules(c, key, f, e, g, base, D, q, m, nb, n):
    """the element e as a function of the chosen candidate g of the unordered list"""
    p = mk("sym", "place")
    if any(x.op == "nthsorted" for x in subterms(base)):
        c.undec(key + "/all", "candidates selected before ordering: %s" % show(base, 3)[:150])
        return
    at = subst(e, {g: sget(base, p)})
    for fb in with_facts([ilt(p, n), ilt(p, slen(base))]):
        ok = c.same(key + "/all", f, "number of candidates", slen(base), n)
        # permutations of the index range are all fine: compare with the candidate's own index
        i = fld(at, nb.i)
        u = unknown_in(i)
        if u is not None:
            c.undec(key + "/index", show(i, 5)[:200])
            continue
        is_neighbor_at(c, key, f, "candidate p:", at, p, D, q, m, nb, fb)


def neighbor_key(base, nb, D, q, m, A, c):
    """how the distance is found in an element of the sorted list"""
    e = sget(base, mk("sym", "place"))
    if e.op == "adt" and e.args[0].endswith("Neighbor"):
        return lambda t: fld(t, nb.d)
    if e.op == "tup" or e.op == "adt":
        for i, x in enumerate(e.args[2:] if e.op == "adt" else e.args):
            if isinstance(x, T) and x.op == "app" and x.args[0] == MEASURE:
                return lambda t, i=i: fld(t, i)
            if isinstance(x, T) and x.op == "adt" and x.args[0].endswith("Neighbor"):
                return lambda t, i=i: fld(fld(t, i), nb.d)
    return None


def linear_radius(c):
    f = c.P.method("NeighborSearch", "LinearSearch", "search_radius")
    r = c.analyze(f, opaque=OPQ)
    nb = Neigh(c)
    D, m = linear_parts(c, f, r)
    q, rad = r.args[1], r.args[2]
    key = "C08/linear"
    b = mk("bvar", bound_depth(D) + 1) if False else None
    negative_radius(c, key, f, r.ret, rad)
    for fa in with_facts([fle(F0, rad)]):
        want = filter_spec(D, q, m, rad, nb)
        c.same(key + "/members", f, "points within the radius", r.ret, want, fa, canon=canon())


def filter_spec(D, q, m, rad, nb):
    b = mk("bvar", 1)
    d = measure(m, sget(D, b), q)
    return comp(b, slen(D), fle(d, rad), adt(nb.p, 0, *[(b if i == nb.i else d) for i in range(2)]))


def negative_radius(c, key, f, ret, rad):
    if ret is None:
        c.viol(key + "/negative", c.at(f), "never returns")
        return
    for fa in with_facts([flt(rad, F0)]):
        for g, t in leaves(canon()(ret)):
            for fb in fa.assume_guard(g):
                if t.op == "comp":
                    w = subst(t.args[2], {t.args[0]: mk("sym", "any", rad)})
                    c.valid(key + "/negative", f, "no point is within a negative radius", neg(w), facts=fb, canon=canon())
                else:
                    c.same(key + "/negative", f, "number of points within a negative radius", slen(t), ZERO, fb, canon=canon())


def nearest_rule(c, tree):
    """the single nearest point is the only result of a search with k=1"""
    ty = "KDTree" if tree else "LinearSearch"
    key = "C09/%s/nearest" % ("tree" if tree else "linear")
    f = c.P.method("NeighborSearch", ty, "search_nearest")
    r = c.analyze(f, opaque=OPQ + ("<%s as NeighborSearch>::search" % ty,))
    q = r.args[1]
    apps = {x for x in subterms(r.ret) if x.op == "app" and "NeighborSearch>::search" in str(x.args[0])} if r.ret is not None else set()
    if r.ret is None:
        c.viol(key, c.at(f), "never returns")
        return
    if len(apps) == 1:
        a = apps.pop()
        ok = c.same(key + "/query", f, "point searched for", a.args[2], q)
        kk = a.args[3]
        n = slen(a)
        c.valid(key + "/k", f, "at least one neighbor is asked for", ile(ONE, kk))
        for fa in with_facts([ile(n, kk), ile(ONE, n)]):
            c.same(key + "/some", f, "result", r.ret, some(sget(a, ZERO)), fa)
        for fa in with_facts([ieq(n, ZERO)]):
            c.same(key + "/none", f, "result without neighbors", r.ret, NONE, fa)
        return
    if tree or apps:
        c.undec(key, "result %s" % show(r.ret, 4)[:200])
        return
    # written out: the first element of the list ordered by distance
    nb = Neigh(c)
    D, m = linear_parts(c, f, r)
    z = ZERO
    for fa in with_facts([ieq(slen(D), ZERO)]):
        c.same(key + "/none", f, "result for an empty dataset", r.ret, NONE, fa, canon=canon())
    done = set()
    for fa, (e,) in Comparer(canon()).cases((r.ret,), with_facts([ile(ONE, slen(D))])[0]):
        if e is NONE:
            u = [x for x, _ in fa.trail if unknown_in(x) is not None]
            if u:
                c.undec(key + "/some", show(u[0], 4)[:150])
            else:
                c.viol(key + "/some", c.at(f), "nothing is returned for a non-empty dataset when %s" % fa.show()[:300])
        elif e.op == "adt":
            element_rule(c, key, f, r, e.args[2], ZERO, D, q, m, nb, fa, done)
        else:
            c.undec(key + "/some", show(e, 4)[:150])


# ---------------------------------------------------------------- tree construction
def peel(s, a, b):
    """the sequence without earlier writes outside [a, b)"""
    while s.op == "setsl":
        lo, hi = s.args[1], s.args[2]
        if Comparer().equal(bool_term(disj(ile(hi, a), ile(b, lo))), ONE)[0] == "eq":
            s = s.args[0]
        else:
            break
    return s


def bool_term(g):
    return ite(g, ONE, ZERO)


def tree_build(c):
    key = "%s/build" % c.prop
    f = c.P.find_fn("KDTree::new")
    r = c.analyze(f)
    iroot, idata, imet = (field_index(c, "KDTree", x) for x in ("root", "dataset", "metric"))
    calls = [e for e in r.events if e["kind"] == "call" and e.get("rec")]
    c.same(key + "/dataset", f, "dataset kept by the tree", fld(r.ret, idata), r.args[0])
    c.same(key + "/metric", f, "metric kept by the tree", fld(r.ret, imet), r.args[1])
    if len(calls) != 1:
        c.undec(key + "/root", "%d recursive builders called" % len(calls))
        return
    e = calls[0]
    D = r.args[0]
    rootv = fld(r.ret, iroot)
    # roles of the builder's parameters
    role = {}
    for i, a in enumerate(e["args"]):
        if a is D:
            role["data"] = i
        elif a.op in ("comp",) or a.op in compare.SEQ_OPS:
            role["idx"] = i
    if "data" not in role or "idx" not in role:
        c.undec(key + "/root", "builder arguments %s" % ", ".join(show(a, 3)[:60] for a in e["args"]))
        return
    j = mk("sym", "j")
    I0 = e["args"][role["idx"]]
    c.same(key + "/indices", f, "number of indexed points", slen(I0), slen(D))
    for fa in with_facts([ilt(j, slen(D))]):
        c.same(key + "/indices", f, "indexed point j", sget(I0, j), j, fa)
    w = e["result"]
    eta = ite(isv(w, OPT, 0), NONE, some(pay(w, 1, 0)))
    c.same(key + "/root", f, "root of the tree", rootv, eta if rootv.op == "ite" else w)
    g, sub = e["rec"][0], e["rec"][1]
    builder_rules(c, key, g, role)


def find_sort(r, S):
    """the sort call that produced a sorted sequence"""
    sorts = [x for x in r.events if x["kind"] == "sort"]
    for cn in (canon(), Canon()):
        w = cn(S.args[1])
        got = [x for x in sorts if x["cmp"] is S.args[1] or cn(x["cmp"]) is w]
        if got:
            return got
    return sorts if len(sorts) == 1 else []


def is_eta(t, w):
    """t is the option w, possibly rebuilt from its own content"""
    w = Canon()(w)
    return t is w or t is ite(isv(w, OPT, 0), NONE, some(pay(w, 1, 0)))


def node_type(c):
    """the type of the tree's nodes"""
    p, info = adt_info(c, "KDTree")
    t = [t for n, t, v in info["variants"][0]["fields"] if n == "root"][0]

    for q in c.P.adts:
        if q.endswith("::Node") and '"%s"' % q in json.dumps(t):
            return q
    return "kdtree::node::Node"


def builder_rules(c, key, f, role):
    r = c.analyze(f)
    D = r.args[role["data"]]
    cell = "a%d" % (role["idx"] + 1)
    I = r.before(cell) if r.args[role["idx"]].op not in ("sym",) else r.args[role["idx"]]
    fi = {n: field_index(c, node_type(c), n) for n in ("index", "axis", "left", "right")}
    n = slen(I)
    if r.ret is None:
        c.viol(key + "/returns", c.at(f), "never returns")
        return
    for fa in with_facts([ieq(n, ZERO)]):
        c.same(key + "/empty", f, "tree of no points", r.ret, NONE, fa)
    recs = [e for e in r.events if e["kind"] == "call" and e.get("rec") and e["rec"][0] is f]
    byres = {e["result"]: e for e in recs}
    facts = with_facts([ile(ONE, n), ile(ONE, slen(D))])
    for fa0 in facts:
        cn = Canon()
        for g, t in leaves(cn(r.ret)):
          for fa in fa0.assume_guard(g):
            if t is NONE:
                if any(unknown_in(a) is not None for a, _ in fa.trail):
                    c.undec(key + "/some", fa.show()[:200])
                else:
                    c.viol(key + "/some", c.at(f), "no tree is built for a non-empty set of points when %s" % fa.show()[:300])
                continue
            if t.op != "adt" or len(t.args) < 3:
                c.undec(key + "/some", show(t, 4)[:200])
                continue
            node = t.args[2]
            node_rules(c, key, f, r, node, fi, D, I, n, recs, fa)


def node_rules(c, key, f, r, node, fi, D, I, n, recs, fa):
    x = fld(node, fi["index"])
    axis = fld(node, fi["axis"])
    if x.op != "get":
        if unknown_in(x) is not None:
            c.undec(key + "/split", show(x, 4)[:150])
        else:
            c.viol(key + "/split", c.at(f), "the point of a node is %s" % show(x, 5)[:150])
        return
    S, med = x.args
    S = peel(S, med, iadd(med, ONE))
    if S.op != "sorted":
        base = S
        while base.op in ("setsl", "slice", "rev", "setat"):
            base = base.args[0]
        if base is I and S is I:
            c.viol(key + "/sorted", c.at(f), "the points are not ordered along the split axis before they are divided")
        else:
            c.undec(key + "/sorted", show(S, 4)[:150])
        return
    if S.args[0] is not I:
        c.undec(key + "/sorted", show(S.args[0], 4)[:150])
        return
    ev = find_sort(r, S)
    if not ev:
        c.undec(key + "/sorted", "sort call not found")
        return
    order_rule(c, key + "/sorted", f, ev[0], lambda t: sget(sget(D, t), axis), 1, "points along the axis kept in the node")
    # the axis is a coordinate of the points: depth modulo dimension
    if axis.op == "irem":
        dim = axis.args[1]
        if dim.op == "app" and "dim" in str(dim.args[0]):
            c.held(key + "/axis", "axis = depth modulo dimension")
        else:
            c.undec(key + "/axis", show(axis, 4)[:100])
    elif unknown_in(axis) is None or axis.op == "app":
        c.undec(key + "/axis", show(axis, 4)[:100])
    else:
        c.undec(key + "/axis", show(axis, 4)[:100])
    for side in ("left", "right"):
        ch = fld(node, fi[side])
        k2 = "%s/%s" % (key, side)
        want = (ZERO, med) if side == "left" else (iadd(med, ONE), n)
        e = next((e for e in recs if is_eta(ch, e["result"])), None)
        if e is None:
            # an empty side may be written as None
            if ch is NONE:
                if Comparer().equal(bool_term(ieq(want[0], want[1])), ONE, fa)[0] == "eq":
                    c.held(k2, "no points on that side")
                    continue
                if not any(unknown_in(a) is not None for a, _ in fa.trail):
                    c.viol(k2, c.at(f), "no %s subtree is built although points remain when %s" % (side, fa.show()[:300]))
                    continue
            c.undec(k2, show(ch, 4)[:150])
            continue
        a = None
        for i, v in enumerate([Canon()(v) for v in e["args"]]):
            if v.op in ("slice", "take", "drop") or v is S:
                a = v
        if a is None:
            c.undec(k2, "arguments %s" % ", ".join(show(v, 3)[:60] for v in e["args"]))
            continue
        if a.op == "slice":
            base, lo, hi = a.args
            base = peel(base, lo, hi)
        else:
            base, lo, hi = a, ZERO, n
        if base is not S:
            c.undec(k2, "subrange of %s" % show(base, 3)[:150])
            continue
        c.same(k2 + "/from", f, "first place of the %s half" % side, lo, want[0], fa)
        c.same(k2 + "/to", f, "end of the %s half" % side, hi, want[1], fa)
        dargs = [v for v in e["args"] if Canon()(v) is D]
        if not dargs:
            c.undec(k2 + "/data", "dataset argument")
    c.valid(key + "/median", f, "the split point is one of the points", ilt(med, n), facts=fa)


# ---------------------------------------------------------------- tree search
def tree_fields(c, s):
    return {n: fld(s, field_index(c, "KDTree", n)) for n in ("root", "dataset", "metric")}


def rec_entry(c, key, f, r, q, p):
    """the one call that starts the traversal and the roles of its arguments"""
    calls = [e for e in r.events if e["kind"] == "call" and e.get("rec")]
    if len(calls) != 1:
        c.undec(key + "/start", "%d traversals started" % len(calls))
        return None
    e = calls[0]
    tf = tree_fields(c, r.args[0])
    role = {}
    for i, a in enumerate(e["args"]):
        if a is r.args[0]:
            role["self"] = i
        elif a is tf["root"]:
            role["node"] = i
        elif a is q:
            role["query"] = i
        elif a.op in ("hempty",) or a is EMPTY:
            role.setdefault("out", []).append(i)
        elif p is not None and a is p:
            role["param"] = i
        elif a is tf["dataset"]:
            role["dataset"] = i
        elif a is tf["metric"]:
            role["metric"] = i
        elif p is not None and "param" not in role and unknown_in(a) is None:
            role["param"] = i
            role["param_value"] = a
    if "node" not in role or "query" not in role or not role.get("out"):
        c.undec(key + "/start", "traversal arguments %s" % ", ".join(show(a, 3)[:50] for a in e["args"]))
        return None
    return e, role


def traversal(c, key, g, role, kind, resarg):
    """obligations of the recursive function; kind 'radius' or 'k'"""
    r = c.analyze(g, opaque=OPQ)
    A = r.args
    V = View(r)
    tf = tree_fields(c, A[role["self"]]) if "self" in role else {}
    D = A[role["dataset"]] if "dataset" in role else tf.get("dataset")
    m = A[role["metric"]] if "metric" in role else tf.get("metric")
    q, par = A[role["query"]], A[role["param"]] if "param" in role else None
    nd = A[role["node"]]
    if D is None or m is None or par is None:
        c.undec(key + "/roles", "dataset, metric or bound of the traversal not found")
        return
    ty = strip(fz(g["ins"][role["node"]]))
    opt = is_option(g["ins"][role["node"]])
    N = pay(nd, 1, 0) if opt else nd
    here = neg(isv(nd, OPT, 0)) if opt else TRUE
    fi = {n: field_index(c, node_type(c), n) for n in ("index", "axis", "left", "right")}
    idx, axis, left, right = (fld(N, fi[n]) for n in ("index", "axis", "left", "right"))
    dist = measure(m, sget(D, idx), q)
    delta = fsub(sget(q, axis), sget(sget(D, idx), axis))
    ep, names = enum_path(c, "DistanceMetric")
    adist = f_un("abs")(delta)
    square = fmul(delta, delta)
    axd = adist
    euclid = isv(m, ep, names.index("Euclidean"))
    recs = [e for e in r.events if e["kind"] == "call" and e.get("rec") and e["rec"][0] is g]
    if any(e["kind"] == "call" and e.get("rec") and e["rec"][0] is not g for e in r.events):
        c.undec(key + "/recursion", "several recursive functions")
        return
    if any(e["ctx"] for e in r.events if e["kind"] in ("push", "pop", "call")):
        c.undec(key + "/loop", "the traversal contains a loop")
        return
    outs = role["out"]
    cells = {i: "a%d" % (i + 1) for i in outs}
    # recursion passes everything but the node on unchanged
    for n, e in enumerate(recs):
        for nm in ("self", "query", "param", "dataset", "metric"):
            if nm in role:
                c.same("%s/pass/%s" % (key, nm), g, "%s handed to the subtree" % nm, e["args"][role[nm]], A[role[nm]], canon=canon())
    groups = {"left": [], "right": []}
    split = []
    for e in recs:
        for gg, a in leaves(e["args"][role["node"]]):
            e2 = dict(e, args=list(e["args"]), guard=conj(e["guard"], gg))
            e2["args"][role["node"]] = a
            if e2["guard"] is not FALSE:
                split.append(e2)
    recs = split
    for e in recs:
        a = e["args"][role["node"]]
        side = None
        for s, ch in (("left", left), ("right", right)):
            if a is ch or (not opt and a is pay(ch, 1, 0)):
                side = s
        if side is None:
            u = unknown_in(V(a))
            if u is not None or a.op == "ite":
                c.undec(key + "/child", "subtree %s" % show(a, 4)[:150])
                return
            c.viol(key + "/child", c.at(g), "the traversal continues at %s, which is no child of the node" % show(a, 5)[:150])
            return
        groups[side].append(e)
    # candidates
    pushes = [e for e in r.events if e["kind"] == "push"]
    perout = {i: [] for i in outs}
    for e in pushes:
        i = out_of(e, cells)
        if i is None:
            c.undec(key + "/push", "push to %s" % (e.get("loc"),))
            return
        perout[i].append(e)
    pops = [e for e in r.events if e["kind"] == "pop"]
    ne = Neigh(c)
    others = [e for e in r.events if e["kind"] in ("write", "setins", "sort") and hp_target(e) in cells.values()]
    if others:
        c.undec(key + "/writes", "other changes of the result")
    # what is offered
    bounds = []
    for i in outs:
        for e in perout[i]:
            v, rev = e["value"], False
            if v.op == "adt" and v.args[0].endswith("Reverse"):
                v, rev = v.args[2], True
            nm = "%s/%s" % (key, "candidate" if i == resarg else "bound")
            if v.op == "adt":
                ty = v.args[0].rsplit("::", 1)[-1]
                try:
                    fi_i, fi_d = field_index(c, ty, "index"), field_index(c, ty, "distance")
                except Lost:
                    c.undec(nm, "candidate type %s" % ty)
                    continue
                c.same(nm + "/index", g, "index of the candidate", fld(v, fi_i), idx, canon=canon())
                c.same(nm + "/distance", g, "distance of the candidate", fld(v, fi_d), dist, canon=canon())
                if rev:
                    bounds.append((i, lambda h, d=fi_d: fld(fld(htop(h), 0), d)))
            else:
                for nm2, t in (("value", v),):
                    if i == resarg or unknown_in(v) is not None:
                        c.undec(nm + "/value", show(v, 4)[:150])
        gs = [e["guard"] for e in perout[i]]
        if len(gs) > 1:
            c.valid("%s/once/%s" % (key, "result" if i == resarg else "bound"), g, "a point is offered once per visit", pairwise_disjoint(gs), canon=canon())
    resp = perout.get(resarg, [])
    pushed = FALSE
    for e in resp:
        pushed = disj(pushed, e["guard"])
    # values of the out parameters when the first subtree is entered
    def lens_facts():
        fs = []
        if kind == "radius":
            fs.append(fle(F0, par))
        else:
            fs.append(ile(ONE, par))
        return fs

    def bound_goal(e, lower, side):
        """a subtree or point at axis/point distance `lower` may be left out"""
        if kind == "radius":
            return disj(flt(par, lower), flt(fmul(par, par), fmul(lower, lower)))
        g0 = FALSE
        for i, top in bounds:
            h = e["args"][i] if e is not None else r.before(cells[i])
            g0 = disj(g0, lift_goal(h, top, par, lower))
        return g0

    pre = lens_facts()
    # offered exactly when it qualifies
    if not resp:
        c.viol(key + "/offered", c.at(g), "visited points are never added to the result")
    elif kind == "radius":
        c.valid(key + "/offered", g, "a visited point within the radius is added", disj(neg(conj(here, fle(dist, par))), pushed), facts=with_facts(pre)[0], canon=canon())
        c.valid(key + "/rejected", g, "only points within the radius are added", disj(neg(pushed), conj(here, fle(dist, par))), facts=with_facts(pre)[0], canon=canon())
    else:
        t = disj(neg(here), pushed)
        u = unknown_in(canon()(t)) if t is not TRUE and t.op == "ite" else None
        if u is None and any(x.op in ("htop", "hlen") for x in (subterms(t) if t.op == "ite" else [])):
            c.undec(key + "/offered", "candidates are added conditionally: %s" % show(t, 5)[:200])
        else:
            c.valid(key + "/offered", g, "every visited point is a candidate", t, canon=canon())
        for e in pops:
            i = out_of(e, cells)
            if i == resarg and not any(b[0] == i for b in bounds):
                c.viol(key + "/removed", c.at(g), "the closest candidate is removed from the results")
    # children
    for side, ch in (("left", left), ("right", right)):
        evs = groups[side]
        vis = FALSE
        for e in evs:
            vis = disj(vis, e["guard"])
        if len(evs) > 1:
            c.valid("%s/once/%s" % (key, side), g, "the %s subtree is visited at most once" % side, pairwise_disjoint([e["guard"] for e in evs]), canon=canon())
        exists = conj(here, neg(isv(ch, OPT, 0)))
        fg = foreign(vis, ()) if vis.op == "ite" else None
        sgn = fle(F0, delta) if side == "left" else fle(delta, F0)
        strict = kind == "radius"
        for mi, mn in enumerate(names):
            lower = adist if mn == "Euclidean" else square if mn == "SquaredEuclidean" else None
            if lower is None:
                c.undec("%s/skip/%s/%s" % (key, side, mn), "unknown metric")
                continue
            ref = recs[0] if recs else None
            goal = conj(sgn, bound_goal(ref, lower, side))
            if vis is TRUE or visits_all(vis, exists):
                c.held("%s/skip/%s/%s" % (key, side, mn), "the %s subtree is always visited" % side)
                continue
            aux = {x for a in atoms_of(vis) for x in subterms(a) if x.op == "app" and x.args[0] == MEASURE}
            bad = [x for x in aux if canon()(x) is not canon()(dist)]
            if kind == "radius" and bad or kind == "k" and [x for x in bad if not inside_heaps(x, vis)]:
                c.undec("%s/skip/%s/%s" % (key, side, mn), "bound uses %s" % show(bad[0], 4)[:150])
                continue
            prem = conj(exists, conj(isv(m, ep, mi), neg(vis)))
            fs = with_facts(pre)[0]
            cond = disj(neg(prem), goal)
            c.valid("%s/skip/%s/%s" % (key, side, mn), g, "the %s subtree is skipped only if every point of it is farther than the bound (%s)" % (side, mn), with_nonneg(cond), facts=fs, canon=canon())


def with_nonneg(cond):
    """distances found in the bound heaps are not negative"""
    pos = TRUE
    seen = set()
    for a in atoms_of(cond):
        for x in subterms(a):
            if x.op == "fld" and any(y.op in ("htop",) for y in subterms(x)) and x not in seen and a.op == "flt":
                seen.add(x)
    for x in sorted(seen, key=lambda t: t.id):
        pos = conj(pos, fle(F0, x))
    return disj(neg(pos), cond)


def visits_all(vis, exists):
    return disj(neg(exists), vis) is TRUE


def inside_heaps(x, vis):
    return True


def lift_goal(h, top, k, lower):
    if h.op == "ite":
        g = h.args[0]
        a, b = lift_goal(h.args[1], top, k, lower), lift_goal(h.args[2], top, k, lower)
        return disj(conj(atom(g), a), conj(neg(atom(g)), b))
    t = top(h)
    return conj(ile(k, hlen(h)), fle(t, lower))


def pairwise_disjoint(gs):
    r = TRUE
    for i in range(len(gs)):
        for j in range(i):
            r = conj(r, neg(conj(gs[i], gs[j])))
    return r


def hp_target(e):
    l = e.get("loc")
    if isinstance(l, T) and l.op in ("ref", "refmut") :
        c = l.args[0]
        return c[1] if isinstance(c, tuple) and c[0] == "arg" else None
    return None


def out_of(e, cells):
    t = hp_cell(e)
    for i, n in cells.items():
        if t == ("arg", n) or t == n:
            return i
    return None


def is_option(t):
    from checks_num import strip

    t = strip(fz(t))
    return t[0] == "adt" and t[1].endswith("Option")


def strip(t):
    from checks_num import strip as s

    return s(t)


# ---------------------------------------------------------------- results of a traversal
def app_index(t, e):
    """which out parameter of the call an application denotes"""
    if t.op == "app" and isinstance(t.args[0], str) and "!" in t.args[0] and t.args[1:] == tuple(e["args"]):
        try:
            return int(t.args[0].rsplit("!", 1)[1])
        except ValueError:
            return None
    return None


def result_loop(c, key, f, r, e, k):
    """the loop that empties the heap of candidates into the result; returns the out parameter index"""
    V = View(r)
    nb = Neigh(c)
    for L in r.loops.values():
        for loc, (p, i, n) in L.phis.items():
            w = app_index(i, e)
            if w is None:
                continue
            heap = p
            if not any(x.op == "htop" and x.args[0] is heap for lc, (p2, i2, n2) in L.phis.items() for x in subterms(n2)) and not any(x.op == "htop" and x.args[0] is heap for ev in r.events if L.lid in ev["ctx"] and ev["kind"] == "push" for x in subterms(ev["value"])):
                continue
            loop_rules(c, key, f, r, V, L, loc, heap, n, k, nb)
            return w
    w = app_index(r.ret, e) if r.ret is not None else None
    if w is None and r.ret is not None:
        for g, t in leaves(r.ret):
            if app_index(t, e) is not None:
                w = app_index(t, e)
    return w


def loop_rules(c, key, f, r, V, L, loc, heap, nxt, k, nb):
    h = V(heap)
    pushes = [x for x in events_in(r, L.lid, "push") if not x.get("heap")]
    if len(pushes) != 1:
        c.undec(key + "/drain", "%d pushes in the result loop" % len(pushes))
        return
    ev = pushes[0]
    fi_i = field_index(c, "Element", "index")
    fi_d = field_index(c, "Element", "distance")
    v = V(ev["value"])
    top = htop(h)
    cands = [top, fld(top, 0)]
    c.same(key + "/drain/index", f, "index of a result", fld(v, nb.i), fld(top, fi_i))
    c.same(key + "/drain/distance", f, "distance of a result", fld(v, nb.d), fld(top, fi_d))
    nonempty = ile(ONE, hlen(h))
    c.same(key + "/drain/next", f, "candidates left after a result is taken", V(nxt), hrest(h), with_facts([nonempty])[0])
    cell = hp_cell(ev)
    seq = None
    for l2, (p2, i2, n2) in L.phis.items():
        if l2[1] == () and (l2[0] == cell or list(l2[0]) == list(cell or ())):
            seq = (l2, p2, i2, n2)
    if seq is None:
        c.undec(key + "/drain/result", "result of the loop not found")
        return
    l2, p2, i2, n2 = seq
    s = V(p2)
    if L.trip is None and V(i2) is EMPTY and n2.op == "push" and n2.args[0] is p2:
        # one result per round: rounds are counted by the results
        V.m[L.k] = slen(s)
        V.memo = {}
    c.same(key + "/drain/start", f, "results before the first one", V(i2), EMPTY)
    # while going on, every candidate taken is kept
    cn = Canon()
    lg = V(L.latch_guard) if L.latch_guard is not None else TRUE
    base = [ile(ONE, k)] if k is not None else []
    inv = None
    if k is not None and L.trip is None:
        for cand in (lambda x: ilt(x, k), lambda x: ile(x, k)):
            probe = Check(c.prop, c.P)
            if probe.valid("p", f, "", disj(neg(lg), cand(slen(V(n2)))), facts=with_facts(base + [cand(slen(s))])[0]):
                inv = cand
                break
        if inv is None:
            u = other_state(r, L, lg, (heap, p2)) or unknown_in(cn(lg))
            if u is not None:
                c.undec(key + "/drain/below", "bound of the result loop: %s" % show(u, 4)[:150])
                return
            inv = lambda x: ile(x, k)
    pre = base + ([inv(slen(s))] if inv else [])
    c.valid(key + "/drain/kept", f, "a candidate taken from the heap becomes a result", disj(neg(conj(lg, nonempty)), bool_eq(slen(V(n2)), iadd(slen(s), ONE))), facts=with_facts(pre)[0])
    h0 = r.loops[L.lid].phis[loc][1]
    if L.trip is not None:
        # a counted loop: as many results as rounds
        c.same(key + "/drain/rounds", f, "rounds of the result loop", L.trip, hlen(h0) if k is None else imin(k, hlen(h0)), with_facts(base)[0])
    if k is not None and inv is not None:
        c.valid(key + "/drain/below", f, "the loop goes on with at most k results", disj(neg(lg), inv(slen(V(n2)))), facts=with_facts(pre)[0])
    for j, (t, g) in enumerate(L.exits):
        st = L.exit_states[j][1]
        hx, sx = st.cells.get(loc[0]), st.cells.get(l2[0])
        if hx is None or sx is None:
            # not live any more: unchanged in this exit
            hx, sx = hx if hx is not None else heap, sx if sx is not None else p2
        hx, sx = V(at_path(hx, loc[1])), V(sx)
        gj = V(g)
        if L.trip is not None and any(x is L.k for x in atoms_sub(gj)):
            continue
        u = other_state(r, L, gj, (heap, p2))
        if u is not None:
            c.undec(key + "/drain/end%d" % j, "end of the result loop: %s" % show(u, 4)[:150])
            continue
        done = ieq(hlen(hx), ZERO)
        if k is not None:
            done = disj(done, ieq(slen(sx), k))
        c.valid(key + "/drain/end%d" % j, f, "results end only when all candidates are taken%s" % (" or k are found" if k is not None else ""), disj(neg(gj), done), facts=with_facts(pre)[0])
        if k is not None and inv is not None:
            c.valid(key + "/drain/most%d" % j, f, "at most k results", disj(neg(gj), ile(slen(sx), k)), facts=with_facts(pre)[0])


def atoms_sub(g):
    out = set()
    for a in atoms_of(g):
        out |= set(subterms(a))
    return out


def other_state(r, L, g, own):
    """loop state other than the given variables that a condition depends on"""
    for x in atoms_sub(g):
        if x is L.k:
            return x
        if x.op == "sym" and x.args and x.args[0] == "st" and not any(x.args[2] == p.args[1] for p in own):
            return x
    return None


def at_path(v, path):
    for p in path:
        if isinstance(p, tuple) and p[0] == "f":
            v = fld(v, p[1])
    return v


def bool_eq(a, b):
    return ieq(a, b)


def tree_radius(c):
    f = c.P.method("NeighborSearch", "KDTree", "search_radius")
    r = c.analyze(f, opaque=OPQ)
    key = "C08/tree"
    q, rad = r.args[1], r.args[2]
    negative_radius(c, key, f, r.ret, rad)
    x = rec_entry(c, key, f, r, q, rad)
    if x is None:
        return
    e, role = x
    c.same(key + "/bound", f, "radius of the traversal", e["args"][role["param"]] if "param" in role else None, rad, canon=canon())
    c.valid(key + "/start", f, "the traversal runs for every non-negative radius", disj(flt(rad, F0), e["guard"]), canon=canon())
    w = result_loop(c, key, f, r, e, None)
    if w is None:
        c.undec(key + "/result", show(r.ret, 4)[:200])
        return
    traversal(c, key, e["rec"][0], role, "radius", w)


def tree_search(c):
    f = c.P.method("NeighborSearch", "KDTree", "search")
    r = c.analyze(f, opaque=OPQ)
    key = "C09/tree"
    q, k = r.args[1], r.args[2]
    no_overrun(c, key, f, r, [k])
    for fa in with_facts([ieq(k, ZERO)]):
        if r.ret is None:
            c.viol(key, c.at(f), "never returns")
            return
        c.same(key + "/zero", f, "number of results for k = 0", slen(r.ret), ZERO, fa)
    x = rec_entry(c, key, f, r, q, k)
    if x is None:
        return
    e, role = x
    c.same(key + "/bound", f, "number of neighbors of the traversal", e["args"][role["param"]] if "param" in role else None, k)
    c.valid(key + "/start", f, "the traversal runs for every k > 0", disj(ieq(k, ZERO), e["guard"]))
    w = result_loop(c, key, f, r, e, k)
    if w is None:
        c.undec(key + "/result", show(r.ret, 4)[:200])
        return
    traversal(c, key, e["rec"][0], role, "k", w)


def element_order(c):
    check_order(c, "%s/candidates" % c.prop, "Element", "distance", -1, False)


def check_C08(c):
    c.rule("exhaustive radius search = [Neighbor(i, d_i) | d_i <= radius] for all i; tree: halves around a sorted split point, each visited point is added exactly when d <= radius, both halves are visited unless the whole half lies farther than the radius along the split axis (in the metric's own unit), results are all candidates")
    c.assume("distances are reals (no NaN, no rounding) and C13 holds: the metric dominates the distance along one axis")
    c.part("C08/linear", linear_radius)
    c.part("C08/build", tree_build)
    c.part("C08/tree", tree_radius)


def check_C09(c):
    c.rule("exhaustive search = first min(k,n) of all candidates sorted by distance; tree: every visited point is a candidate once, a half is skipped only with k candidates held that are all at least as close as the half along the split axis, and the results are the smallest min(k, candidates) in ascending order")
    c.assume("distances are reals (no NaN, no rounding) and C13 holds")
    c.part("C09/linear", linear_search)
    c.part("C09/linear/nearest", nearest_rule, False)
    c.part("C09/build", tree_build)
    c.part("C09/tree", tree_search)
    c.part("C09/tree/nearest", nearest_rule, True)
    c.part("C09/candidates", element_order)


def no_overrun(c, key, f, r, free):
    """an argument as large as its type allows neither overflows a sum nor asks for more room than there is memory"""
    top = num(2**64 - 1)
    n = 0
    for e in r.events:
        if e["kind"] == "capacity" and e.get("value") is not None:
            t, limit, what = e["value"], 2**60, "asks for room for %s elements"
        elif e["kind"] == "panic" and e["why"] in ("overflow_add", "overflow_mul"):
            t, limit, what = {"overflow_add": iadd, "overflow_mul": imul}[e["why"]](*e["ops"]), 2**64, "computes %s, which does not fit"
        else:
            continue
        for a in free:
            if not any(x is a for x in subterms(t)):
                continue
            n += 1
            t2, g2 = subst(t, {a: top}), subst(e["guard"], {a: top})
            if e["ctx"] or any(unknown_in(x) is not None for x in terms.atoms_of(g2)):
                continue
            cn = Canon()
            t2 = cn(t2)
            bad = None
            small = {x for g, l in leaves(t2) for x in to_lin(l)[1]} | {x for q in terms.atoms_of(t2) + terms.atoms_of(cn(g2)) if q.op in ("ge0", "eq0") for x in to_lin(q.args[0])[1]}
            for fa in with_facts([cn(g2)] + [ile(x, num(2**40)) for x in small] + [ile(ZERO, x) for x in small]):
                for fb, (l,) in Comparer(cn).cases((t2,), fa):
                    if fb.confirm() and fb.implied_int(isub(l, num(limit))):
                        bad = bad or fb
            if bad is not None:
                c.viol(key + "/overrun", c.at(e["fn"] if isinstance(e.get("fn"), dict) else f), what % show(t, 5)[:200] + " when %s is the largest number" % show(a, 2))
                return
    c.held(key + "/overrun", "no sum or reservation outgrows the machine for the largest argument (%d looked at)" % n)
