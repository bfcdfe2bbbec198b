"""C20, C21, C22, C23: k-means, initial centroids, core distances, parameters."""
from loops import *
from checks_num import adt_info, strip, rejects
from checks_graph import field_index, bool_term, order_rule
from checks_search import no_overrun, canon, measure, MEASURE, RULES
from checks_cluster import must, known, pdiv, psum, loop_state, with_states

NEAR, SEARCH, TREE, INIT = "op:NeighborSearch::search_nearest", "op:NeighborSearch::search", "op:KDTree::new", "op:Initializer::initialize"
OPQ = ("NeighborSearch::search_nearest", "NeighborSearch::search", "NeighborSearch::search_radius", "KDTree::new", "Initializer::initialize", "DistanceMetric::measure")


def by_index(t, f):
    """the name given to a field in the public accessor"""
    return fld(t, f)


def param(c, ty, name, t):
    """value of a parameter of a parameter set"""
    return fld(t, field_index(c, ty, name))


def nearest_of(e):
    """(structure, point, index found, condition that one is found) of a search for one neighbor"""
    if e["name"] == NEAR:
        t, p = e["args"]
        r = e["result"]
        return t, p, pay(r, 1, 0), neg(isv(r, OPT, 0))
    if e["name"] == SEARCH and len(e["args"]) == 3:
        t, p, k = e["args"]
        r = e["result"]
        return t, p, sget(r, ZERO), ile(ONE, slen(r))
    return None


def structure(c, t):
    """(points, metric) a search structure was built from"""
    if t.op == "app" and t.args[0] == TREE:
        return t.args[1], t.args[2]
    if t.op == "adt" and t.args[0].endswith("LinearSearch"):
        return fld(t, field_index(c, "LinearSearch", "dataset")), fld(t, field_index(c, "LinearSearch", "metric"))
    return None


class Rounds:
    def __init__(self, c):
        self.c = c
        self.f = f = c.P.method("Fit", "Kmeans", "fit")
        self.r = r = c.analyze(f, opaque=OPQ)
        self.D, self.prm = r.args
        self.n = slen(self.D)
        self.k = param(c, "KmeansParams", "k", self.prm)
        self.metric = param(c, "KmeansParams", "metric", self.prm)
        self.tol = param(c, "KmeansParams", "tolerance", self.prm)
        self.maxit = param(c, "KmeansParams", "max_iterations", self.prm)
        self.initializer = param(c, "KmeansParams", "initializer", self.prm)
        self.iC, self.iM = field_index(c, "kmeans::cluster::Cluster", "centroid"), field_index(c, "kmeans::cluster::Cluster", "children")
        self.iK = field_index(c, "Kmeans", "clusters")
        self.base = [ile(ONE, self.k), ilt(self.k, self.n)]

    def set_type(self):
        p, info = adt_info(self.c, "kmeans::cluster::Cluster")
        t = info["variants"][0]["fields"][self.iM][1]
        return "Set" in str(t)

    def empty(self):
        return terms.SEMPTY if self.set_type() else EMPTY

    def added(self, s, x):
        return terms.sins(s, x) if self.set_type() else push(s, x)

    def size(self, s):
        return terms.scard(s) if self.set_type() else slen(s)


def kmeans_small(c):
    R = Rounds(c)
    f, r = R.f, R.r
    key = "C20/edge"
    no_overrun(c, key, f, r, [R.k, R.maxit])
    i = mk("sym", "i")
    for fa in with_facts([ieq(R.k, ZERO)]):
        for fb, (t,) in Comparer().cases((r.ret,), fa):
            c.same(key + "/none", f, "number of clusters for k = 0", slen(fld(t, R.iK)), ZERO, fb)
    for fa in with_facts([ile(ONE, R.k), ile(R.n, R.k)]):
        for fb, (t,) in Comparer().cases((r.ret,), fa):
            s = fld(t, R.iK)
            if any(x.op in ("fin", "phi") and x.args[0] in round_loops(r) for x in subterms(s)):
                c.viol(key + "/all", c.at(f), "k at or above the number of points is handled by the rounds: equal points end in one cluster")
                continue
            c.same(key + "/all/count", f, "number of clusters for k at or above the number of points", slen(s), R.n, fb)
            for fc_ in assume(fb, [ile(ZERO, i), ilt(i, R.n)]):
                e = sget(s, i)
                c.same(key + "/all/centroid", f, "centroid of a cluster of one point", fld(e, R.iC), sget(R.D, i), fc_)
                c.same(key + "/all/members", f, "members of a cluster of one point", fld(e, R.iM), R.added(R.empty(), i), fc_)


def round_loops(r):
    return {l for e in r.events if e["kind"] == "call" and e["name"] in (NEAR, SEARCH) for l in e["ctx"]}


def assume(fa, gs):
    fs = [fa]
    cn = Canon()
    for g in gs:
        fs = [y for x in fs for y in x.assume_guard(cn(g))]
    return [x for x in fs if x.feasible]


def kmeans_rounds(c):
    R = Rounds(c)
    f, r = R.f, R.r
    key = "C20/round"
    calls = [e for e in r.events if e["kind"] == "call" and e["name"] in (NEAR, SEARCH)]
    if len(calls) != 1 or len(calls[0]["ctx"]) != 2:
        raise Unsupported("searches for the nearest centroid: %s" % [e["ctx"] for e in calls])
    E = calls[0]
    RL, AL = r.loops[E["ctx"][0]], r.loops[E["ctx"][1]]
    if RL.latch_guard is FALSE and not any(str(x.args[0]).startswith("rec:") for e in r.events for x in subterms(e["guard"]) if x.op == "app"):
        c.viol(key + "/stop", c.at(f), "the first round is always the last one, however far the centroids moved")
        return
    tree, point, found, some_ = nearest_of(E)
    # the clusters assigned to
    cand = [(loc, p, i, n) for loc, (p, i, n) in AL.phis.items() if any(x is E["result"] for x in subterms(n))]
    if not cand:
        nm = E["result"].args[0] if E["result"].op == "app" else None
        uses = [n for L in r.loops.values() for p, i, n in L.phis.values() if n is not None] + [g for L in r.loops.values() for t, g in L.exits]
        uses += [e[x] for e in r.events for x in ("value", "result", "cell") if e is not E and isinstance(e.get(x), T)] + [a for e in r.events if e["kind"] == "call" and e is not E for a in e["args"] if isinstance(a, T)] + [r.ret]
        if nm is not None and not any(x.op == "app" and x.args[0] == nm for u in uses if u is not None for x in subterms(u)) and not any(str(e.get("name", "")).startswith("x:") for e in r.events):
            c.viol(key + "/assign", c.at(f), "the nearest centroid of a point is looked up, but no cluster receives the point")
            return
    if len(cand) != 1:
        raise Unsupported("assignment changes %d variables" % len(cand))
    aloc, aphi, ainit, anext = cand[0]
    rc = RL.phis.get(aloc)
    if rc is None or aloc[1]:
        raise Unsupported("clusters of a round not found at %s" % (aloc,))
    cl, rinit, rnext = rc
    fins = [x for x in with_fins(r, rnext) if x.args[0] == AL.lid and x.args[1] == aphi.args[1]]
    F = mk("sym", "assigned")
    m = {x: F for x in fins}
    V0 = View(r)
    memo = {}
    V = lambda t: subst(V0(subst(t, m, memo)), {slen(F): slen(V0(cl))})
    j = mk("sym", "j")
    ncl = slen(V(cl))
    jr = [ile(ZERO, j), ilt(j, ncl)]
    more = [ilt(RL.k, R.maxit)]
    base = R.base
    st = structure(c, tree)
    if st is None:
        c.undec(key + "/structure", "searched structure %s" % show(tree, 4)[:150])
    else:
        pts, met = st
        c.same(key + "/metric", f, "metric of the assignment", V(met), R.metric)
        c.same(key + "/centroids/count", f, "number of centroids searched", V(slen(pts)), ncl)
        for fa in with_facts(jr):
            c.same(key + "/centroids", f, "centroid searched at a position", V(sget(pts, j)), fld(sget(V(cl), j), R.iC), fa)
    if E["name"] == SEARCH:
        c.valid(key + "/one", f, "at least one neighbor is asked for", ile(ONE, V(E["args"][2])))
    c.same(key + "/points/count", f, "number of points assigned in a round", V(AL.trip) if AL.trip is not None else mk("sym", "kx", AL.lid), R.n)
    c.same(key + "/points", f, "point assigned", V(point), sget(R.D, AL.k), with_facts([ilt(AL.k, R.n)])[0])
    if len(AL.exits) > 1:
        c.undec(key + "/points/exit", "the assignment may end early")
    # sums and members before the assignment
    c.same(key + "/start/count", f, "clusters before the assignment", V(slen(ainit)), ncl)
    for fa in with_facts(jr):
        e = V(sget(ainit, j))
        c.same(key + "/start/sum", f, "sum of a cluster before the assignment", fld(e, R.iC), fcs(0), fa)
        c.same(key + "/start/members", f, "members of a cluster before the assignment", fld(e, R.iM), R.empty(), fa)
    # one point
    nb = field_index(c, "Neighbor", "index")
    N = fld(found, nb)
    for nm, g in (("found", some_), ("none", neg(some_))):
        old = sget(aphi, N)
        want = aphi
        if nm == "found":
            want = setat(aphi, N, updf(updf(old, R.iC, fadd(fld(old, R.iC), point)), R.iM, R.added(fld(old, R.iM), AL.k)))
        for fa in with_facts([V(t) for t in [ilt(AL.k, R.n), ilt(N, slen(aphi)), g]]):
            if nm == "none":
                c.same(key + "/assign/none", f, "clusters after a point without a nearest centroid", V(anext), V(want), fa)
                continue
            # compare the changed cluster and one other
            a, w = V(anext), V(want)
            x = V(N)
            for what, iX in (("sum", R.iC), ("members", R.iM)):
                c.same(key + "/assign/" + what, f, "%s of the nearest cluster after a point" % what, fld(sget(a, x), iX), fld(sget(w, x), iX), fa)
            for fb in assume(fa, jr + [neg(ieq(j, x))]):
                c.same(key + "/assign/other", f, "another cluster after a point", sget(a, j), sget(w, j), fb)
    # the new centroids
    nx = V(rnext)
    c.same(key + "/update/count", f, "clusters after a round", slen(nx), ncl)
    S, tot = fld(sget(F, j), R.iM), fld(sget(F, j), R.iC)
    old = fld(sget(V(cl), j), R.iC)
    new = {}
    for nm, g in (("some", ile(ONE, R.size(S))), ("empty", ieq(R.size(S), ZERO))):
        for fa in with_facts(jr + [g]):
            e = sget(nx, j)
            c.same(key + "/update/%s" % nm, f, "centroid of a cluster %s members after a round" % ("with" if nm == "some" else "without"), fld(e, R.iC), pdiv(tot, tof(R.size(S))) if nm == "some" else old, fa)
            got = fld(e, R.iM)
            if nm == "empty":
                got = lift1(lambda t: R.empty() if t is S else t, got)
            c.same(key + "/update/%s/members" % nm, f, "members of a cluster after a round", got, S if nm == "some" else R.empty(), fa)
    # ending: exits tested before the work of a round keep its clusters, exits tested after it have the new ones
    before, after = [], []
    outs = set()
    for q, (t, st_) in enumerate(RL.exit_states):
        v = st_.cells.get(aloc[0])
        g = RL.exits[q][1]
        outs.add(subst(v, RL.closed.get(q, {})))
        fs = with_facts([V(g)])
        if all(Comparer().equal(V(v), V(cl), fa)[0] == "eq" for fa in fs):
            before.append(g)
        elif all(Comparer().equal(V(v), nx, fa)[0] == "eq" for fa in fs):
            after.append(g)
        elif known(V(v)) is None:
            c.viol(key + "/result/%d" % q, c.at(f), "the clusters kept when the rounds end are not those of the last round: %s" % show(V(v), 5)[:200])
            return
        else:
            c.undec(key + "/result/%d" % q, "clusters at the end: %s" % show(V(v), 4)[:200])
            return
    c.held(key + "/result", "the clusters of the last round are kept when the rounds end")
    head, tail = FALSE, FALSE
    for g in before:
        head = disj(head, g)
    for g in after:
        tail = disj(tail, g)
    step = {p: n for loc, (p, i, n) in RL.phis.items()}
    step[RL.k] = iadd(RL.k, ONE)
    first = {p: i for loc, (p, i, n) in RL.phis.items()}
    first[RL.k] = ZERO
    cn = Canon(RULES + (no_move,))
    positive = flt(F0, R.tol)
    for fa in with_facts(base + [positive, ile(ZERO, R.maxit)]):
        c.same(key + "/end/none", f, "ending before the first round", bool_term(V(subst(head, first))), bool_term(ile(R.maxit, ZERO)), fa)
    stop = V(disj(tail, subst(head, step)))
    moved = conj(ile(ONE, R.size(S)), neg(flt(measure(R.metric, old, pdiv(tot, tof(R.size(S)))), R.tol)))
    conv = disj(neg(exists_sym(j, ncl, moved)), ile(R.maxit, iadd(RL.k, ONE)))
    what = "ending after a round because no centroid moved by the tolerance or more or the number of rounds is reached"
    for fa in with_facts([ilt(RL.k, R.maxit), positive, neg(V(head))]):
        t = one_exists(cn(stop), cn(conv), fa, cn)
        last = [a for a in atoms_of(t) if a.op in ("phi", "fin", "sym") and overwritten(r, a, V0)]
        if last:
            c.viol(key + "/end/converged", c.at(f), "%s: it depends only on the last cluster looked at" % what)
        else:
            odd = [a for a in atoms_of(t) if a.op not in ("ge0", "eq0", "exists") and not a.op.startswith("r")]
            sums = [x for x in subterms(t) if x.op in ("sum", "comp") and x not in set(subterms(cn(conv)))]
            if odd or sums:
                c.undec(key + "/end/converged", "%s: %s" % (what, show(t, 5)[:200]))
            else:
                c.same(key + "/end/converged", f, what, bool_term(t), bool_term(conv), fa, canon=cn)
    for fa in with_facts(base):
        for fb, (t,) in Comparer().cases((fld(r.ret, R.iK),), fa):
            if not any(t is o or Comparer().canon(o) is t for o in outs):
                if known(t) is None:
                    c.viol(key + "/returned", c.at(f), "the clusters returned are not those the rounds end with: %s" % show(t, 4)[:200])
                else:
                    c.undec(key + "/returned", "clusters returned: %s" % show(t, 4)[:200])
            else:
                c.held(key + "/returned", "clusters returned")
    # before the first round
    ini = mk("app", INIT, R.initializer, R.D, R.k, R.metric)
    c.same(key + "/first/count", f, "clusters before the first round", V(slen(rinit)), slen(ini))
    for fa in with_facts(base + [ile(ZERO, j), ilt(j, slen(ini))]):
        e = V(sget(rinit, j))
        c.same(key + "/first/centroid", f, "centroid before the first round", fld(e, R.iC), sget(ini, j), fa)
        c.same(key + "/first/members", f, "members before the first round", fld(e, R.iM), R.empty(), fa)


def overwritten(r, a, V):
    """a flag set in every iteration of its loop without regard to its earlier value"""
    for L in r.loops.values():
        for loc, (p, i, n) in L.phis.items():
            if a.op == "fin" and a.args[0] == L.lid and a.args[1] == p.args[1]:
                lv = leaves(n)
                own = [(g, v) for g, v in lv if v is not p]
                if own and not any(x is p for g, v in own for x in subterms(g)) and not any(x is p for a2 in atoms_of(n) for x in subterms(a2)) and all(v in (TRUE, FALSE) for g, v in own) and {v for g, v in own} == {TRUE, FALSE}:
                    return True
    return False


def no_move(t):
    """the distance of a point to itself is zero (C13)"""
    if t.op == "app" and t.args[0] == MEASURE and t.args[2] is t.args[3]:
        return F0
    return None


def mins(t):
    if t.op == "ite" and any(v.op in ("imin", "imax") for g, v in leaves(t)):
        return lift1(lambda v: mins(v) or v, t)
    if t.op == "imin":
        return ite(ile(t.args[0], t.args[1]), t.args[0], t.args[1])
    if t.op == "imax":
        return ite(ile(t.args[0], t.args[1]), t.args[1], t.args[0])
    return None


def one_exists(t, want, fa, cn):
    """existence conditions that say the same as one of the expected value take its form"""
    ys = [a for a in atoms_of(want) if a.op == "exists"]
    m = {}
    for x in atoms_of(t):
        if x.op == "exists" and x not in ys:
            for y in ys:
                if Comparer(cn).leaf_equal(x, y, fa)[0] == "eq":
                    m[x] = y
    return subst_atoms(t, m)


def subst_atoms(t, m):
    if t.op != "ite":
        return t
    a, h, l = t.args
    return ite(atom(m.get(a, a)), subst_atoms(h, m), subst_atoms(l, m))


def exists_sym(j, n, p):
    import models

    b = mk("bvar", 1 + terms.bound_depth(p))
    return models.exists(b, n, subst(p, {j: b}))


def with_fins(r, t):
    return {x for x in subterms(t) if x.op == "fin"}


def kmeans_access(c):
    iK = field_index(c, "Kmeans", "clusters")
    iC, iM = field_index(c, "kmeans::cluster::Cluster", "centroid"), field_index(c, "kmeans::cluster::Cluster", "children")
    R = Rounds(c)
    f = c.P.find_fn("Kmeans::centroids")
    r = c.analyze(f)
    S = fld(r.args[0], iK)
    c.same("C20/access/centroids/count", f, "number of centroids reported", slen(r.ret), slen(S))
    j = mk("sym", "j")
    for fa in with_facts([ile(ZERO, j), ilt(j, slen(S))]):
        c.same("C20/access/centroids", f, "centroid reported at a position", sget(r.ret, j), fld(sget(S, j), iC), fa)
    f = c.P.find_fn("Kmeans::count_at")
    r = c.analyze(f)
    S, i = fld(r.args[0], iK), r.args[1]
    for nm, g, want in (("known", ilt(i, slen(S)), R.size(fld(sget(S, i), iM))), ("unknown", ile(slen(S), i), ZERO)):
        for fa in with_facts([g]):
            c.same("C20/access/count/" + nm, f, "size reported for %s cluster" % ("a known" if nm == "known" else "an unknown"), r.ret, want, fa)


def check_C20(c):
    c.rule("every round saves the centroids, empties the clusters, adds each point of the dataset to the sum and the members of the cluster found by a nearest-neighbor search over the saved centroids, then divides each sum by its member count or restores the saved centroid; rounds end exactly at the iteration limit or when no centroid moved by the tolerance or more; the initializer's centroids come first; the small cases are closed forms")
    c.assume("nearest-neighbor search is exact (C09) and returns an index of the searched centroids; point arithmetic is C14")
    c.part("C20/edge", kmeans_small)
    c.part("C20/round", kmeans_rounds)
    c.part("C20/access", kmeans_access)


# ---------------------------------------------------------------- initial centroids
def check_C21(c):
    c.rule("k = 0 gives nothing and k at or above the number of points gives the dataset; otherwise every centroid appended is the dataset's point at an index whose mark was unset and is set at once, marks and centroids begin in step, appending stops exactly at k; the distance-based strategy takes the greatest of the least distances to the centroids chosen so far over all unmarked points")
    c.assume("distances are not NaN")
    c.part("C21/edge", init_edges)
    c.part("C21/pick", init_pick)


def init_edges(c):
    f = c.P.find_fn("Initializer::initialize")
    r = c.analyze(f, opaque=OPQ[:-2] + OPQ[-1:])
    slf, D, k, metric = r.args
    n = slen(D)
    no_overrun(c, "C21/edge", f, r, [k])
    i = mk("sym", "i")
    for fa in with_facts([ieq(k, ZERO)]):
        c.same("C21/edge/none", f, "number of centroids for k = 0", slen(r.ret), ZERO, fa)
    for L in r.loops.values():
        for loc, (ph, ini, nx) in L.phis.items():
            if not L.parent and loc[1] == () and ini.op in ("lit", "push") and nx is not ph and all(v is ph or v.op == "push" for g, v in leaves(nx)):
                if any(y is D for y in subterms(ini)) and any(L.closed.get(q, {}).get(ph) in set(subterms(r.ret)) for q in range(len(L.exits))):
                    for fa in with_facts([ieq(k, ZERO)]):
                        c.valid("C21/edge/none/begin", f, "no centroid is chosen for k = 0", neg(L.guard), facts=fa)
    for fa in with_facts([ile(ONE, k), ile(n, k)]):
        c.same("C21/edge/all/count", f, "number of centroids for k at or above the number of points", slen(r.ret), n, fa)
        for fb in assume(fa, [ile(ZERO, i), ilt(i, n)]):
            c.same("C21/edge/all", f, "centroid at a position", sget(r.ret, i), sget(D, i), fb)


def init_pick(c):
    f = c.P.find_fn("Initializer::initialize")
    r = c.analyze(f, opaque=OPQ[:-2] + OPQ[-1:])
    slf, D, k, metric = r.args
    n = slen(D)
    p, info = adt_info(c, "Initializer")
    names = [v["name"] for v in info["variants"]]
    base = [ile(ONE, k), ilt(k, n)]
    V = View(r)
    loops = []
    for L in r.loops.values():
        if L.parent:
            continue
        for loc, (ph, ini, nx) in L.phis.items():
            lv = [v for g, v in leaves(nx) if v is not ph]
            if lv and all(v.op == "push" for v in lv) and loc[1] == () and any(e["kind"] == "push" and e.get("loc") is not None for e in r.events):
                loops.append((L, loc, ph, ini, nx))
    done = set()
    for L, loc, ph, ini, nx in loops:
        which = None
        for i, nm in enumerate(names):
            if not with_facts(base + [L.guard, isv(slf, p, i)]):
                continue
            if which is not None:
                which = "both"
                break
            which = nm
        if which is None:
            continue
        key = "C21/pick/" + which.lower()
        done.add(which)
        pick_loop(c, f, r, key, L, loc, ph, ini, nx, D, k, n, metric, base, V, which)
    for i, nm in enumerate(names):
        key = "C21/pick/" + nm.lower()
        if nm not in done and "both" not in done:
            vals = set()
            for fa in with_facts(base + [isv(slf, p, i)]):
                vals |= {t for _, (t,) in Comparer().cases((r.ret,), fa)}
            c.undec(key + "/loop", "loop choosing centroids not found: %s" % [show(t, 3)[:100] for t in vals])
            continue
        # the result is what one of the loops collected
        for fa in with_facts(base + [isv(slf, p, i)]):
            for fb, (t,) in Comparer().cases((r.ret,), fa):
                oks = set()
                for L, loc, ph, ini, nx in loops:
                    oks |= {L.closed.get(q, {}).get(ph) for q in range(len(L.exits))}
                if t in oks:
                    c.held(key + "/result", "the centroids collected are returned")
                elif known(t) is None:
                    c.viol(key + "/result", c.at(f), "returns %s instead of the centroids collected" % show(t, 4)[:200])
                else:
                    c.undec(key + "/result", "returns %s" % show(t, 4)[:200])


def pick_loop(c, f, r, key, L, loc, ph, ini, nx, D, k, n, metric, base, V, which):
    np = slen_of(L, ph)
    pushes = [(g, v) for g, v in leaves(nx) if v is not ph]
    marks = [(l2, p2, i2, n2) for l2, (p2, i2, n2) in L.phis.items() if any(v.op == "setat" and v.args[2] in (TRUE, FALSE) for g, v in leaves(n2)) or i2.op == "repeat"]
    elems = []
    for g, v in pushes:
        b = v
        xs = []
        while b.op == "push":
            xs.append(b.args[1])
            b = b.args[0]
        if b is not ph or len(xs) != 1:
            c.undec(key + "/step", "several centroids per step")
            return
        elems.append((g, xs[0]))
    ok = True
    for q, (g, x) in enumerate(elems):
        nm = key + ("/%d" % q if len(elems) > 1 else "")
        if x.op != "get" or x.args[0] is not D:
            if known(V(x)) is None:
                c.viol(nm + "/point", c.at(f), "a centroid is %s, not a point of the dataset" % show(V(x), 4)[:200])
            else:
                c.undec(nm + "/point", "centroid %s" % show(x, 4)[:200])
            continue
        c.held(nm + "/point", "a centroid is a point of the dataset")
        i = x.args[1]
        if not marks:
            free = {z for z in (L.k, ph)} | {x for loc2, (x, i2, n2) in L.phis.items() if any(y.op == "app" and str(y.args[0]).startswith("rng:") for y in subterms(n2))}
            content = [y for t_ in (g, i) for y in subterms(t_) if y.op == "phi" and y not in free] + [y for t_ in (g, i) for y in subterms(t_) if y.op != "len" and ph in y.args]
            if not content:
                c.viol(nm + "/marks", c.at(f), "a point can be chosen twice: the choice of an index does not depend on what was chosen before")
                continue
        if len(marks) != 1:
            c.undec(nm + "/marks", "%d candidates for the marks of chosen points" % len(marks))
            continue
        l2, mp, mi, mn = marks[0]
        gg = conj(L.latch_guard if L.latch_guard is not None else TRUE, g)
        # the index is unmarked
        un = unmarked(mp, i)
        if un == "yes":
            c.held(nm + "/unmarked", "the point chosen was not chosen before")
        else:
            must(c, nm + "/unmarked", f, "the point chosen was not chosen before", [gg], neg(atom(sget(mp, i))), V=V)
        # it is marked at once
        for fa in with_facts([V(gg)]):
            c.same(nm + "/mark", f, "mark of the point chosen", bool_term(V(sget(mn, i))), ONE, fa)
        # never beyond k
        must(c, nm + "/limit", f, "a centroid is added only while there are fewer than k", [gg], ilt(np, k), V=V)
        if which != "Random":
            criterion(c, f, r, nm, i, D, n, metric, ph, mp, V, L)
    if len(marks) == 1:
        l2, mp, mi, mn = marks[0]
        # nothing else becomes unmarked, and nothing is marked without being chosen
        o = mk("sym", "other")
        chosen = FALSE
        for g, x in elems:
            if x.op == "get" and x.args[0] is D:
                chosen = disj(chosen, conj(g, ieq(x.args[1], o)))
        lg = L.latch_guard if L.latch_guard is not None else TRUE
        for fa in with_facts([V(lg), V(neg(chosen)), ile(ZERO, o), ilt(o, n)]):
            c.same(key + "/others", f, "mark of a point that is not chosen", bool_term(V(sget(mn, o))), bool_term(V(atom(sget(mp, o)))), fa)
        # beginning
        cents = []
        b = ini
        while b.op == "push":
            cents.append(b.args[1])
            b = b.args[0]
        if b.op == "lit":
            cents += list(b.args)
            b = EMPTY
        if b is not EMPTY:
            c.undec(key + "/begin", "centroids begin with %s" % show(ini, 4)[:150])
        else:
            idx = []
            for x in cents:
                if x.op == "get" and x.args[0] is D:
                    idx.append(x.args[1])
                elif known(x) is None:
                    c.viol(key + "/begin/point", c.at(f), "the first centroid is %s, not a point of the dataset" % show(x, 4)[:200])
                else:
                    c.undec(key + "/begin/point", "first centroid %s" % show(x, 4)[:200])
            want = mk("repeat", FALSE, n)
            for i in idx:
                want = setat(want, i, TRUE)
            for fa in with_facts(base + [ile(ZERO, o), ilt(o, n)] + [ilt(i, n) for i in idx] + [ile(ZERO, i) for i in idx]):
                c.same(key + "/begin/marks", f, "marks before choosing", bool_term(sget(mi, o)), bool_term(sget(want, o)), fa)
            c.same(key + "/begin/size", f, "number of marks", slen(mi), n)
    # ends with k centroids
    seqs = [x for x in {y for t, g in L.exits for a in atoms_of(g) for y in subterms(a)} if x.op == "len" and x.args[0].op == "comp"]
    for q, (t, g) in enumerate(L.exits):
        empt = [s for s in seqs if len(marks) == 1 and all_unmarked(s.args[0], marks[0][1], n)]
        fs = with_facts([V(g)])
        for fa in fs:
            if any(fa.implied_int(Canon()(V(imul(num(-1), s)))) for s in empt):
                # fewer than all points are marked, so an unmarked one exists
                c.held(key + "/ends/%d" % q, "the loop ends only with k centroids")
                continue
            c.valid(key + "/ends/%d" % q, f, "the loop ends only with k centroids", V(ile(k, np)), facts=fa)


def all_unmarked(s, mp, n):
    """the sequence has an entry for every unmarked point"""
    b = s.args[0]
    return s.args[1] is n and s.args[2] is neg(atom(sget(mp, b)))


def unmarked(mp, i):
    """the index is taken from the unmarked points"""
    for x in subterms(i):
        if x.op in ("maxby", "minby") and x.args[0].op == "comp":
            s = x.args[0]
            if any(conj(s.args[2], atom(sget(mp, s.args[0]))) is FALSE for _ in (0,)):
                e = s.args[3]
                # the index itself is the position
                if fld(x, 0) is i and e.op == "tup" and e.args[0] is s.args[0] or i is x and e is s.args[0]:
                    return "yes"
    return None


def criterion(c, f, r, key, i, D, n, metric, ph, mp, V, L):
    best = None
    if i.op == "fld" and i.args[0].op in ("maxby", "minby"):
        best = i.args[0]
    if best is None or best.args[0].op != "comp":
        c.undec(key + "/furthest", "next centroid chosen as %s" % show(V(i), 4)[:200])
        return
    S = best.args[0]
    evs = [e for e in r.events if e["kind"] == "reduce" and e["value"] is S]
    if len(evs) != 1:
        c.undec(key + "/furthest", "selection step not found")
        return
    ev = evs[0]
    j = i.args[1]
    dist = [q for q in range(len(S.args[3].args)) if S.args[3].op == "tup" and q != j]
    if len(dist) != 1:
        c.undec(key + "/furthest", "entries compared: %s" % show(S.args[3], 3)[:150])
        return
    q = dist[0]
    direction(c, f, key + "/furthest", ev, lambda e: fld(e, q), best.op == "maxby", True, "the next centroid is the point furthest from the chosen ones")
    c.same(key + "/furthest/points", f, "number of points compared", V(S.args[1]), n)
    b = mk("sym", "b")
    md = subst(fld(S.args[3], q), {S.args[0]: b})
    if md.op not in ("minby", "maxby") or md.args[0].op != "comp":
        if known(V(md)) is None:
            c.viol(key + "/closest", c.at(f), "points are compared by %s" % show(V(md), 4)[:200])
        else:
            c.undec(key + "/closest", "points are compared by %s" % show(V(md), 4)[:200])
        return
    M = md.args[0]
    evs = [e for e in r.events if e["kind"] == "reduce" and e["op"] == md.op and e["cmp"] is md.args[1]]
    evs = [e for e in evs if e is not ev]
    if evs:
        direction(c, f, key + "/closest", evs[0], lambda e: e, md.op == "maxby", False, "distance to the closest chosen centroid")
    else:
        c.undec(key + "/closest", "minimum not found")
    c.same(key + "/closest/count", f, "number of chosen centroids compared", V(M.args[1]), V(slen_of(L, ph)))
    h = mk("sym", "h")
    for fa in with_facts([ile(ZERO, h), V(ilt(h, slen_of(L, ph)))]):
        if M.args[2] is not TRUE:
            c.same(key + "/closest/every", f, "chosen centroid is compared", bool_term(V(subst(M.args[2], {M.args[0]: h}))), ONE, fa)
        c.same(key + "/closest/distance", f, "distance to a chosen centroid", V(subst(M.args[3], {M.args[0]: h})), V(measure(metric, sget(D, b), sget(ph, h))), fa, canon=canon())


def slen_of(L, ph):
    """length of a sequence that grows by one per iteration"""
    for loc, (p, i, n) in L.phis.items():
        if p is ph and all(v.op == "push" for g, v in leaves(restrict(n, L.latch_guard) if L.latch_guard is not None else n)):
            return iadd(slen(i), L.k)
    return slen(ph)


def direction(c, f, key, ev, keyfn, is_max, want_max, what):
    order_rule(c, key, f, ev, keyfn, 1 if is_max == want_max else -1, what)


# ---------------------------------------------------------------- core distances
def check_C22(c):
    c.rule("the stored distances are, for every index, the distance reported at position min(min_samples, n-1) by a k-nearest search around that point over the whole dataset with the given metric (position 0 is the point itself), with enough neighbors asked for; the accessor returns the entry at the index and rejects indices outside")
    c.assume("nearest-neighbor search is exact and ordered and returns min(k, n) neighbors (C09)")
    c.part("C22/values", core_values)
    c.part("C22/access", core_access)


def keep_all(S, base):
    """filtered sequences whose filter always holds are not filtered"""
    m = {}
    for x in subterms(S):
        if x.op == "comp" and x.args[2] is not TRUE and not any(y is x.args[0] for y in subterms(x.args[1])):
            b = mk("sym", "kept", x.id)
            probe = subst(x.args[2], {x.args[0]: b})
            cn = Canon((mins,))
            if all(fb.decide(t) is True or t is TRUE for fa in with_facts(base + [ile(ZERO, b), ilt(b, x.args[1])]) for fb, (t,) in Comparer(cn).cases((probe,), fa)):
                m[x] = mk("comp", x.args[0], x.args[1], TRUE, x.args[3])
    return subst(S, m) if m else S


def missing_entry(c, f, V, L, p, v, g, g2, base, n, D):
    """a round that stores nothing for its point, or the distance of another one, under conditions that do not compare whole points"""
    other = None
    if v.op in ("push", "insat") and v.args[0] is p:
        w = v.args[-1]
        for g3, t in leaves(w):
            if t.op in ("get", "sget") and t.args[0] is p and not known(V(t.args[1])) and not known(V(g3)):
                other = (g3, t)
    if known(V(g)) or known(V(g2)):
        return False
    if v is not p and other is None:
        return False
    conds = [g2] + ([other[0]] if other else [])
    for q in conds:
        if whole_points(V(q), D):
            return False
    m = {slen(x): imin(x.args[3], n) for q in conds for x in subterms(V(q)) if x.op == "app" and x.args[0] == SEARCH}
    for fa in with_facts(base + [g] + [subst(V(q), m) for q in conds] + [ile(ZERO, L.k), ilt(L.k, n)]):
        if other is None:
            c.viol("C22/values/count", c.at(f), "no distance is stored for a point when %s" % show(V(g2), 4)[:200])
            return True
        if Comparer().equal(V(other[1].args[1]), L.k, fa)[0] == "ne":
            c.viol("C22/values/entry", c.at(f), "when %s a point gets the distance stored at position %s" % (show(V(conj(*conds)), 4)[:200], show(V(other[1].args[1]), 4)[:100]))
            return True
    return False


def whole_points(q, D):
    """does a condition look at points other than through coordinates of a constant index?"""
    def go(t):
        if t.op == "get" and t.args[0].op == "get" and t.args[0].args[0] is D and t.args[1].op == "int":
            return False
        if t.op == "len" and (t.args[0] is D or t.args[0].op == "app" and t.args[0].args[0] == SEARCH):
            return False
        if t is D:
            return True
        return any(go(x) for x in t.args if isinstance(x, type(D)))
    return go(q)


def core_values(c):
    f = c.P.find_fn("CoreDistance::new")
    r = c.analyze(f, opaque=OPQ)
    D, ms, metric = r.args
    n = slen(D)
    no_overrun(c, "C22/values", f, r, [ms])
    iD = field_index(c, "CoreDistance", "distances")
    nd = field_index(c, "Neighbor", "distance")
    S = fld(r.ret, iD)
    j = mk("sym", "j")
    big = num(2**64 - 1)
    base = [ile(ms, big), ile(n, num(2**63))]
    S = keep_all(subst(S, {slen(x): imin(x.args[3], n) for x in subterms(S) if x.op == "app" and x.args[0] == SEARCH}), base + [ile(ONE, n)])
    for fa in with_facts(base):
        c.same("C22/values/count", f, "number of core distances", slen(S), n, fa)
    V = View(r)
    for g, t in leaves(S):
        z = loop_state(r, t)
        if z is not None and not z[0].parent:
            L, loc, p, i, nx_ = z
            for g2, v in leaves(nx_):
                given_up = i is EMPTY and missing_entry(c, f, V, L, p, v, g, g2, base, n, D)
                if given_up:
                    return
                if v.op == "insat" and v.args[0] is p and not known(v.args[1]):
                    for fa in with_facts(base + [g, g2, ile(ONE, L.k), ilt(L.k, n)]):
                        if Comparer().equal(v.args[1], L.k, fa)[0] == "ne":
                            c.viol("C22/values/order", c.at(f), "the distance of the point at an index is put at position %s" % show(V(v.args[1]), 4))
                            return
    for fa in with_facts(base + [ile(ONE, n), ile(ZERO, j), ilt(j, n)]):
        e = V(sget(S, j))
        nbs = {x for x in subterms(e) if x.op == "app" and x.args[0] == SEARCH}
        m = {}
        for x in nbs:
            m[slen(x)] = imin(x.args[3], n)
        e2 = subst(e, m)
        for fb, (t,) in Comparer(Canon((mins,))).cases((e2,), fa):
            if not (t.op == "fld" and t.args[1] == nd and t.args[0].op == "get" and t.args[0].args[0].op == "app" and t.args[0].args[0].args[0] == SEARCH):
                if known(t) is None:
                    c.viol("C22/values/entry", c.at(f), "when %s the core distance is %s" % (fb.show()[:200], show(t, 5)[:200]))
                else:
                    c.undec("C22/values/entry", "core distance is %s" % show(t, 5)[:200])
                continue
            nb, pos = t.args[0].args
            st = structure(c, nb.args[1])
            if st is None:
                c.undec("C22/values/data", "searched structure %s" % show(nb.args[1], 4)[:150])
            else:
                c.same("C22/values/data", f, "points searched", st[0], D, fb)
                c.same("C22/values/metric", f, "metric of the search", st[1], metric, fb)
            c.same("C22/values/point", f, "point searched around", nb.args[2], sget(D, j), fb)
            c.same("C22/values/rank", f, "rank of the neighbor taken (0 is the point itself)", pos, imin(ms, iadd(n, num(-1))), fb, canon=Canon((mins,)))
            c.valid("C22/values/enough", f, "the neighbor of that rank is asked for", ilt(pos, imin(nb.args[3], n)), facts=fb, canon=Canon((mins,)))


def core_access(c):
    f = c.P.find_fn("CoreDistance::distance_at")
    r = c.analyze(f)
    S, i = fld(r.args[0], field_index(c, "CoreDistance", "distances")), r.args[1]
    for fa in with_facts([ilt(i, slen(S))]):
        c.same("C22/access", f, "core distance reported", r.ret, sget(S, i), fa)
    rejects(c, "C22/access", f, r, ile(slen(S), i), "an index outside the dataset")


# ---------------------------------------------------------------- parameters
PARAMS = (
    ("dbscan", "dbscan::params::Params", ("min_points", "epsilon", "metric"), {}, ()),
    ("kmeans", "KmeansParams", ("k", "metric", "initializer"), {"max_iterations": num(10), "tolerance": "0.0001"}, ("max_iterations", "tolerance")),
    ("hdbscan", "hdbscan::params::Params", ("min_samples", "min_cluster_size", "metric"), {}, ()),
)


def check_C23(c):
    c.rule("the value number of every accessor applied to the result of the constructor and of every builder is that of the argument given for it, of the documented default, or of the same accessor before the builder; the parameters of the clustering call in extraction are 25, 0.025 and the Euclidean metric")
    for nm, ty, names, defaults, builders in PARAMS:
        c.part("C23/" + nm, params_of, nm, ty, names, defaults, builders)
    c.part("C23/extract", extract_params)


def params_of(c, nm, ty, names, defaults, builders):
    p, info = adt_info(c, ty)
    mod = p[: -len(p.split("::")[-1])]
    fs = [n for n, t, v in info["variants"][0]["fields"]]
    fnew = fn_of(c, p, "new")
    rn = c.analyze(fnew)
    get = {}
    for x in list(names) + list(defaults):
        try:
            g = fn_of(c, p, x)
        except Lost:
            if x not in fs:
                raise
            get[x] = (fnew, (lambda i: lambda s: fld(s, i))(fs.index(x)))
            continue
        rg = c.analyze(g)
        get[x] = (g, (lambda rg: lambda s: subst(rg.ret, parts_map(rg.args[0], s)))(rg))
    vals = dict(zip(names, rn.args))
    for x, d in defaults.items():
        vals[x] = d if isinstance(d, T) else fcs(d)
    cn = Canon((snap_rule(["0.0001"], 1e-6),))
    for x, (g, fn) in get.items():
        c.same("C23/%s/%s" % (nm, x), g, "%s reported after construction" % x, fn(rn.ret), vals[x], canon=cn)
    for b in builders:
        fb = fn_of(c, p, "with_" + b)
        rb = c.analyze(fb)
        s, v = rb.args
        for x, (g, fn) in get.items():
            c.same("C23/%s/with_%s/%s" % (nm, b, x), fb, "%s reported after with_%s" % (x, b), fn(rb.ret), v if x == b else fn(s))


def parts_map(a, s):
    """the parts of an argument in terms of the value given for it"""
    m = {a: s}
    if a.op == "adt":
        for i, x in enumerate(a.args[2:]):
            m[x] = fld(s, i)
    return m


def fn_of(c, p, name):
    """method of a type given by its full path"""
    for f in c.P.fns.values():
        q = strip_gen(f["def"]["p"])
        if f.get("body") and q == p + "::" + name:
            return f
    raise Lost("%s::%s" % (p, name))


def extract_params(c):
    from checks_image import Image

    im = Image(c)
    prm = im.fit["args"][1]
    f = im.f
    ty = "dbscan::params::Params"
    p, info = adt_info(c, "distance::metric::DistanceMetric")
    eu = [i for i, v in enumerate(info["variants"]) if v["name"] == "Euclidean"][0]
    cn = Canon((snap_rule(["0.025"], 1e-6),))
    for x, want in (("min_points", num(25)), ("epsilon", fcs("0.025"))):
        c.same("C23/extract/" + x, f, x + " of the clustering of an image", param(c, ty, x, prm), want, canon=cn)
    m = param(c, ty, "metric", prm)
    c.same("C23/extract/metric", f, "metric of the clustering of an image", bool_term(isv(m, p, eu)), ONE)
