"""C06, C07, C20, C21, C22, C23: clustering."""
from loops import *
from checks_num import adt_info, strip
from checks_graph import field_index, bool_term, order_rule
import checks_search

SRN, TREE = "op:NeighborSearch::search_radius", "op:KDTree::new"
OPQ = ("NeighborSearch::search_radius", "KDTree::new")


# ---------------------------------------------------------------- density clustering
class Density:
    """parts of the density clustering found by their role"""

    def __init__(self, c):
        self.c = c
        self.f = c.P.method("Fit", "DBSCAN", "fit")
        self.r = r = c.analyze(self.f, opaque=OPQ)
        self.D, pr = r.args
        self.n = slen(self.D)
        self.minp, self.eps, self.metric = (fld(pr, field_index(c, "dbscan::params::Params", x)) for x in ("min_points", "epsilon", "metric"))
        self.lp, info = adt_info(c, "Label")
        names = [v["name"] for v in info["variants"]]
        self.names = names
        for x in ("Assigned", "Outlier", "Undefined"):
            if x not in names:
                raise Lost("label " + x)
        self.v = {x: i for i, x in enumerate(names)}
        if "Marked" not in self.v:
            self.v["Marked"] = None
        self.nonempty = ilt(ZERO, self.n)
        # the scan over all points that holds the labels
        self.scan = None
        for L in r.loops.values():
            if L.parent:
                continue
            for loc, (p, i, n) in L.phis.items():
                if self.initial(i) and loc[1] == ():
                    if self.scan is not None and self.scan is not L:
                        raise Unsupported("several loops over labels")
                    self.scan, self.cell, self.init = L, loc[0], i
        if self.scan is None:
            raise Unsupported("the scan over the points was not found")
        self.V = View(r)
        self.k = self.scan.k
        self.labels = self.scan.phis[(self.cell, ())]
        self.writes = self.net([e for e in r.events if e["kind"] == "write" and e.get("cell") == self.cell])
        # the worklist loop: where popped points are assigned
        self.work = None
        for e in self.writes:
            if self.variant(e["value"]) == self.v["Assigned"] and len(e["ctx"]) >= 2:
                L = r.loops[e["ctx"][1]]
                if self.work is not None and self.work is not L:
                    raise Unsupported("several loops assign points to clusters")
                self.work = L
        self.starts = [e for e in self.writes if self.variant(e["value"]) == self.v["Assigned"] and e["ctx"] == (self.scan.lid,)]
        if self.work is None or any(e["ctx"][0] != self.scan.lid for e in self.writes if e["ctx"]):
            raise Unsupported("the loop that grows a cluster was not found")

    def net(self, ws):
        """writes without those that a later write of the same pass replaces, and without those that put the earlier label back"""
        ws = [dict(e) for e in ws]
        out = []
        for j, e in enumerate(ws):
            later = [x for x in ws[j + 1:] if x["ctx"] == e["ctx"] and len(x["path"]) == 1 and x["path"] == e["path"]]
            g = e["guard"]
            for x in later:
                g = conj(g, neg(x["guard"]))
            e["guard"] = g
            if g is FALSE:
                continue
            L = self.r.loops.get(e["ctx"][-1]) if e["ctx"] else None
            st = L.phis.get((self.cell, ())) if L else None
            v = e["value"]
            if st and len(e["path"]) == 1 and e["path"][0][0] == "idx" and v.op == "adt" and len(v.args) == 3 and self.variant(v) is not None:
                lab = sget(st[0], e["path"][0][1])
                if v.args[2].op == "pay" and v.args[2].args[0] is lab and not self.feasible_with(g, neg(isv(lab, self.lp, self.variant(v)))):
                    continue
            out.append(e)
        return out

    def feasible_with(self, *gs):
        return any(fa.confirm() for fa in with_facts([self.V(g) for g in gs]))

    def initial(self, i):
        return i.op == "repeat" and i.args[0].op == "adt" and i.args[0].args[0] == self.lp

    def variant(self, t):
        return t.args[1] if t.op == "adt" and t.args[0] == self.lp else None

    def isl(self, t, name):
        v = self.v[name]
        return FALSE if v is None else isv(t, self.lp, v)

    def is_search(self, t):
        return t.op == "app" and t.args[0] == SRN and len(t.args) == 4

    def neighbors(self, p):
        for x in self.searches():
            if x.args[2] is p:
                return x
        return None

    def searches(self):
        return [e["result"] for e in self.r.events if e["kind"] == "call" and e["name"] == SRN]

    def index_in(self, v):
        """(search, position) if v is the index of a neighbor found"""
        fi = field_index(self.c, "Neighbor", "index")
        if v.op == "fld" and v.args[1] == fi:
            g = v.args[0]
            if g.op == "get" and self.is_search(g.args[0]):
                return g.args[0], g.args[1]
        return None


def known(*ts):
    for t in ts:
        u = unknown_in(Canon()(t))
        if u is not None:
            return u
    return None


def must(c, key, f, what, when, cond, base=None, V=None):
    """cond holds in every case of `when`"""
    V = V or (lambda t: t)
    whole = [V(w) for w in when]
    ok = True
    for fa in with_facts(whole) if base is None else [x for b in base for x in assume_all(b, whole)]:
        if not fa.feasible:
            continue
        probe = Check(c.prop, c.P)
        r = probe.valid(key, f, what, V(cond), facts=fa)
        if r is True:
            continue
        o = probe.obs[-1]
        c.obs.append(o)
        return r
    c.held(key, what)
    return ok


def assume_all(fa, gs):
    fs = [fa]
    cn = Canon()
    for g in gs:
        fs = [y for x in fs for y in x.assume_guard(cn(g))]
    return fs


def reads_at(t, idx):
    """label values read at the given index"""
    out = set()
    for x in subterms(t):
        if x.op == "get" and x.args[1] is idx:
            out.add(x)
    return out


def before_rule(c, d, key):
    """a point that belongs to a cluster keeps it"""
    for j, e in enumerate(d.writes):
        nm = "write%d" % j
        path = e["path"]
        if len(path) != 1 or path[0][0] != "idx":
            c.undec(key + "/keeps/" + nm, "label written through %s" % (path,))
            continue
        idx = path[0][1]
        g, val, bf = d.V(e["guard"]), d.V(e["value"]), d.V(e["before"])
        lab = sget(bf, d.V(idx))
        if d.variant(e["value"]) is None:
            c.undec(key + "/keeps/" + nm, "label written: %s" % show(val, 4)[:150])
            continue
        # conditions of entering the enclosing loops also hold, on their own states
        gg = d.V(full_guard(d.r, e))
        (lab, gg, g), extra = unfilter([lab, gg, g])
        goal = neg(isv(lab, d.lp, d.v["Assigned"]))
        L = d.r.loops.get(e["ctx"][-1]) if e["ctx"] else None
        st = L.phis.get((d.cell, ())) if L else None
        if st and all(x["ctx"] and x["ctx"][-1] == L.lid and d.variant(x["value"]) not in (None, d.v["Assigned"]) for x in d.writes if L.lid in x["ctx"]):
            # the loop assigns no point: a point assigned during it was assigned before it
            (old,), more = unfilter([sget(d.V(st[1]), d.V(idx))])
            goal = disj(goal, neg(isv(old, d.lp, d.v["Assigned"])))
            extra = extra + [z for z in more if z not in extra]
        gg = [gg] + extra
        must(c, key + "/keeps/" + str(d.names[d.variant(e["value"])]).lower() + "%d" % j, d.f, "a label %s is written only to a point that belongs to no cluster yet" % d.names[d.variant(e["value"])], [g], goal, base=with_facts(gg))


def queue_of(c, d):
    """(queue phi, init, next, location, popped element, rest) of the worklist loop"""
    W, V = d.work, d.V
    xs = {e["path"][0][1] for e in d.writes if d.variant(e["value"]) == d.v["Assigned"] and W.lid in e["ctx"] and len(e["path"]) == 1 and e["path"][0][0] == "idx"}
    for loc, (p, i, n) in W.phis.items():
        if loc[0] == d.cell or loc[1]:
            continue
        for x in xs:
            if x.op == "get" and x.args[0] is p:
                at = x.args[1]
                if at is ZERO:
                    rest = [slice_(p, ONE, slen(p)), mk("tail", p)]
                    left = ile(ONE, slen(p))
                elif at is isub(slen(p), ONE):
                    rest = [pop_init(p)]
                    left = ile(ONE, slen(p))
                elif at is W.k:
                    rest = [p]
                    left = ilt(W.k, slen(p))
                else:
                    continue
                return p, i, n, loc, x, rest, left
            if x.op == "last" and x.args[0] is p:
                return p, i, n, loc, x, [pop_init(p)], ile(ONE, slen(p))
    raise Unsupported("worklist of the growing loop not found (%s)" % ", ".join(show(x, 3) for x in xs)[:150])


def sr_args(c, d, key):
    """every radius search uses the whole dataset, the given metric and the given radius"""
    for j, e in enumerate(x for x in d.r.events if x["kind"] == "call" and x["name"] == SRN):
        t, p, eps = e["args"]
        if t.op == "app" and t.args[0] == TREE:
            c.same(key + "/search%d/data" % j, d.f, "points searched", t.args[1], d.D)
            c.same(key + "/search%d/metric" % j, d.f, "metric of the search", t.args[2], d.metric)
        elif t.op == "adt" and t.args[0].endswith("LinearSearch"):
            c.same(key + "/search%d/data" % j, d.f, "points searched", fld(t, field_index(c, "LinearSearch", "dataset")), d.D)
            c.same(key + "/search%d/metric" % j, d.f, "metric of the search", fld(t, field_index(c, "LinearSearch", "metric")), d.metric)
        else:
            c.undec(key + "/search%d/data" % j, "search structure %s" % show(t, 4)[:150])
        c.same(key + "/search%d/radius" % j, d.f, "radius searched", d.V(eps), d.eps)


def seq_parts(d, S, V):
    """[(guard, element, position symbol, count)] of an initial worklist"""
    if S.op == "lit":
        return [(TRUE, x, None, None) for x in S.args]
    if S.op == "comp":
        j = mk("sym", "q0")
        m = {S.args[0]: j}
        return [(subst(S.args[2], m), subst(S.args[3], m), j, S.args[1])]
    if S.op in ("push",):
        a = seq_parts(d, S.args[0], V)
        return None if a is None else a + [(TRUE, S.args[1], None, None)]
    if S.op == "cat":
        a, b = seq_parts(d, S.args[0], V), seq_parts(d, S.args[1], V)
        return None if a is None or b is None else a + b
    if S is EMPTY:
        return []
    return None


def labelling(c, full):
    """obligations on how labels are given; full: also those of density reachability"""
    d = Density(c)
    f, r, V = d.f, d.r, d.V
    key = c.prop + "/label"
    LO, W = d.scan, d.work
    c.same(key + "/initial", f, "label of every point at the beginning", d.init, mk("repeat", adt(d.lp, d.v["Undefined"]), d.n))
    c.same(key + "/scan", f, "number of points scanned", LO.trip if LO.trip is not None else mk("sym", "kx", LO.lid), d.n, with_facts([d.nonempty])[0])
    if LO.trip is not None and len(LO.exits) > 1:
        c.undec(key + "/scan/exit", "the scan may end early")
    before_rule(c, d, key)
    lphi = d.labels[0]
    lk = sget(lphi, d.k)
    SK = d.neighbors(sget(d.D, d.k))
    # ---- numbers
    Q, q0, qn, qloc, x, rests, left = queue_of(c, d)
    pay_ = {e["value"].args[2] for e in d.writes if d.variant(e["value"]) == d.v["Assigned"]}
    C = None
    cands = [x_ for x_ in pay_ if any(p is x_ for loc, (p, i, n) in LO.phis.items())]
    if len(cands) == 1:
        C = cands[0]
        for o in pay_ - {C}:
            if known(V(o)) is None:
                c.viol(key + "/number/other", c.at(f), "a point is assigned to the cluster number %s instead of the number of the cluster that grows" % show(V(o), 4)[:150])
            else:
                c.undec(key + "/number/other", "cluster number %s" % show(V(o), 4)[:150])
    cnt = [(loc, p, i, n) for loc, (p, i, n) in LO.phis.items() if p is C]
    off = ZERO
    if not cnt and len(pay_) == 1:
        # a number counted from another origin, or one that depends on more than the counter
        pay = next(iter(pay_))
        ints = [(loc, p, i, n) for loc, (p, i, n) in LO.phis.items() if i.op == "int" and any(y is p for y in subterms(pay))]
        for one in ints if len(ints) == 1 else []:
            offs = {}
            for fa in with_facts([V(ilt(d.k, d.n)), V(W.guard)]):
                for f2, (t,) in Comparer().cases((V(isub(pay, one[1])),), fa):
                    if t.op != "int" or any(unknown_in(q) is not None for q, _ in f2.trail):
                        offs = None
                        break
                    if f2.confirm():
                        offs.setdefault(t, f2)
                if offs is None:
                    break
            if offs and len(offs) == 1:
                off = next(iter(offs))
                cnt, C = [one], one[1]
            elif offs:
                (a, fa), (b, fb) = list(offs.items())[:2]
                c.viol(key + "/number/next", c.at(f), "the number of a cluster is not always the next one: the counter plus %s when %s, plus %s when %s" % (show(a), fa.show()[:200], show(b), fb.show()[:200]))
                return d, None
    if not cnt:
        # a value computed from the state of the scan
        c.undec(key + "/number", "cluster number is %s" % (show(C, 4)[:150] if C is not None else "not unique"))
        return d, None
    _, _, ci, cn_ = cnt[0]
    c.same(key + "/number/first", f, "number of the first cluster", iadd(ci, off), ZERO)
    base = [ilt(d.k, d.n)]
    start_guard = W.guard
    started = V(start_guard)
    for nm, g, want in (("started", W.guard, iadd(C, ONE)), ("none", neg(W.guard), C)):
        for fa in with_facts([V(t) for t in base + [g]]):
            c.same(key + "/number/" + nm, f, "next cluster number when %s" % ("a cluster was grown" if nm == "started" else "no cluster was grown"), V(cn_), V(want), fa)
    # ---- visited points
    lnext = d.labels[2]
    und = [d.isl(lk, "Undefined")]
    out_w = FALSE
    for e in d.writes:
        if d.variant(e["value"]) == d.v["Outlier"]:
            if e["ctx"] == (LO.lid,) and e["path"] == (("idx", d.k),):
                out_w = disj(out_w, e["guard"])
            elif not known(V(full_guard(r, e)), V(e["path"][0][1])):
                c.viol(key + "/outlier", c.at(f), "a point other than the one visited is labelled an outlier: %s" % show(V(e["path"][0][1]), 4)[:200])
            else:
                c.undec(key + "/outlier", "a point other than the one visited is labelled an outlier")
        if d.variant(e["value"]) == d.v["Undefined"]:
            old = e.get("before")
            keeps = isinstance(old, T) and e["path"] and e["path"][0][0] == "idx" and e["ctx"] != (LO.lid,) and not any(fa.confirm() for fa in with_facts([V(e["guard"]), V(d.isl(sget(old, e["path"][0][1]), "Assigned"))]))
            if keeps:
                # an unassigned label may be taken back before the group that covers it is grown
                c.undec(key + "/reset", "an unassigned label is reset when %s" % show(V(e["guard"]), 5)[:300])
            else:
                c.viol(key + "/reset", c.at(f), "a label is reset when %s" % show(V(e["guard"]), 5)[:300])
    must(c, key + "/visited", f, "an unlabelled point visited becomes an outlier or starts a cluster", base + und, disj(out_w, W.guard), V=V)
    if full:
        if SK is None:
            c.undec(key + "/core", "the neighbors of the visited point were not found")
        else:
            core = ile(d.minp, slen(SK))
            must(c, key + "/start/if", f, "an unvisited core point starts a cluster", base + und + [core], W.guard, V=V)
            must(c, key + "/start/only", f, "only a core point starts a cluster", base + [W.guard], core, V=V)
            must(c, key + "/start/unassigned", f, "a cluster starts at a point that is in no cluster", base + [W.guard], neg(d.isl(lk, "Assigned")), V=V)
            must(c, key + "/outlier/only", f, "only a non-core point becomes an outlier", base + [out_w], neg(core), V=V)
    # ---- worklist
    L = W.phis.get((d.cell, ()))
    if L is None:
        c.undec(key + "/grow", "the growing loop does not change labels")
        return d, None
    ell = L[0]
    lx = sget(ell, x)
    stop = FALSE
    for t, g in W.exits:
        stop = disj(stop, g)
    must(c, key + "/grow/end", f, "growing ends only when no reached point is left", [left], neg(stop), V=V)
    asg = FALSE
    for e in d.writes:
        if d.variant(e["value"]) == d.v["Assigned"]:
            if e["path"] == (("idx", x),) and e["ctx"] == (LO.lid, W.lid):
                asg = disj(asg, e["guard"])
            elif e["ctx"] == (LO.lid,) and e["path"] == (("idx", d.k),):
                pass
            else:
                bad = known(V(e["path"][0][1]), V(e["guard"]))
                (c.undec if bad is not None else lambda k_, t_: c.viol(k_, c.at(f), t_))(key + "/grow/other", "a point other than the one taken from the worklist is assigned: %s" % show(V(e["path"][0][1]), 5)[:200])
    must(c, key + "/grow/assign", f, "a point taken from the worklist that is in no cluster joins the cluster", [left, neg(d.isl(lx, "Assigned"))], asg, V=V)
    # rest of the worklist stays
    bad = None
    for g, t in leaves(qn):
        b = t
        for _ in range(20):
            if b.op in ("push", "cat"):
                b = b.args[0]
            elif b.op == "fin" and b.args[0] in r.loops:
                I = r.loops[b.args[0]]
                z = [(p, i, n) for lc, (p, i, n) in I.phis.items() if p.args[1] == b.args[1]]
                if not z or not all(grows_from(v, z[0][0]) for _, v in leaves(z[0][2])):
                    break
                b = z[0][1]
            else:
                break
        for fa in with_facts([V(left), V(g)]):
            bb = [y for _, (y,) in Comparer().cases((V(b),), fa)]
            for y in bb:
                if not any(Comparer().equal(y, V(rt), fa)[0] == "eq" for rt in rests):
                    bad = bad or (fa, y)
    if bad is None:
        c.held(key + "/grow/rest", "no reached point is dropped from the worklist")
    else:
        q = Comparer().equal(bad[1], V(rests[0]), bad[0])
        if q[0] == "ne" and not any(s.op in compare.SEQ_OPS | {"app"} for s in [bad[1]]):
            c.viol(key + "/grow/rest", c.at(f), "the worklist continues with %s" % show(bad[1], 5)[:200])
        else:
            c.undec(key + "/grow/rest", "the worklist continues with %s" % show(bad[1], 5)[:200])
    # ---- initial worklist
    parts = seq_parts(d, q0, V)
    if parts is None:
        parts = built_by(c, d, q0)
    okq = True
    if parts is None:
        c.undec(key + "/seed", "the first points of a cluster are %s" % show(q0, 4)[:200])
        okq = None
    else:
        all_in, has_k = FALSE, FALSE
        jj = mk("sym", "q0")
        for g, e, j, cntr in parts:
            if e is d.k:
                has_k = disj(has_k, g)
                continue
            nb = d.index_in(e)
            off = isub(nb[1], j) if nb is not None and j is not None else None
            if nb is not None and nb[0] is SK and off is not None and off.op == "int" and off.args[0] > 0:
                c.viol(key + "/seed", c.at(f), "the first %d neighbors of the first point of a cluster are left out" % off.args[0])
                okq = None
                continue
            if nb is None or nb[0] is not SK or nb[1] is not j:
                if known(V(e)) is None and full:
                    c.viol(key + "/seed/member", c.at(f), "a cluster begins with %s, which is not found within the radius of its first point" % show(V(e), 5)[:200])
                else:
                    c.undec(key + "/seed/member", "a cluster begins with %s" % show(V(e), 5)[:200])
                okq = None
            else:
                c.same(key + "/seed/all", f, "number of neighbors the cluster begins with", cntr, slen(SK))
                all_in = disj(all_in, subst(g, {j: jj}))
        if okq:
            nv = mk("fld", mk("get", SK, jj), field_index(c, "Neighbor", "index")) if SK is not None else None
            if has_k is not TRUE or d.starts:
                fs = [ilt(jj, slen(SK))] if SK is not None else []
                rd = set(y for y in subterms(all_in) if y.op == "get" and y.args[1] is nv) if nv is not None else set()
                fs += [neg(d.isl(y, "Assigned")) for y in rd]
                must(c, key + "/seed", f, "a cluster begins with the neighbors of its first point that are in no cluster", fs, all_in, V=V)
            else:
                c.held(key + "/seed", "a cluster begins with its first point")
    # ---- pushes
    pushes = []
    for e in r.events:
        if e["ctx"][:2] != (LO.lid, W.lid) or e["kind"] not in ("push", "extend"):
            continue
        if not same_cell(e, qloc):
            continue
        if e["kind"] == "push":
            pushes.append((e, TRUE, e["value"], None, None))
        else:
            p_ = seq_parts(d, e["value"], V)
            if p_ is None:
                c.undec(key + "/grow/reach", "points are added as %s" % show(e["value"], 4)[:150])
                return d, None
            for g, v, j, cn2 in p_:
                pushes.append((e, g, v, j, cn2))
    SX = d.neighbors(sget(d.D, x))
    if full:
        for e in r.events:
            if e["kind"] == "call" and e["name"] == SRN and W.lid in e["ctx"]:
                c.same(key + "/grow/point", f, "point whose neighbors are searched while growing", V(e["args"][1]), V(sget(d.D, x)))
    if SX is None or not pushes:
        if full:
            if not pushes and SX is None and known(V(qn)) is None:
                c.viol(key + "/grow/reach", c.at(f), "no point is ever added while a cluster grows")
            else:
                c.undec(key + "/grow/reach", "the neighbors of a reached point were not found")
        return d, None
    pos = mk("sym", "nb")
    fi = field_index(c, "Neighbor", "index")
    y = mk("fld", mk("get", SX, pos), fi)
    reach, complete = FALSE, True
    for e, g, v, j, cn2 in pushes:
        nb = d.index_in(v)
        inner = [l for l in e["ctx"][2:]]
        if nb is None or nb[0] is not SX:
            if known(V(v)) is None:
                if full:
                    c.viol(key + "/grow/member", c.at(f), "a cluster is continued at %s, which is not found within the radius of the point reached" % show(V(v), 5)[:200])
            else:
                c.undec(key + "/grow/member", "a cluster is continued at %s" % show(V(v), 5)[:200])
            complete = False
            continue
        if j is None:
            J = r.loops.get(inner[0]) if len(inner) == 1 else None
            if J is None or nb[1] is not J.k or J.trip is None:
                c.undec(key + "/grow/every", "neighbors are added at position %s" % show(V(nb[1]), 4)[:100])
                complete = False
                continue
            if full:
                c.same(key + "/grow/every", f, "number of neighbors considered", J.trip, slen(SX), with_facts([V(J.guard)])[0])
            m = {J.k: pos}
            gg = conj(J.guard, e["guard"])
        else:
            if inner:
                c.undec(key + "/grow/every", "neighbors are added inside a further loop")
                complete = False
                continue
            if full:
                c.same(key + "/grow/every", f, "number of neighbors considered", cn2, slen(SX))
            m = {j: pos}
            gg = conj(g, e["guard"])
        gg = subst(gg, m)
        reach = disj(reach, gg)
    core = ile(d.minp, slen(SX))
    rng = [ilt(pos, slen(SX))]
    if full and reach is not FALSE:
        must(c, key + "/grow/core", f, "a cluster is continued only at the neighbors of a core point", rng + [left, reach], core, V=V)
    if full and complete:
        rd = reads_at(reach, y)
        for st in ("Undefined", "Marked"):
            if d.v[st] is None:
                continue
            for lb in ("Undefined", "Outlier"):
                fs = rng + [left, d.isl(lx, st), core] + [d.isl(t, lb) for t in rd]
                must(c, key + "/grow/reach/%s-%s" % (st.lower(), lb.lower()), f, "a neighbor (%s) of a reached core point (%s) is added" % (lb.lower(), st.lower()), fs, reach, V=V)
    # ---- marks
    for j, e in enumerate(d.writes):
        if d.v["Marked"] is None or d.variant(e["value"]) != d.v["Marked"]:
            continue
        v = e["path"][0][1] if len(e["path"]) == 1 else None
        kk = key + "/mark%d" % j
        if v is None:
            c.undec(kk, "mark written through %s" % (e["path"],))
            continue
        if W.lid in e["ctx"]:
            inner = e["ctx"][2:]
            same_loop = FALSE
            for e2, g2, v2, j2, c2 in pushes:
                if j2 is None and e2["ctx"] == e["ctx"] and v2 is v:
                    same_loop = disj(same_loop, e2["guard"])
                elif j2 is not None:
                    nb = d.index_in(v)
                    if nb is not None and nb[0] is SX:
                        same_loop = disj(same_loop, conj(subst(g2, {j2: nb[1]}), e2["guard"]))
            must(c, kk, f, "a point marked as reached is in the worklist", [e["guard"]], same_loop, base=with_facts([V(full_guard(r, e, W.lid))]), V=V)
        elif okq and parts is not None:
            (v2,), taken = unfilter([v])
            if v2 is not v:
                # a point out of a filtered list
                v = v2
            nb = d.index_in(v)
            if v is d.k and has_k is TRUE:
                c.held(kk, "the first point marked as reached is in the worklist")
            elif nb is not None and nb[0] is SK:
                must(c, kk, f, "a point marked as reached is in the first worklist", [e["guard"]], subst(all_in, {jj: nb[1]}), base=with_facts([V(full_guard(r, e))] + [V(t) for t in taken]), V=V)
            else:
                c.undec(kk, "mark written to %s" % show(V(v), 4)[:150])
    return d, (Q, x)


def same_cell(e, loc):
    from checks_graph import hp_cell

    h = hp_cell(e)
    return h is not None and tuple(h) == tuple(loc[0])


def grows_from(v, phi):
    while v.op in ("push", "cat"):
        v = v.args[0]
    return v is phi


def built_by(c, d, S):
    """parts of a sequence filled by a counted loop that also changes labels"""
    r = d.r
    if S.op != "fin" or S.args[0] not in r.loops:
        return None
    L = r.loops[S.args[0]]
    z = [(p, i, n) for lc, (p, i, n) in L.phis.items() if p.args[1] == S.args[1]]
    if not z or L.trip is None or not (z[0][1] is EMPTY or z[0][1].op in ("lit", "comp")):
        return None
    p, i, n = z[0]
    j = mk("sym", "q0")
    out = seq_parts(d, i, None)
    for g, v in leaves(n):
        if v is p:
            continue
        if v.op != "push" or v.args[0] is not p:
            return None
        out.append((subst(g, {L.k: j}), subst(v.args[1], {L.k: j}), j, L.trip))
    return out


def check_C07(c):
    c.rule("inductive obligations of the scan and of the worklist loop: labels start undefined; an unvisited core point (its radius search over the whole dataset with the given radius and metric returns at least the minimum number) starts a cluster numbered by the counter, any other becomes an outlier; a popped point outside every cluster joins; only core points continue the cluster, with every neighbor that is undefined or an outlier; a point of a cluster is never relabelled; marks go only to points in the worklist; the loop ends only when it is empty")
    c.assume("radius search is exact (C08); the radius is not negative, so a point is its own neighbor")
    c.part("C07/label", lambda c: labelling(c, True))
    c.part("C07/search", lambda c: sr_args(c, Density(c), "C07"))


def check_C06(c):
    c.rule("labels partition the points (every visited point becomes an outlier or starts a cluster, points in a cluster keep it, the worklist is emptied, numbers come from a counter that advances once per grown cluster); the result loop puts every point into the members of its number or into the outliers, the centroid of a number is the sum of its members divided by their count, and the accessors report exactly these")
    c.assume("the radius is not negative, so a core point is its own neighbor (C08) and every cluster grown has a member")
    c.part("C06/label", lambda c: labelling(c, False))
    c.part("C06/result", density_result)
    c.part("C06/access", density_access)
    c.part("C06/empty", density_empty)


# ---------------------------------------------------------------- result of density clustering
def loop_state(r, t):
    """(loop, loc, phi, init, next) of the final value of a loop variable"""
    if t.op != "fin":
        return None
    L = r.loops.get(t.args[0])
    if L is None:
        return None
    for loc, (p, i, n) in L.phis.items():
        if p.args[1] == t.args[1]:
            return L, loc, p, i, n
    return None


def density_result(c):
    d = Density(c)
    f, r, V = d.f, d.r, d.V
    key = "C06/result"
    fi = {x: field_index(c, "DBSCAN", x) for x in ("centroids", "membership", "outliers")}
    rets = []
    for fa in with_facts([d.nonempty]):
        for fb, (t,) in Comparer().cases((r.ret,), fa) if r.ret.op == "ite" else [(fa, (r.ret,))]:
            m_, o_ = fld(t, fi["membership"]), fld(t, fi["outliers"])
            if m_ is mk("mempty"):
                # no clusters: every point has to be an outlier
                if o_.op == "fin" or unknown_in(o_) is not None:
                    c.undec(key + "/early", "early result %s" % show(t, 4)[:150])
                else:
                    c.same(key + "/early", f, "outliers of a result without clusters", o_, comp(mk("sym", "all"), d.n, TRUE, mk("sym", "all")), fb)
                continue
            if t not in rets:
                rets.append(t)
    if len(rets) != 1:
        raise Unsupported("%d results for a non-empty dataset" % len(rets))
    ret = rets[0]
    M, O, X = fld(ret, fi["membership"]), fld(ret, fi["outliers"]), fld(ret, fi["centroids"])
    ms = loop_state(r, M)
    # labels after the scan
    fin = None
    for L in r.loops.values():
        for e in d.r.events:
            pass
    labels = {x for t in (M, O, X) for s in with_states(r, t) for x in subterms(s) if x.op == "fin" and x.args[0] == d.scan.lid and x.args[1] == d.labels[0].args[1]}
    if len(labels) != 1:
        raise Unsupported("labels used by the result: %d" % len(labels))
    lab = labels.pop()
    if ms is None or ms[0].parent:
        raise Unsupported("members are collected as %s" % show(M, 3)[:150])
    L, loc, mphi, mi, mn = ms
    k = L.k
    lk = sget(lab, k)
    c.same(key + "/members/start", f, "members before the first point", mi, mk("mempty"))
    # visits every point: the only regular exit is the end of the labels
    stop = FALSE
    for t, g in L.exits:
        stop = disj(stop, g)
    regular = disj(d.isl(lk, "Assigned"), d.isl(lk, "Outlier"))
    n_lab = slen(lab)
    fm = {n_lab: d.n, lab: mk("sym", "labels"), M: mk("sym", "members")}
    if loop_state(r, X) is not None and loop_state(r, X)[3].op == "fin":
        fm[loop_state(r, X)[3]] = mk("sym", "sums")
    memo = {}
    W = lambda t: subst(V(t), fm, memo)
    must(c, key + "/every", f, "every labelled point is put into the result", [ilt(k, d.n), regular], neg(stop), V=W)
    num_ = pay(lk, d.v["Assigned"], 0)
    old = mget(mphi, num_)
    exp_m = mset(mphi, num_, ite_g(mhas(mphi, num_), push(old, k), lit(k)))
    for nm, g, want in (("assigned", d.isl(lk, "Assigned"), exp_m), ("outlier", d.isl(lk, "Outlier"), mphi)):
        for fa in with_facts([W(ilt(k, d.n)), W(g)]):
            c.same(key + "/members/" + nm, f, "members after a point with label %s" % nm, W(mn), W(want), fa)
    # outliers
    ofa = with_facts([V(ilt(ZERO, d.n))])[0]
    i = mk("sym", "o")
    if O.op == "comp":
        b = O.args[0]
        c.same(key + "/outliers/count", f, "points looked at for outliers", W(O.args[1]), d.n)
        m = {b: i}
        for nm, want in (("Assigned", FALSE), ("Outlier", TRUE)):
            for fa in with_facts([W(d.isl(sget(lab, i), nm)), ilt(i, d.n)]):
                c.same(key + "/outliers/" + nm.lower(), f, "a point labelled %s is listed as an outlier" % nm, bool_term(W(subst(O.args[2], m))), bool_term(want), fa)
        c.same(key + "/outliers/index", f, "index listed for an outlier", W(subst(O.args[3], m)), i)
    else:
        os_ = loop_state(r, O)
        if os_ is None or os_[0] is not L:
            c.undec(key + "/outliers", "outliers are collected as %s" % show(O, 3)[:150])
        else:
            _, _, op_, oi, on = os_
            c.same(key + "/outliers/start", f, "outliers before the first point", oi, EMPTY)
            for nm, g, want in (("assigned", d.isl(lk, "Assigned"), op_), ("outlier", d.isl(lk, "Outlier"), push(op_, k))):
                for fa in with_facts([W(ilt(k, d.n)), W(g)]):
                    c.same(key + "/outliers/" + nm, f, "outliers after a point with label %s" % nm, W(on), W(want), fa)
    # centroids
    xs = loop_state(r, X)
    if xs is None:
        c.undec(key + "/mean", "centroids are computed as %s" % show(X, 3)[:150])
        return
    L2, loc2, xphi, xi, xn = xs
    kk = L2.k
    ss = loop_state(r, xi)
    if ss is not None and ss[0] is L:
        _, _, sphi, si, sn = ss
        c.same(key + "/sum/start", f, "sums before the first point", si, mk("mempty"))
        dk = sget(d.D, k)
        for nm, g in (("assigned", d.isl(lk, "Assigned")), ("outlier", d.isl(lk, "Outlier"))):
            want = mset(sphi, num_, ite_g(mhas(sphi, num_), psum(mget(sphi, num_), dk), dk)) if nm == "assigned" else sphi
            for fa in with_facts([W(ilt(k, d.n)), W(g)]):
                c.same(key + "/sum/" + nm, f, "sum of a cluster after a point with label %s" % nm, W(sn), W(want), fa)
        # division: over all keys of the sums, or of the members (the same keys)
        # (the same keys, in the same order)
        xn, trip = [same_keys(x, M, xi) if x is not None else None for x in (xn, L2.trip)]
        used = {z for z in subterms(xn) if z.op == "keyat"}
        q = used.pop() if len(used) == 1 else None
        if q is None and xn is not None and xn.op == "mset" and xn.args[1] in used:
            q = xn.args[1]
        back = isub(mcard(xi), iadd(kk, ONE))
        if not used and q is None and trip is not None and mget(M, kk) in set(subterms(xn)):
            # by number: every number below the count of grown clusters
            C = {e["value"].args[2] for e in d.writes if d.variant(e["value"]) == d.v["Assigned"]}
            C = {z for z in C if any(z is p_ for p_, _, _ in d.scan.phis.values())}
            C = C.pop() if len(C) == 1 else None
            F = [z for z in subterms(trip) if C is not None and (z.op == "fin" and z.args[0] == d.scan.lid and z.args[1] == C.args[1] or any(z is m.get(C) for m in d.scan.closed.values()))]
            if len(set(F)) == 1:
                N = mk("sym", "clusters")
                for fa in with_facts([ile(ZERO, N)]):
                    c.same(key + "/mean/every", f, "number of clusters whose sum is divided", W(subst(trip, {F[0]: N})), N, fa)
                want = mset(xphi, kk, pdiv(mget(xphi, kk), tof(slen(mget(M, kk)))))
                for fa in with_facts([W(t) for t in [mhas(M, kk), mhas(xphi, kk), mhas(xi, kk)]]):
                    c.same(key + "/mean", f, "centroid of a cluster", W(xn), W(want), fa)
                return
        if q is None or trip is None or q.args[0] is not xi or not (q.args[1] is kk or q.args[1] is back):
            c.undec(key + "/mean", "division step %s" % show(V(xn), 4)[:200])
            return
        c.same(key + "/mean/every", f, "number of clusters whose sum is divided", W(trip), W(mcard(xi)))
        want = mset(xphi, q, pdiv(mget(xphi, q), tof(slen(mget(M, q)))))
        fs = [mhas(M, q), mhas(xphi, q), mhas(xi, q)]
        for fa in with_facts([W(t) for t in fs]):
            c.same(key + "/mean", f, "centroid of a cluster", W(xn), W(want), fa)
        return
    if xi is mk("mempty") and L2.trip is not None:
        # computed from the finished lists of members
        q = mk("keyat", M, kk)
        ent = sget(mk("ments", M), kk)
        xn2 = subst(xn, {fld(ent, 0): q, fld(ent, 1): mget(M, q)})
        ch = mget(M, q)
        b = mk("sym", "child")
        total = terms.sum_(b, slen(ch), TRUE, sget(d.D, sget(ch, b)))
        c.same(key + "/mean/every", f, "number of centroids computed", W(L2.trip), W(mcard(M)))
        want = mset(xphi, q, pdiv(total, tof(slen(ch))))
        for fa in with_facts([W(t) for t in [mhas(M, q), ilt(kk, mcard(M))]]):
            c.same(key + "/mean", f, "centroid of a cluster", W(xn2), W(want), fa)
        return
    c.undec(key + "/mean", "centroids are computed as %s" % show(V(xn), 4)[:200])


def same_keys(t, M, X):
    """t with the entries, keys and values of two maps of the same keys named by the keys of X"""
    m = {mcard(M): mcard(X)}
    t = subst(t, m)
    m = {}
    for z in subterms(t):
        for Y in (M, X):
            if z.op == "get" and z.args[0].args and z.args[0].args[0] is Y:
                q = mk("keyat", X, z.args[1])
                if z.args[0].op == "ments":
                    m[fld(z, 0)] = q
                    m[fld(z, 1)] = mget(Y, q)
                elif z.args[0].op == "mkeys":
                    m[z] = q
                elif z.args[0].op == "mvals":
                    m[z] = mget(Y, q)
            if z.op == "keyat" and z.args[0] is Y and Y is not X:
                m[z] = mk("keyat", X, z.args[1])
    return subst(t, m) if m else t


def ite_g(g, a, b):
    return ite(g, a, b) if g.op not in ("true", "false") and g.op != "ite" else lift_g(g, a, b)


def lift_g(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    return ite(g.args[0], lift_g(g.args[1], a, b), lift_g(g.args[2], a, b))


def psum(a, b):
    return mk("fadd", a, b)


def pdiv(a, b):
    return mk("fdiv", a, b)


def with_states(r, t):
    """the term, and the steps of the loops it is the result of"""
    out, work, seen = [], [t], set()
    while work:
        t = work.pop()
        out.append(t)
        for x in subterms(t):
            if x.op == "fin" and x not in seen:
                seen.add(x)
                s = loop_state(r, x)
                if s:
                    work += [s[3], s[4]]
    return out


def density_access(c):
    key = "C06/access"
    fi = {x: field_index(c, "DBSCAN", x) for x in ("centroids", "membership", "outliers")}
    f = c.P.find_fn("DBSCAN::centroids")
    r = c.analyze(f)
    X = fld(r.args[0], fi["centroids"])
    listed(c, key + "/centroids", f, r.ret, X)
    f = c.P.find_fn("DBSCAN::count_at")
    r = c.analyze(f)
    M, i = fld(r.args[0], fi["membership"]), r.args[1]
    for nm, g, want in (("known", mhas(M, i), slen(mget(M, i))), ("unknown", neg(mhas(M, i)), ZERO)):
        for fa in with_facts([g]):
            c.same(key + "/count/" + nm, f, "size reported for %s number" % ("a known" if nm == "known" else "an unknown"), r.ret, want, fa)
    f = c.P.find_fn("DBSCAN::outliers")
    r = c.analyze(f)
    c.same(key + "/outliers", f, "outliers reported", r.ret, fld(r.args[0], fi["outliers"]))


def listed(c, key, f, ret, X):
    """values of a map in the order of their keys"""
    for x in subterms(ret):
        if x.op in ("hmvals", "hments", "hmkeys"):
            if any(y.op == "sorted" for y in subterms(ret)):
                c.undec(key, "centroids listed as %s" % show(ret, 4)[:200])
            else:
                c.viol(key, c.at(f), "centroids are listed in the iteration order of a hash map, not in the order of the cluster numbers")
            return
    c.same(key, f, "centroids listed", ret, mk("mvals", X))


def without_points(r, t, D, depth=0):
    """the value of t for an empty dataset: loops that make no pass leave their states as they were"""
    m = {D: EMPTY}
    t = subst(t, m)
    if depth > 8:
        return t
    go = lambda x: without_points(r, x, D, depth + 1)
    for x in [x for x in subterms(t) if x.op == "fin" and x.args[0] in r.loops]:
        L = r.loops[x.args[0]]
        st = [i for p, i, n in L.phis.values() if p.args[1] == x.args[1]]
        if len(st) != 1:
            continue
        none = L.trip is not None and go(L.trip) is ZERO
        if not none and len(x.args) > 2 and isinstance(x.args[2], int) and x.args[2] < len(L.exits):
            first = {L.k: ZERO, **{p: go(i) for p, i, n in L.phis.values()}}
            none = subst(go(L.exits[x.args[2]][1]), first) is TRUE
        if none:
            m[x] = go(st[0])
    return subst(t, m) if len(m) > 1 else t


def density_empty(c):
    d = Density(c)
    fi = {x: field_index(c, "DBSCAN", x) for x in ("centroids", "membership", "outliers")}
    for fa in with_facts([ieq(d.n, ZERO)]):
        for t in [t for _, (t,) in Comparer().cases((without_points(d.r, d.r.ret, d.D),), fa)]:
            for nm, want in (("centroids", mk("mempty")), ("membership", mk("mempty")), ("outliers", EMPTY)):
                c.same("C06/empty/" + nm, d.f, nm + " of an empty dataset", fld(t, fi[nm]), want, fa)
