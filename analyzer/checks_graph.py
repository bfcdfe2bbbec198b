"""C17, C18, C19: spanning tree, hierarchy and disjoint sets."""
from loops import *
from checks_num import adt_info, rejects, fail_cond


def field_index(c, ty, name):
    p, info = adt_info(c, ty)
    for i, (n, t, v) in enumerate(info["variants"][0]["fields"]):
        if n == name:
            return i
    raise Lost("field %s of %s" % (name, ty))


# ---------------------------------------------------------------- disjoint sets
def check_C19(c):
    c.rule("new: parent[i]=i for all labels, size 1 for the first n, room for n-1 merges; find: every path-following loop steps to the parent, the result satisfies parent[x]=x at loop exit, and every write moves an element of the chain to its root or to an ancestor; union: exactly parent[x], parent[y], size[next] and next change, to the fresh label, the sum and next+1")
    c.assume("union is given two distinct current labels below the next label")
    iP, iS, iN = (field_index(c, "UnionFind", n) for n in ("parent", "size", "next_label"))
    f = c.P.find_fn("UnionFind::new")
    r = c.analyze(f)
    n = r.args[0]
    i = mk("sym", "i")
    par, siz, nxt = (fld(r.ret, j) for j in (iP, iS, iN))
    for fa in with_facts([ile(ONE, n)]):
        c.same("C19/new/next", f, "first fresh label", nxt, n, fa)
        c.valid("C19/new/room", f, "parents for n groups and n-1 merges", ile(iadd(n, iadd(n, num(-1))), slen(par)), facts=fa)
        c.valid("C19/new/sizes", f, "sizes for n groups and n-1 merges", ile(iadd(n, iadd(n, num(-1))), slen(siz)), facts=fa)
    for fa in with_facts([ile(ONE, n), ilt(i, slen(par))]):
        c.same("C19/new/parent", f, "initial label of element i", sget(par, i), i, fa)
    for fa in with_facts([ile(ONE, n), ilt(i, n)]):
        c.same("C19/new/size", f, "initial size of element i", sget(siz, i), ONE, fa)
    # union
    f = c.P.find_fn("UnionFind::union")
    r = c.analyze(f)
    b, o = r.before("a1"), r.out("a1")
    x, y = r.args[1], r.args[2]
    P0, S0, N0 = (fld(b, j) for j in (iP, iS, iN))
    P1, S1, N1 = (fld(o, j) for j in (iP, iS, iN))
    pre = [ilt(x, N0), ilt(y, N0), neg(ieq(x, y)), ilt(N0, slen(P0)), ilt(N0, slen(S0)), ilt(i, slen(P0)), ilt(i, slen(S0))]
    tot = iadd(sget(S0, x), sget(S0, y))
    for j, fa in enumerate(with_facts(pre)):
        c.same("C19/union/parent/%d" % j, f, "parent of element i after union", sget(P1, i), ite(disj(ieq(i, x), ieq(i, y)), N0, sget(P0, i)), fa)
        c.same("C19/union/size/%d" % j, f, "size of element i after union", sget(S1, i), ite(ieq(i, N0), tot, sget(S0, i)), fa)
        c.same("C19/union/next/%d" % j, f, "next fresh label after union", N1, iadd(N0, ONE), fa)
        c.same("C19/union/total/%d" % j, f, "returned size", r.ret, tot, fa)
    # find
    f = c.P.find_fn("UnionFind::find")
    r = c.analyze(f)
    find_rules(c, f, r, iP, iS, iN)


def find_rules(c, f, r, iP, iS, iN):
    b, o = r.before("a1"), r.out("a1")
    x = r.args[1]
    P0 = fld(b, iP)
    # a nested lookup obeys the same rules (induction over the length of the chain)
    recs = {t for y in [r.ret, o] + [e["value"] for e in r.events if e["kind"] == "write"] for t in subterms(y) if t.op == "app" and str(t.args[0]).startswith("rec:") and str(t.args[0]).rstrip("!0").endswith("::find")}
    found = {t for t in recs if not t.args[0].endswith("!0")}
    after = {t: t.args[1] for t in recs if t.args[0].endswith("!0")}
    for nm, j in (("size", iS), ("next", iN)):
        c.same("C19/find/%s" % nm, f, "%s after a lookup" % nm, subst(fld(o, j), {fld(t, j): fld(S, j) for t, S in after.items()}), fld(b, j))
    # the versions of the parent array: initial and loop states of that field
    versions = {P0} | {fld(t, iP) for t in after}
    for L in r.loops.values():
        for loc, (p, i, n) in L.phis.items():
            if loc[0] == ("arg", "a1") and (loc[1] == (("f", iP),)):
                versions.add(p)
                for j in range(len(L.exits)):
                    versions.add(L.closed.get(j, {}).get(p, p))
            elif loc[0] == ("arg", "a1") and loc[1] == ():
                versions.add(fld(p, iP))

    def is_ver(t):
        while t.op == "setat":
            t = t.args[0]
        return t in versions

    phis = {p: (L, loc, i, n) for L in r.loops.values() for loc, (p, i, n) in L.phis.items()}
    fins = {L.closed.get(j, {}).get(p, p): p for L in r.loops.values() for loc, (p, i, n) in L.phis.items() for j in range(len(L.exits))}
    fins = {t: p for t, p in fins.items() if t.op == "fin"}

    def chain(t, seen=frozenset()):
        """t lies on the parent chain of x"""
        t2 = fins.get(t, t)
        if t2 in seen or t2 is x:
            return True
        if t2 in found:
            return is_ver(fld(t2.args[1], iP)) and chain(t2.args[2], seen)
        if t2 in phis:
            L, loc, i, n = phis[t2]
            s = seen | {t2}
            return all(chain(y, s) for _, y in leaves(i)) and all(chain(y, s) for _, y in leaves(n))
        if t2.op == "get" and is_ver(t2.args[0]):
            return chain(t2.args[1], seen)
        if t2.op == "ite":
            return all(chain(y, seen) for _, y in leaves(t2))
        return False

    if r.ret is None:
        c.viol("C19/find/return", c.at(f), "never returns")
        return
    # the result is a fixed point of the parent relation when its loop ends
    roots = set()
    for g, t in leaves(r.ret):
        if not chain(t):
            u = unknown_in(subst(t, phis_to_syms(r)))
            if u is None or t is x or t.op in ("int", "lin", "get"):
                c.viol("C19/find/chain", c.at(f), "returns %s, which is not on the element's parent chain" % show(t, 6)[:200])
            else:
                c.undec("C19/find/chain", "result %s not recognised" % show(t, 5)[:200])
            continue
        ok = None
        t2 = t
        if t in fins:
            p = fins[t]
            L = phis[p][0]
            j = t.args[2]
            ok = fixed_at_exit(L, j, p, is_ver)
        elif t in found:
            ok = True
        elif t is x:
            ok = all(any(a.op == "eq0" and v and a in (ieq(q, x).args[0] for q in (sget(w, x) for w in versions) if ieq(q, x).op == "ite") for a, v in fa.trail) for fa in with_facts([g]))
        elif t.op == "get" and t.args[1] in fins and t.args[1].op == "fin":
            q = t.args[1]
            p = fins[q]
            L = phis[p][0]
            ok = True if fixed_at_exit(L, q.args[2], p, is_ver) else None
        roots.add(t)
        if ok:
            c.held("C19/find/root", "the lookup ends where parent[%s]=%s" % (show(t, 3), show(t, 3)))
        elif ok is False:
            c.viol("C19/find/root", c.at(f), "the returned %s need not be its own parent when the lookup ends" % show(t, 5)[:200])
        else:
            c.undec("C19/find/root", "end condition for %s not recognised" % show(t, 5)[:200])
    # writes
    nw = 0
    for e in r.events:
        if e["kind"] == "write" and tuple(e["cell"]) == ("arg", "a1") and e["path"] and tuple(e["path"][0]) == ("f", iP):
            nw += 1
            idx = e["path"][1][1] if len(e["path"]) > 1 and e["path"][1][0] == "idx" else None
            val = e["value"]
            key = "C19/find/write/%d" % nw
            if idx is None:
                c.undec(key, "write shape")
                continue
            bad = und = None
            for g, v in leaves(val):
                if v in roots or v.op == "fin" and fins.get(v) in [fins.get(q) for q in roots]:
                    continue
                if v.op == "get" and is_ver(v.args[0]) and chain(v) and chain(idx):
                    # an ancestor of the element: parent of (parent of) the element
                    w = v
                    okk = False
                    while w.op == "get" and is_ver(w.args[0]):
                        w = w.args[1]
                        if w is idx:
                            okk = True
                    if okk:
                        continue
                    bad = v
                elif v in phis or v is x or v.op in ("int", "lin"):
                    bad = v
                else:
                    und = v
            if not chain(idx):
                bad = bad or idx
            if bad is not None:
                c.viol(key, c.at(f), "writes parent[%s] = %s, which is not the element's root or ancestor" % (show(idx, 4)[:120], show(val, 4)[:120]))
            elif und is not None:
                c.undec(key, "written value %s" % show(und, 4)[:150])
            else:
                c.held(key, "parent[chain element] = root or ancestor")


def fixed_at_exit(L, j, p, is_ver):
    """does leaving the loop by exit j imply parent[p] = p ?  True / False / None"""
    g = L.exits[j][1]
    ok = None
    for fa in with_facts([g]):
        hit = False
        for a, v in fa.trail:
            if a.op == "eq0" and v:
                ks = to_lin(a.args[0])
                d = ks[1]
                if ks[0] == 0 and len(d) == 2 and set(abs(k) for k in d.values()) == {1} and p in d:
                    o = [t for t in d if t is not p][0]
                    if o.op == "get" and is_ver(o.args[0]) and o.args[1] is p and d[o] == -d[p]:
                        hit = True
        if not hit:
            return False
        ok = True
    return ok


# ---------------------------------------------------------------- spanning tree
def check_C17(c):
    c.rule("Prim's algorithm, per construct: every candidate edge joins the vertex attached last to a vertex not attached, with the weight of exactly these end points, for every such vertex; the queue is kept between rounds and its top is taken; an edge is taken exactly when its far end is not attached, and then that vertex is attached, the edge recorded and its weight added; rounds go on exactly until all vertices are attached")
    c.assume("the queue yields the lightest edge first (C16)")
    f = c.P.find_fn("MinimumSpanningTree::build")
    r = c.analyze(f)
    iE, iW = field_index(c, "MinimumSpanningTree", "edges"), field_index(c, "MinimumSpanningTree", "weight")
    eu, ev, ew = (field_index(c, "WeightedEdge", n) for n in ("u", "v", "weight"))
    nv = slen(r.args[0])
    if r.ret is None:
        c.viol("C17/return", c.at(f), "never returns")
        return
    for fa in with_facts([ieq(nv, ZERO)]):
        c.same("C17/empty/weight", f, "weight of the empty tree", fld(r.ret, iW), F0, fa)
        c.same("C17/empty/edges", f, "edges of the empty tree", fld(r.ret, iE), EMPTY, fa)
    V = View(r)
    pops = [e for e in r.events if e["kind"] == "pop" and e.get("heap")]
    ep = [e for e in r.events if e["kind"] == "push" and not e.get("heap") and any(t.op == "htop" for t in subterms(e["value"]))]
    heaps = {hp_cell(e) for e in pops}
    if len(heaps) != 1 or not ep or len({hp_cell(e) for e in ep}) != 1:
        c.undec("C17/shape", "no queue of candidate edges: another algorithm")
        return
    heap = heaps.pop()
    # the loop that takes edges from the queue, and the rounds around it
    lps = {e["ctx"][-1] for e in pops if e["ctx"] and any(loc[0] == heap for loc in r.loops[e["ctx"][-1]].phis)}
    lps = {l for l in lps if not any(l in r.loops[m].parent for m in lps)}
    if len(lps) != 1:
        c.undec("C17/shape", "%d loops take candidates from the queue" % len(lps))
        return
    LP = r.loops[lps.pop()]
    if len(LP.parent) != 1:
        c.undec("C17/shape", "the queue is not worked off in rounds")
        return
    LO = r.loops[LP.parent[0]]
    el = [loc for loc in LO.phis if loc[0] == hp_cell(ep[0])]
    hl = [loc for loc in LO.phis if loc[0] == heap]
    H = [p for loc, (p, i, n) in LP.phis.items() if loc[0] == heap][0]
    if len(el) != 1:
        c.undec("C17/shape", "recorded edges")
        return
    prim = Prim(c, f, r, V, LO, LP, H, hl, el[0], heap, (eu, ev, ew), nv)
    prim.result(fld(r.ret, iE), fld(r.ret, iW))
    if prim.roles_ok():
        c.part("C17/steps", lambda _: prim.steps())
        c.part("C17/candidates", lambda _: prim.candidates())
        c.part("C17/rounds", lambda _: prim.rounds())


class Prim:
    """the rounds of the algorithm as a transition system over the state of the outer loop"""

    def __init__(self, c, f, r, V, LO, LP, H, hl, eloc, heap, ix, nv):
        self.c, self.f, self.r, self.V, self.LO, self.LP, self.H, self.heap, self.nv = c, f, r, V, LO, LP, H, heap, nv
        self.hl, self.eloc = hl, eloc
        self.eu, self.ev, self.ew = ix
        self.E = mk("sym", "edge")
        self.st = {"E": eloc}
        self.counted = []

    def result(self, e, w):
        """the reported tree is the recorded edges with the running total or their sum"""
        c, f, LO = self.c, self.f, self.LO
        for fa in with_facts([ile(ONE, self.nv)]):
            for fa2, (e1, w1) in cases_of((e, w), fa):
                ends = {}
                for j in range(len(LO.exits)):
                    for loc, (p, i, n) in LO.phis.items():
                        v = LO.closed.get(j, {}).get(p)
                        if v is not None:
                            ends[v] = (loc, p)
                edone = [v for v, (loc, p) in ends.items() if loc == self.eloc]
                if e1 not in edone:
                    q = mk("sym", "recorded")
                    c.same("C17/result/edges", f, "edges of the tree", subst(e1, {v: q for v in edone}), q, fa2)
                else:
                    c.held("C17/result/edges", "the edges of the tree are the recorded ones")
                # the sum of the weights of the recorded edges, computed afterwards
                tot = mk("sym", "total")
                m = {}
                for t in subterms(w1):
                    if t.op == "sum" and t.args[2] is TRUE:
                        for v in edone:
                            if t.args[1] in (slen(v), mk("len", v)) and Canon()(t.args[3]) in (Canon()(fld(sget(v, t.args[0]), self.ew)), Canon()(fld(mk("get", v, t.args[0]), self.ew))):
                                m[t] = tot
                if not m:
                    wl = [(v, x) for v, x in ends.items() if x[0] != self.eloc and x[1] is not self.H and (v is w1 or v.op in ("sum", "fin") and any(t is v for t in subterms(w1))) and LO.phis[x[0]][1] is F0]
                    if len(wl) == 1:
                        m[wl[0][0]] = tot
                        self.st["W"] = wl[0][1][0]
                if m:
                    c.same("C17/result/weight", f, "weight of the tree", subst(w1, m), tot, fa2)
                else:
                    c.undec("C17/result/weight", "weight %s" % show(w1, 4)[:150])

    def has(self, S, x):
        if self.is_set:
            return terms.shas(S, x)
        t = sget(S, x)
        return t if t.op in ("ite", "true", "false") else atom(t)

    def roles_ok(self):
        c, roles = self.c, self.LO.phis
        sets = [loc for loc, x in roles.items() if any(t.op == "sins" for t in subterms(x[2])) or any(t.op == "sins" for t in subterms(x[1]))]
        seqs = [loc for loc, x in roles.items() if x[2].op != "phi" and any(t.op == "setat" for t in subterms(x[2]))]
        mem = sets or seqs
        if len(mem) != 1:
            c.undec("C17/attached", "the record of attached vertices was not recognised")
            return False
        self.is_set = bool(sets)
        self.st["A"] = mem[0]
        self.A = roles[mem[0]][0]
        self.Av = self.V(self.A)
        self.lpv = dict(self.LP.phis)
        # the loop that queues candidates
        self.cand = []
        t = self.lpv[[l for l in self.lpv if self.lpv[l][0] is self.H][0]][1]
        self.H0 = t
        LI = None
        for _, x in leaves(t):
            while x.op == "hrest":
                x = x.args[0]
            if x.op != "fin" or x.args[0] not in self.r.loops:
                c.undec("C17/candidates/loop", "queue at the start of taking: %s" % show(x, 4)[:120])
                return False
            if LI is not None and LI.lid != x.args[0]:
                c.undec("C17/candidates/loop", "several loops queue candidates")
                return False
            LI = self.r.loops[x.args[0]]
        self.LI = LI
        hp = [(p, i, n) for loc, (p, i, n) in LI.phis.items() if any(v.get(p) is x for v in LI.closed.values())]
        if len(hp) != 1:
            c.undec("C17/candidates/loop", "queue of the candidate loop")
            return False
        self.hphi = hp[0]
        for g, x in leaves(hp[0][2]):
            if x is hp[0][0]:
                continue
            if x.op == "hpush" and x.args[0] is hp[0][0]:
                self.cand.append((self.V(g), self.V(x.args[1])))
            else:
                c.undec("C17/candidates/loop", "queue becomes %s" % show(x, 4)[:120])
                return False
        if len(self.cand) != 1 or self.cand[0][1].op != "adt" or len(self.cand[0][1].args) < 5:
            c.undec("C17/candidates/loop", "%d kinds of candidates" % len(self.cand))
            return False
        v = self.cand[0][1]
        self.u, self.w, self.x = v.args[2 + self.eu], v.args[2 + self.ev], v.args[2 + self.ew]
        cv = [loc for loc, x in roles.items() if self.V(x[0]) is self.u]
        if cv:
            self.st["c"] = cv[0]
        # counters in the end condition of the rounds
        for t in {t for _, g in self.LO.exits for a in atoms_of(g) for t in subterms(a) if t.op == "phi"}:
            for loc, (p, i, n) in roles.items():
                if p is t and loc not in self.st.values() and i.op == "int":
                    self.st["n%d" % len(self.counted)] = loc
                    self.counted.append(loc)
        return True

    def at_round(self, t):
        """a term of the round in terms of the state in which the queue loop is left, or of its current step"""
        m = {}
        for loc, (p, i, n) in self.lpv.items():
            for q in range(len(self.LP.exits)):
                v = self.LP.closed.get(q, {}).get(p)
                if v is not None and v.op == "fin":
                    m[v] = p
        t = subst(subst(t, m), {mk("htop", self.H): self.E})
        # what the loop keeps while it discards candidates (an obligation of its own) has the value it had before
        m = {p: i for loc, (p, i, n) in self.lpv.items() if p is not self.H and loc in self.st.values() and loc != self.st.get("c") and i is self.LO.phis[loc][0]}
        return self.V(subst(t, m))

    def dropped(self, steps):
        """a step takes the examined candidate from the queue, and others only if they end at attached vertices"""
        c, f, V, has = self.c, self.f, self.V, self.has
        hn = next(n for p, i, n in self.lpv.values() if p is self.H)
        H = V(self.H)
        j = 0
        for what, fs, nxt, left in steps:
            if left:
                if not self.hl:
                    continue
                t = self.at_round(restrict(self.LO.phis[self.hl[0]][2], self.way(j)))
                j += 1
            else:
                t = self.at_round(hn)
            for n, fa in enumerate(fs):
                for m, (fa2, (h,)) in enumerate(cases_of([t], fa)):
                    pops, x = [], h
                    while x.op == "hrest":
                        x = x.args[0]
                        pops.append(x)
                    if x is not H or not pops:
                        continue
                    for x in pops[:-1]:
                        e = mk("htop", x)
                        # attached before, or the vertex that is attached now
                        ok = disj(has(self.Av, fld(e, self.ev)), ieq(fld(e, self.ev), fld(self.E, self.ev)))
                        c.valid("C17/dropped/%s/%d.%d" % (what.replace(" ", "-"), n, m), f, "%s: a further candidate taken from the queue ends at an attached vertex" % what, ok, facts=fa2, when=neg(ieq(hlen(x), ZERO)))

    def way(self, j):
        """the queue loop is left by exit j"""
        ex = {}
        for g in [nx for p, i_, nx in self.LO.phis.values()] + [g for _, g in self.LO.exits]:
            for t in subterms(g):
                if t.op == "exit" and t.args[0] == self.LP.lid:
                    ex[t.args[1]] = t
        way = TRUE
        for q, a in ex.items():
            way = conj(way, atom(a) if q == j else neg(atom(a)))
        return way

    def steps(self):
        c, f, LO, LP, V = self.c, self.f, self.LO, self.LP, self.V
        roles = LO.phis
        E, has, Av = self.E, self.has, self.Av
        vx = fld(E, self.ev)
        i = mk("sym", "i")
        some = self.at_round(ile(ONE, terms.hlen(self.H)))
        ehas = has(Av, vx)
        idle = disj(neg(some), ehas)
        # candidates removed elsewhere than where the next edge is taken
        n = 0
        for e in self.r.events:
            if e["kind"] == "pop" and e.get("heap") and e["ctx"][-1:] != (LP.lid,):
                n += 1
                w_ = mk("sym", "removed")
                g = V(subst(full_guard(self.r, e, LO.lid), {mk("htop", e["value"]): w_}))
                g = subst(g, {t: mk("sym", "left%d" % q) for q, t in enumerate(sorted({t for a in atoms_of(g) for t in subterms(a) if t.op == "fin"}, key=lambda t: t.id))})
                c.valid("C17/removed/%d" % n, f, "a candidate removed from the queue ends at an attached vertex", has(Av, fld(w_, self.ev)), when=g)
        steps = []
        for j, (t, g) in enumerate(LP.exits):
            way = self.way(j)
            on = self.at_round(restrict(LO.latch_guard, way)) if LO.latch_guard is not None else FALSE
            steps.append(("leaving the queue by way %d" % j, with_facts([self.at_round(g), on]), {k: self.at_round(restrict(roles[loc][2], way)) for k, loc in self.st.items()}, True))
        if LP.latch_guard is not None:
            nxt = {k: self.at_round(self.lpv[loc][2]) if loc in self.lpv else V(roles[loc][0]) for k, loc in self.st.items()}
            steps.append(("going on with the queue", with_facts([self.at_round(LP.latch_guard)]), nxt, False))
        self.dropped(steps)
        E0 = V(roles[self.eloc][0])
        self.accepts = 0
        for what, fs, nxt, left in steps:
            keys = sorted(nxt)
            for n, fa in enumerate(fs):
                for m, (fa2, vals) in enumerate(cases_of([nxt[k] for k in keys], fa)):
                    nx = dict(zip(keys, vals))
                    key = "%s/%d.%d" % (what.replace(" ", "-"), n, m)
                    e1 = nx["E"]
                    if e1 is E0:
                        c.valid("C17/discard/" + key, f, "%s without recording the candidate taken from the queue: it ends at an attached vertex" % what, ehas, facts=fa2, when=some)
                        for fa3 in fa2.assume_guard(idle):
                            for fa4 in fa3.assume_guard(neg(ieq(i, vx))):
                                c.same("C17/keep/" + key, f, "%s, no edge taken: whether a vertex i is attached" % what, bool_term(has(nx["A"], i)), bool_term(has(Av, i)), fa4)
                            c.same("C17/keep-end/" + key, f, "%s, no edge taken: whether the far end of the discarded edge is attached" % what, bool_term(has(nx["A"], vx)), bool_term(ehas), fa3)
                            for k in nx:
                                if k not in ("A", "E", "c"):
                                    nm = {"W": "total weight"}.get(k, "number of attached vertices")
                                    c.same("C17/keep-%s/%s" % (k, key), f, "%s, no edge taken: %s" % (what, nm), nx[k], V(roles[self.st[k]][0]), fa3)
                        continue
                    if e1.op == "cat" and e1.args[1].op == "lit" and len(e1.args[1].args) == 1 and e1.args[0] is E0:
                        rec = e1.args[1].args[0]
                    elif e1.op == "push" and e1.args[0] is E0:
                        rec = e1.args[1]
                    elif e1.op == "cat" and e1.args[0] is E0 and e1.args[1].op == "comp" and LP.lid in show(e1.args[1].args[1], 3):
                        c.viol("C17/taken/" + key, c.at(f), "one round takes every edge of the queue that leads out, before the edges of the newly attached vertices are queued")
                        continue
                    else:
                        c.undec("C17/taken/" + key, "recorded edges become %s" % show(e1, 4)[:150])
                        continue
                    self.accepts += 1
                    if not left:
                        c.viol("C17/taken/" + key, c.at(f), "after taking an edge the next one is taken before the edges of the newly attached vertex are queued")
                        continue
                    for i_, nm in ((self.eu, "u"), (self.ev, "v"), (self.ew, "weight")):
                        c.same("C17/recorded/" + nm, f, "%s of the recorded edge" % nm, fld(rec, i_), fld(E, i_), fa2)
                    c.valid("C17/leaves/" + key, f, "a taken edge ends at a vertex not attached yet", neg(ehas), facts=fa2)
                    c.valid("C17/attach/" + key, f, "the far end of a taken edge is attached", has(nx["A"], vx), facts=fa2)
                    c.same("C17/attach-only/" + key, f, "whether another vertex i is attached after taking an edge", bool_term(has(nx["A"], i)), bool_term(disj(ieq(i, vx), has(Av, i))), fa2)
                    if "c" in nx:
                        c.same("C17/current/" + key, f, "the vertex to continue from", nx["c"], vx, fa2)
                    if "W" in nx:
                        c.same("C17/add/" + key, f, "the total weight after taking an edge", nx["W"], terms.fadd(V(roles[self.st["W"]][0]), fld(E, self.ew)), fa2)
                    for k in nx:
                        if k[0] == "n":
                            c.same("C17/count-%s/%s" % (k, key), f, "number of attached vertices after taking an edge", nx[k], iadd(V(roles[self.st[k]][0]), ONE), fa2)
        if not self.accepts:
            c.undec("C17/taken", "no step that records an edge was recognised")
        # start
        nv = self.nv
        if "c" in self.st:
            cur0 = V(roles[self.st["c"]][1])
            A0 = V(roles[self.st["A"]][1])
            c.valid("C17/start/attached", f, "the start vertex is attached", has(A0, cur0), when=ile(ONE, nv))
            c.valid("C17/start/range", f, "the start vertex exists", ilt(cur0, nv), when=ile(ONE, nv))
            for fa in with_facts([ile(ONE, nv), ilt(i, nv)]):
                c.same("C17/start/only", f, "vertices attached at the start", bool_term(has(A0, i)), bool_term(ieq(i, cur0)), fa)
        e0 = V(roles[self.eloc][1])
        for fa in with_facts([ile(ONE, nv)]):
            c.same("C17/start/edges", f, "edges recorded at the start", slen(e0), ZERO, fa)
            if "W" in self.st:
                c.same("C17/start/weight", f, "total weight at the start", V(roles[self.st["W"]][1]), F0, fa)

    def candidates(self):
        c, f, V, nv, LI = self.c, self.f, self.V, self.nv, self.LI
        u, w, x, has, Av = self.u, self.w, self.x, self.has, self.Av
        guard, _ = self.cand[0]
        k = LI.k
        roles = self.LO.phis
        if x.op == "app" and x.args[0] == "callf":
            a = x.args[2:]
            if len(a) == 1 and a[0].op == "tup":
                a = a[0].args
            if len(a) == 2 and {a[0], a[1]} == {u, w}:
                c.held("C17/candidate", "the weight of a candidate edge is that of its own end points")
            else:
                c.viol("C17/candidate", c.at(f), "a candidate edge from %s to %s carries the weight of %s" % (show(u, 4), show(w, 4), ", ".join(show(y, 4) for y in a)))
        elif unknown_in(x) is None:
            c.viol("C17/candidate", c.at(f), "the weight of a candidate edge is %s, not the weight function of its end points" % show(x, 5)[:150])
        else:
            c.undec("C17/candidate", "weight %s" % show(x, 4)[:150])
        if "c" not in self.st:
            if any(t is k for t in subterms(u)):
                c.viol("C17/current", c.at(f), "the near end of a candidate edge is %s, which runs over the vertices, not the vertex attached last" % show(u, 4)[:100])
            else:
                c.undec("C17/current", "candidate edges start at %s" % show(u, 4)[:100])
            return
        d = isub(w, k)
        if not any(t is k for t in subterms(w)):
            c.viol("C17/complete/range", c.at(f), "the far end %s of a candidate edge does not run over the vertices" % show(w, 4)[:100])
            return
        trip = LI.trip if LI.trip is not None else counted_trip(LI)
        if trip is None or d.op != "int":
            c.undec("C17/complete/range", "candidate loop of %s" % show(w, 4)[:100])
            return
        trip = V(trip)
        for fa in with_facts([ile(ONE, nv)]):
            if d.args[0] > 0:
                c.viol("C17/complete/range", c.at(f), "vertices below %d are never considered as far ends" % d.args[0])
            else:
                c.same("C17/complete/range", f, "end of the range of considered far ends", iadd(d, trip), nv, fa)
        calls = {t for g in [guard] + [V(g) for _, g in LI.exits] for a in atoms_of(g) for t in subterms(a) if t.op == "app" and t.args[0] == "callf"}
        calls = sorted(calls, key=lambda t: t.id)
        wf = lambda g: subst(g, {t: mk("sym", "weight%d" % n) for n, t in enumerate(calls)})  # whatever the caller's function says
        A_has_u = has(Av, u)
        c.valid("C17/complete/each", f, "an edge to every vertex not attached is queued", wf(guard), when=conj(conj(neg(has(Av, w)), conj(ilt(k, trip), neg(ieq(w, u)))), conj(ilt(w, nv), A_has_u)))
        # the loop considers every vertex
        i = mk("sym", "i")
        own = {V(p) for loc, (p, i_, n) in LI.phis.items() if p is not self.hphi[0]}
        for j, (t, g) in enumerate(LI.exits):
            g = wf(V(g))
            if set().union(set(), *[set(subterms(a)) for a in atoms_of(g)]) & own:
                c.undec("C17/complete/whole", "condition of leaving the candidate loop: %s" % show(g, 4)[:150])
                continue
            wi = iadd(i, d)
            c.valid("C17/complete/whole", f, "candidates are queued for the vertices after k as well", neg(g), when=conj(conj(ilt(k, i), ilt(i, trip)), conj(neg(has(Av, wi)), neg(ieq(wi, u)))))
        # the queue is carried over
        ini = self.hphi[1]
        if not self.hl:
            if any(t.op == "hempty" for _, t in leaves(ini)):
                c.viol("C17/queue", c.at(f), "the candidate queue starts empty in every round, so earlier candidates are lost")
            else:
                c.undec("C17/queue", "queue at the start of a round: %s" % show(ini, 4)[:100])
            return
        p, i0, nx = roles[self.hl[0]]
        for g, t in leaves(ini):
            if t is p:
                c.held("C17/queue", "candidates stay queued between rounds")
            elif t.op == "hempty":
                c.viol("C17/queue", c.at(f), "the candidate queue is emptied, so earlier candidates are lost")
            else:
                c.undec("C17/queue", "queue at the start of a round: %s" % show(t, 4)[:100])
        for g, t in leaves(nx):
            if t.op == "hempty":
                c.viol("C17/queue/next", c.at(f), "the candidate queue is emptied")

    def rounds(self):
        c, f, V, LO, nv = self.c, self.f, self.V, self.LO, self.nv
        s = mk("sym", "attached")
        if LO.trip is not None and len(LO.exits) == 1 and not any(t.op == "sym" and t.args[:1] == ("st",) for t in subterms(V(LO.exits[0][1]))):
            for fa in with_facts([ile(ONE, nv)]):
                c.same("C17/rounds", f, "number of rounds", V(LO.trip), iadd(nv, num(-1)), fa)
            return
        el = V(LO.phis[self.eloc][0])
        m = {mk("card", self.Av): s, slen(el): iadd(s, num(-1))}
        for loc in self.counted:
            p, i, n = LO.phis[loc]
            m[V(p)] = iadd(s, iadd(i, num(-1)))
        g = FALSE
        for t, x in LO.exits:
            if any(u.op in ("fin", "exit") and u.args[0] == self.LP.lid for u in subterms(x)):
                some = self.at_round(ile(ONE, terms.hlen(self.H)))
                if not any(with_facts([self.at_round(h), self.at_round(restrict(x, self.way(j))), some]) for j, (_, h) in enumerate(self.LP.exits)):
                    c.held("C17/rounds/queue", "rounds end early only when the queue is empty")
                    continue
            x = V(x)
            y = subst(x, m)
            if any(t.op == "sym" and t.args and t.args[0] == "st" for t in subterms(y)):
                c.undec("C17/rounds", "end condition %s" % show(x, 5)[:150])
                return
            g = disj(g, y)
        for fa in with_facts([ile(ONE, nv), ile(ONE, s), ile(s, nv)]):
            c.valid("C17/rounds/stop", f, "rounds end once every vertex is attached", g, facts=fa, when=ieq(nv, s))
            c.same("C17/rounds", f, "whether the rounds end", bool_term(g), bool_term(ile(nv, s)), fa)


def counted_trip(L):
    """number of iterations after which a loop with several ways out is left at the latest"""
    for _, g in L.exits:
        if g.op == "ite" and g.args[0].op == "ge0" and g.args[1] is FALSE and g.args[2] is TRUE:
            e = iadd(g.args[0].args[0], iadd(L.k, ONE))
            if not any(t is L.k for t in subterms(e)):
                return e
    return None


def hp_cell(e):
    l = e["loc"]
    if isinstance(l, T):
        return l.args[0]
    return l


def bool_term(g):
    return ite(g, ONE, ZERO)


def atoms_terms(g):
    out = set()
    for a in atoms_of(g):
        out |= set(subterms(a))
    return out


def check_C18(c):
    c.rule("fit: the recorded nodes are, for every edge of the spanning tree sorted by ascending weight, the two current groups of its end points, its weight and the size their union reports; partition: starts at the last node, replaces the newest node by its two parts until k nodes remain, and gives each remaining node one consecutive label written to exactly the points below it")
    c.assume("the spanning tree has one edge fewer than points (C17) and union/find behave as disjoint sets (C19)")
    hierarchy_fit(c)
    hierarchy_cut(c)


OPQ18 = ("UnionFind::find", "UnionFind::union", "MinimumSpanningTree::build")


def hierarchy_fit(c):
    f = c.P.find_fn("HierarchicalClustering::fit")
    r = c.analyze(f, opaque=OPQ18)
    iH = field_index(c, "HierarchicalClustering", "hierarchy")
    iND = [i for i, (n, t, v) in enumerate(adt_info(c, "HierarchicalClustering")[1]["variants"][0]["fields"]) if n == "n_data"]
    nl, nr, nw, ns = (field_index(c, "Node", n) for n in ("left", "right", "weight", "size"))
    eu, ev, ew = (field_index(c, "WeightedEdge", n) for n in ("u", "v", "weight"))
    iE = field_index(c, "MinimumSpanningTree", "edges")
    iN = field_index(c, "UnionFind", "next_label")
    data = r.args[0]
    if r.ret is None:
        c.viol("C18/fit/return", c.at(f), "never returns")
        return
    nd = slen(data)
    for fa in with_facts([ieq(nd, ZERO)]):
        c.same("C18/fit/empty", f, "number of nodes for an empty dataset", slen(fld(r.ret, iH)), ZERO, fa)
    if iND:
        c.same("C18/fit/n_data", f, "recorded number of points", fld(r.ret, iND[0]), nd)
    builds = r.calls("op:MinimumSpanningTree::build")
    if len(builds) != 1:
        c.undec("C18/fit/tree", "%d spanning trees are built" % len(builds))
        return
    b = builds[0]
    c.same("C18/fit/tree/data", f, "dataset given to the spanning tree", b["args"][0], data)
    c.same("C18/fit/tree/weight", f, "weight function given to the spanning tree", b["args"][1], r.args[1])
    tree = b["result"]
    edges = fld(tree, iE)
    V = View(r)
    for fa in with_facts([ile(ONE, nd)]):
        for fa2, (h,) in cases_of((fld(r.ret, iH),), fa):
            if h.op != "comp":
                c.undec("C18/fit/nodes", "nodes %s" % show(h, 4)[:150])
                continue
            bv, trip, g, el = h.args
            ne = slen(edges)
            t1, t2 = Canon()(V(trip)), Canon()(ne)
            if g is not TRUE:
                c.viol("C18/fit/every", c.at(f), "an edge is recorded only when %s" % show(V(g), 6)[:200])
                continue
            c.same("C18/fit/every", f, "number of recorded nodes", t1, t2, fa2)
            if el.op != "adt":
                c.undec("C18/fit/node", "node %s" % show(el, 4)[:150])
                continue
            check_node(c, f, r, V, el, bv, edges, (nl, nr, nw, ns), (eu, ev, ew))
    # sorted ascending
    # disjoint sets cover the labels
    for L in r.loops.values():
        for loc, (p, i, n) in L.phis.items():
            if i.op == "adt" and i.args[0].endswith("::UnionFind"):
                nxt = fld(i, iN)
                ne1 = iadd(slen(edges), ONE)
                if nxt is nd or Canon()(nxt) is Canon()(ne1):
                    c.held("C18/fit/labels", "fresh labels start after the points")
                else:
                    c.viol("C18/fit/labels", c.at(f), "fresh labels start at %s instead of the number of points" % show(nxt, 6))
                names = [t.args[0] for g_, t in leaves(n) if t.op == "app"]
                if names and all(x == "op:UnionFind::union!0" for x in names):
                    c.held("C18/fit/state", "every round merges in the same disjoint sets")
                elif n is p or not any("union!0" in x for x in names):
                    c.viol("C18/fit/state", c.at(f), "the merge is not kept in the disjoint sets")
                else:
                    c.undec("C18/fit/state", "disjoint-set state %s" % show(n, 3)[:100])


def check_node(c, f, r, V, el, bv, edges, ni, ei):
    nl, nr, nw, ns = ni
    eu, ev, ew = ei
    W = fld(el, nw)
    es = {t for t in subterms(el) if t.op == "get" and t.args[1] is bv}
    es = {t for t in es if any(x is edges for x in subterms(t.args[0]))}
    if len(es) != 1:
        c.undec("C18/fit/edge", "edges are visited as %s" % ", ".join(show(t, 3)[:80] for t in es))
        return
    e = es.pop()
    S = e.args[0]
    direction = 1
    while S.op == "rev":
        direction = -direction
        S = S.args[0]
    if S.op == "sorted":
        ev_ = [x for x in r.events if x["kind"] == "sort" and x["cmp"] is S.args[1] or x["kind"] == "sort" and x["value"] is S.args[0]]
        if S.args[0] is not edges or not ev_:
            c.undec("C18/fit/order", "sorted sequence %s" % show(S.args[0], 4)[:100])
        else:
            x = ev_[0]
            order_rule(c, "C18/fit/order", f, x, lambda t: fld(t, ew), direction, "edges by weight")
    elif S is edges:
        c.viol("C18/fit/order", c.at(f), "edges are merged in the order of the spanning tree, not by ascending weight")
    else:
        c.undec("C18/fit/order", "visited sequence %s" % show(S, 4)[:100])
    c.same("C18/fit/weight", f, "weight of a node", V(W), V(fld(e, ew)))
    sides = []
    for nm, i in (("left", nl), ("right", nr)):
        t = fld(el, i)
        if t.op == "app" and t.args[0] == "op:UnionFind::find":
            sides.append((nm, t, t.args[2]))
        else:
            u = V(t)
            if unknown_in(u) is None or u.op in ("fld", "lin", "int"):
                c.viol("C18/fit/" + nm, c.at(f), "the %s group of a node is %s, not the current group of an end point" % (nm, show(u, 5)[:150]))
            else:
                c.undec("C18/fit/" + nm, show(t, 4)[:150])
    if len(sides) == 2:
        got = {sides[0][2], sides[1][2]}
        want = {fld(e, eu), fld(e, ev)}
        if got == want:
            c.held("C18/fit/groups", "a node joins the groups of the edge's two end points")
        else:
            c.viol("C18/fit/groups", c.at(f), "a node joins the groups of %s" % ", ".join(show(x, 5)[:120] for x in got))
        for nm, t, a in sides:
            st = t.args[1]
            while st.op == "app" and st.args[0] == "op:UnionFind::find!0":
                st = st.args[1]
            if st.op == "phi":
                c.held("C18/fit/current/" + nm, "groups are looked up before the merge, in the current state")
            elif st.op == "app" and "union" in st.args[0]:
                c.viol("C18/fit/current/" + nm, c.at(f), "the %s group is looked up after the merge" % nm)
            else:
                c.undec("C18/fit/current/" + nm, show(st, 3)[:100])
        z = fld(el, ns)
        if z.op == "app" and z.args[0] == "op:UnionFind::union":
            if {z.args[2], z.args[3]} == {sides[0][1], sides[1][1]}:
                c.held("C18/fit/size", "the size of a node is that reported by merging its two groups")
            else:
                c.viol("C18/fit/size", c.at(f), "the merge joins %s" % ", ".join(show(x, 4)[:120] for x in z.args[2:4]))
        elif unknown_in(V(z)) is None:
            c.viol("C18/fit/size", c.at(f), "the size of a node is %s" % show(z, 5)[:150])
        else:
            c.undec("C18/fit/size", show(z, 4)[:150])


def order_rule(c, key, f, ev, keyfn, direction, what):
    """a sort event orders by the key in the given direction"""
    from checks_num import resolve

    a, b = Canon()(keyfn(ev["A"])), Canon()(keyfn(ev["B"]))
    t = Canon()(ev["cmp"])
    if unknown_in(t) is not None:
        c.undec(key, "comparison %s" % show(t, 4)[:150])
        return
    for rel, g, want in (("smaller", rcmp("flt", a, b), terms.LESS), ("larger", rcmp("flt", b, a), terms.GREATER)):
        if direction < 0:
            want = terms.GREATER if want is terms.LESS else terms.LESS
        try:
            v = resolve(t, Facts().assume_guard(g))
        except TooMany:
            c.undec(key + "/" + rel, "too many cases")
            continue
        bad = [x for x in v if x is not want]
        if bad:
            c.viol(key + "/" + rel, c.at(f), "%s: a %s key is ordered %s" % (what, rel, show(bad[0], 3)))
        else:
            c.held(key + "/" + rel, "%s: a %s key comes %s" % (what, rel, "first" if want is terms.LESS else "last"))


def hierarchy_cut(c):
    f = c.P.find_fn("HierarchicalClustering::partition")
    r = c.analyze(f, opaque=OPQ18)
    iH = field_index(c, "HierarchicalClustering", "hierarchy")
    fields = adt_info(c, "HierarchicalClustering")[1]["variants"][0]["fields"]
    iD = [i for i, (m, t, v) in enumerate(fields) if m == "n_data"]
    nl, nr = (field_index(c, "Node", n) for n in ("left", "right"))
    self_, k = r.args
    H = fld(self_, iH)
    if iD:
        n = fld(self_, iD[0])
    else:
        # the number of points has to be read off the nodes, of which neither no point nor a single point has any
        rest = [i for i, (m, t, v) in enumerate(fields) if i != iH and "PhantomData" not in json.dumps(t)]
        if rest:
            c.undec("C18/cut/points", "the number of points is not kept under a known name")
            return
        c.viol("C18/cut/points", c.at(f), "the hierarchy of no points and that of a single point are the same value: one of them gets the wrong number of labels")
        n = iadd(slen(H), ONE)
    V = View(r)
    i = mk("sym", "i")
    # more groups than points
    fire = FALSE
    for e in r.events:
        if e["kind"] == "panic" and e["why"] == "explicit" and not e["ctx"]:
            fire = disj(fire, fail_cond(e))
    c.same("C18/cut/rejects", f, "rejecting k", bool_term(fire), bool_term(ilt(n, k)))
    if r.ret is None:
        c.viol("C18/cut/return", c.at(f), "never returns")
        return
    for fa in with_facts([ile(k, ONE), ile(k, n), ilt(i, n)]):
        c.same("C18/cut/one/len", f, "number of labels for k <= 1", slen(r.ret), n, fa)
        c.same("C18/cut/one", f, "label for k <= 1", sget(r.ret, i), ZERO, fa)
    base = [ile(num(2), k), ile(k, n), ieq(n, iadd(slen(H), ONE))]
    split = label = below = None
    for L in r.loops.values():
        pe = events_in(r, L.lid, "push", True)
        we = events_in(r, L.lid, "write", True)
        hp = [e for e in pe if any(t.op == "get" and t.args[0] is H for t in subterms(e["value"]))]
        if hp and not we and not L.parent and hp[0].get("heap"):
            split = L
        elif we and L.parent:
            below = L
        elif we:
            label = L
    if not split or not label or not below:
        c.undec("C18/cut/shape", "another way of cutting the hierarchy")
        return
    # two groups or more are always found by splitting
    got = True
    for fa0 in with_facts([ile(num(2), k), ile(k, n)]):
        for fa, (t,) in Comparer().cases((r.ret,), fa0):
            if any(x.op in ("fin", "kx") and label.lid in x.args for x in subterms(t)) or not fa.confirm():
                continue
            u = unknown_in(t) or next((u for q, v in fa.trail for u in [unknown_in(q)] if u is not None), None)
            got = False
            if u is None:
                c.viol("C18/cut/every", c.at(f), "the labels do not come from splitting when %s" % fa.show()[:300])
            else:
                c.undec("C18/cut/every", "labels %s when %s" % (show(t, 4)[:100], fa.show()[:200]))
    if got:
        c.held("C18/cut/every", "the labels of two or more groups come from splitting")
    # --- splitting
    W = [(loc, p, a, nx) for loc, (p, a, nx) in split.phis.items() if any(t.op in ("hpush", "hrest") for t in subterms(nx))]
    if len(W) != 1:
        c.undec("C18/cut/split", "worklist of the splitting loop")
        return
    loc, p, a, nx = W[0]
    wp_ = V(p)
    x = mk("htop", wp_)
    b0, first = as_multiset(a, None)
    for fa in with_facts(base):
        if b0.op == "hempty" and len(first) == 1:
            c.same("C18/cut/root", f, "node the cut starts from", first[0], iadd(n, iadd(slen(H), num(-1))), fa)
        else:
            c.undec("C18/cut/root", "start %s" % show(a, 5)[:100])
    node = lambda t: sget(H, isub(t, n))
    for fa, (nxt,) in cases_of((V(nx),), None):
        b1, add = as_multiset(nxt, None)
        want = [fld(node(x), nl), fld(node(x), nr)]
        cn = Canon()
        got = sorted(cn(t).id for t in add)
        if b1.op == "hrest" and b1.args[0] is wp_ and got == sorted(cn(t).id for t in want):
            c.held("C18/cut/split", "the newest node is replaced by its two parts")
        elif unknown_in(nxt) is None:
            c.viol("C18/cut/split", c.at(f), "splitting replaces the newest node by %s" % ", ".join(show(t, 6)[:100] for t in add))
        else:
            c.undec("C18/cut/split", show(nxt, 5)[:150])
    stop = FALSE
    for t, g in split.exits:
        stop = disj(stop, V(g))
    hl = terms.hlen(wp_)
    for fa in with_facts(base + [ile(ONE, hl)]):
        c.same("C18/cut/until", f, "ending the splitting", bool_term(stop), bool_term(ile(k, hl)), fa)
    # --- labelling
    we = events_in(r, label.lid, "write", True)
    # label of a round: consecutive numbers from zero
    leafw = [e for e in we if e["path"] and e["path"][-1][0] == "idx"]
    if len(leafw) != 1:
        c.undec("C18/cut/label", "%d label writes" % len(leafw))
        return
    e = leafw[0]
    idx, cid, g = e["path"][-1][1], V(e["value"]), V(full_guard(r, e, label.lid))
    x2 = V(idx)
    rounds = label.k
    c.same("C18/cut/consecutive", f, "label of the j-th remaining node", cid, rounds)
    c.valid("C18/cut/leaf", f, "a remaining point is labelled directly", ilt(x2, n), when=g)
    # what is labelled: the remaining nodes of the splitting loop, each once
    cont = [(loc2, p2, a2, n2) for loc2, (p2, a2, n2) in label.phis.items() if loc2[0] == loc[0]]
    if cont:
        p2, n2 = V(cont[0][1]), V(cont[0][3])
        ended = None
        if label.trip is not None and len(label.exits) == 1 and Comparer().equal(V(label.trip), V(terms.hlen(cont[0][2])))[0] == "eq":
            # as many passes as remaining nodes: with one node taken in each, hlen(p2) nodes are left when hlen(p2) passes are
            h_ = terms.hlen(p2)
            ok = all(t.op == "hrest" and t.args[0] is p2 for fa in with_facts([ile(ONE, h_)]) for f2, (t,) in Comparer().cases((n2,), fa))
            if ok:
                n2 = mk("hrest", p2)
                ended = ieq(h_, ZERO)
        if n2.op == "hrest" and n2.args[0] is p2 and x2 is mk("htop", p2):
            c.held("C18/cut/each", "every remaining node is labelled once")
        elif unknown_in(n2) is None and unknown_in(x2) is None:
            c.viol("C18/cut/each", c.at(f), "labelling goes from %s to %s" % (show(p2, 4), show(n2, 5)[:120]))
        else:
            c.undec("C18/cut/each", show(n2, 4)[:100])
        st = stop_of(label, V) if ended is None else ended
        c.same("C18/cut/all", f, "ending the labelling", bool_term(st), bool_term(ieq(terms.hlen(p2), ZERO)))
        for g_, ini in leaves(cont[0][2]):
            cid2 = [t for t in subterms(ini) if t.op == "fin" and t.args[0] == split.lid]
            if cid2 and ini is cid2[0] or ini.op == "hrest":
                pass
            else:
                c.undec("C18/cut/remaining", show(ini, 4)[:100])
    else:
        c.undec("C18/cut/each", "remaining nodes are visited another way")
    # label array of the labelling loop
    lab = [(loc2, p2, a2, n2) for loc2, (p2, a2, n2) in label.phis.items() if loc2[0] == tuple(e["cell"])]
    if lab:
        a2 = lab[0][2]
        for fa in with_facts(base):
            c.same("C18/cut/labels", f, "number of labels", slen(V(a2)), n, fa)
    # --- points below a node
    q = [(loc3, p3, a3, n3) for loc3, (p3, a3, n3) in below.phis.items() if n3.op != "phi" and loc3[0] != tuple(e["cell"])]
    q = [z for z in q if any(t.op in ("tail", "init", "hrest") for t in subterms(z[3]))]
    l3 = [(loc3, p3, a3, n3) for loc3, (p3, a3, n3) in below.phis.items() if loc3[0] == tuple(e["cell"])]
    if len(q) != 1 or len(l3) != 1:
        c.undec("C18/cut/below", "walk below a node")
        return
    _, p3, a3, n3 = q[0]
    p3 = V(p3)
    ids = False
    seed, sadd = as_multiset(V(a3), None)
    cn = Canon()
    if len(sadd) == 1 and cn(sadd[0]) is cn(node(x2)):
        c.held("C18/cut/below/start", "the walk starts at the remaining node")
    elif len(sadd) == 1 and cn(sadd[0]) is cn(x2):
        ids = True
        c.held("C18/cut/below/start", "the walk starts at the remaining node")
    elif len(sadd) == 1 and unknown_in(sadd[0]) is None:
        c.viol("C18/cut/below/start", c.at(f), "the walk below node %s starts at %s" % (show(x2, 4), show(sadd[0], 5)[:120]))
    else:
        c.undec("C18/cut/below/start", show(a3, 4)[:100])
    rest = {t for t in subterms(V(n3)) if t.op in ("tail", "init", "hrest") and t.args[0] is p3}
    if len(rest) != 1:
        c.undec("C18/cut/below", "queue of the walk")
        return
    rest = rest.pop()
    y = {"tail": sget(p3, ZERO), "init": terms.slast(p3), "hrest": mk("htop", p3)}[rest.op]
    yn = node(y) if ids else y
    lp, ln = V(l3[0][1]), V(l3[0][3])
    if ids:
        c.undec("C18/cut/below", "walk over node numbers")
        return
    l_, r_ = fld(yn, nl), fld(yn, nr)
    try:
        for fa, (qn, ll, rr) in cases_of((V(n3), bool_term(ilt(l_, n)), bool_term(ilt(r_, n))), None):
            b1, add = as_multiset(qn, None)
            want = []
            if ll is ZERO:
                want.append(node(l_))
            if rr is ZERO:
                want.append(node(r_))
            got = sorted(cn(t).id for t in add)
            w = sorted(cn(t).id for t in want)
            if b1 is rest and got == w:
                c.held("C18/cut/below/queue", "inner parts are walked (%s)" % fa.show()[:120])
            elif unknown_in(qn) is None:
                c.viol("C18/cut/below/queue", c.at(f), "when %s the walk continues at %s" % (fa.show()[:200], ", ".join(show(t, 5)[:80] for t in add) or "nothing"))
            else:
                c.undec("C18/cut/below/queue", show(qn, 4)[:100])
    except TooMany:
        c.undec("C18/cut/below/queue", "too many cases")
    inl = lambda t: conj(ieq(i, t), ilt(t, n))
    for fa in with_facts([ilt(i, slen(lp)), ilt(i, n)]):
        c.same("C18/cut/below/labels", f, "label of point i after a step of the walk", sget(ln, i), ite(disj(inl(l_), inl(r_)), cid, sget(lp, i)), fa)
    st = FALSE
    for t, g_ in below.exits:
        st = disj(st, V(g_))
    c.same("C18/cut/below/all", f, "ending the walk", bool_term(st), bool_term(ieq(slen(p3), ZERO)))
    gw = V(below.guard)
    c.valid("C18/cut/below/inner", f, "the walk is made for inner nodes", ile(n, x2), when=gw)
    # one of both happens
    c.valid("C18/cut/either", f, "every remaining node gets its label", disj(g, gw), when=neg(stop_of(label, V)))


def stop_of(L, V):
    st = FALSE
    for t, g in L.exits:
        st = disj(st, V(g))
    return st
