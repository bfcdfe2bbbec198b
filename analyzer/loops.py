"""Views on analysed loops used by the obligations."""
from checklib import *


def phis_to_syms(r, extra=()):
    """substitution turning every loop state variable of a result into an ordinary symbol"""
    m = {}
    for lid, L in r.loops.items():
        for loc, (phi, init, nxt) in L.phis.items():
            m[phi] = mk("sym", "st", lid, phi.args[1])
    return m


class View:
    """loop states as symbols; use v(t) on every term taken from the result"""

    def __init__(self, r, keep=()):
        self.r = r
        self.m = {k: x for k, x in phis_to_syms(r).items() if k not in keep}
        self.memo = {}

    def __call__(self, t):
        return subst(t, self.m, self.memo)

    def loops_with(self, pred):
        return [L for L in self.r.loops.values() if pred(L)]

    def parent_phi(self, L, phi):
        return [l for l, (p, i, n) in L.phis.items() if p is phi]

    def state(self, L):
        """[(loc, symbol, init, next)]"""
        return [(loc, self(p), self(i), self(n)) for loc, (p, i, n) in L.phis.items()]


def events_in(r, lid, kind=None, direct=False):
    out = []
    for e in r.events:
        if kind and e["kind"] != kind:
            continue
        if lid in e["ctx"] and (not direct or e["ctx"][-1] == lid):
            out.append(e)
    return out


def rounds(L, n):
    """(number, {loop variable: value}, condition of getting there) of the first n rounds of a loop"""
    m = {phi: init for phi, init, nxt in L.phis.values()}
    m[L.k] = ZERO
    path = L.guard
    for i in range(n):
        yield i, m, path
        stop = FALSE
        for t, gx in L.exits:
            stop = disj(stop, subst(gx, m))
        path = conj(path, neg(stop))
        if path is FALSE:
            return
        m2 = {phi: subst(nxt, m) for phi, init, nxt in L.phis.values()}
        m2[L.k] = num(i + 1)
        m = m2


def early(r, e, ts, n=3):
    """the terms of an event at the instances that belong to the first rounds of its loop: (condition, terms)"""
    ctx = e["ctx"]
    if len(ctx) == 1:
        L = r.loops.get(ctx[0])
        if L is None or L.parent:
            return
        for i, m, path in rounds(L, n):
            yield "round %d" % (i + 1), path, [subst(t, m) for t in ts]
        return
    if ctx:
        return
    left = {x for t in ts for x in subterms(t) if x.op == "exit"}
    lids = {x.args[0] for x in left}
    if len(lids) != 1:
        return
    lid = lids.pop()
    L = r.loops.get(lid)
    if L is None or L.parent:
        return
    for j in range(len(L.exits)):
        taken = list(ts)
        for y in left:
            i = y.args[1]
            i = i.args[0] if isinstance(i, T) else i
            if i <= j:
                a = atom(y)
                taken = [restrict(t, a if i == j else neg(a)) for t in taken]
        for i, m, path in rounds(L, n):
            m = dict(m)
            for t in taken:
                for y in subterms(t):
                    if y.op == "sym" and y.args and y.args[0] == "kx" and y.args[1] == lid:
                        m[y] = num(i)
            yield "round %d" % (i + 1), conj(path, subst(L.exits[j][1], m)), [subst(t, m) for t in taken]


def full_guard(r, e, upto=None):
    """condition of an event including the conditions of entering its loops below `upto`"""
    g = e["guard"]
    ctx = e["ctx"]
    for i in range(len(ctx) - 1, -1, -1):
        if ctx[i] == upto:
            break
        g = conj(g, r.loops[ctx[i]].guard)
    return g


def as_multiset(s, base_ok):
    """(base, [(guard, element)]) of a sequence or heap built by pushes onto a base"""
    add = []
    while s.op in ("push", "hpush"):
        add.append(s.args[1])
        s = s.args[0]
    if s.op == "cat" and s.args[1].op == "lit":
        add.extend(s.args[1].args)
        s = s.args[0]
        while s.op in ("push", "hpush"):
            add.append(s.args[1])
            s = s.args[0]
    if s.op == "lit" and s.args:
        add.extend(s.args)
        s = EMPTY
    return s, add


def cases_of(ts, facts=None, limit=4000):
    """feasible cases of a tuple of terms"""
    return Comparer(limit=limit).cases(tuple(ts), facts)


def with_facts(conds):
    """fact sets covering the conjunction of the conditions"""
    fs = [Facts()]
    cn = Canon()
    for g in conds:
        g = cn(g)
        fs = [x for f in fs for x in f.assume_guard(g)]
    return fs


def unfilter(ts):
    """(terms with every element of a filtered sequence replaced by an element of the sequence it was taken from, what is known of those elements)"""
    m, known, conds = {}, {}, []
    for t in ts:
        for x in subterms(t):
            if x.op == "get" and x.args[0].op == "comp" and x.args[0].args[2] is not TRUE and x not in m:
                C = x.args[0]
                b = mk("sym", "src", x.id)
                e, g = subst(C.args[3], {C.args[0]: b}), subst(C.args[2], {C.args[0]: b})
                m[x] = e
                conds += [ilt(b, C.args[1]), g]
    return [subst(t, m) for t in ts] if m else list(ts), conds
