"""Interprocedural value-flow analysis over MIR.

A forward dataflow: every block is visited once per pass in reverse post
order, states meet at joins (conditional values keyed by the path condition),
loops are iterated to a fixpoint of their set of varying locations and then
closed (counters, accumulated sequences, sums).  No path is enumerated, no
formula is solved and nothing of the analysed program is executed.
"""
import json
from terms import *
import terms

IDENT_ADTS = {
    "std::boxed::Box", "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "core::ptr::unique::Unique", "std::pin::Pin", "std::cmp::Reverse_",
}


class Lost(Exception):
    """an anchor the checks need is not there"""


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
def fz(t):
    """freeze a JSON type into a hashable tuple"""
    if t is None:
        return None
    k = t["k"]
    if k == "adt":
        return ("adt", t["p"], tuple(fz(x) for x in t["a"]))
    if k == "param":
        return ("param", t["n"])
    if k == "ref":
        return ("ref", fz(t["t"]), t["m"])
    if k == "ptr":
        return ("ptr", fz(t["t"]), t["m"])
    if k == "slice":
        return ("slice", fz(t["t"]))
    if k == "array":
        return ("array", fz(t["t"]), t["n"])
    if k == "tuple":
        return ("tuple", tuple(fz(x) for x in t["a"]))
    if k == "fndef":
        return ("fndef", t["d"]["id"], tuple(fz(x) for x in t["a"]))
    if k == "closure":
        return ("closure", t["d"], tuple(fz(x) for x in t["pa"]))
    if k == "alias":
        return ("alias", t.get("d"), tuple(fz(x) for x in t["a"]), t["s"])
    if k == "const":
        return ("const", t["v"])
    if k == "other":
        return ("other", t.get("s"))
    return (k,)


def tsub(t, s):
    if t is None or not s:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(tsub(x, s) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, tsub(t[1], s), t[2])
    if k == "slice":
        return ("slice", tsub(t[1], s))
    if k == "array":
        return ("array", tsub(t[1], s), t[2])
    if k == "tuple":
        return ("tuple", tuple(tsub(x, s) for x in t[1]))
    if k in ("fndef", "closure"):
        return (k, t[1], tuple(tsub(x, s) for x in t[2]))
    if k == "alias":
        return ("alias", t[1], tuple(tsub(x, s) for x in t[2]), t[3])
    return t


def unify(pat, t, s):
    if pat is None or t is None:
        return True
    if pat[0] == "param":
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == "adt":
        return pat[1] == t[1] and all(unify(a, b, s) for a, b in zip(pat[2], t[2]))
    if k in ("ref", "ptr"):
        return pat[2] == t[2] and unify(pat[1], t[1], s)
    if k in ("slice", "array"):
        return unify(pat[1], t[1], s)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, s) for a, b in zip(pat[1], t[1]))
    return pat == t


def strip_refs(t):
    while t and (t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] == "std::boxed::Box")):
        t = t[1] if t[0] != "adt" else t[2][0]
    return t


def tname(t):
    if t is None:
        return "?"
    k = t[0]
    if k == "adt":
        return t[1].split("::")[-1] + ("<" + ",".join(tname(x) for x in t[2]) + ">" if t[2] else "")
    if k == "param":
        return t[1]
    if k in ("ref", "ptr"):
        return "&" + tname(t[1])
    if k == "slice":
        return "[" + tname(t[1]) + "]"
    if k == "tuple":
        return "(" + ",".join(tname(x) for x in t[1]) + ")"
    return k


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
SINTS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
FLOATS = {"f32", "f64"}


class Program:
    def __init__(self, dump):
        self.crate = dump["crate"]
        self.fns = {}
        self.dump = dump
        for f in dump["fns"]:
            f["id"] = f["def"]["id"]
            self.fns[f["id"]] = f
        self.adts = {}
        for a in dump["adts"]:
            self.adts[a["def"]["p"]] = a
            if a["enum"]:
                n = [v["name"] for v in a["variants"]]
                ENUMS[a["def"]["p"]] = (n, [int(x) if int(x) < (1 << 127) else int(x) - (1 << 128) for x in a["discrs"]] or list(range(len(n))))
        self.impls = dump["impls"]
        self.trait_items = {}
        for t in dump["traits"]:
            for nm, iid, has in t["items"]:
                self.trait_items[iid] = (t["p"], nm, has)
        self.by_trait = {}
        for i in self.impls:
            i["fself"] = fz(i["self"])
            if i.get("trait"):
                i["ftargs"] = [fz(x) for x in i["targs"]]
                self.by_trait.setdefault(i["trait"], []).append(i)
        self._cfg = {}
        self._rec = None

    # -------- anchors
    def find_fn(self, suffix, must=True):
        """inherent or free function whose path ends with the suffix (generics removed)"""
        c = [f for f in self.fns.values() if f["kind"] == "fn" and strip_gen(f["def"]["p"]).endswith(suffix)]
        c = [f for f in c if "{closure" not in f["def"]["p"]]
        if len(c) == 1:
            return c[0]
        if not c and not must:
            return None
        raise Lost("function %s: %d candidates" % (suffix, len(c)))

    def impls_of(self, trait_suffix, self_suffix=None, targ=None):
        r = []
        for i in self.impls:
            if not i.get("trait") or not i["trait"].endswith(trait_suffix):
                continue
            s = i["fself"]
            nm = s[1] if s[0] == "adt" else s[0] if s[0] != "param" else "param"
            if self_suffix is not None and not (nm.endswith("::" + self_suffix) or nm == self_suffix):
                continue
            if targ is not None and not targ(i["ftargs"]):
                continue
            r.append(i)
        return r

    def method(self, trait_suffix, self_suffix, name, targ=None):
        c = self.impls_of(trait_suffix, self_suffix, targ)
        c = [(i, iid) for i in c for nm, iid in i["items"] if nm == name]
        if len(c) != 1:
            raise Lost("method %s of %s for %s: %d candidates" % (name, trait_suffix, self_suffix, len(c)))
        return self.fns[c[0][1]]

    # -------- CFG
    def cfg(self, fid, body):
        key = (fid, id(body))
        r = self._cfg.get(key)
        if r:
            return r
        n = len(body["bb"])
        succ = []
        for b in body["bb"]:
            t = b["t"]
            k = t["k"]
            if b.get("cleanup"):
                succ.append([])
            elif k == "goto" or k == "drop" or k == "assert":
                succ.append([t["t"]])
            elif k == "switch":
                s = [c[1] for c in t["cases"]] + [t["o"]]
                succ.append(list(dict.fromkeys(s)))
            elif k == "call":
                succ.append([t["t"]] if t.get("t") is not None else [])
            else:
                succ.append([])
        # reverse post order
        seen, order = set(), []

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()

        dfs(0)
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        # dominators
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body_ = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(preds[x])
        # blocks from which a return is reachable
        ret = set()
        st = [b for b in rpo if body["bb"][b]["t"]["k"] == "return"]
        while st:
            x = st.pop()
            if x in ret:
                continue
            ret.add(x)
            st.extend(preds[x])
        # unconditional panics only: a diverging block that loops forever is not an assertion
        r = dict(succ=succ, rpo=rpo, pos=pos, loops=loops, ret=ret, preds=preds, idom=idom)
        self._cfg[key] = r
        return r

    # -------- call graph (syntactic, trait calls to every local impl) for recursion
    def callees(self, f):
        out = set()

        def op(o):
            if o.get("k") == "const":
                ty = o["c"].get("ty")
                if ty and ty["k"] == "fndef":
                    d = ty["d"]
                    if d.get("local"):
                        out.add(d["id"])
                        ga = [fz(x) for x in ty["a"]]
                        if d["id"] in self.trait_items and ga and ga[0][0] != "param":
                            tp, nm, _ = self.trait_items[d["id"]]
                            for i in self.by_trait.get(tp, []):
                                if not unify(i["fself"], strip_refs(ga[0]), {}) or i["fself"][0] == "param":
                                    continue
                                for n2, iid in i["items"]:
                                    if n2 == nm:
                                        out.add(iid)
                    elif d.get("trait") or d.get("p"):
                        # trait of another crate implemented here (operators, comparisons)
                        ga = [fz(x) for x in ty["a"]]
                        tp = d.get("trait")
                        if tp and ga and ga[0][0] != "param":
                            for i in self.by_trait.get(tp, []):
                                if i["fself"][0] != "param" and unify(i["fself"], strip_refs(ga[0]), {}):
                                    for n2, iid in i["items"]:
                                        if n2 == d.get("name"):
                                            out.add(iid)
                if ty and ty["k"] == "closure":
                    out.add(ty["d"])

        bodies = [f["body"]] if f.get("body") else []
        bodies += f.get("promoted") or []
        for b in bodies:
            for bb in b["bb"]:
                if bb.get("cleanup"):
                    continue
                for s in bb["st"]:
                    if s["k"] == "assign":
                        r = s["r"]
                        if r["k"] == "agg" and r["ak"] == "closure":
                            out.add(r["d"])
                        for o in r.get("ops", []) + [r[x] for x in ("o", "l", "r") if isinstance(r.get(x), dict)]:
                            op(o)
                t = bb["t"]
                if t["k"] == "call":
                    op(t["f"])
                    for o in t["args"]:
                        op(o)
        return {x for x in out if x in self.fns}

    def recursive(self):
        if self._rec is None:
            import itertools

            g = {i: self.callees(f) for i, f in self.fns.items()}
            self.graph = g
            idx, low, st, on, res = {}, {}, [], set(), set()
            scc = self.scc = {}
            c = itertools.count()

            def sc(v):
                idx[v] = low[v] = next(c)
                st.append(v)
                on.add(v)
                for w in g[v]:
                    if w not in idx:
                        sc(w)
                        low[v] = min(low[v], low[w])
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if low[v] == idx[v]:
                    comp_ = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp_.append(w)
                        if w == v:
                            break
                    if len(comp_) > 1 or v in g[v]:
                        res.update(comp_)
                    for w in comp_:
                        scc[w] = v

            for v in g:
                if v not in idx:
                    sc(v)
            self._rec = res
        return self._rec


def strip_gen(p):
    """drop generic argument lists from a pretty path"""
    out, d = [], 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<" and (i > 0):
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out).replace("::::", "::").rstrip(":")


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("cells", "guard")

    def __init__(self, cells, guard):
        self.cells = cells
        self.guard = guard

    def copy(self):
        return State(dict(self.cells), self.guard)

    def under(self, g):
        return State(dict(self.cells), conj(self.guard, g))


def merge(states):
    states = [s for s in states if s is not None and s.guard is not FALSE]
    if not states:
        return None
    r = states[0]
    for s in states[1:]:
        g = disj(r.guard, s.guard)
        cells = {}
        for k in r.cells:
            if k in s.cells:
                a, b = r.cells[k], s.cells[k]
                cells[k] = a if a is b else restrict(ite(r.guard, a, b), g)
            else:
                cells[k] = r.cells[k]
        for k in s.cells:
            if k not in cells:
                cells[k] = s.cells[k]
        r = State(cells, g)
    return r


def merge_val(pairs):
    """pairs of (state, value) -> merged (state, value)"""
    pairs = [(s, v) for s, v in pairs if s is not None and s.guard is not FALSE]
    if not pairs:
        return None, BOT
    for s, v in pairs:
        s.cells[("ret",)] = v
    m = merge([s for s, _ in pairs])
    v = m.cells.pop(("ret",))
    return m, v


class Frame:
    def __init__(self, fid, fn, body, sub, promoted=None):
        self.fid = fid
        self.fn = fn
        self.body = body
        self.sub = sub


class Loop:
    def __init__(self, lid):
        self.lid = lid
        self.k = sym("k", lid)
        self.phis = {}  # loc -> (phi, init, next)
        self.closed = {}
        self.exits = []
        self.trip = None
        self.parent = ()
        self.guard = TRUE
        self.sp = None
        self.latch_guard = None


def bits_of(x, width):
    """bits x fits into; width: what terms were seen to fit into before they were widened"""
    if x.op == "int":
        n = x.args[0]
        return n.bit_length() if n >= 0 else 128
    if x.op == "ite":
        return max(bits_of(x.args[1], width), bits_of(x.args[2], width))
    w = width.get(x, 128)
    if x.op == "irem":
        return min(w, bits_of(x.args[0], width), bits_of(x.args[1], width))
    if x.op == "idiv":
        return min(w, bits_of(x.args[0], width))
    if x.op == "imin":
        return min([w] + [bits_of(a, width) for a in x.args])
    if x.op == "imax":
        return min(w, max(bits_of(a, width) for a in x.args))
    return w


class Engine:
    def __init__(self, prog, opaque=()):
        self.prog = prog
        self.opaque = set(opaque)  # suffixes of (generic-free) paths kept opaque
        self.events = []
        self.loops = {}
        self.ctx = ()
        self.stack = []
        self.unknown = []
        self.inlined = set()
        self.fidx = {}
        self.entry_types = {}
        self.width = {}
        import models

        self.models = models

    # ------------------------------------------------------------ events
    def event(self, st, kind, **kw):
        e = dict(kind=kind, guard=st.guard, ctx=self.ctx, fn=self.stack[-1].fn["def"]["p"] if self.stack else "", **kw)
        self.events.append(e)
        return e

    def unk(self, why, sp=None):
        self.unknown.append((why, sp))
        return fresh_unknown(why)

    # ------------------------------------------------------------ references
    def ref(self, cell, path=()):
        return mk("ref", cell, path)

    def read(self, st, loc):
        def f(l):
            if l.op == "ref":
                v = st.cells.get(l.args[0], None)
                if v is None:
                    return BOT
                for e in l.args[1]:
                    v = self.project(v, e)
                return v
            return l

        return lift1(f, loc)

    def project(self, v, e):
        k = e[0]
        if k == "f":
            return fld(v, e[1])
        if k == "p":
            return pay(v, e[1], e[2])
        if k == "idx":
            return sget(v, e[1])
        if k == "sl":
            return slice_(v, e[1], e[2])
        if k == "key":
            return mget(v, e[1])
        if k == "top":
            return htop(v)
        raise Unsupported("projection " + k)

    def update(self, v, path, x):
        if not path:
            return x
        e = path[0]
        k = e[0]
        if k == "f":
            return updf(v, e[1], self.update(fld(v, e[1]), path[1:], x))
        if k == "p":
            return updp(v, e[1], e[2], self.update(pay(v, e[1], e[2]), path[1:], x))
        if k == "idx":
            return setat(v, e[1], self.update(sget(v, e[1]), path[1:], x))
        if k == "key":
            return mset(v, e[1], self.update(mget(v, e[1]), path[1:], x))
        if k == "sl":
            # update of a subrange
            if len(path) > 1 and path[1][0] == "idx":
                return self.update(v, (("idx", iadd(e[1], path[1][1])),) + path[2:], x)
            return lift1(lambda l: mk("setsl", l, e[1], e[2], x), v)
        if k == "top":
            return lift1(lambda l: mk("settop", l, x), v)
        raise Unsupported("update " + k)

    def write(self, st, loc, x, sp=None, log=True):
        lv = leaves(loc)
        for g, l in lv:
            if l.op != "ref":
                if l.op not in ("unknown", "bot"):
                    self.unk("write through " + l.op, sp)
                continue
            cell, path = l.args
            old = st.cells.get(cell, BOT)
            if log and any(e[0] in ("idx", "key", "top") for e in path):
                self.event(st.under(g) if g is not TRUE else st, "write", cell=cell, path=path, value=x, before=old, sp=sp)
            new = self.update(old, path, x)
            st.cells[cell] = new if g is TRUE else ite(g, new, old)

    def ext(self, loc, e):
        """extend a location by one projection"""

        def f(l):
            if l.op == "ref":
                return mk("ref", l.args[0], l.args[1] + (e,))
            return self.project(l, e)

        return lift1(f, loc)

    # ------------------------------------------------------------ places
    def place(self, fr, st, p):
        local, proj = p
        loc = self.ref((fr.fid, local))
        ty = fz(fr.body["locals"][local]["t"])
        ty = tsub(ty, fr.sub)
        down = None
        for e in proj:
            k = e[0]
            if k == "deref":
                loc = self.deref(st, loc)
                ty = self.pointee(ty)
            elif k == "field":
                fty = tsub(fz(e[2]), fr.sub)
                if ty and ty[0] == "adt" and ty[1] in IDENT_ADTS and down is None:
                    pass
                elif down is not None:
                    loc = self.ext(loc, ("p", down, e[1]))
                else:
                    loc = self.ext(loc, ("f", e[1]))
                ty = fty
                down = None
            elif k == "down":
                down = e[1]
            elif k == "index":
                i = st.cells.get((fr.fid, e[1]), BOT)
                loc = self.ext(loc, ("idx", i))
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
            elif k == "cindex":
                if e[3]:
                    n = slen(self.read(st, loc))
                    i = iadd(n, num(-e[1]))
                else:
                    i = num(e[1])
                loc = self.ext(loc, ("idx", i))
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
            elif k == "subslice":
                n = slen(self.read(st, loc))
                b = iadd(n, num(-e[2])) if e[3] else num(e[2])
                loc = self.ext(loc, ("sl", num(e[1]), b))
            else:
                self.unk("projection " + k)
        return loc, ty

    def pointee(self, ty):
        if ty is None:
            return None
        if ty[0] in ("ref", "ptr"):
            return ty[1]
        if ty[0] == "adt" and ty[1] == "std::boxed::Box":
            return ty[2][0]
        return None

    def deref(self, st, loc):
        """location behind a pointer held at loc (shared references and boxes are transparent)"""

        def f(l):
            if l.op != "ref":
                return l
            v = self.read(st, l)
            if all(w.op != "ref" for _, w in leaves(v)):
                return l
            return v

        return lift1(f, loc)

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            loc, _ = self.place(fr, st, o["p"])
            return self.read(st, loc)
        if k == "const":
            return self.const(fr, st, o["c"])
        return self.unk("operand " + k)

    def optype(self, fr, st, o):
        if o["k"] in ("copy", "move"):
            return self.place(fr, st, o["p"])[1]
        return tsub(fz(o["c"]["ty"]), fr.sub)

    def const(self, fr, st, c):
        ty = tsub(fz(c["ty"]), fr.sub)
        if ty[0] == "fndef":
            d = c["ty"]["d"]
            return mk("fn", d["id"], self.fnref(d), tuple(tsub(fz(x), fr.sub) for x in c["ty"]["a"]))
        if "promoted" in c:
            f = self.prog.fns.get(c["of"])
            pb = (f or fr.fn).get("promoted") if f else None
            if pb is None:
                return self.unk("promoted")
            body = pb[c["promoted"]]
            sub = Frame(fr.fid + "/P%d" % c["promoted"], fr.fn, body, fr.sub)
            st2 = State({}, TRUE)
            outs = self.run_body(sub, st2)
            if outs is None:
                return self.unk("promoted")
            s, v = outs
            v = self.read(s, v) if v.op == "ref" else v
            return lift1(lambda l: self.read(s, l) if l.op == "ref" else l, v)
        v = c.get("val")
        if v is None:
            return self.unk("constant")
        return self.constval(ty, v, c)

    def constval(self, ty, v, c):
        k = v["k"]
        if k == "zst":
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "adt":
                return adt(ty[1], 0)
            if ty[0] == "closure":
                return mk("clo", ty[1], ty[2])
            return UNIT
        if k == "int":
            bits = int(v["bits"])
            return self.scalar(ty, bits, v["size"])
        if k == "bytes":
            return mk("str", v["s"])
        if k == "agg":
            fs = [self.constval(fz(x["t"]), x["v"], c) for x in v["fs"]]
            if ty[0] in ("ref", "ptr"):
                ty = ty[1]
            if ty[0] == "tuple":
                return tup(*fs)
            if ty[0] in ("array", "slice"):
                return lit(*fs)
            if ty[0] == "adt":
                if ty[1] in IDENT_ADTS and len(fs) == 1:
                    return fs[0]
                return adt(ty[1], v["v"], *fs)
        if k == "mem":
            return mk("mem", tuple(v["bytes"]), ty)
        if k == "static" and "init" in v:
            return self.constval(ty[1] if ty[0] in ("ref", "ptr") else ty, v["init"], c)
        if k == "generic":
            it = c.get("item")
            return mk("gconst", it["p"] if it else c.get("dbg", "?"))
        if k in ("static", "fnptr"):
            return mk("static", v["d"]["id"])
        return self.unk("constant " + k)

    def scalar(self, ty, bits, size):
        k = ty[0]
        if k == "bool":
            return TRUE if bits else FALSE
        if k in INTS or k == "char":
            return num(bits)
        if k in SINTS:
            n = SINTS[k]
            return num(bits - (1 << n) if bits >> (n - 1) else bits)
        if k in FLOATS:
            import struct

            if k == "f64":
                x = struct.unpack("<d", bits.to_bytes(8, "little"))[0]
            else:
                x = struct.unpack("<f", bits.to_bytes(4, "little"))[0]
            if x != x or x in (float("inf"), float("-inf")):
                return mk("fspecial", repr(x))
            return fc(x)
        if k == "adt":
            if ty[1] in ENUMS:
                ds = ENUMS[ty[1]][1]
                for i, d in enumerate(ds):
                    if d == bits or d == bits - (1 << (8 * size)):
                        return adt(ty[1], i)
            a = self.prog.adts.get(ty[1])
            if a and not a["enum"] and len([1 for f in a["variants"][0]["fields"]]) == 1:
                return adt(ty[1], 0, self.scalar(fz(a["variants"][0]["fields"][0][1]), bits, size))
        return mk("scalar", tname(ty), bits)

    def fnref(self, d):
        return d["p"]

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty, sp):
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k == "ref":
            loc, ty = self.place(fr, st, r["p"])
            if r["m"]:
                return loc
            return self.snap(st, loc)
        if k == "rawptr":
            loc, ty = self.place(fr, st, r["p"])
            return loc
        if k == "bin":
            a, b = self.operand(fr, st, r["l"]), self.operand(fr, st, r["r"])
            return self.binop(r["op"], a, b, tsub(fz(r["t"]), fr.sub), sp, st)
        if k == "un":
            a = self.operand(fr, st, r["o"])
            t = tsub(fz(r["t"]), fr.sub)
            if r["op"] == "Not":
                if t[0] == "bool":
                    return neg(a)
                if a.op == "int" and t[0] in INTS:
                    return num((1 << INTS[t[0]]) - 1 - a.args[0])
                if t[0] in INTS:
                    return lift1(lambda x: isub(num((1 << INTS[t[0]]) - 1), x) if all(y.op in ("len", "hlen", "mcard", "scard") and j > 0 for y, j in to_lin(x)[1].items()) else mk("bitnot", x), a)
                return mk("bitnot", a)
            if r["op"] == "Neg":
                if t[0] in FLOATS or t[0] == "param":
                    return fneg(a)
                return imul(num(-1), a) if t[0] in SINTS else self.unk("neg")
            if r["op"] == "PtrMetadata":
                return self.seq_len(st, a)
            return self.unk("unop " + r["op"])
        if k == "discr":
            loc, ty = self.place(fr, st, r["p"])
            v = self.read(st, loc)
            if ty and ty[0] == "adt" and ty[1] in ENUMS:
                return discr(v, ty[1])
            return mk("discr_of", v)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return tup(*ops)
            if ak == "array":
                return lit(*ops)
            if ak == "adt":
                if r["dp"] in IDENT_ADTS and len(ops) == 1:
                    return ops[0]
                return adt(r["dp"], r["v"], *ops)
            if ak == "closure":
                return mk("clo", r["d"], tuple(tsub(fz(x), fr.sub) for x in r["pa"]), *ops)
            if ak.startswith("RawPtr"):
                return ops[0]
            return self.unk("aggregate " + ak)
        if k == "repeat":
            n = r["n"]
            return mk("repeat", self.operand(fr, st, r["o"]), num(n)) if n is not None else self.unk("repeat")
        if k == "cast":
            return self.cast(fr, st, r, sp)
        return self.unk("rvalue " + k + " " + str(r.get("s", ""))[:60], sp)

    def snap(self, st, loc):
        """a shared reference is the value it points to; a reference to a mutable reference stays one"""
        v = self.read(st, loc)
        return v

    def seq_len(self, st, v):
        def f(l):
            if l.op == "ref":
                return slen(self.read(st, l))
            return slen(l)

        return lift1(f, v)

    def cast(self, fr, st, r, sp):
        ck = r["ck"]
        o = r["o"]
        ft = tsub(fz(r["ft"]), fr.sub)
        t = tsub(fz(r["t"]), fr.sub)
        if ck in ("Transmute", "BoxDerefTransmute") and ft[0] == "adt" and ft[1] in IDENT_ADTS and o["k"] in ("copy", "move"):
            # raw pointer into a box: the box content is held in place
            loc, ty = self.place(fr, st, o["p"])
            return loc
        v = self.operand(fr, st, o)
        if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Subtype") or (ck == "Transmute" and t[0] in ("ref", "ptr")):
            return v
        if ck == "IntToInt":
            return lift1(lambda x: self.int_cast(x, ft, t), v)
        if ck == "IntToFloat":
            return lift1(lambda x: mk("i2f", x, ft[0], t[0]), v)
        if ck == "FloatToInt":
            return lift1(lambda x: mk("f2i", x, ft[0], t[0]), v)
        if ck == "FloatToFloat":
            return v if ft == t else lift1(lambda x: mk("f2f", x, ft[0], t[0]), v)
        return self.unk("cast " + ck, sp)

    def int_cast(self, x, ft, t):
        if ft == t:
            return x
        a, b = ft[0], t[0]
        if a == "bool":
            return ite(x, ONE, ZERO)
        if a in INTS and b in INTS:
            if INTS[b] >= INTS[a]:
                if x.op not in ("int", "ite"):
                    self.width[x] = min(self.width.get(x, 128), INTS[a])
                return x
            if bits_of(x, self.width) <= INTS[b]:
                return x
            if x.op == "int":
                return num(x.args[0] % (1 << INTS[b]))
            return mk("trunc", x, INTS[b])
        if a == "char" and b in INTS and INTS[b] >= 32:
            return x
        if a == "u8" and b == "char":
            return x
        if x.op == "int":
            n = x.args[0]
            if b in INTS:
                return num(n % (1 << INTS[b]))
            if b in SINTS:
                n %= 1 << SINTS[b]
                return num(n - (1 << SINTS[b]) if n >> (SINTS[b] - 1) else n)
        return mk("sint", x, a, b)

    def binop(self, op, a, b, t, sp, st):
        k = t[0]
        isf = k in FLOATS
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isf:
            f = {"Add": fadd, "Sub": fsub, "Mul": fmul, "Div": fdiv, "Rem": frem}.get(base)
            if f:
                return rlift(f, a, b)
            if base == "Lt":
                return rlift(flt, a, b)
            if base == "Le":
                return rlift(fle, a, b)
            if base == "Gt":
                return rlift(lambda x, y: flt(y, x), a, b)
            if base == "Ge":
                return rlift(lambda x, y: fle(y, x), a, b)
            if base == "Eq":
                return rlift(feq, a, b)
            if base == "Ne":
                return neg(rlift(feq, a, b))
        if k == "bool":
            if base in ("Eq",):
                return iff(a, b)
            if base in ("Ne", "BitXor"):
                return neg(iff(a, b))
            if base == "BitAnd":
                return conj(a, b)
            if base == "BitOr":
                return disj(a, b)
            if base == "Lt":
                return conj(neg(a), b)
            if base == "Le":
                return disj(neg(a), b)
            if base == "Gt":
                return conj(a, neg(b))
            if base == "Ge":
                return disj(a, neg(b))
        if k in INTS or k in SINTS or k == "char":
            if base in ("Add", "Sub", "Mul"):
                f = {"Add": iadd, "Sub": isub, "Mul": imul}[base]
                r = f(a, b)
                if op.endswith("WithOverflow"):
                    return tup(r, mk("ovf", base, a, b, k))
                return r
            if base == "Div":
                return idiv(a, b) if k in INTS else mk("sint", a, b, "div")
            if base == "Rem":
                return irem(a, b) if k in INTS else mk("sint", a, b, "rem")
            if base == "Lt":
                return ilt(a, b)
            if base == "Le":
                return ile(a, b)
            if base == "Gt":
                return ilt(b, a)
            if base == "Ge":
                return ile(b, a)
            if base == "Eq":
                return ieq(a, b)
            if base == "Ne":
                return neg(ieq(a, b))
            if base == "Shr" and b.op == "int":
                return idiv(a, num(1 << b.args[0]))
            if base == "Shl" and b.op == "int":
                return imul(a, num(1 << b.args[0])) if k == "usize" or k == "u64" else mk("shl", a, b, k)
            if base == "BitAnd" and b.op == "int" and (b.args[0] & (b.args[0] + 1)) == 0 and k in INTS:
                return irem(a, num(b.args[0] + 1))
            if base == "BitAnd" and b.op == "int" and k in INTS:
                low = (1 << INTS[k]) - 1 - b.args[0]
                if low >= 0 and low & (low + 1) == 0:
                    # every bit but the lowest ones
                    return isub(a, irem(a, num(low + 1)))
            if base in ("BitAnd", "BitOr", "BitXor", "Shr", "Shl"):
                return mk(base.lower(), a, b)
            if base == "Cmp":
                return self.int_ordering(a, b)
        if base in ("Eq", "Ne"):
            r = liftn(lambda x, y: TRUE if x is y else atom(mk("eqv", *sorted([x, y], key=lambda q: q.id))), a, b)
            return r if base == "Eq" else neg(r)
        return self.unk("binop %s on %s" % (op, tname(t)), sp)

    def int_ordering(self, a, b):
        return ite(ilt(a, b), LESS, ite(ieq(a, b), EQUAL, GREATER))

    def float_partial(self, a, b):
        # values are NaN-free (see DESIGN.md), so the order is total
        return rlift(lambda x, y: some(EQUAL) if x is y else ite(flt(x, y), some(LESS), ite(flt(y, x), some(GREATER), some(EQUAL))), a, b)

    # ------------------------------------------------------------ bodies
    def run_body(self, fr, st):
        """runs a whole body; returns (state, return value) or None if it never returns"""
        cfg = self.prog.cfg(fr.fid if False else fr.fn["id"], fr.body)
        outs = self.run_region(fr, cfg, set(cfg["rpo"]), {0: [st]}, None)
        rets = outs.get("return", [])
        if not rets:
            return None
        m = merge(rets)
        v = m.cells.get((fr.fid, 0), UNIT)
        return m, v

    def drop_frame(self, fr, st):
        fid = fr.fid
        for k in [k for k in st.cells if k[0] == fid or (isinstance(k[0], str) and k[0].startswith(fid + "/"))]:
            del st.cells[k]

    def run_region(self, fr, cfg, region, pending, header):
        """visits the blocks of a region in reverse post order; returns {target: [states]}"""
        outs = {}
        loops = cfg["loops"]

        def send(target, s):
            if s is None or s.guard is FALSE:
                return
            if target == "return" or target not in region or target == header:
                outs.setdefault(target, []).append(s)
            else:
                pending.setdefault(target, []).append(s)

        inner = {}
        for h, b in loops.items():
            if h in region and h != header and b <= region:
                inner[h] = b
        # blocks belonging to an inner loop are handled when its header is reached
        covered = {}
        for h, b in inner.items():
            for x in b:
                if x != h:
                    covered.setdefault(x, set()).add(h)
        order = [b for b in cfg["rpo"] if b in region]
        done = set()
        for b in order:
            if b not in pending or b in done:
                continue
            if b == header and b in done:
                continue
            sts = pending.pop(b)
            s = merge(sts)
            if s is None:
                continue
            done.add(b)
            if b in inner:
                for tgt, s2 in self.run_cfg_loop(fr, cfg, b, inner[b], s):
                    send(tgt, s2)
            else:
                for tgt, s2 in self.block(fr, cfg, b, s):
                    send(tgt, s2)
        return outs

    def block(self, fr, cfg, b, st):
        bb = fr.body["bb"][b]
        st = st.copy()
        for s in bb["st"]:
            k = s["k"]
            if k == "assign":
                loc, ty = None, None
                v = self.rvalue(fr, st, s["r"], None, s.get("sp"))
                loc, ty = self.place(fr, st, s["p"])
                if not s["p"][1]:
                    st.cells[(fr.fid, s["p"][0])] = v
                else:
                    self.write(st, loc, v, s.get("sp"))
            elif k == "setdiscr":
                self.unk("set discriminant", s.get("sp"))
        t = bb["t"]
        k = t["k"]
        sp = t.get("sp")
        if k == "goto" or k == "drop":
            return [(t["t"], st)]
        if k == "return":
            return [("return", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            c = self.operand(fr, st, t["c"])
            ops = [self.operand(fr, st, o) for o in t["ops"]]
            tys = [self.optype(fr, st, o) for o in t["ops"]]
            mk_ = t["mk"]
            ok = None
            if mk_ == "bounds":
                ok = ilt(ops[1], ops[0])
            elif mk_ in ("div_zero", "rem_zero"):
                ok = neg(ieq(ops[0], ZERO))
                # message operand is the dividend; the condition itself tells the divisor
                ok = c if t["e"] else neg(c)
            elif not mk_.startswith("overflow"):
                ok = c if t["e"] else neg(c)
            self.event(st, "panic", why=mk_, ops=tuple(ops), ok=ok, ty=tys[0] if tys else None, sp=sp)
            return [(t["t"], st)]
        if k == "switch":
            v = self.operand(fr, st, t["d"])
            res = []
            rest = TRUE
            isb = tsub(fz(t["dt"]), fr.sub)[0] == "bool"
            conds = {}
            order = []
            for cv, tg in t["cases"]:
                n = int(cv)
                if isb:
                    c = neg(v) if n == 0 else v
                else:
                    dt = tsub(fz(t["dt"]), fr.sub)[0]
                    if dt in SINTS and n >> (SINTS[dt] - 1):
                        n -= 1 << SINTS[dt]
                    c = lift1(lambda x: self.switch_eq(x, n), v)
                c = conj(rest, c)
                rest = conj(rest, neg(c))
                if tg not in conds:
                    order.append(tg)
                    conds[tg] = c
                else:
                    conds[tg] = disj(conds[tg], c)
            tg = t["o"]
            if tg not in conds:
                order.append(tg)
                conds[tg] = rest
            else:
                conds[tg] = disj(conds[tg], rest)
            surv = [x for x in order if x in cfg["ret"]]
            for tg in order:
                if fr.body["bb"][tg]["t"]["k"] == "unreachable" and not fr.body["bb"][tg]["st"]:
                    continue
                if surv == [tg] and self.only_panics([x for x in order if x != tg], cfg, fr):
                    # assertion-like: the other successors only panic, the survivor keeps its condition
                    s2 = State(dict(st.cells), st.guard if conds[tg] is not FALSE else FALSE)
                    res.append((tg, s2))
                    if len(order) > 1:
                        self.event(st, "assume", ok=conds[tg], sp=sp)
                else:
                    res.append((tg, st.under(conds[tg])))
            return res
        if k == "call":
            dloc_needed = t.get("t")
            out = self.call_term(fr, st, t, b)
            if out is None or dloc_needed is None:
                return []
            s2, v = out
            if not t["dest"][1]:
                s2.cells[(fr.fid, t["dest"][0])] = v
            else:
                loc, _ = self.place(fr, s2, t["dest"])
                self.write(s2, loc, v, sp)
            return [(t["t"], s2)]
        self.unk("terminator " + k, sp)
        return []

    def switch_eq(self, x, n):
        if x.op == "discr_of":
            return atom(mk("discr_is", x.args[0], n))
        if x is TRUE or x is FALSE:
            return TRUE if (x is TRUE) == bool(n) else FALSE
        return eq0(iadd(x, num(-n)))

    def only_panics(self, targets, cfg, fr):
        """every given block leads only to panics (no loop, no return)"""
        seen, st = set(), list(targets)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            t = fr.body["bb"][x]["t"]
            if t["k"] == "return":
                return False
            for y in cfg["succ"][x]:
                if y in seen and cfg["pos"][y] <= cfg["pos"][x]:
                    return False
                st.append(y)
        return True

    # ------------------------------------------------------------ loops
    def run_cfg_loop(self, fr, cfg, header, body, st):
        lid = "%s@%d" % (fr.fid, header)

        def one(s):
            outs = self.run_region(fr, cfg, body, {header: [s]}, None) if False else self._loop_iter(fr, cfg, header, body, s)
            latch = outs.pop(header, [])
            return merge(latch), [(t, merge(ss)) for t, ss in outs.items()]

        sp = fr.body["bb"][header]["t"].get("sp")
        return self.run_loop(lid, st, one, sp=sp, hint=self._loop_locals(fr, body))

    def _loop_locals(self, fr, body):
        return None

    def _loop_iter(self, fr, cfg, header, body, s):
        outs = {}
        pending = {}
        inner_out = self.block(fr, cfg, header, s) if True else None
        for tgt, s2 in inner_out:
            if s2 is None or s2.guard is FALSE:
                continue
            if tgt == "return" or tgt not in body or tgt == header:
                outs.setdefault(tgt, []).append(s2)
            else:
                pending.setdefault(tgt, []).append(s2)
        o2 = self.run_region(fr, cfg, body, pending, header)
        for k, v in o2.items():
            outs.setdefault(k, []).extend(v)
        return outs

    def diff(self, a, b, path=()):
        """locations (projection paths) where two values of the same cell differ"""
        if a is b:
            return []
        if a.op == b.op and a.op in ("adt", "tup", "clo", "iter"):
            hdr = {"adt": 2, "tup": 0, "clo": 2, "iter": 1}[a.op]
            if a.args[:hdr] == b.args[:hdr] and len(a.args) == len(b.args):
                r = []
                for i in range(hdr, len(a.args)):
                    if a.op == "adt" and a.args[0] in ENUMS:
                        e = ("p", a.args[1], i - hdr)
                    elif a.op == "iter":
                        e = ("it", i)
                    else:
                        e = ("f", i - hdr)
                    r += self.diff(a.args[i], b.args[i], path + (e,))
                return r
        return [path]

    def peel(self, v, path):
        for e in path:
            if e[0] == "it":
                if v.op != "iter":
                    return None
                v = v.args[e[1]]
            elif e[0] == "f":
                if v.op not in ("adt", "tup", "clo"):
                    return None
                v = v.args[e[1] + (0 if v.op == "tup" else 2)]
            elif e[0] == "p":
                if v.op != "adt" or v.args[1] != e[1]:
                    return None
                v = v.args[2 + e[2]]
        return v

    def poke(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == "it":
            i = e[1]
        elif e[0] == "f":
            i = e[1] + (0 if v.op == "tup" else 2)
        else:
            i = 2 + e[2]
        a = list(v.args)
        a[i] = self.poke(a[i], path[1:], x)
        return mk(v.op, *a)

    def loc_name(self, loc):
        cell, path = loc
        return "%s%s" % ("%s#%s" % cell if len(cell) == 2 else str(cell), "".join("." + "/".join(map(str, e)) for e in path))

    def run_loop(self, lid, st0, one, sp=None, hint=None):
        """generic loop: `one` maps a header state to (latch state, [(tag, exit state)])"""
        L = Loop(lid)
        L.parent = self.ctx
        L.guard = st0.guard
        L.sp = sp
        L.fn = self.stack[-1].fn["def"]["p"] if self.stack else ""
        mark = len(self.events)
        umark = len(self.unknown)
        phis = {}  # (cell, path) -> (phi, init)
        k = L.k
        for pass_ in range(40):
            del self.events[mark:]
            del self.unknown[umark:]
            h = State(dict(st0.cells), TRUE)
            for (cell, path), (phi, init) in phis.items():
                h.cells[cell] = self.poke(h.cells[cell], path, phi)
            hvals = dict(h.cells)
            self.ctx = L.parent + (lid,)
            latch, exits = one(h)
            self.ctx = L.parent
            if latch is None:
                break
            for cell, v0 in hvals.items():
                v1 = latch.cells.get(cell)
                if v1 is not None and v1 is not v0 and v1.op == "ite":
                    latch.cells[cell] = restrict(v1, latch.guard)
            new = []
            for cell, v0 in hvals.items():
                v1 = latch.cells.get(cell)
                if v1 is None or v1 is v0:
                    continue
                for path in self.diff(v0, v1):
                    loc = (cell, path)
                    if loc in phis:
                        continue
                    # a location inside (or above) an existing one: use the coarser
                    par = [l for l in phis if l[0] == cell and l[1] == path[: len(l[1])]]
                    if par:
                        continue
                    new.append(loc)
            if not new:
                break
            for loc in new:
                cell, path = loc
                for l in [l for l in phis if l[0] == cell and l[1][: len(path)] == path]:
                    del phis[l]
                init = self.peel(st0.cells[cell], path)
                phis[loc] = (mk("phi", lid, self.loc_name(loc)), init)
        else:
            self.unk("loop did not stabilise", sp)
        nexts = {}
        if latch is not None:
            for loc in phis:
                nexts[loc] = self.peel(latch.cells.get(loc[0], BOT), loc[1])
                if nexts[loc] is None:
                    nexts[loc] = self.unk("loop value shape", sp)
        lg = latch.guard if latch is not None else FALSE
        # induction variables
        ind = {}
        for loc, (phi, init) in phis.items():
            n = nexts[loc]
            d = isub(n, phi) if n.op in ("lin", "int", "phi", "sym") or True else None
            if n.op in ("lin",) and d.op == "int":
                ind[phi] = iadd(init, imul(d, k))
            elif n.op == "lin":
                # loop-invariant stride
                if not any_op(d, lambda t: t.op == "phi" and t.args[0] == lid) and not any_op(d, lambda t: t is k):
                    if not any_op(d, lambda t: t.op == "ite"):
                        ind[phi] = iadd(init, imul(d, k))
        # sequences that lose a fixed number of elements at the front
        for loc, (phi, init) in phis.items():
            nx = restrict(nexts[loc], lg) if lg is not FALSE else nexts[loc]
            if phi not in ind and nx.op == "slice" and nx.args[0] is phi and nx.args[1].op == "int" and nx.args[1].args[0] >= 1 and nx.args[2] is slen(phi):
                ind[phi] = mk("slice", init, imul(nx.args[1], k), slen(init))
        # lengths of sequences that grow by a fixed number of elements
        grow = {}
        for loc, (phi, init) in phis.items():
            nx = restrict(nexts[loc], lg) if lg is not FALSE else nexts[loc]
            d = self.growth(nx, phi)
            if d is not None:
                ind[slen(phi)] = iadd(slen(init), imul(num(d), k))
                grow[loc] = d
        first = {}
        for loc, (phi, init) in phis.items():
            if grow.get(loc) == 0:
                nx = subst(nexts[loc], ind)
                nx = restrict(nx, subst(lg, ind)) if lg is not FALSE else nx
                if self.writes_at(nx, phi, k):
                    # the element of this iteration has not been written by an earlier one
                    first[sget(phi, k)] = sget(init, k)
        if ind:
            memo, memo1 = {}, {}
            S = (lambda t: subst(subst(t, ind, memo), first, memo1)) if first else (lambda t: subst(t, ind, memo))
            nexts = {l: S(v) for l, v in nexts.items()}
            lg = S(lg)
            for e in self.events[mark:]:
                self.map_event(e, S)
            for lid2, l2 in self.loops.items():
                if L.lid in l2.parent or lid2.startswith(lid):
                    pass
            self._map_inner(lid, S)
            for f, x in list(self.fidx.items()):
                g = S(f)
                if g is not f and g.op == "fidx" and g not in self.fidx:
                    self.fidx[g] = tuple(S(y) for y in x)
            exits = [(t, State({c: S(v) for c, v in s.cells.items()}, S(s.guard))) for t, s in exits if s is not None]
        else:
            exits = [(t, s) for t, s in exits if s is not None]
        for loc, (phi, init) in phis.items():
            L.phis[loc] = (phi, init, nexts[loc])
        L.latch_guard = lg
        # iteration count
        exits = [(t, s) for t, s in exits if s.guard is not FALSE]
        # canonicalise filtered iteration spaces
        exits, lg = self.unfilter(L, mark, exits, lg, phis)
        trips = []
        for t, s in exits:
            trips.append(self.trip_of(s.guard, k, lid))
        L.exits = [(t, s.guard) for t, s in exits]
        results = []
        n_exit = len(exits)
        hdr = [i for i, tr in enumerate(trips) if tr is not None]
        if hdr:
            L.trip = trips[hdr[0]]
        order = None
        if n_exit > 1 and len(hdr) == 1:
            # tests made one after the other in the same iteration
            done, order = list(hdr), list(hdr)
            while len(done) < n_exit:
                for j in range(n_exit):
                    if j in done:
                        continue
                    g = exits[j][1].guard
                    for i in done:
                        g = restrict(g, neg(exits[i][1].guard))
                    tr = self.trip_of(g, k, lid)
                    if tr is not None:
                        trips[j] = tr
                        done.append(j)
                        order.append(j)
                        break
                else:
                    break
            if len(done) == n_exit:
                for j in order:
                    L.trip = imin(L.trip, trips[j])
            else:
                for j in order[1:]:
                    trips[j] = None
                order = None
                L.trip = None
        for j, (t, s) in enumerate(exits):
            K = trips[j] if trips[j] is not None else mk("sym", "kx", lid, j)
            m = {k: K}
            for loc, (phi, init) in phis.items():
                if phi in ind:
                    m[phi] = subst(ind[phi], {k: K})
            m2 = {}
            unrolled = None
            for loc, (phi, init) in phis.items():
                if phi in ind:
                    continue
                cf = self.closed(L, loc, phi, init, L.phis[loc][2], lg, K)
                if cf is None and unrolled is None:
                    unrolled = self.unrolled(L, phis, ind, K)
                if cf is None:
                    cf = unrolled.get(phi)
                if cf is None:
                    cf = mk("fin", lid, self.loc_name(loc), j)
                    if grow.get(loc) == 0:
                        cf = mk("fin", lid, self.loc_name(loc), j, slen(init))
                m2[phi] = cf
            L.closed[j] = dict(m2)
            mm = dict(m)
            mm.update(m2)
            memo = {}
            cells = {c: subst(v, mm, memo) for c, v in s.cells.items()}
            if n_exit == 1:
                g = TRUE
            elif order is not None:
                g = TRUE
                before = True
                for i in order:
                    if i == j:
                        before = False
                    else:
                        g = conj(g, ilt(trips[j], trips[i]) if before else ile(trips[j], trips[i]))
            else:
                g = TRUE
                for i in range(min(j, n_exit - 1)):
                    g = conj(g, neg(atom(mk("exit", lid, i))))
                if j < n_exit - 1:
                    g = conj(g, atom(mk("exit", lid, j)))
            results.append((t, State(cells, conj(st0.guard, g))))
        L.exit_states = [(t, s) for t, s in exits]
        L.entry_cells = st0.cells
        self.loops[lid] = L
        return results

    def unrolled(self, L, phis, ind, K):
        """values after a small constant number of iterations, one iteration after the other"""
        if K.op != "int" or not 0 < K.args[0] <= 16:
            return {}
        locs = [l for l, (phi, init) in phis.items() if phi not in ind]
        inner = set(l2.lid for l2 in self.loops.values() if L.lid in l2.parent)
        for l in locs:
            if any_op(L.phis[l][2], lambda t: t.op in ("fin", "kx", "exit", "phi", "unknown") and (t.op == "unknown" or t.args[0] in inner)):
                return {}
        cur = {phis[l][0]: phis[l][1] for l in locs}
        for i in range(K.args[0]):
            m = dict(cur)
            m[L.k] = num(i)
            for phi, e in ind.items():
                m[phi] = subst(e, {L.k: num(i)})
            memo = {}
            cur = {phis[l][0]: subst(L.phis[l][2], m, memo) for l in locs}
            if sum(sum(1 for _ in terms.subterms(v)) for v in cur.values()) > 4000:
                return {}
        return cur

    def growth(self, nxt, phi):
        """number of elements every iteration adds to a sequence, or None"""
        ds = set()
        for g, v in leaves(nxt):
            d = 0
            while v is not phi:
                if v.op in ("push", "insat"):
                    d += 1
                elif v.op == "cat" and slen(v.args[1]).op == "int":
                    d += slen(v.args[1]).args[0]
                elif v.op == "fin" and len(v.args) == 4 and isub(v.args[3], slen(phi)).op == "int":
                    # an inner loop that keeps the length
                    d += isub(v.args[3], slen(phi)).args[0]
                    break
                elif v.op != "setat":
                    return None
                v = v.args[0]
            ds.add(d)
            if len(ds) > 1:
                return None
        return ds.pop() if ds and nxt is not phi else None

    def writes_at(self, nxt, phi, k):
        """every element written in an iteration is the one at the iteration's number"""
        for g, v in leaves(nxt):
            while v.op == "setat" and v.args[1] is k:
                v = v.args[0]
            if v is not phi:
                return False
        return True

    def _map_inner(self, lid, S):
        for l2 in self.loops.values():
            if lid in l2.parent:
                l2.guard = S(l2.guard)
                l2.latch_guard = S(l2.latch_guard) if l2.latch_guard is not None else None
                l2.phis = {loc: (p, S(i), S(n)) for loc, (p, i, n) in l2.phis.items()}
                l2.exits = [(t, S(g)) for t, g in l2.exits]
                l2.exit_states = [(t, State({c: S(v) for c, v in s.cells.items()}, S(s.guard))) for t, s in l2.exit_states]
                l2.trip = S(l2.trip) if l2.trip is not None else None
                l2.closed = {j: {p: S(v) for p, v in d.items()} for j, d in l2.closed.items()}

    def map_event(self, e, S):
        for f, v in list(e.items()):
            if isinstance(v, T):
                e[f] = S(v)
            elif f == "path":
                e[f] = tuple(tuple(S(x) if isinstance(x, T) else x for x in el) for el in v)
            elif isinstance(v, tuple) and v and isinstance(v[0], T):
                e[f] = tuple(S(x) for x in v)

    def unfilter(self, L, mark, exits, lg, phis):
        """a loop over filter(S, p): iterate S itself and guard the body by p"""
        k = L.k
        fx = [t for t in self.fidx if t.args[1] is k]
        for f in fx:
            S_, pred, inner_len, more_atom = self.fidx[f]
            # the counter must appear only through the index map or in the exit test
            def uses(t):
                return any_op(subst(t, {f: mk("sym", "flt")}), lambda x: x is k)

            ok = True
            exit_g = [neg(more_atom) if s.guard is neg(more_atom) else None for t, s in exits]
            for e in self.events[mark:]:
                if e["ctx"][: len(L.parent) + 1] != L.parent + (L.lid,):
                    continue
                for nm_, v in e.items():
                    if nm_ == "before":
                        continue
                    if isinstance(v, T) and uses(restrict(v, more_atom)):
                        ok = False
                    if isinstance(v, tuple):
                        for x in v:
                            if isinstance(x, T) and uses(x):
                                ok = False
            for loc in L.phis:
                phi, init, n = L.phis[loc]
                if loc[1] and loc[1][-1] == ("it", 1):
                    continue
                if uses(restrict(n, more_atom)):
                    ok = False
            if not ok:
                continue
            more_new = ge0(iadd(isub(inner_len, k), num(-1)))
            S1 = lambda t: subst(t, {f: k})

            def conv(g):
                # condition inside the body: drop the 'more' test of the filter, add the predicate
                return conj(conj(more_new, S1(pred)), S1(restrict(g, more_atom)))

            for e in self.events[mark:]:
                if e["ctx"] == L.parent + (L.lid,):
                    self.map_event(e, S1)
                    e["guard"] = conj(conj(more_new, S1(pred)), restrict(e["guard"], S1(more_atom)))
                elif e["ctx"][: len(L.parent) + 1] == L.parent + (L.lid,):
                    self.map_event(e, S1)
            for l2 in self.loops.values():
                if l2.parent == L.parent + (L.lid,):
                    l2.guard = conj(conj(more_new, S1(pred)), S1(restrict(l2.guard, more_atom)))
            self._map_inner(L.lid, S1)
            new = {}
            for loc, (phi, init, n) in L.phis.items():
                if loc[1] and loc[1][-1] == ("it", 1):
                    new[loc] = (phi, init, n)
                    continue
                n2 = S1(restrict(n, more_atom))
                new[loc] = (phi, init, ite(S1(pred), n2, phi))
            L.phis = new
            exits2 = []
            for t, s in exits:
                if s.guard is neg(more_atom):
                    exits2.append((t, State({c: S1(v) for c, v in s.cells.items()}, neg(more_new))))
                else:
                    exits2.append((t, State({c: S1(v) for c, v in s.cells.items()}, conv(s.guard))))
            exits = exits2
            lg = disj(conv(lg), conj(more_new, neg(S1(pred))))
            L.latch_guard = lg
            L.filtered = True
        return exits, lg

    def trip_of(self, g, k, lid):
        """number of iterations if the exit condition is  not(a - b*k >= 0), b > 0, a invariant"""
        if g.op != "ite":
            return None
        a, h, l = g.args
        if not (h in (TRUE, FALSE) and l in (TRUE, FALSE)):
            # one number of iterations or another, settled before the loop
            if any_op(a, lambda t: t is k or (t.op == "phi" and t.args[0] == lid)):
                return None
            if h in (TRUE, FALSE) or l in (TRUE, FALSE):
                return None
            h, l = self.trip_of(h, k, lid), self.trip_of(l, k, lid)
            return ite(atom(a), h, l) if h is not None and l is not None else None
        if a.op != "ge0":
            if a.op == "eq0":
                # not-equal loops: exit when n - k == 0
                c, d = to_lin(a.args[0])
                if k in d and abs(d[k]) == 1 and g.args[1] is TRUE:
                    e = from_lin(c, {t: j for t, j in d.items() if t is not k})
                    n = e if d[k] == -1 else imul(num(-1), e)
                    if not any_op(n, lambda t: t is k or (t.op == "phi" and t.args[0] == lid)):
                        return n
            return None
        c, d = to_lin(a.args[0])
        if k not in d:
            return None
        s = d.pop(k)
        if any(any_op(t, lambda u: u is k or (u.op == "phi" and u.args[0] == lid)) for t in d):
            return None
        if s < 0 and h is FALSE:
            # continue while e - |s| k >= 0   =>  floor(e/|s|)+1 = ceil((e+1)/|s|)
            e = from_lin(c, d)
            return self.nonneg_trip(cdiv(iadd(e, ONE), -s))
        if s > 0 and h is TRUE:
            # exit when s k + e >= 0
            e = from_lin(-c, {t: -j for t, j in d.items()})
            # smallest k with s k >= e : ceil(e/s)
            return self.nonneg_trip(cdiv(e, s))
        return None

    def nonneg_trip(self, t):
        c, d = to_lin(t)
        if any(j < 0 for j in d.values()) or c < 0:
            g = ge0(t)
            if g is TRUE:
                return t
            if len(d) >= 1 and c <= 0:
                pos = from_lin(max(c, 0), {x: j for x, j in d.items() if j > 0})
                neg_ = from_lin(-min(c, 0), {x: -j for x, j in d.items() if j < 0})
                return nsub(pos, neg_)
        return t

    def capped(self, phi, init, items, k, K):
        """elements that pass a test are appended while the list is shorter than a fixed length"""
        if len(items) != 1 or items[0][1].op != "push":
            return None
        g, v = items[0]
        x = v.args[1]
        if any_op(x, lambda y: y is phi):
            return None
        at = [a for a in atoms_of(g) if any_op(a, lambda y: y is phi)]
        if len(at) != 1 or at[0].op != "ge0":
            return None
        a = atom(at[0])
        if restrict(g, a) is FALSE:
            a = neg(a)
        if restrict(g, neg(a)) is not FALSE:
            return None
        p = restrict(g, a)
        c, d = to_lin(at[0].args[0])
        n = slen(phi)
        j = d.pop(n, None)
        if j not in (1, -1) or any(any_op(t, lambda y: y is phi or y is k) for t in d) or any_op(p, lambda y: y is phi):
            return None
        # shorter than M: M - 1 - len >= 0, or not (len - M >= 0)
        e = from_lin(c, d)
        if a is atom(at[0]):
            if j != -1:
                return None
            m = iadd(e, ONE)
        else:
            if j != 1:
                return None
            m = isub(ZERO, e)
        s = comp(k, K, p, restrict(x, p))
        return cat(init, lift1(lambda n: slice_(s, ZERO, n), imin(nsub(m, slen(init)), slen(s))))

    def closed(self, L, loc, phi, init, nxt, lg, K):
        """closed form of an accumulator after K iterations, or None"""
        k = L.k
        nxt = restrict(nxt, lg) if lg is not FALSE else nxt
        lid = L.lid

        def has_phi(t):
            return any_op(t, lambda x: x is phi)

        # the value appended per iteration, under which condition
        pushes = []
        lv = leaves(nxt)
        if all(v is phi or (v.op in ("push", "insat") and v.args[0] is phi) for g, v in lv):
            items = [(g, v) for g, v in lv if v is not phi]
            ok = True
            e = BOT
            g_all = FALSE
            for g, v in items:
                if v.op == "insat":
                    d = isub(v.args[1], k)
                    if not (d is slen(init) or isub(d, slen(init)) is ZERO) or g is not TRUE:
                        ok = False
                x = v.args[1] if v.op == "push" else v.args[2]
                if has_phi(x) or any_op(g, lambda y: y is phi):
                    ok = False
                e = ite(g, x, e)
                g_all = disj(g_all, g)
            if ok and items:
                return cat(init, comp(k, K, g_all, restrict(e, g_all)))
            r = self.capped(phi, init, items, k, K)
            if r is not None:
                return r
        # cat(phi, s) : concatenation of per-iteration sequences is left opaque
        # integer counters under a condition
        if all(v is phi or (v.op == "lin" and isub(v, phi).op == "int") for g, v in lv):
            r = init
            for g, v in lv:
                if v is phi:
                    continue
                if has_phi(g) or any_op(g, lambda x: x is phi):
                    return None
                c = isub(v, phi)
                r = iadd(r, imul(c, sum_(k, K, g, ONE)))
            return r
        # sums
        if all(v is phi or (v.op == "fadd" and (v.args[0] is phi or v.args[1] is phi)) for g, v in lv):
            ok = True
            e, ga = BOT, FALSE
            for g, v in lv:
                if v is phi:
                    continue
                x = v.args[1] if v.args[0] is phi else v.args[0]
                if has_phi(x) or any_op(g, lambda y: y is phi):
                    ok = False
                e = ite(g, x, e)
                ga = disj(ga, g)
            if ok:
                return fadd(init, sum_(k, K, ga, restrict(e, ga)))
        # integer sums
        def iadds(v):
            c, d = to_lin(v)
            return d.get(phi) == 1

        if all(v is phi or iadds(v) for g, v in lv):
            r = init
            for g, v in lv:
                if v is phi:
                    continue
                x = isub(v, phi)
                if has_phi(x) or any_op(g, lambda y: y is phi):
                    return None
                r = iadd(r, sum_(k, K, g, x))
            return r
        # element-wise update: a[k] := f(a[k]) for every k below len
        if all(v is phi or v.op == "setat" and v.args[0] is phi and v.args[1] is k for g, v in lv) and nxt is not phi and slen(init) is K:
            old = sget(phi, k)
            x = lift1(lambda v: old if v is phi else v.args[2], nxt)
            rep = subst(x, {old: sget(init, k)})
            if not has_phi(rep):
                return comp(k, K, TRUE, rep)
        # conditions that must hold in every (or in some) iteration
        if nxt is not phi and all(v is phi or v is TRUE or v is FALSE for g, v in lv):
            a, b = restrict(nxt, atom(phi)), restrict(nxt, neg(atom(phi)))
            a = subst(a, {phi: TRUE})
            b = subst(b, {phi: FALSE})
            if not has_phi(a) and not has_phi(b):
                if b is FALSE:
                    return conj(init, neg(self.models.exists_k(k, K, neg(a))))
                if a is TRUE:
                    return disj(init, self.models.exists_k(k, K, b))
        return None

    # ------------------------------------------------------------ calls
    def call_term(self, fr, st, t, b):
        args = [self.operand(fr, st, a) for a in t["args"]]
        ats = [tsub(fz(x), fr.sub) for x in t["at"]]
        dty = tsub(fz(t["dty"]), fr.sub)
        ft = t["ft"]
        site = "%s/%d" % (fr.fid, b)
        if ft["k"] == "fndef":
            d = ft["d"]
            ga = tuple(tsub(fz(x), fr.sub) for x in ft["a"])
            return self.call_def(st, d, ga, args, ats, dty, site, t.get("sp"))
        f = self.operand(fr, st, t["f"])
        return self.call_value(st, f, args, site, t.get("sp"), dty)

    def resolve(self, d, ga):
        """local function definition to run for a callee, with its substitution"""
        did = d["id"]
        if d.get("trait") or did in self.prog.trait_items:
            if did in self.prog.trait_items:
                tp, nm, has = self.prog.trait_items[did]
            else:
                tp, nm, has = d["trait"], d["name"], False
            selft = ga[0] if ga else None
            for i in self.prog.by_trait.get(tp, []):
                s = {}
                ft = i["ftargs"]
                if selft is None or selft[0] == "param":
                    continue
                if i["fself"][0] == "param":
                    continue
                if not unify(ft[0], selft, s):
                    continue
                if not all(unify(a, b, s) for a, b in zip(ft[1:], ga[1 : len(ft)])):
                    continue
                for n2, iid in i["items"]:
                    if n2 == nm and iid in self.prog.fns:
                        f = self.prog.fns[iid]
                        sub = dict(s)
                        gi = i["generics"]
                        extra = [g for g in f["generics"] if g not in gi]
                        rest = list(ga[len(ft) :])
                        for g, x in zip(extra, rest):
                            sub[g] = x
                        return f, sub, i
            if has and did in self.prog.fns and self.prog.fns[did].get("body"):
                f = self.prog.fns[did]
                return f, dict(zip(f["generics"], ga)), None
            return None
        f = self.prog.fns.get(did)
        if f and f.get("body"):
            return f, dict(zip(f["generics"], ga)), None
        return None

    def is_opaque(self, d, rf):
        p = strip_gen(d["p"]) if not d.get("trait") else (d["trait"] + "::" + d["name"])
        names = [p]
        if rf is not None:
            f = rf[0]["def"]
            if f.get("impl_of"):
                s = f.get("impl_self", {})
                sn = s.get("p", s.get("k", "")).split("::")[-1]
                names.append("<%s as %s>::%s" % (sn, f["impl_of"].split("::")[-1], f["name"]))
        for n in names:
            for o in self.opaque:
                if n == o or n.endswith("::" + o) or n.endswith(o) and o.startswith("<"):
                    return o
        return None

    def call_def(self, st, d, ga, args, ats, dty, site, sp):
        rf = self.resolve(d, ga)
        o = self.is_opaque(d, rf)
        if o is not None:
            return self.opaque_call(st, "op:" + o, args, ats, dty, site, sp, d, ga)
        if rf is not None:
            f, sub, impl = rf
            nm = d.get("name")
            if impl is not None and impl.get("derived"):
                r = self.models.derived(self, st, impl, nm, args, ats, site, sp)
                if r is not None:
                    return r
            depth = sum(1 for x in self.stack if x.fn["id"] == f["id"])
            # a call on a known variant of a crate enum is specialised; other recursion stays a call
            special = depth <= 3 and any(a.op == "adt" and len(a.args) == 2 and a.args[0] in self.prog.adts and a.args[0] in ENUMS for a in args)
            if (f["id"] in self.prog.recursive() or depth) and not special and not (depth == 0 and self.inline_recursive(f)):
                return self.opaque_call(st, "rec:" + f["id"], args, ats, dty, site, sp, d, ga, rec=(f, sub))
            return self.call_fn(st, f, sub, args, site, sp)
        r = self.models.call(self, st, d, ga, args, ats, dty, site, sp)
        if r is not NotImplemented:
            return r
        return self.unknown_call(st, d, ga, args, ats, dty, site, sp)

    def inline_recursive(self, f):
        """may a call to a recursive function be expanded at this point (recursion inside it then stops)?"""
        prog = self.prog
        prog.recursive()
        root = self.stack[0].fn["id"] if self.stack else None
        if root is not None and f["id"] != root and prog.scc.get(root) == prog.scc.get(f["id"]):
            return True  # a helper of the recursive function under analysis
        if root == f["id"]:
            return False
        memo = prog.__dict__.setdefault("_spec", {})
        if f["id"] not in memo:
            memo[f["id"]] = False
            try:
                e = Engine(prog, opaque=self.opaque)
                r = e.analyze(f)
                memo[f["id"]] = not any(ev["kind"] == "call" and str(ev["name"]).startswith("rec:") for ev in r.events)
            except (Lost, Unsupported, RecursionError):
                pass
        return memo[f["id"]]

    def unknown_call(self, st, d, ga, args, ats, dty, site, sp):
        local_trait = d["id"] in self.prog.trait_items
        if local_trait:
            tp, nm, _ = self.prog.trait_items[d["id"]]
            nm = tp.split("::")[-1] + "::" + nm
            r = self.models.param_trait(self, st, nm, args, ats, ga, sp)
            if r is not None:
                return st, r
            nm = "t:" + nm
            if not args:
                return self.opaque_call(st, nm, args, ats, dty, site, sp, d, ga, extra=(mk("ty", ga[0]),))
            return self.opaque_call(st, nm, args, ats, dty, site, sp, d, ga)
        self.unknown.append(("call " + d["p"], sp))
        return self.opaque_call(st, "x:" + d["p"], args, ats, dty, site, sp, d, ga)

    def opaque_call(self, st, name, args, ats, dty, site, sp, d=None, ga=(), extra=(), rec=None):
        vals = []
        muts = []
        for a, t in zip(args, ats):
            mutref = t and t[0] in ("ref", "ptr") and t[2]
            if mutref:
                vals.append(self.read(st, a))
                muts.append((len(vals) - 1, a))
            else:
                vals.append(self.deep(st, a))
        ev = self.event(st, "call", name=name, args=tuple(vals), raw=tuple(args), sp=sp, site=site, rec=rec, dty=dty)
        r = mk("app", name, *(tuple(vals) + tuple(extra)))
        for i, a in muts:
            self.write(st, a, mk("app", name + "!%d" % i, *vals), sp, log=False)
        # places that an iterator or a closure passed along may write to
        held = []
        for v in vals:
            self.mutable_refs(v, held)
        for n, ref in enumerate(held):
            self.write(st, ref, mk("app", name + "!h%d" % n, *vals), sp, log=False)
        if dty and dty[0] == "bool":
            r = atom(r)
        ev["result"] = r
        return st, r

    def mutable_refs(self, v, out, seen=None):
        """references in a value through which its holder may write"""
        seen = set() if seen is None else seen
        if not isinstance(v, T) or v in seen:
            return
        seen.add(v)
        if v.op in ("S.mut", "S.entmut", "S.valmut", "S.chunksmut") and v.args[0].op == "ref" and v.args[0] not in out:
            out.append(v.args[0])
        if v.op == "clo":
            fn = self.prog.fns.get(v.args[0])
            try:
                t = fn["body"]["locals"][1]["t"]
                t = t["t"] if t["k"] == "ref" else t
                for u, o in zip(t["up"], v.args[2:]):
                    if u["k"] == "ref" and u["m"] and o.op == "ref" and o not in out:
                        out.append(o)
            except (KeyError, TypeError, IndexError):
                pass
        if v.op in ("app", "phi", "fin"):
            return
        for x in v.args:
            self.mutable_refs(x, out, seen)

    def deep(self, st, v):
        """replace mutable references inside a passed value by a marker with their current value"""
        if v.op == "ref":
            return mk("refval", self.read(st, v))
        return v

    def call_fn(self, st, f, sub, args, site, sp):
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        fid = site + ":" + f["id"].split("::")[-1]
        fr = Frame(fid, f, f["body"], sub)
        self.inlined.add(f["id"])
        st = st.copy()
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        self.stack.append(fr)
        try:
            out = self.run_body(fr, st)
        finally:
            self.stack.pop()
        if out is None:
            return None
        s, v = out
        self.drop_frame(fr, s)
        return s, v

    def call_value(self, st, f, args, site, sp, dty=None):
        """call a closure, function item or unknown callable with plain arguments"""
        if f.op == "ite":
            pairs = []
            for i, (g, l) in enumerate(leaves(f)):
                s = st.under(g)
                r = self.call_value(s, l, args, site + "~%d" % i, sp, dty)
                if r is not None:
                    pairs.append(r)
            if not pairs:
                return None
            return merge_val(pairs)
        envref = None
        if f.op == "ref":
            envref = f
            f = self.read(st, f)
            if f.op not in ("clo", "fn"):
                if f.op == "ite":
                    return self.call_value(st, f, args, site, sp, dty)
                envref = None
        if f.op == "clo":
            fn = self.prog.fns.get(f.args[0])
            if fn is None:
                return st, self.unk("closure", sp)
            names = [g for g in fn["generics"] if g]
            sub = dict(zip(names, f.args[1]))
            # environment: by reference if the closure body expects one
            ety = fz(fn["body"]["locals"][1]["t"])
            env = f
            st = st.copy()
            key = (site + ":env", 0)
            if ety[0] == "ref" and ety[2]:
                if envref is not None:
                    env = envref
                else:
                    st.cells[key] = f
                    env = self.ref(key)
            r = self.call_fn(st, fn, sub, [env] + list(args), site, sp)
            if r is None:
                return None
            s, v = r
            if key in s.cells:
                if s.cells[key] is not f:
                    self.unk("closure environment changed", sp)
                del s.cells[key]
            return s, v
        if f.op == "fn":
            d = {"id": f.args[0], "p": f.args[1], "local": f.args[0] in self.prog.fns, "name": f.args[1].split("::")[-1]}
            tr = self.trait_of_path.get(f.args[0]) if hasattr(self, "trait_of_path") else None
            if tr:
                d["trait"] = tr
            return self.call_def(st, d, f.args[2], list(args), [None] * len(args), dty, site, sp)
        vals = [self.deep(st, a) for a in args]
        self.event(st, "call", name="callf", args=tuple([f] + vals), raw=tuple(args), sp=sp, site=site, rec=None, dty=dty)
        r = mk("app", "callf", f, *vals)
        if dty and dty[0] == "bool":
            r = atom(r)
        return st, r

    # ------------------------------------------------------------ entry points
    def sym_of(self, name, ty, st, depth=0):
        """symbolic value of a type; structs are split into their fields"""
        if ty is None:
            return sym(name)
        k = ty[0]
        if k == "ref":
            if ty[2]:
                key = ("arg", name)
                st.cells[key] = self.sym_of(name, ty[1], st, depth)
                return self.ref(key)
            return self.sym_of(name, ty[1], st, depth)
        if k == "bool":
            return atom(sym(name))
        if k == "tuple":
            return tup(*[self.sym_of("%s.%d" % (name, i), t, st, depth) for i, t in enumerate(ty[1])])
        if k == "adt" and ty[1] in self.prog.adts and depth < 4:
            a = self.prog.adts[ty[1]]
            if not a["enum"]:
                sub = dict(zip(a["generics"], ty[2]))
                fs = []
                for fn_, ft, _ in a["variants"][0]["fields"]:
                    fs.append(self.sym_of("%s.%s" % (name, fn_), tsub(fz(ft), sub), st, depth + 1))
                return adt(ty[1], 0, *fs)
        if k == "adt" and ty[1].endswith("PhantomData"):
            return adt(ty[1], 0)
        if k == "adt" and ty[1] == "std::boxed::Box":
            return self.sym_of(name, ty[2][0], st, depth)
        return sym(name)

    def analyze(self, f, names=None, sub=None, args=None):
        """analyse function f with symbolic arguments; returns Result"""
        self.events = []
        self.loops = {}
        self.unknown = []
        self.fidx = {}
        self.ctx = ()
        sub = dict(sub or {})
        st = State({}, TRUE)
        body = f["body"]
        nm = {}
        for n, (l, proj) in body["names"]:
            if not proj and 1 <= l <= body["argc"]:
                nm.setdefault(l, n)
        vals = []
        for i in range(1, body["argc"] + 1):
            ty = tsub(fz(body["locals"][i]["t"]), sub)
            name = (names[i - 1] if names else "a%d" % i)
            if args is not None and args[i - 1] is not None:
                vals.append(args[i - 1])
            else:
                vals.append(self.sym_of(name, ty, st))
        fr = Frame("R", f, body, sub)
        for i, v in enumerate(vals):
            st.cells[("R", i + 1)] = v
        self.stack = [fr]
        self.inlined = {f["id"]}
        init = dict(st.cells)
        out = self.run_body(fr, st)
        self.stack = []
        r = Result(self, f, vals, out, st)
        r.init = init
        return r


class Result:
    def __init__(self, eng, f, args, out, st0):
        self.eng = eng
        self.fn = f
        self.args = args
        self.events = list(eng.events)
        self.loops = dict(eng.loops)
        self.unknown = list(eng.unknown)
        self.inlined = set(eng.inlined)
        self.fidx = dict(eng.fidx)
        if out is None:
            self.state, self.ret = None, None
        else:
            self.state, self.ret = out
            # values behind mutable reference arguments at return
        self.st0 = st0

    def before(self, name):
        """value behind a mutable reference argument on entry"""
        return self.init.get(("arg", name))

    def out(self, name):
        return self.state.cells.get(("arg", name))

    def calls(self, pred):
        p = pred if callable(pred) else (lambda n: n == pred)
        return [e for e in self.events if e["kind"] == "call" and p(e["name"])]

    def chain_guard(self, e):
        """condition of an event including the conditions of entering its loops (innermost first)"""
        gs = [e["guard"]]
        ctx = e["ctx"]
        for i in range(len(ctx) - 1, -1, -1):
            gs.append(self.loops[ctx[i]].guard)
        return gs
