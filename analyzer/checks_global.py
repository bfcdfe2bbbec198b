"""Whole-crate properties: determinism and effects (C01), sharing between threads (C28)."""
import json, re
from checklib import *
from engine import fz, unify, strip_refs

PUBLIC = ("ImageData", "Swatch")


# ---------------------------------------------------------------- walking bodies
def bodies(f):
    if f.get("body"):
        yield f["body"]
    for b in f.get("promoted") or []:
        yield b


def blocks(f):
    for b in bodies(f):
        for bb in b["bb"]:
            if not bb.get("cleanup"):
                yield bb


def calls(f):
    for bb in blocks(f):
        t = bb["t"]
        if t["k"] == "call":
            yield t


def consts(x):
    """every constant operand below x"""
    if isinstance(x, dict):
        if x.get("k") == "const" and isinstance(x.get("c"), dict):
            yield x["c"]
            return
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


def adts_in(t, out):
    if isinstance(t, dict):
        if t.get("k") == "adt":
            out.add(t["d"])
        for v in t.values():
            adts_in(v, out)
    elif isinstance(t, list):
        for v in t:
            adts_in(v, out)
    return out


def line(sp):
    return sp.split(" ")[0] if isinstance(sp, str) else str(sp)


class Reach:
    """functions that may run when one of the roots runs (an over-approximation):
    direct calls, closures and function values; trait calls on a type parameter or a
    trait object reach every implementation; outside generic code that is handed a local
    type may run every implementation this crate has for it"""

    def __init__(self, P, roots):
        self.P = P
        self.parent = {}
        self.foreign = {}
        local = {t[0] for t in P.trait_items.values()}
        for i in P.impls:
            if i.get("trait") and i["trait"] not in local:
                s = adts_in(i["self"], set())
                for a in s:
                    self.foreign.setdefault(a, []).append(i)
        todo = []
        for r in roots:
            if r["id"] not in self.parent:
                self.parent[r["id"]] = None
                todo.append(r["id"])
        while todo:
            i = todo.pop()
            for j in self.next(P.fns[i]):
                if j in P.fns and j not in self.parent:
                    self.parent[j] = i
                    todo.append(j)

    def next(self, f):
        P = self.P
        out = set(P.callees(f))
        for bb in blocks(f):
            for c in consts(bb):
                ty = c.get("ty") or {}
                v = c.get("val") or {}
                for d in (ty.get("d") if ty.get("k") == "fndef" else None, v.get("d")):
                    if not isinstance(d, dict):
                        continue
                    if d.get("local"):
                        out.add(d["id"])
                    if d["id"] in P.trait_items:
                        tp, nm, _ = P.trait_items[d["id"]]
                        ga = [fz(x) for x in ty.get("a", [])]
                        if not ga or strip_refs(ga[0])[0] in ("param", "other", "dyn", "alias", "proj"):
                            for i in P.by_trait.get(tp, []):
                                out.update(iid for n2, iid in i["items"] if n2 == nm)
                    elif not d.get("local"):
                        for a in adts_in(ty.get("a", []), set()):
                            for i in self.foreign.get(a, []):
                                if i["trait"].rsplit("::", 1)[-1] not in ("Debug", "Display"):
                                    out.update(iid for _, iid in i["items"])
                # constants and statics used
                if v.get("k") == "static":
                    out.add(v["d"]["id"])
                    # its initializer runs lazily
                    out.update(i for i in P.fns if i.startswith(v["d"]["id"] + "::"))
                u = c.get("uneval") or c.get("def")
                if isinstance(u, dict) and u.get("local"):
                    out.add(u["id"])
        return out

    def path(self, i):
        p = []
        while i is not None:
            p.append(self.P.fns[i]["def"]["p"])
            i = self.parent[i]
        return " <- ".join(p[:6])


def public_roots(c):
    P = c.P
    out = []
    for f in P.fns.values():
        if f.get("kind") != "fn" or not f.get("body"):
            continue
        s = f["def"].get("impl_self") or {}
        if s.get("k") == "adt" and s["p"].rsplit("::", 1)[-1] in PUBLIC:
            out.append(f)
        elif f.get("vis") == "Public" and not f["def"].get("impl_self") and re.match(r"^(image|swatch)::", f["def"]["p"]):
            out.append(f)
    return out


# ---------------------------------------------------------------- C28
def check_C28(c):
    c.rule("the compiler's trait solver decides Send and Sync of the public types; extraction takes a shared reference; no body, impl or function of the crate is unsafe")
    P = c.P
    for name in PUBLIC:
        c.part("C28/" + name, auto, name)
    c.part("C28/shared", shared)
    c.part("C28/unsafe", unsafe)


def auto(c, name):
    a = [x for x in P_adts(c) if x["def"].get("name") == name and not x["def"]["id"].count("{")]
    if len(a) != 1:
        raise Lost("type " + name)
    a = a[0]
    for tr in ("Send", "Sync"):
        key = "C28/%s/%s" % (name, tr)
        if a["auto"].get(tr):
            c.held(key, "%s is %s for every field type" % (name, tr))
        else:
            fs = ["%s: %s" % (m[0], m[2]) for m in a["auto_missing"] if m[1] == tr]
            c.viol(key, "%s (%s)" % (a["def"]["p"], line(a["sp"])), "%s is not %s%s" % (name, tr, ", because of field " + ", ".join(fs) if fs else ""))


def P_adts(c):
    a = c.P.adts
    return list(a.values()) if isinstance(a, dict) else list(a)


def shared(c):
    f = c.P.find_fn("ImageData::extract")
    t = f["ins"][0]
    if t.get("k") == "ref" and not t.get("m"):
        c.held("C28/shared", "extraction borrows the image immutably")
    elif t.get("k") == "ref" or t.get("k") == "adt" and t["p"].endswith("ImageData"):
        c.viol("C28/shared", c.at(f), "extraction needs exclusive access to the image")
    else:
        c.undec("C28/shared", "receiver type %s" % json.dumps(t)[:120])


def unsafe(c):
    n = 0
    for f in c.P.fns.values():
        n += 1
        c.functions.add(f["def"]["p"])
        if f.get("unsafe"):
            c.viol("C28/unsafe/" + f["def"]["p"], "%s (%s)" % (f["def"]["p"], line(f["unsafe"][0])), "contains an unsafe block")
        if f.get("unsafe_fn"):
            c.viol("C28/unsafe/" + f["def"]["p"], c.at(f), "is an unsafe function")
        if f.get("kind") == "static" and f.get("static_mut"):
            c.viol("C28/unsafe/" + f["def"]["p"], c.at(f), "is a mutable static")
    for i in c.P.impls:
        if i.get("unsafe_impl") and not i.get("derived"):
            c.viol("C28/unsafe/" + i["id"], "impl (%s)" % line(i.get("sp")), "unsafe impl of %s" % i.get("trait"))
    if not any(o["status"] == VIOL and "/unsafe/" in o["key"] for o in c.obs):
        c.held("C28/unsafe", "%d bodies and %d impls: no unsafe block, function, impl or mutable static" % (n, len(c.P.impls)))


# ---------------------------------------------------------------- C01
OUTSIDE = [
    (r"^std::time::.*::(now|elapsed)$|^std::time::.*::duration_since$", "reads the clock"),
    (r"^std::env::", "reads the environment"),
    (r"^std::(fs|net|process|os)::", "reaches outside the process"),
    (r"^std::io::|^std::print|^std::sys::", "performs input or output"),
    (r"^rand::(rngs::thread|random|thread_rng)|thread_rng$|^rand::.*::from_entropy$|OsRng|^getrandom::|^rand::random", "draws from a process-wide random source"),
    (r"^rand_core::.*::(from_entropy|from_os_rng|from_rng)$", "draws from a process-wide random source"),
    (r"^std::thread::(current|id|.*::id$|park|sleep|available_parallelism)|^std::thread::functions::(current|sleep|available_parallelism)|^std::thread::thread::.*::id$|^std::thread::current::", "depends on the running thread"),
    (r"^std::thread::local::|^std::thread::local_impl", "uses state kept by the thread between calls"),
    (r"^std::hash::random::", "uses the per-process hash seed"),
    (r"^std::alloc::|^alloc::alloc::(alloc|dealloc|realloc)", "manages raw memory"),
    (r"^(std|core)::backtrace|^std::backtrace", "captures the stack"),
]
CELLS = re.compile(r"^(core::cell::|std::sync::poison::|std::sync::|core::sync::)")
ONCE = re.compile(r"once_lock::|OnceLock|LazyLock|lazy_lock::|OnceCell|LazyCell|cell::once::|cell::lazy::")


def check_C01(c):
    c.rule("effect analysis over the call graph: no function reachable from extraction reads or writes anything but its arguments; iteration over a container with a random hash seed must not reveal its order")
    c.assume("functions of the standard library and of the dependencies do what their documentation says")
    c.assume("the floating-point type is f32 or f64")
    R = Reach(c.P, public_roots(c))
    if not any(strip_gen(f["def"]["p"]).endswith("ImageData::extract") for f in public_roots(c)):
        raise Lost("ImageData::extract")
    P = c.P
    inner = interior(c)
    for i in sorted(R.parent):
        c.part("C01/" + P.fns[i]["def"]["p"], effects, R, P.fns[i], inner)


def interior(c):
    """fields of crate types with interior mutability (value changes behind a shared reference)"""
    out = {}
    for a in P_adts(c):
        for v in a["variants"]:
            for fl in v["fields"]:
                for d in adts_in(fl[1], set()):
                    if re.search(r"^core::cell::|^std::sync::|^core::sync::atomic", d):
                        out.setdefault(a["def"]["p"], []).append((fl[0], d))
    return out


def effects(c, R, f, inner):
    P = c.P
    key = "C01/" + f["def"]["p"]
    where = c.at(f)
    c.functions.add(f["def"]["p"])
    via = R.path(f["id"])
    n0 = len(c.obs)
    if f.get("kind") == "static":
        ty = json.dumps(f.get("ty"))
        if f.get("static_mut"):
            c.viol(key, where, "mutable static, reached by " + via)
        elif not f.get("freeze", True):
            if ONCE.search(ty):
                return  # judged where it is used
            c.viol(key, where, "static whose value changes between calls, reached by " + via)
        return
    ncalls = 0
    for bb in blocks(f):
        for s in bb["st"]:
            r = s.get("r") or {}
            if r.get("k") == "cast" and re.search(r"PointerExpose|PtrToInt|FnPtrToInt", str(r.get("ck"))):
                c.viol(key, "%s (%s)" % (f["def"]["p"], line(s.get("sp") or f.get("sp"))), "turns an address into a number; reached by " + via)
            if r.get("k") == "cast" and r.get("ck") == "Transmute" and (r.get("ft") or {}).get("k") in ("ref", "ptr", "fnptr") and (r.get("t") or {}).get("k") in ("usize", "u64", "isize", "i64"):
                c.viol(key, where, "turns an address into a number; reached by " + via)
            if r.get("k") == "tls":
                c.viol(key, where, "uses state kept by the thread between calls; reached by " + via)
        t = bb["t"]
        if t["k"] in ("asm", "inlineasm"):
            c.viol(key, where, "inline assembly; reached by " + via)
        if t["k"] != "call":
            continue
        ncalls += 1
        ft = t["ft"]
        if ft.get("k") != "fndef" or ft["d"].get("local"):
            continue
        d = ft["d"]
        at = "%s (%s)" % (f["def"]["p"], line(t.get("sp")))
        for rx, why in OUTSIDE:
            if re.search(rx, d["id"]) or re.search(rx, strip_path(d["p"])):
                c.viol(key, at, "%s: %s; reached by %s" % (why, d["p"], via))
                break
        else:
            if d.get("name") in ("build_hasher", "hash_one", "new", "default") and "std::hash::random::RandomState" in top_types(ft["a"], d):
                c.viol(key, at, "uses the per-process hash seed: %s" % d["p"])
            elif d["p"].startswith("std::fmt::") and "new_pointer" in d["p"]:
                c.viol(key, at, "formats an address")
            elif re.search(r"^std::thread::", d["id"]):
                c.undec(key, "starts or joins threads at %s" % at)
            elif ONCE.search(d["id"]) and d.get("name") in ("get_or_init", "set", "get_or_try_init", "get", "take", "force", "get_mut", "into_inner"):
                once(c, key, at, f, t, via)
            elif CELLS.search(d["id"]) and re.search(r"atomic|mutex|rwlock|Mutex|RwLock|Cell", d["id"] + d["p"]) and mutates(d) and inner and held_by_public(inner):
                c.viol(key, at, "changes state kept behind a shared reference (%s); reached by %s" % (d["p"], via))
    hash_order(c, key, f, via)
    if len(c.obs) == n0:
        c.held(key, "%d calls: only arguments are read, only the result and own locals are written" % ncalls)


def strip_path(p):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", p))


def top_types(a, d):
    out = set()
    for x in [d.get("impl_self")] + list(a[:1]):
        if isinstance(x, dict) and x.get("k") == "adt":
            out.add(x["d"])
    return out


def mutates(d):
    return d.get("name") in (
        "set", "replace", "swap", "take", "borrow_mut", "try_borrow_mut", "lock", "try_lock", "write", "try_write", "store",
        "fetch_add", "fetch_sub", "fetch_max", "fetch_min", "fetch_or", "fetch_and", "fetch_xor", "fetch_update", "compare_exchange", "compare_exchange_weak", "compare_and_swap", "update", "replace_with",
    )


def held_by_public(inner):
    return any(p.rsplit("::", 1)[-1] in PUBLIC for p in inner)


def once(c, key, at, f, t, via):
    """a lazily computed value is the same for every call unless its initializer depends on the call"""
    st = [x for x in consts_of(f) if (x.get("val") or {}).get("k") == "static"]
    if not st:
        c.undec(key, "lazily initialized value at %s" % at)
        return
    nm = t["ft"]["d"].get("name")
    if nm in ("set", "take"):
        c.viol(key, at, "writes a static that later calls read; reached by " + via)
        return
    if nm != "get_or_init":
        return
    clo = [x for x in t["ft"]["a"] if x.get("k") == "closure"]
    if not clo:
        return
    if clo[0].get("up") or captured(f, t):
        c.viol(key, at, "a static is initialized from the first call's values (%s) and reused by later calls; reached by %s" % (t["ft"]["d"]["p"], via))


def consts_of(f):
    for bb in blocks(f):
        yield from consts(bb)


def captured(f, t):
    """the closure passed to the call captures something"""
    ids = {x["d"] for x in t["ft"]["a"] if x.get("k") == "closure"}
    for bb in blocks(f):
        for s in bb["st"]:
            r = s.get("r") or {}
            if r.get("k") == "agg" and r.get("ak") == "closure" and r.get("d") in ids and r.get("ops"):
                return True
    return False


# ---------------------------------------------------------------- order of hash containers
HASHED = re.compile(r"^std::collections::hash::(map|set)::")
ITERS = re.compile(r"^std::collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Difference|Union|Intersection|SymmetricDifference)$")
ADAPT = {"map", "filter", "copied", "cloned", "into_iter", "iter", "filter_map", "flat_map", "flatten", "inspect", "chain", "by_ref", "peekable", "fuse", "rev"}
BENIGN = {"count", "len", "any", "all", "size_hint", "is_empty", "drop", "contains"}
REVEAL = {"enumerate", "zip", "nth", "last", "find", "find_map", "position", "take", "skip", "take_while", "skip_while", "step_by", "max_by", "min_by", "max_by_key", "min_by_key", "reduce", "scan", "partition", "unzip"}
ORDERED = re.compile(r"^alloc::vec::|^alloc::collections::vec_deque::|^alloc::string::|^alloc::collections::linked_list::|^alloc::boxed")
UNORDERED = re.compile(r"^alloc::collections::btree::|^std::collections::hash::|^alloc::collections::binary_heap::")
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "bool"}


def hash_types(t, out):
    """iterator types over a hash container, found below t"""
    if isinstance(t, dict):
        if t.get("k") == "adt" and ITERS.match(t["d"]):
            # the borrowed iterators do not carry the hasher; a fixed hasher is seen at the container
            out.append(t)
        for v in t.values():
            hash_types(v, out)
    elif isinstance(t, list):
        for v in t:
            hash_types(v, out)
    return out


def seeded(t, out):
    """containers with the random hash seed below t"""
    if isinstance(t, dict):
        if t.get("k") == "adt" and t["d"] in ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet"):
            if "std::hash::random::RandomState" in adts_in(t.get("a", []), set()):
                out.append(t)
        for v in t.values():
            seeded(v, out)
    elif isinstance(t, list):
        for v in t:
            seeded(v, out)
    return out


def hash_order(c, key, f, via):
    seen = None
    exposing = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "difference", "union", "intersection", "symmetric_difference", "extract_if")
    cs = list(calls(f))
    sorts = [t for t in cs if t["ft"].get("k") == "fndef" and re.match(r"sort", t["ft"]["d"].get("name") or "")]
    source = False
    for t in cs:
        if t["ft"].get("k") == "fndef" and (t["ft"]["d"].get("name") in exposing) and seeded(t.get("at", [])[:1], []):
            source = True
    if not source and not any(hash_types(x, []) for t in cs for x in t.get("at", [])):
        return
    if not source:
        # an iterator made elsewhere; judged only when some reachable container is seeded
        if not any(seeded(t.get("at", []), []) for g in c.P.fns.values() for t in calls(g)):
            return
    for t in cs:
        ft = t["ft"]
        if ft.get("k") != "fndef":
            continue
        d = ft["d"]
        nm = d.get("name")
        at = "%s (%s)" % (f["def"]["p"], line(t.get("sp")))
        if nm == "extend" and ORDERED.match(self_adt(ft) or "") and any(seeded(x, []) or hash_types(x, []) for x in t["at"][1:]):
            reveal(c, key, at, d, sorts, via)
            continue
        if nm in ("from_iter", "retain") and seeded(t["at"][:1], []):
            if nm == "retain":
                c.undec(key, "retain on a hash container at %s" % at)
            continue
        if not any(hash_types(x, []) for x in t.get("at", [])):
            continue
        if nm in ADAPT or nm in BENIGN or nm in exposing:
            continue
        if nm in REVEAL:
            reveal(c, key, at, d, sorts if nm in ("enumerate", "zip", "unzip", "partition") else [], via)
        elif nm in ("collect", "from_iter"):
            k = t["dty"].get("d") if t["dty"].get("k") == "adt" else None
            if k and UNORDERED.match(k):
                continue
            if k and ORDERED.match(k):
                reveal(c, key, at, d, sorts, via)
            else:
                c.undec(key, "hash order collected at %s" % at)
        elif nm in ("sum", "product", "max", "min"):
            if t["dty"].get("k") in INTS or nm in ("max", "min"):
                continue
            c.viol(key, at, "adds up in hash order, so rounding differs between processes (%s); reached by %s" % (d["p"], via))
        elif nm in ("next", "for_each", "fold", "try_for_each", "try_fold"):
            push = ordered_push(c, f, t)
            if push:
                reveal(c, key, push, d, sorts, via)
                continue
            got, why = swaps(c, f) if not sorts else (None, None)
            if got is False:
                c.viol(key, at, "the result depends on the iteration order of a randomly seeded hash container: %s; reached by %s" % (why, via))
            elif got:
                c.held(key, "any two elements of the hash container may be visited in either order: " + at)
            else:
                c.undec(key, "visits a hash container at %s" % at)
        else:
            c.undec(key, "hash iterator used by %s at %s" % (d["p"], at))


def self_adt(ft):
    a = ft["a"][0] if ft.get("a") else None
    s = ft["d"].get("impl_self") or a
    return s.get("d") if isinstance(s, dict) and s.get("k") == "adt" else None


def reveal(c, key, at, d, sorts, via):
    """the order of the container reaches an ordered value, unless it is sorted completely afterwards"""
    for t in sorts:
        nm = t["ft"]["d"]["name"]
        if nm in ("sort", "sort_unstable"):
            return c.undec(key, "hash order is sorted away after %s" % at)
        clo = [x["d"] for x in t["ft"]["a"] if x.get("k") == "closure"]
        g = c.P.fns.get(clo[0]) if clo else None
        if g is None:
            return c.undec(key, "hash order may be sorted away after %s" % at)
        k = sort_covers_key(c, g, t)
        if k is None or k:
            return c.undec(key, "hash order may be sorted away after %s" % at)
    c.viol(key, at, "the result depends on the iteration order of a randomly seeded hash container (%s%s); reached by %s" % (d["p"], ", and the later sort leaves ties in that order" if sorts else "", via))


def sort_covers_key(c, g, t):
    """does the comparison look at the first component (the key) of the sorted (key, value) pairs?"""
    el = [x for x in t["ft"]["a"] if x.get("k") == "tuple"]
    if not el or len(el[0].get("a", [])) != 2:
        return None
    txt = json.dumps([bb for bb in g["body"]["bb"]])
    used = set(re.findall(r'\["field", (\d+)', txt)) | set(re.findall(r'"f", (\d+)', txt))
    if not used:
        return None
    return "0" in used


def swaps(c, f):
    """two consecutive rounds of every loop over a hash container, taken in either order: (verdict, reason)"""
    try:
        r = c.analyze(f, opaque=OPQ24)
    except Exception:
        return None, None
    hs = ("hments", "hmvals", "hmkeys", "setseq")
    found = None
    for L in r.loops.values():
        nx = [n for p, i, n in L.phis.values() if n is not None] + [g for t, g in L.exits]
        src = {x for n in nx for x in subterms(n) if x.op in hs}
        if not src:
            continue
        if len(src) > 1 or L.trip is None or len(L.exits) != 1 or any(e["ctx"] and e["ctx"][-1] == L.lid and (e["kind"] == "call" or e.get("why") == "explicit") for e in r.events):
            return None, None
        src = src.pop()
        el = sget(src, L.k)

        def sample(nm):
            k, v = mk("sym", nm + ".key"), mk("sym", nm + ".value")
            return {"hments": mk("tup", k, v), "hmvals": v}.get(src.op, k), k
        (x, kx), (y, ky) = sample("x"), sample("y")
        ph = {}
        for loc, (p, i, n) in L.phis.items():
            if n is None:
                return None, None
            if isub(n, L.k) is ONE and i is ZERO:
                continue
            ph[loc] = (p, n)
        def rnd(st, e, k):
            m = {p: st[p] for p, n in ph.values()}
            m[el] = e
            m[L.k] = k
            return {p: subst(subst(n, m), fix) for p, n in ph.values()}
        # values settled before the loop are the same in both orders
        fix = {}
        own = {p for p, n in ph.values()}
        for p, n in ph.values():
            for t in subterms(n):
                if t.op in ("fin", "phi", "sum") and t not in own and not any_op(t, lambda q: q in own or q is L.k):
                    fix[t] = mk("sym", "before%d" % len(fix))
        s0 = {p: mk("sym", "state%d" % j) for j, (p, n) in enumerate(ph.values())}
        k0 = mk("sym", "round")
        a = rnd(rnd(s0, x, k0), y, iadd(k0, ONE))
        b = rnd(rnd(s0, y, k0), x, iadd(k0, ONE))
        live = [r.ret] + [e.get("value") for e in r.events if L.lid not in e["ctx"] and isinstance(e.get("value"), T)]
        differ = []
        for loc, (p, n) in ph.items():
            if any(v.op == "fadd" and p in v.args and any_op(v, lambda t: t is el) for g, v in leaves(n)):
                res = ("ne", "rounding of a sum taken in that order")
            else:
                fa = with_facts([neg(ieq(kx, ky))])
                res = ("eq", "")
                for fb, (u, v) in ((fb, uv) for fb in fa for uv in probes(n, a[p], b[p])):
                    q = Comparer().equal(u, v, fb)
                    if q[0] != "eq":
                        res = (q[0], "two elements visited in the other order give %s instead of %s" % (show(q[2] if len(q) > 2 and isinstance(q[2], T) else b[p], 4)[:150], show(a[p], 4)[:150]))
                        break
            if res[0] != "eq":
                differ.append((loc, p, res))
        if not differ:
            found = True
            continue
        for loc, p, res in differ:
            if res[0] == "ne" and any(t is not None and any_op(t, lambda q: q.op == "fin" and q.args[0] is L.lid or q.op == "fin" and str(q.args[0]) == str(L.lid)) for t in live):
                return False, res[1]
        return None, None
    return found, None


def probes(n, a, b):
    """containers are equal when every question put to them has the same answer"""
    ops = {v.op for g, v in leaves(n)}
    z = mk("sym", "probe")
    if ops & {"mset", "mdel"}:
        return [(mhas(a, z), mhas(b, z)), (ite(mhas(a, z), mget(a, z), ZERO), ite(mhas(b, z), mget(b, z), ZERO))]
    if ops & {"sins", "srem"}:
        return [(shas(a, z), shas(b, z))]
    if "setat" in ops:
        return [(slen(a), slen(b)), (sget(a, z), sget(b, z))]
    return [(a, b)]


def ordered_push(c, f, t):
    """the body that runs per visited element appends to an ordered container"""
    out = []
    names = ("push", "push_back", "push_front", "push_str", "insert", "extend_from_slice", "append", "extend")

    def look(g, cs):
        for u in cs:
            d = u["ft"].get("d") if u["ft"].get("k") == "fndef" else None
            if isinstance(d, dict) and d.get("name") in names and u.get("at"):
                s = u["at"][0]
                while s.get("k") == "ref":
                    s = s["t"]
                if s.get("k") == "adt" and ORDERED.match(s["d"]) or s.get("k") == "slice":
                    out.append("%s (%s)" % (g["def"]["p"], line(u.get("sp"))))

    if t["ft"]["d"]["name"] == "next":
        if f.get("body"):
            for h, bs in c.P.cfg(f["id"], f["body"])["loops"].items():
                if any(f["body"]["bb"][b]["t"] is t for b in bs):
                    look(f, [f["body"]["bb"][b]["t"] for b in bs if f["body"]["bb"][b]["t"]["k"] == "call"])
    else:
        for x in t["ft"]["a"]:
            if x.get("k") == "closure" and x["d"] in c.P.fns:
                g = c.P.fns[x["d"]]
                look(g, list(calls(g)))
    return out[0] if out else None


# ---------------------------------------------------------------- C24
from loops import *
from models import *  # noqa
import checks_cluster, checks_graph

OPQ24 = ("DistanceMetric::measure", "NeighborSearch::search_radius", "NeighborSearch::search_nearest", "NeighborSearch::search", "Fit::fit", "KDTree::new", "Initializer::initialize")


def check_C24(c):
    c.rule("every loop of the crate gets a progress certificate: a counter with a loop-independent bound, a linear ranking expression taken from its own continuation condition that drops by at least one per iteration, a worklist that only grows when an element changes state irrevocably, or a strictly growing parent chain; every recursive call descends in the tree or works on a strictly shorter range")
    c.assume("iterators of the standard library over finite collections end")
    c.assume("random draws hit each index eventually (termination of the random initializer is with probability one)")
    c.assume("callbacks given by the caller (weight functions, random number generators) return")
    P = c.P
    rec = P.recursive()
    memo = {}
    for f in sorted(P.fns.values(), key=lambda f: f["id"]):
        if f["kind"] != "fn" or not f.get("body"):
            continue
        nl = len(P.cfg(f["id"], f["body"])["loops"])
        clo = any(g["kind"] == "closure" and g.get("parent_fn") == f["id"] and P.cfg(g["id"], g["body"])["loops"] for g in P.fns.values() if g.get("body"))
        if f["id"] in rec:
            c.part("C24/" + short(f), recursion, f, memo.setdefault("subs", {}))
        if nl or clo or f["id"] in rec or uses_iter(f) or any(looping(P, g, memo.setdefault("looping", {})) for g in P.callees(f)):
            c.part("C24/" + short(f), terminating, f, memo)
    # a helper that is judged where it is used need not end for arguments it never gets
    for i in memo.get("context", ()):
        if memo.get(i) is False:
            pre = "C24/%s/" % short(P.fns[i])
            c.obs = [o for o in c.obs if not o["key"].startswith(pre)]


def looping(P, i, seen):
    """does the function run loops (which may end only for the arguments it is given)?"""
    if i not in seen:
        seen[i] = False
        g = P.fns.get(i)
        if g and g.get("body"):
            seen[i] = bool(P.cfg(g["id"], g["body"])["loops"]) or any(looping(P, j, seen) for j in P.callees(g))
    return seen[i]


def uses_iter(f):
    return any(t["ft"].get("k") == "fndef" and str(t["ft"]["d"].get("trait") or "").endswith(("::Iterator", "::Extend")) for t in calls(f))


def short(f):
    return strip_gen(f["def"]["p"])


def opq_for(c, f):
    P = c.P
    own = {short(f)}
    for i in P.recursive():
        if P.scc.get(i) == P.scc.get(f["id"]):
            own.add(short(P.fns[i]))
    return tuple(o for o in OPQ24 if not any(x.endswith(o) for x in own))


def recursion(c, f, subs):
    """recursive calls work on something smaller"""
    key = "C24/recursion/" + short(f)
    r = c.analyze(f, opaque=opq_for(c, f))
    rc = [e for e in r.events if e["kind"] == "call" and str(e["name"]).startswith("rec:")]
    if not rc:
        c.held(key, "no call leads back here")
        return
    for n, e in enumerate(rc):
        kk = key + "/%d" % n
        tgt = str(e["name"])[4:].split("!")[0]
        if tgt != f["id"]:
            # a helper of the same cycle; its own calls are judged where they return here
            c.undec(kk, "mutual recursion through %s" % tgt)
            continue
        if any(all(descends(x, p) for _, x in leaves(a)) for a, p in zip(e["args"], r.args)):
            c.held(kk, "the recursive call descends into a part of its own argument")
            continue
        if all(not sizeable(a) for a in e["args"]):
            pass
        best = None
        # a range argument: the longest prefix rule, position by position
        for a, p in zip(e["args"], argvals(r)):
            if not is_seq(a) or a is p:
                continue
            probe = Check(c.prop, c.P)
            ok = probe.valid(kk, f, "a recursive call works on a strictly shorter range", ilt(slen(a), slen(p)), when=full_guard(r, e))
            if ok is True:
                best = True
                break
            best = best or probe.obs[-1]
        if best is True:
            c.held(kk, "the recursive call works on a strictly shorter range")
            continue
        if "UnionFind::" in short(f) and any(a.op == "get" and a.args[1] is p for a, p in zip(e["args"], r.args)):
            s = sub(c, "C19", checks_graph.check_C19, subs)
            compose(c, kk, s, ("C19/find", "C19/union/parent", "C19/new/parent", "C19/union/next"), "labels grow strictly along a parent chain and the lookup ends at its root")
            continue
        # integers that bound a range
        m = int_measure(c, f, r, e, kk)
        if m is True:
            c.held(kk, "the recursive call works on a strictly shorter range")
        elif isinstance(best, dict):
            c.obs.append(best)
        elif isinstance(m, dict):
            c.obs.append(m)
        elif all(a is p or not known_progress(a) for a, p in zip(e["args"], r.args)) and same_args(e["args"], r):
            c.viol(kk, c.at(f), "calls itself with unchanged arguments")
        else:
            c.undec(kk, "no shrinking argument recognised")


def same_args(args, r):
    return all(a is p or a is q for a, p, q in zip(args, r.args, argvals(r)))


def known_progress(a):
    return True


def sizeable(a):
    return is_seq(a)


def is_seq(a):
    return a.op in ("slice", "sorted", "setsl", "lit", "cat", "push", "tail", "comp", "setat", "insat", "rev") or a.op == "sym" and False


def argvals(r):
    """values of the arguments on entry, behind references"""
    out = []
    for j, a in enumerate(r.args):
        if a.op == "ref" or a.op not in ("sym",):
            try:
                b = r.before("a%d" % (j + 1))
            except Exception:
                b = None
            out.append(b if b is not None else a)
        else:
            out.append(a)
    return out


def int_measure(c, f, r, e, kk):
    """difference of two integer arguments (or one integer argument) that shrinks and stays bounded by the guard"""
    vals = argvals(r)
    g = full_guard(r, e)
    cand = []
    for fa in [g]:
        for t in atoms_of(fa):
            if t.op == "ge0":
                cand.append(t.args[0])
    last = None
    for m in cand:
        m2 = subst(m, {p: a for p, a in zip(vals, e["args"]) if p.op == "sym"})
        if m2 is m:
            continue
        probe = Check(c.prop, c.P)
        ok = probe.valid(kk, f, "a recursive call works on a strictly shorter range", ile(m2, isub(m, ONE)), when=conj(g, ile(ZERO, m)))
        if ok is True:
            # bounded below whenever the call is made
            if Check(c.prop, c.P).valid(kk, f, "", ile(ZERO, m), when=g):
                return True
    return last


def atoms_of(g):
    out, seen, st = [], set(), [g]
    while st:
        t = st.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op in ("ge0", "eq0"):
            out.append(t)
        if t.op in ("and", "or", "not", "ite", "iff"):
            st.extend(t.args)
        if t.op in ("and", "or") and t.args and isinstance(t.args[0], (tuple, frozenset)):
            st.extend(t.args[0])
    return sorted(out, key=lambda t: str(t))


def descends(a, p):
    """a is a proper part of the data structure p: reached through at least one owned node"""
    if p.op == "adt":
        # an argument written field by field
        return any(descends(a, x) for x in p.args[2:] if isinstance(x, T))
    if a is p:
        return False
    n = 0
    while a is not p:
        if a.op == "pay":
            n += 1
            a = a.args[0]
        elif a.op == "fld":
            a = a.args[0]
        else:
            return False
    return n > 0


def terminating(c, f, memo):
    """certificates for the loops of f; loops of a function used by f are judged there, and
    once more in the context of f only when they are not certified for arbitrary arguments"""
    if f["id"] in memo:
        return memo[f["id"]]
    memo[f["id"]] = True
    r = c.analyze(f, opaque=opq_for(c, f))
    n0 = len(c.obs)
    for lid in sorted(r.loops):
        g = owner(c, r, lid)
        if g is not None and g["id"] != f["id"] and terminating(c, g, memo):
            continue
        if g is not None and g["id"] != f["id"] and g.get("vis") != "Public":
            memo.setdefault("context", set()).add(g["id"])
        loop(c, f, r, r.loops[lid], memo.setdefault("subs", {}), g or f)
    ok = all(o["status"] == HELD for o in c.obs[n0:])
    memo[f["id"]] = ok
    return ok


def owner(c, r, lid):
    """function whose body holds the loop, when it is not the analysed one"""
    segs = lid.split("/")
    for s in reversed(segs):
        m = re.match(r"^\d+:(\w+)(@\d+)?$", s)
        if m and m.group(1) != "loop":
            c_ = [c.P.fns[i] for i in r.inlined if i in c.P.fns and c.P.fns[i]["kind"] == "fn" and c.P.fns[i]["def"].get("name") == m.group(1)]
            if len(c_) == 1:
                return c_[0]
    return None


def loop(c, f, r, L, subs, g):
    key = "C24/%s/%s" % (short(f), L.lid)
    if L.trip is not None:
        c.held(key, "runs %s times" % show(L.trip, 4)[:120])
        return
    lg = L.latch_guard
    if lg is None or lg is FALSE:
        c.held(key, "never repeats")
        return
    mine = {p: n for p, i, n in L.phis.values()}
    nxt = dict(mine)
    # a rank from the continuation condition
    cn = Canon()
    ranks = []
    for t in atoms_of(lg):
        if t.op == "ge0":
            ranks.append(t.args[0])
            ranks.append(isub(neg_(t.args[0]), ONE))
        if t.op == "eq0":
            ranks += [t.args[0], neg_(t.args[0])]
    prob = stuck = None
    sym = phis_to_syms(r)
    for m in ranks:
        if depends_inner(m, L, r):
            continue
        m2 = step(m, nxt, L)
        if m2 is m:
            continue
        if not Check(c.prop, c.P).valid(key, f, "", subst(ile(ZERO, m), sym), when=subst(lg, sym)):
            continue
        dec = subst(ile(m2, isub(m, ONE)), sym)
        when = subst(lg, sym)
        if Check(c.prop, c.P).valid(key, f, "", dec, when=when) is True:
            c.held(key, "%s drops in every iteration and stays non-negative" % show(m, 5)[:150])
            return
        q = with_probability_one(c, f, when, dec, subst(ile(m2, m), sym), L, sym, m)
        if isinstance(q, str):
            stuck = stuck or (m, q)
        elif q:
            prob = m
    if prob is not None:
        c.held(key, "%s never grows and drops whenever a random draw hits a new element" % show(prob, 5)[:150])
        return
    if stuck is not None:
        c.viol(key, c.at(g), "%s: %s" % (show(stuck[0], 5)[:120], stuck[1]))
        return
    w = stalls(c, f, r, L)
    if w:
        c.viol(key, c.at(g), "a loop repeats without any change: %s" % w)
        return
    w = puts_back(c, r, L)
    if w:
        c.viol(key, c.at(g), "the element taken from the worklist is put back unchanged when %s" % w)
        return
    if special(c, key, f, r, L, subs, g):
        return
    c.undec(key, "no progress certificate found; continues while %s" % show(lg, 5)[:200])


def neg_(t):
    return isub(ZERO, t)


def depends_inner(m, L, r):
    return any(t.args[0] != L.lid and L.lid in r.loops[t.args[0]].parent for t in subterms(m) if t.op in ("fin", "phi") and t.args[0] in r.loops)


def step(m, nxt, L):
    s = dict(nxt)
    if L.k is not None:
        s[L.k] = iadd(L.k, ONE)
    return subst(m, s)


def with_probability_one(c, f, when, dec, same, L, sym, m):
    """the rank never grows, fails to drop only when a fresh random draw hits an element used before,
    and more elements can be drawn than have been used while the loop goes on"""
    draws = {t for t in subterms(dec) if t.op == "app" and str(t.args[0]).startswith("rng:")}
    is_rng = lambda x: any(t in draws for t in subterms(x))
    if not draws:
        return False
    marks = [(subst(p, sym), subst(n, sym), i) for p, i, n in L.phis.values() if any(t.op in ("setat", "sins") and is_rng(subst(t.args[1], sym)) for t in subterms(n))]
    fresh = {p: i for p, n, i in marks if i is SEMPTY or i.op == "repeat" and i.args[0] is FALSE}
    hit = False
    conds = [when, L.guard]
    for t in draws:
        if not (t.args[-1].op == "adt" and str(t.args[-1].args[0]).endswith("::Range")):
            return False
        lo, hi = map(plain_bounds, t.args[-1].args[-2:])
        conds += [rlift(lambda b: ile(b, t), lo), rlift(lambda b: ilt(t, b), hi)]
    try:
        for fa, xs in cases_of(tuple(conds) + (dec, same) + tuple(n for _, n, _ in marks)):
            if any(x is FALSE for x in xs[: len(conds)]):
                continue
            d, s, *xs = xs[len(conds):]
            if s is not TRUE:
                return False
            if d is TRUE:
                hit = True
                continue
            if not any(is_rng(q) for q, _ in fa.trail):
                return False
            for (p, _, _), n in zip(marks, xs):
                if n.op == "setat" and n.args[0] is p and n.args[2] is TRUE and fa.known.get(sget(p, n.args[1])) is True:
                    continue
                if n.op == "sins" and n.args[0] is p and fa.known.get(mk("has", p, n.args[1])) is True:
                    continue
                if n is not p:
                    if n.op in ("setat", "sins") and not any(unknown_in(q) is not None for q, _ in fa.trail):
                        return "it does not drop although the drawn element is used up (%s), so the loop may run out of elements and never end" % fa.show()[:300]
                    return False
            # nothing but a mark set earlier keeps the rank
            if not any(is_rng(q) and lift_truth(subst(q, fresh)) is (not v) for q, v in fa.trail):
                return False
    except TooMany:
        return False
    if not hit or m is None:
        return False
    for t in draws:
        lo, hi = map(plain_bounds, t.args[-1].args[-2:])
        if any(x.op in ("sym", "phi", "app", "fin") and str(x.args[0]).startswith(("st.", "rng:", "R")) for x in subterms(mk("tup", hi, lo))):
            return False
        need = subst(m, {p: i for p, i, n in L.phis.values()})
        probe = Check(c.prop, c.P)
        ok = probe.valid("C24/draws", f, "the number of elements needed stays below the number that can be drawn", rlift(lambda a, b, n: ile(iadd(n, ONE), isub(b, a)), lo, hi, plain_bounds(need)), when=L.guard)
        if ok is not True:
            o = probe.obs[-1]
            if o["status"] == "violated":
                return "only the elements from %s up to %s are ever drawn, fewer than are needed: %s" % (show(lo, 4)[:60], show(hi, 4)[:80], o.get("detail", o.get("text", ""))[:200])
            return False
    return True


def plain_bounds(t):
    """an integer term with its minima and maxima written as cases"""
    for u in subterms(t):
        if u.op in ("imin", "imax") and not any(x.op in ("imin", "imax") for y in u.args for x in subterms(y)):
            a, b = u.args
            return rlift(plain_bounds, ite(ile(a, b) if u.op == "imin" else ile(b, a), subst(t, {u: a}), subst(t, {u: b})))
    return t


def lift_truth(x):
    return True if x is TRUE else False if x is FALSE else None


def control(L):
    """state variables the continuation of the loop depends on"""
    mine = {p: n for p, i, n in L.phis.values()}
    want, todo = set(), [L.latch_guard]
    while todo:
        for t in subterms(todo.pop()):
            if t in mine and t not in want:
                want.add(t)
                todo.append(mine[t])
    return want


def stalls(c, f, r, L):
    """after the first or second iteration nothing the loop's end depends on changes any more: a definite endless loop"""
    ctl = control(L)
    ini = {p: i for p, i, n in L.phis.values() if p in ctl}
    nxt = {p: n for p, i, n in L.phis.values() if p in ctl}
    if any(t is L.k for n in list(nxt.values()) + [L.latch_guard] for t in subterms(n)) and L.k is not None:
        return None
    pure = lambda x: not any(t.op == "app" and str(t.args[0]).startswith(("rng:", "callf")) for t in subterms(x))
    if not all(pure(x) for x in list(nxt.values()) + [L.latch_guard]):
        return None
    s0 = ini
    conds = []
    for _ in range(2):
        conds.append(subst(L.latch_guard, s0))
        s1 = {p: subst(nxt[p], s0) for p in nxt}
        ps = list(nxt)
        try:
            for fa, xs in cases_of(tuple(conds + [s1[p] for p in ps] + [s0[p] for p in ps]), limit=600):
                if any(x is not TRUE for x in xs[: len(conds)]):
                    continue
                n = len(conds)
                if all(xs[n + j] is xs[n + len(ps) + j] for j in range(len(ps))):
                    if any(unknown_in(q) is not None or quantified(q) for q, _ in fa.trail):
                        continue
                    return "when %s" % fa.show()[:300]
        except TooMany:
            return None
        s0 = s1
    return None


def quantified(q):
    """facts about whole collections: whether they can occur is not known"""
    return any(t.op in ("exists", "minby", "maxby", "sum") or t.op in ("len", "card", "hlen") and t.args[0].op in ("comp", "filter") for t in subterms(q))


def puts_back(c, r, L):
    """the element taken from the worklist is put back as it was, on a condition about that element only"""
    ctl = control(L)
    for loc, (p, i, n) in L.phis.items():
        if p not in ctl:
            continue
        for x in {t for t in subterms(n) if t.op in ("get", "htop", "last") and t.args[0] is p}:
            if x.op == "get" and x.args[1] is not ZERO and x.args[1] is not isub(slen(p), ONE):
                continue
            E = mk("sym", "taken")
            for g, v in leaves(n):
                base, add = as_multiset(v, None)
                if base.op not in ("tail", "slice", "init", "hrest") or base.args[0] is not p:
                    continue
                if any(a is x for a in add):
                    g2 = subst(conj(g, L.latch_guard), {x: E, slen(p): mk("sym", "waiting"), hlen(p): mk("sym", "waiting")})
                    if any(t.op in ("phi", "fin", "k") or t.op == "app" and str(t.args[0]).startswith("rng:") for t in subterms(g2)):
                        continue
                    for fa in with_facts([g2]):
                        if fa.feasible:
                            return fa.show()[:300]
    return None


def float_only(g):
    """does going on depend on floating-point comparisons alone?"""
    ops = {t.op for t in subterms(g)}
    return bool(ops & {"flt", "fle", "flt0"}) and not ops & {"ge0", "eq0", "has", "phi_bool", "is", "isv"}


def sub(c, prop, fn, subs):
    if prop not in subs:
        s = Check(prop, c.P)
        s._cache = c._cache
        try:
            s.part(prop, fn)
        except Exception as e:  # noqa
            s.undec(prop, repr(e))
        c.functions |= s.functions
        subs[prop] = s
    return subs[prop]


def compose(c, key, s, pre, text, wrong=()):
    """progress follows from obligations of another property, decided again here"""
    mine = [o for o in s.obs if any(o["key"].startswith(p) for p in pre)]
    bad = [o for o in mine if o["status"] == VIOL and any(o["key"].startswith(w) for w in wrong)]
    if bad:
        for o in bad[:2]:
            c.viol(key, o["where"], "%s, so the loop may never end" % o["text"])
        return True
    if mine and all(o["status"] == HELD for o in mine):
        c.held(key, text)
        return True
    o = [o for o in mine if o["status"] != HELD]
    c.undec(key, "progress rests on: %s" % (o[0]["text"][:200] if o else "obligations not found"))
    return True


def special(c, key, f, r, L, subs, g):
    nm = short(g)
    if "UnionFind::" in nm and any(t.op == "get" for t in subterms(L.latch_guard)):
        return parent_chain(c, key, f, r, L, subs)
    if nm.endswith("MinimumSpanningTree::build"):
        s = sub(c, "C17", checks_graph.check_C17, subs)
        return compose(
            c, key, s, ("C17/complete", "C17/queue", "C17/attach", "C17/start", "C17/discard", "C17/keep", "C17/taken", "C17/candidates", "C17/rounds"),
            "as long as a vertex is missing, an edge to it is queued, and taking it attaches the vertex",
            ("C17/complete/each", "C17/complete/range", "C17/rounds/stop"),
        )
    if "HierarchicalClustering" in nm and any(t.op == "len" and t.args[0].op == "phi" and t.args[0].args[0] == L.lid for t in subterms(L.latch_guard)):
        s = sub(c, "C18", checks_graph.check_C18, subs)
        return compose(c, key, s, ("C18/cut/below",), "the walk continues only at parts of a node, which were created before it")
    if "Kmeans" in nm and not any(t is L.k for t in subterms(L.latch_guard)) and not any(t.op == "fld" and t.args[0].op == "sym" for t in subterms(L.latch_guard) if field_of(c, t, "KmeansParams", "max_iterations")):
        c.viol(key, c.at(g), "rounds go on until the centroids stop moving, and nothing bounds their number (with tolerance zero they never end)")
        return True
    if "DBSCAN" in nm:
        return worklist(c, key, subs)
    return False


def field_of(c, t, ty, name):
    try:
        return t.op == "fld" and t.args[1] == checks_graph.field_index(c, ty, name)
    except Lost:
        return False


def parent_chain(c, key, f, r, L, subs):
    """the loop follows parents: next = parent[current], ending at a fixed point"""
    walk = False
    for p, i, n in L.phis.values():
        ls = [v for _, v in leaves(n)]
        if ls and p in control(L) and all(v.op == "get" and v.args[1] is p for v in ls):
            walk = True
    lg = list(subterms(L.latch_guard))
    for p, i, n in L.phis.values():
        if n is p and any(t.op == "get" and t.args[1] is p for t in lg):
            walk = None
    used = [p for p, i, n in L.phis.values() if any(t.op == "get" and t.args[1] is p for t in lg)]
    if not walk and not used and any(t.op == "get" for t in lg):
        c.viol(key, c.at(f), "the walk stays at the same element, so it never reaches the root")
        return True
    if not walk:
        c.undec(key, "the walk does not step to the parent in every iteration")
        return True
    s = sub(c, "C19", checks_graph.check_C19, subs)
    return compose(c, key, s, ("C19/find", "C19/union/parent", "C19/new/parent", "C19/union/next"), "labels grow strictly along a parent chain and the walk ends at its root")


def worklist(c, key, subs):
    if "work" in subs:
        c.obs.append(dict(subs["work"], key=key))
        return True
    probe = Check(c.prop, c.P)
    probe._cache = c._cache
    probe.part(key, worklist_rule)
    bad = [o for o in probe.obs if o["status"] != HELD]
    bad.sort(key=lambda o: o["status"] != VIOL)
    o = bad[0] if bad else probe.obs[0]
    subs["work"] = o
    c.obs.append(dict(o, key=key))
    return True


def worklist_rule(c):
    key = "C24/worklist"
    d = checks_cluster.Density(c)
    f, r, V, W, LO = d.f, d.r, d.V, d.work, d.scan
    Q, q0, qn, qloc, x, rests, left = checks_cluster.queue_of(c, d)
    L = W.phis.get((d.cell, ()))
    if L is None:
        raise Unsupported("the growing loop does not change labels")
    lx = sget(L[0], x)
    rank = {"Undefined": 0, "Outlier": 1, "Marked": 2, "Assigned": 3}
    rank = {d.v[n]: k for n, k in rank.items() if d.v[n] is not None}
    asg = FALSE
    for e in d.writes:
        if W.lid in e["ctx"] and d.variant(e["value"]) == d.v["Assigned"] and e["path"] == (("idx", x),) and e["ctx"] == (LO.lid, W.lid):
            asg = disj(asg, e["guard"])
    probe = Check(c.prop, c.P)
    checks_cluster.must(probe, key, f, "", [left, neg(d.isl(lx, "Assigned"))], asg, V=V)
    joins = probe.obs[-1]["status"] == HELD
    # once assigned, a point stays assigned while the cluster grows
    for e in d.writes:
        if W.lid not in e["ctx"] or len(e["path"]) != 1 or d.variant(e["value"]) in (None, d.v["Assigned"]):
            continue
        p3 = Check(c.prop, c.P)
        old = sget(e["before"], e["path"][0][1])
        checks_cluster.must(p3, key, f, "", [full_guard(r, e, LO.lid)], neg(d.isl(old, "Assigned")), V=V)
        st = p3.obs[-1]["status"]
        if st == HELD:
            continue
        if e["path"] == (("idx", x),) and e["ctx"] != (LO.lid, W.lid) and joins and st == VIOL:
            c.viol(key, c.at(f), "the point taken from the worklist loses its assignment again, so it can be worked on for ever")
        else:
            c.undec(key, "a label is overwritten: %s" % p3.obs[-1]["text"][:200])
        return
    n = 0
    for e in r.events:
        if e["ctx"][:2] != (LO.lid, W.lid) or e["kind"] not in ("push", "extend") or not checks_cluster.same_cell(e, qloc):
            continue
        parts = [(TRUE, e["value"], None, None)] if e["kind"] == "push" else checks_cluster.seq_parts(d, e["value"], V)
        if parts is None:
            c.undec(key, "points are added as %s" % show(e["value"], 4)[:150])
            return
        for g, v, j, cn2 in parts:
            n += 1
            gs = [left, conj(g, full_guard(r, e, LO.lid))]
            kk = key + "/%d" % n
            # points join the list only while the popped point changes from loose to assigned
            p1 = Check(c.prop, c.P)
            checks_cluster.must(p1, kk, f, "", gs, neg(d.isl(lx, "Assigned")), V=V)
            if joins and p1.obs[-1]["status"] == HELD:
                c.held(kk, "points are added to the worklist only in the iteration that assigns the point taken from it, which happens once per point")
                continue
            # or every added point is marked at the same time
            marked = None
            for w in d.writes:
                if w["ctx"] == e["ctx"] and len(w["path"]) == 1 and w["path"][0][1] is v and d.variant(w["value"]) in rank:
                    low = FALSE
                    old = sget(w["before"], v)
                    for vi, k in rank.items():
                        if k < rank[d.variant(w["value"])]:
                            low = disj(low, isv(old, d.lp, vi))
                    p2 = Check(c.prop, c.P)
                    checks_cluster.must(p2, kk, f, "", gs, conj(w["guard"], low), V=V)
                    marked = marked or p2.obs[-1]["status"] == HELD
            if marked:
                c.held(kk, "a point is added to the worklist only while its label changes irrevocably")
                continue
            rd = {t for gg in gs for t in subterms(gg) if t.op == "get" and t.args[1] is v}
            if j is None:
                done = [d.isl(lx, "Assigned")] + [d.isl(t, "Assigned") for t in rd]
                for fa in with_facts([V(t) for t in gs + done]):
                    if not fa.feasible or any(unknown_in(q) is not None for q, _ in fa.trail):
                        continue
                    here = [w for w in d.writes if w["ctx"] == e["ctx"] and w["path"] and w["path"][0][1] is v]
                    if all(x is FALSE for w in here for _, (x,) in cases_of((V(w["guard"]),), fa)):
                        c.viol(kk, c.at(f), "a point already in the cluster is put on the worklist again by another such point (%s), so the list never empties" % fa.show()[:300])
                        return
            c.undec(kk, "no irrevocable change accompanies adding %s" % show(V(v), 4)[:120])
    if not n:
        c.held(key, "the worklist never grows")


# ---------------------------------------------------------------- copies
POINTS = ("Point2", "Point3", "Point5")
COPIED = {
    "C03": ("Point5", "Label", "Rgba", "Lab", "XYZ", "Swatch"),
    "C04": ("Swatch",),
    "C05": ("Point5", "Rgba", "Lab", "XYZ"),
    "C06": POINTS + ("Label", "Params", "DBSCAN"),
    "C07": POINTS + ("Label", "Params", "Neighbor", "DistanceMetric"),
    "C08": POINTS + ("Neighbor", "DistanceMetric"),
    "C09": POINTS + ("Neighbor", "DistanceMetric"),
    "C10": ("Lab", "XYZ", "Rgba"),
    "C11": ("Lab", "XYZ", "Rgba"),
    "C13": ("DistanceMetric",) + POINTS,
    "C14": POINTS,
    "C16": ("WeightedEdge",),
    "C17": ("WeightedEdge", "MinimumSpanningTree"),
    "C18": ("WeightedEdge", "MinimumSpanningTree"),
    "C20": POINTS + ("Cluster", "KmeansParams", "DistanceMetric", "Neighbor"),
    "C21": POINTS + ("Initializer", "DistanceMetric"),
    "C22": POINTS + ("CoreDistance", "Neighbor", "DistanceMetric"),
    "C23": ("Params", "KmeansParams", "Initializer", "DistanceMetric"),
}


def copies(c):
    """the analysis takes a clone for the value itself: so it must be, for the types of this crate"""
    for ty in COPIED.get(c.prop, ()):
        for n, i in enumerate(c.P.impls_of("Clone", ty)):
            for nm, iid in i["items"]:
                if nm == "clone" and iid in c.P.fns:
                    c.part("%s/copy/%s" % (c.prop, ty), copy_of, c.P.fns[iid], ty, n)


def copy_of(c, f, ty, n):
    r = c.analyze(f)
    c.same("%s/copy/%s%s" % (c.prop, ty, n or ""), f, "clone of a %s" % ty, r.ret, by_variant(c, r.ret, r.args[0]))


def by_variant(c, t, a):
    """the value a, written variant by variant where t is"""
    if t is a:
        return a
    if a.op == t.op == "adt" and a.args[:2] == t.args[:2]:
        return mk("adt", a.args[0], a.args[1], *[by_variant(c, x, y) for x, y in zip(t.args[2:], a.args[2:])])
    if a.op == t.op == "tup" and len(a.args) == len(t.args):
        return mk("tup", *[by_variant(c, x, y) for x, y in zip(t.args, a.args)])
    for x in subterms(t):
        if x.op == "isv" and x.args[0] is a and x.args[1] in c.P.adts:
            p = x.args[1]
            vs = c.P.adts[p]["variants"]
            val = lambda v: mk("adt", p, v, *[pay(a, v, i) for i in range(len(vs[v]["fields"]))])
            want = val(len(vs) - 1)
            for v in reversed(range(len(vs) - 1)):
                want = ite(isv(a, p, v), val(v), want)
            return want
    return a
