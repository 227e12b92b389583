"""C26: unsafe operations occur only at the pixel casts and in the unchecked accessors, and each is justified where it stands.

The driver reports every unsafe block written in the crate (HIR) and every unsafe function, impl and static; rustc's own unsafety check
makes that list complete.  The operations inside are read from the MIR and each must be discharged."""
from vlib import spec, terms as T
from vlib.absint import Out

c = T.c


def run(ck):
    ck.rule("cast", "a slice of samples is reinterpreted as a pixel only where it is at least as long as the pixel", 1)
    ck.rule("transparent", "a type a slice is reinterpreted as is a transparent wrapper of an array of the slice's elements", 1)
    ck.rule("unchecked", "an unchecked accessor stays inside the samples for every coordinate inside the image", 0)
    ck.rule("inventory", "every unsafe block, function, impl and static of the crate is one of these", 1)
    p = ck.p
    n = 0
    for it in p.items.values():
        if "body" not in it:
            continue
        blocks, uns = it.get("unsafe_blocks"), it.get("unsafe")
        if not blocks and not uns:
            continue
        n += 1
        ck.saw_fn(it["key"])
        ops = list(operations(p, it))
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        if uns:
            if ops:
                ck.each("unchecked", it["path"], unchecked, ck, p, it, where, ops)
            continue
        other = [o for o in ops if o[0] != "deref"]
        if other:
            ck.bad("inventory", it["path"], "%s: a safe function contains an unsafe block with %s" % (where, other[0][1]))
            continue
        ck.each("cast", it["path"], cast, ck, p, it, where)
    for im in p.impls:
        if im.get("unsafe") and not im.get("derived") and im.get("trait", "").split("::")[-1] != "TrivialClone":
            ck.bad("inventory", "impl %s" % im.get("trait"), "unsafe impl of %s for %s (%s)" % (im.get("trait"), T.show(im["_self"])[:60], p.loc(im["span"])))
    for it in p.items.values():
        if it["kind"] == "static" and it.get("mutable"):
            ck.bad("inventory", it["path"], "mutable static %s" % it["path"])
    for n_, a in p.adts.items():
        if a.get("local") and (a.get("union") or a.get("packed")):
            ck.bad("inventory", n_, "%s is a union or packed" % n_)
    ck.ok("inventory", "crate", "%d functions with unsafe blocks or unsafe functions" % n)


def operations(p, it):
    """unsafe operations in the body: ("deref"|"call"|"transmute"|"static", description)"""
    b = it["body"]
    loc = lambda s: p.loc(s)
    for blk in b["blocks"]:
        for s in blk["s"]:
            if s[0] != "=":
                continue
            if s[2][0] == "cast" and s[2][1] == "Transmute":
                yield "transmute", "a transmute (%s)" % loc(s[-1])
            if any(raw(p, b, pl) for pl in places(s)):
                yield "deref", "a raw pointer dereference (%s)" % loc(s[-1])
        t = blk["t"]
        if t[0] == "call" and t[1][0] == "k":
            fn = t[1][1].get("fn") or {}
            if fn.get("unsafe") and not fn.get("path", "").startswith("std::fmt::Arguments"):
                yield "call", "a call of %s (%s)" % (fn["path"], loc(t[6]))
        if any(raw(p, b, pl) for pl in places(t)):
            yield "deref", "a raw pointer dereference (%s)" % loc(t[6] if t[0] == "call" else t[-1])


def places(x):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and any(e == "*" for e in x[1:]):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def raw(p, b, pl):
    return pl[0] < len(b["locals"]) and p.ty(b["locals"][pl[0]][0])[0] == "ptr"


def wrapped(p, t):
    """(element type, length) of the array a local struct consists of"""
    if t[0] != "adt" or t[1] not in p.adts or not p.adts[t[1]].get("local"):
        return None
    a = p.adts[t[1]]
    fs = [f for v in a["variants"] for f in v["f"]]
    if a["kind"] != "struct" or len(fs) != 1:
        return None
    ft = p.ty(fs[0]["ty"])
    if ft[0] != "array" or not isinstance(ft[2], int):
        return None
    return ft[1], ft[2], a


def cast(ck, p, it, where, via=None, d=0):
    inst = (via or it)["path"]
    b = it["body"]
    ret = p.ty(b["locals"][0][0])
    srcs = [k for k in range(b["argc"]) if is_slice(p.ty(b["locals"][k + 1][0]))]
    w = wrapped(p, ret[1]) if ret[0] == "ref" else None
    if len(srcs) != 1 or w is None:
        return up(ck, p, it, where, via, d, "not of the form slice to reference of pixel")
    elem, n, adt = w
    st = p.ty(b["locals"][srcs[0] + 1][0])
    tp = "%s" % adt["path"].split("::")[-1]
    if not adt.get("transparent"):
        ck.bad("transparent", tp, "%s: %s is not repr(transparent), and samples are reinterpreted as it" % (where, adt["path"]))
    else:
        ck.ok("transparent", tp)
    if st[1][1][0] == "prim" and elem[0] == "prim" and st[1][1] != elem:
        return ck.bad("cast", inst, "%s: a slice of %s is reinterpreted as an array of %s" % (where, st[1][1][1], elem[1]))
    for f in (it, via or it):
        m = const_to_mut(p, f)
        if m:
            return ck.bad("cast", inst, "%s: %s" % (where, m))
    cs = spec.Case(ck, it)
    ln = ("len", ("deref", cs.args[srcs[0]]))
    alt = ("len", cs.args[srcs[0]])
    pts = 0
    for k in range(0, 12):
        for o, u in cs.at({ln: k, alt: k}):
            if o.kind != "ret":
                continue
            v = o.val
            while v[0] in ("rf", "deref", "cast", "copy") and isinstance(v[1], tuple):
                v = v[1]
            off = c(0)
            if v[0] == "sliceref":
                off, v = v[2], v[1]
            if v != cs.args[srcs[0]]:
                return ck.und("cast", inst, "%s: returns %s" % (where, T.show(o.val)[:120]))
            a = T.evalt(off, {ln: k, alt: k})
            if a is None or u:
                return ck.und("cast", inst, "%s: not determined: %s" % (where, T.show(u[0] if u else off)[:120]))
            if a + n > k:
                if d == 0 and not it.get("pubvis") and not it.get("impl_trait"):
                    return up(ck, p, it, where, via, d, "unguarded")
                return ck.bad("cast", inst, "%s: %d sample%s reinterpreted as a pixel of %d" % (where, k, " is" if k == 1 else "s are", n))
            pts += 1
    ck.judge("cast", inst, True if pts else None, "%s: never returns" % where, "%d samples, %d lengths" % (n, pts))


def up(ck, p, it, where, via, d, why):
    """a private helper is judged where it is used"""
    if d > 1 or it.get("pubvis") or it.get("impl_trait") or it["kind"] == "closure":
        return ck.und("cast", (via or it)["path"], "%s: %s" % (where, why))
    users = [f for f in p.fns() if any(t["t"][0] == "call" and t["t"][1][0] == "k" and (t["t"][1][1].get("fn") or {}).get("key") == it["key"]
                                       for t in f["body"]["blocks"])]
    if not users:
        return ck.und("cast", (via or it)["path"], "%s: %s" % (where, why))
    for f in users:
        ck.each("cast", f["path"], cast, ck, p, f, "%s, using %s" % (f["path"], where), it, d + 1)


def const_to_mut(p, it):
    b = it["body"]
    muts = []
    for blk in b["blocks"]:
        for s in blk["s"]:
            if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "PtrToPtr":
                op = s[2][2]
                src = p.ty(b["locals"][op[1][0]][0]) if op[0] in ("m", "c") and len(op[1]) == 1 else None
                dst = p.ty(s[2][3])
                if src and src[0] == "ptr" and dst[0] == "ptr" and mut(dst) and not mut(src):
                    muts.append("a pointer to constant data is turned into one to mutable data (%s)" % p.loc(s[-1]))
    return muts[0] if muts else None


def mut(t):
    return bool(t[2]) if len(t) > 2 else False


def is_slice(t):
    return t[0] == "ref" and t[1][0] == "slice"


def unchecked(ck, p, it, where, ops):
    inst = it["path"]
    other = [o for o in ops if not (o[0] == "call" and "get_unchecked" in o[1])]
    if other:
        return ck.bad("unchecked", inst, "%s: the unsafe function contains %s" % (where, other[0][1]))
    adt = it.get("impl_self") is not None and p.ty(it["impl_self"])
    if not adt or adt[0] != "adt" or adt[1] not in p.adts:
        return ck.und("unchecked", inst, "%s: not a method" % where)

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name in ("slice::get_unchecked", "slice::get_unchecked_mut"):
            r = E.strip(st, args[1])
            st.eff = st.eff + (("unchecked", E.deep(st, args[0]), r, p.loc(site[2]) if isinstance(site, tuple) and len(site) > 2 and isinstance(site[2], list) else ""),)
        return None
    obj = spec.obj(p, adt[1])
    sy = spec.symbols(obj)
    cs = spec.Case(ck, it, self_val=obj, hook=hook)
    w, h = sy.get("width"), sy.get("height")
    nums = [a for a in cs.args[1:] if a[0] == "sym" and len(a) > 2]
    if w is None or h is None or len(nums) < 2:
        return ck.und("unchecked", inst, "%s: fields %s" % (where, sorted(sy)))
    x, y = nums[:2]
    n = 0
    for W, H in ((1, 1), (2, 1), (1, 2), (3, 2), (5, 7), (255, 3), (65535, 65537), (70000, 3)):
        for X in sorted({0, W // 2, W - 1}):
            for Y in sorted({0, H // 2, H - 1}):
                for C in (1, 2, 3, 4):
                    env = {w: W, h: H, x: X, y: Y}
                    for o in cs.outs:
                        for e in o.st.eff:
                            if e[0] != "unchecked":
                                continue
                            for s in T.subterms(e[2]):
                                if s and s[0] == "cst":
                                    env[s] = C
                            r = e[2]
                            if r[0] == "agg" and len(r[3]) == 2:
                                a, b = T.evalt(r[3][0], env), T.evalt(r[3][1], env)
                            else:
                                a = T.evalt(r, env)
                                b = None if a is None else a + 1
                            if a is None or b is None:
                                return ck.und("unchecked", inst, "%s: range %s" % (where, T.show(r)[:150]))
                            if spec.feasible(o.st.facts, env)[0] is False:
                                continue
                            if not 0 <= a <= b <= W * H * C:
                                return ck.bad("unchecked", inst, "%s: for the pixel (%d, %d) of a %dx%d image of %d channels it accesses samples %d..%d of %d" % (
                                    where, X, Y, W, H, C, a, b, W * H * C))
                            n += 1
    ck.judge("unchecked", inst, True if n else None, "%s: no access found" % where, "%d points" % n)
