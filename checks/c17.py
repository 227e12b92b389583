"""C17: colour operations leave alpha as documented."""
from checks import c13
from vlib import pixels as px, spec, tables as tb, trace, terms as T
from vlib.absint import Out, State, Undecided

SIZES = [(3, 2), (1, 4)]
AMOUNTS = {"brighten": (-300, -7, 0, 60, 700), "contrast": (-60.0, 0.0, 35.0), "huerotate": (0, 90, 200), "invert": (None,), "grayscale_alpha": (None,)}
# closures standing for arbitrary functions of a channel
F, G = ("sym", "f"), ("sym", "g")


def run(ck):
    ck.rule("invert", "inverting a pixel replaces every colour channel by maximum minus value and leaves alpha alone", 4)
    ck.rule("map", "map_with_alpha, apply_with_alpha and the _without_alpha variants apply the colour function to every colour channel and the alpha function to alpha only", 16)
    ck.rule("all", "map and apply use the function on every channel; map2 and apply2 pair channels of the same role", 16)
    ck.rule("image", "the image operations leave every pixel's alpha as it was, at its place", 8)
    C = Ctx(ck)
    for kind in px.ROLES:
        ck.each("invert", kind, lambda: C.invert(kind))
        for m in ("map_with_alpha", "apply_with_alpha", "map_without_alpha", "apply_without_alpha"):
            ck.each("map", "%s.%s" % (kind, m), lambda: C.mapped("map", kind, m))
        for m in ("map", "apply", "map2", "apply2"):
            ck.each("all", "%s.%s" % (kind, m), lambda: C.mapped("all", kind, m))
    for op in AMOUNTS:
        for name in (op, op + "_in_place"):
            for f in ck.p.fns():
                if f["path"] == "imageops::colorops::" + name:
                    ck.each("image", name, lambda: C.image(f, op))


class Ctx:
    def __init__(self, ck):
        self.ck, self.p = ck, ck.p
        self.adts = {k: tb.find_adt(ck.p, k) for k in px.ROLES}
        self.buf = tb.find_adt(ck.p, "ImageBuffer")

    def method(self, kind, m, trait="Pixel"):
        for im in self.p.impls:
            if im.get("trait", "").split("::")[-1] == trait and im["_self"][0] == "adt" and im["_self"][1] == self.adts[kind]:
                if m in im["_items"]:
                    return self.p.items[im["_items"][m]["key"]], {im["_self"][2][0][1]: None}
        for it in self.p.items.values():
            if it["kind"] == "fn" and "body" in it and it["path"].split("::")[-2:] == [trait, m]:
                return it, None
        raise Undecided("no %s for %s" % (m, kind))

    def subst(self, it, s, kind, t):
        if s is not None:
            return {k: ("prim", t) for k in s}
        return {0: ("adt", self.adts[kind], (("prim", t),))}

    def invert(self, kind):
        it, s = self.method(kind, "invert")
        n = 0
        roles = px.ROLES[kind]
        for t in px.TYPES:
            c = spec.Case(self.ck, it, self_val=px.pixel(self.p, kind, ty=t), subst=self.subst(it, s, kind, t), hook=px.numeric, unroll=8)
            k = px.compare(self.ck, "invert", kind, c, lambda o: px.channels(c.E.deep(o.st, o.st.mem[("arg", "self")])), px.values(t, roles),
                           lambda v: [v[r] if r == "a" else px.MAX[t] - v[r] for r in roles], t, {r: px.sym(r, t) for r in roles})
            if not k:
                return
            n += k
        self.ck.ok("invert", kind, "%d evaluations" % n)

    def mapped(self, rule, kind, m):
        inst = "%s.%s" % (kind, m)
        it, s = self.method(kind, m)
        roles = px.ROLES[kind]

        def hook(E, st, fr, name, fi, fargs, args, site):
            if name in ("FnMut::call_mut", "FnOnce::call_once", "Fn::call"):
                f = E.strip(st, args[0])
                a = args[1]
                if f in (F, G) and a[0] == "agg":
                    return [Out(st, "ret", ("call", f[1], tuple(px.bare(E, st, x) for x in a[3])))]
            return px.numeric(E, st, fr, name, fi, fargs, args, site)

        n = it["body"]["argc"]
        two = m in ("map2", "apply2")
        args = {n - 1: F} if two or m in ("map", "apply") or "without" in m else {1: F, 2: G}
        mem = {}
        if two:
            mem[("o",)] = px.pixel(self.p, kind, prefix="other ")
            args[1] = ("ref", ("o",), (), False)
        c = spec.Case(self.ck, it, self_val=px.pixel(self.p, kind), subst=self.subst(it, s, kind, "u8"), hook=hook, unroll=8, args=args, mem=mem)
        for o in c.outs:
            if o.kind != "ret":
                raise Undecided("%s" % (o.why,))
            v = o.st.mem[("arg", "self")] if m.startswith("apply") else c.E.strip(o.st, o.val)
            ch = px.channels(c.E.deep(o.st, v))
            if ch is None or len(ch) != len(roles):
                raise Undecided("result %s" % T.show(v)[:150])
            for r, x in zip(roles, ch):
                x = plain(x)
                a = (("sym", r),) + ((("sym", "other " + r),) if two else ())
                if rule == "all" or r != "a":
                    w = ("call", "f", a)
                else:
                    w = ("sym", "a") if "without" in m else ("call", "g", a)
                if x != w:
                    if not known(x):
                        raise Undecided("channel %s is %s" % (r, T.show(x)[:100]))
                    return self.ck.bad(rule, inst, "%s: channel %s of the result is %s instead of %s" % (c.where(), r, T.show(x), T.show(w)))
        self.ck.ok(rule, inst, "")

    def image(self, f, op):
        n = 0
        for kind, t in [(k, t) for k in ("Rgba", "LumaA") for t in px.TYPES]:
            P = ("adt", self.adts[kind], (("prim", t),))
            I = ("adt", self.buf, (P, ("adt", "std::vec::Vec", (("prim", t), ("adt", "std::alloc::Global", ())))))
            by = {"I": I, "P": P, "S": ("prim", t)}
            if any(g[1] not in by for g in f["generics"]):
                raise Undecided("type parameters %s" % f["generics"])
            E = trace.Tracer(self.p, unroll=8)
            E.extra_hook = px.formula
            E.shapes = {n: (self.adts[kind], len(px.ROLES[kind])) for n in ("src", "new1")}
            st = State()
            st.mem[("arg", "src")] = E.image("src")
            amount = ("sym", "amount")
            vals = [("ref", ("arg", "src"), (), True), amount][:f["body"]["argc"]]
            outs = E.run(f, vals, st=st, subst={g[0]: by[g[1]] for g in f["generics"]})
            E.npaths = len(outs)
            self.ck.saw(E)
            S = trace.Summary(E, outs)
            roles = px.ROLES[kind]
            for w, h in SIZES:
                for a in AMOUNTS[op]:
                    src = {}
                    V = px.VALS[t][:6] if t == "f32" else px.VALS[t]
                    for x in range(w):
                        for y in range(h):
                            src[(x, y)] = (tuple(V[(3 * x + 5 * y + 2 * i + 1 + (r == "a")) % len(V)] for i, r in enumerate(roles)),)
                    env = {("sym", "src.w", (0, 2**32 - 1)): w, ("sym", "src.h", (0, 2**32 - 1)): h, amount: a}
                    r = trace.Run(S, env, {"src": src}).go()
                    e = self.alpha(r, f, src, w, h, t)
                    if e:
                        return self.ck.bad("image", f["name"], "%s (%s): on a %s<%s> image%s: %s" % (
                            f["path"], self.p.loc_of_item(f), kind, t, "" if a is None else " by %s" % a, e))
                    n += 1
        self.ck.ok("image", f["name"], "%d evaluations" % n)

    def alpha(self, r, f, src, w, h, t):
        if r.fault:
            return "%s of %s at (%s, %s) of %s" % r.fault
        if r.out.kind != "ret":
            raise Undecided("%s" % (r.out.why,))
        dst = r.out.val[1] if r.out.val and r.out.val[0] == "img" else "src"
        if (dst == "src") != f["name"].endswith("in_place") and f["name"] != "invert":
            raise Undecided("result %s" % (r.out.val,))
        for x, y in src:
            g = r.img[dst].get((x, y))
            old = src[(x, y)][0]
            if g == "zero":
                return "pixel (%d, %d) of the result is left blank" % (x, y)
            if not isinstance(g, tuple) or not g or isinstance(g[0], str):
                raise Undecided("pixel becomes %s" % (T.show(g)[:150] if isinstance(g, tuple) else g))
            if not px.near(g[0][-1], old[-1], t):
                return "alpha %s of pixel (%d, %d) becomes %s" % (old[-1], x, y, g[0][-1])
        return None


def plain(v):
    while v[0] in ("rf", "deref"):
        v = v[1]
    return v


def known(x):
    """a channel, or one of the functions applied to channels"""
    return x[0] == "sym" or x[0] == "call" and x[1] in ("f", "g") and all(known(a) for a in x[2])
