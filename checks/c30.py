"""C30: images made from a pixel, a function or two colours hold exactly what was asked for at every place.

The functions are summarised with vlib.trace (each loop body analysed once, for a generic iteration); the summary is evaluated for a
set of sizes.  For the gradients the pixel arithmetic is followed for concrete pixel types."""
from vlib import trace, spec, pixels as px, tables as tb, terms as T
from vlib.absint import Out, State, Undecided

SIZES = ((0, 0), (0, 3), (3, 0), (1, 1), (1, 4), (4, 1), (3, 2), (2, 5))
U = 2**32 - 1


def run(ck):
    ck.rule("new", "a new image has the requested size and is all zero", 1)
    ck.rule("fill", "every pixel of an image made from a pixel or a function is that pixel, or the function's value for its own coordinates", 2)
    ck.rule("gradient", "a gradient runs from the first colour to the second along its axis and is constant across it", 2)
    p = ck.p
    for f in p.fns():
        last = f["path"].split("::")[-1]
        if f["kind"] == "closure" or not f.get("pubvis"):
            continue
        if last in ("from_pixel", "from_fn", "from_par_fn") and "ImageBuffer" in f["path"]:
            ck.each("fill", f["path"], fill, ck, p, f, last)
        if last in ("vertical_gradient", "horizontal_gradient"):
            ck.each("gradient", f["path"], gradient, ck, p, f, last == "vertical_gradient")
        if last == "new" and f["path"].startswith("buffer_::ImageBuffer"):
            ck.each("new", f["path"], new, ck, p, f)


def where(p, f):
    return "%s (%s)" % (f["path"], p.loc_of_item(f))


def num(n):
    return ("sym", n, (0, U))


def new(ck, p, f):
    cs = spec.Case(ck, f, args={0: num("w"), 1: num("h")})
    chan = [s for o in cs.outs for s in T.subterms(o.val) if s and s[0] == "cst" and "CHANNEL_COUNT" in repr(s)]
    n = 0
    for w, h in SIZES + ((U, U), (65536, 65536)):
        env = {num("w"): w, num("h"): h}
        env.update({s: 3 for s in chan})
        at = "%s: for %dx%d" % (cs.where(), w, h)
        for o, u in cs.at(env):
            if o.kind != "ret":
                if w * h * 3 < 2**63 and not u:
                    return ck.bad("new", f["path"], "%s: panics" % at)
                continue
            v = cs.E.deep(o.st, cs.E.strip(o.st, o.val))
            names = [x["n"] for x in p.adts[v[1]]["variants"][0]["f"]] if v[0] == "agg" and v[1] in p.adts else []
            d = dict(zip(names, v[3])) if names else {}
            if not {"width", "height", "data"} <= set(d):
                raise Undecided("result %s" % T.show(v)[:150])
            got = T.evalt(d["width"], env), T.evalt(d["height"], env)
            if got != (w, h):
                return ck.bad("new", f["path"], "%s: makes an image of %sx%s" % ((at,) + got))
            data = d["data"]
            if data[0] != "call" or data[1] != "vec::from_elem" or data[2][0][:2] != ("call", "Zero::zero"):
                raise Undecided("container %s" % T.show(data)[:150])
            if T.evalt(data[2][1], env) != w * h * 3:
                return ck.bad("new", f["path"], "%s: %s samples" % (at, T.evalt(data[2][1], env)))
            n += 1
    ck.judge("new", f["path"], True if n else None, "never returns", "%d points" % n)


class Par(trace.Tracer):
    """an image's parallel iterator visits the same pixels (C23) in any order"""

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m in ("par_enumerate_pixels_mut", "par_pixels_mut", "par_enumerate_pixels", "par_pixels") and args:
            n = self.img_of(st, args[0])
            if n is not None:
                return [Out(st, "ret", ("it", "img", n, m[4:]))]
        return super().on_call(E, st, fr, name, fi, fargs, args, site)


def fill(ck, p, f, kind):
    E = Par(p)
    st = State()
    last = ("sym", "pixel" if kind == "from_pixel" else "function")
    outs = E.run(f, [num("w"), num("h"), last], st=st)
    E.npaths = len(outs)
    ck.saw(E)
    S = trace.Summary(E, outs)
    n = 0
    for w, h in SIZES:
        r = trace.Run(S, {num("w"): w, num("h"): h}, {}).go()
        at = "%s: for %dx%d" % (where(p, f), w, h)
        if r.fault:
            return ck.bad("fill", f["path"], "%s: %s of %s at (%s, %s) of %s" % ((at,) + r.fault))
        if r.out is None or r.out.kind != "ret":
            return ck.bad("fill", f["path"], "%s: panics (%s)" % (at, r.out and (r.out.why,)))
        im = E.img_of(r.out.st, r.out.val)
        if im is None:
            raise Undecided("result %s" % T.show(r.out.val)[:100])
        if r.size[im] != (w, h):
            return ck.bad("fill", f["path"], "%s: makes an image of %dx%d" % ((at,) + r.size[im]))
        for x in range(w):
            for y in range(h):
                e = wrong(r.img[im].get((x, y)), kind, x, y)
                if e:
                    return ck.bad("fill", f["path"], "%s: pixel (%d, %d) is %s" % (at, x, y, e))
                n += 1
    ck.ok("fill", f["path"], "%d pixels" % n)


def wrong(v, kind, x, y):
    if v == "zero":
        return "left empty"
    while isinstance(v, tuple) and v and v[0] in ("copy", "clone", "rf", "deref"):
        v = v[1]
    if kind == "from_pixel":
        if v == ("sym", "pixel"):
            return None
        raise Undecided("pixel value %s" % T.show(v)[:100])
    if isinstance(v, tuple) and v and v[0] == "call" and v[1] == "indirect" and v[2][0] == ("sym", "function") and len(v[2]) == 3:
        a = tuple(T.evalt(t, {}) for t in v[2][1:])
        if None not in a:
            return None if a == (x, y) else "the function's value for (%s, %s)" % a
    elif isinstance(v, tuple) and v and v[0] == "call" and v[1].split("::")[-1] in ("call", "call_mut", "call_once") and ("sym", "function") in T.subterms(v[2][0]):
        a = v[2][1]
        a = a[3] if a[0] == "agg" else None
        a = a and tuple(T.evalt(t, {}) for t in a)
        if a and None not in a and len(a) == 2:
            return None if a == (x, y) else "the function's value for (%s, %s)" % a
    raise Undecided("pixel value %s" % (T.show(v)[:200] if isinstance(v, tuple) else v))


def gradient(ck, p, f, vertical):
    n = 0
    for kind, t in [(k, t) for k in ("Rgba", "Luma") for t in px.TYPES]:
        P = ("adt", tb.find_adt(p, kind), (("prim", t),))
        I = ("adt", tb.find_adt(p, "ImageBuffer"), (P, ("adt", "std::vec::Vec", (("prim", t), ("adt", "std::alloc::Global", ())))))
        by = {"I": I, "P": P, "S": ("prim", t)}
        if any(g[1] not in by for g in f["generics"]):
            raise Undecided("type parameters %s" % f["generics"])
        E = trace.Tracer(p, unroll=8)
        E.extra_hook = px.formula
        E.shapes = {"img": (P[1], len(px.ROLES[kind]))}
        st = State()
        st.mem[("arg", "img")] = E.image("img")
        st.mem[("a",)] = px.pixel(p, kind, prefix="from ", ty=t)
        st.mem[("b",)] = px.pixel(p, kind, prefix="to ", ty=t)
        outs = E.run(f, [("ref", ("arg", "img"), (), True), ("ref", ("a",), (), False), ("ref", ("b",), (), False)], st=st,
                     subst={g[0]: by[g[1]] for g in f["generics"]})
        E.npaths = len(outs)
        ck.saw(E)
        S = trace.Summary(E, outs)
        roles = px.ROLES[kind]
        V = px.VALS[t]
        for w, h in SIZES:
            for k in range(4):
                a = [V[(k + 2 * i) % len(V)] for i in range(len(roles))]
                b = [V[(3 * k + i + 1) % len(V)] for i in range(len(roles))]
                env = {num("img.w"): w, num("img.h"): h}
                for i, r in enumerate(roles):
                    env[px.sym("from " + r, t)] = a[i]
                    env[px.sym("to " + r, t)] = b[i]
                e = ramp(trace.Run(S, env, {"img": {}}).go(), w, h, a, b, vertical, t)
                if e:
                    return ck.bad("gradient", f["path"], "%s: from %s to %s over %dx%d %s<%s>: %s" % (where(p, f), a, b, w, h, kind, t, e))
                n += 1
    ck.ok("gradient", f["path"], "%d evaluations" % n)


def ramp(r, w, h, a, b, vertical, t):
    if r.fault:
        return "%s of %s at (%s, %s) of %s" % r.fault
    if r.out is None or r.out.kind != "ret":
        return "panics (%s)" % (r.out and (r.out.why,),)
    for x in range(w):
        for y in range(h):
            g = r.img["img"].get((x, y))
            if g is None:
                return "pixel (%d, %d) is not written" % (x, y)
            for q in T.subterms(g) if isinstance(g, tuple) and g and isinstance(g[0], str) else ():
                if q and q[0] == "call" and q[1] == "NumCast::from" and T.evalt(q, {}) == ("None",) and len(q) > 3:
                    return "panics at pixel (%d, %d): %s has no value as %s" % (x, y, T.evalt(q[2][0], {}), t)
            if not isinstance(g, tuple) or not g or isinstance(g[0], str):
                raise Undecided("pixel becomes %s" % (T.show(g)[:250] if isinstance(g, tuple) else g))
            k, n = (y, h - 1) if vertical else (x, w - 1)
            for i, v in enumerate(g[0]):
                want = a[i] + (b[i] - a[i]) * k / max(n, 1)
                if v is None or v != v or abs(v - want) > (1e-3 if t == "f32" else 1.01 if 0 < k < n else 0.01):
                    return "channel %d of pixel (%d, %d) is %s, not %s" % (i, x, y, v, want)
    return None
