"""C13: rotations and flips move every pixel to its exact place."""
import re
from vlib import trace, tables as tb, terms as T
from vlib.absint import State, Undecided

SIZES = [(w, h) for w in range(0, 6) for h in range(0, 6)] + [(9, 2), (2, 9)]
# sizes beyond 8 and 16 bits
LARGE = [(259, 1), (1, 259)]

# name -> (destination size, source position of destination pixel (x, y)) for a source of w x h
GEO = {
    "rotate90": (lambda w, h: (h, w), lambda w, h, x, y: (y, h - 1 - x)),
    "rotate180": (lambda w, h: (w, h), lambda w, h, x, y: (w - 1 - x, h - 1 - y)),
    "rotate270": (lambda w, h: (h, w), lambda w, h, x, y: (w - 1 - y, x)),
    "flip_horizontal": (lambda w, h: (w, h), lambda w, h, x, y: (w - 1 - x, y)),
    "flip_vertical": (lambda w, h: (w, h), lambda w, h, x, y: (x, h - 1 - y)),
}


def run(ck):
    ck.rule("new", "the allocating rotations and flips return an image of the right size in which every pixel is the source pixel the geometry dictates", 5)
    ck.rule("into", "the _in variants write exactly that image into a destination of the right size", 5)
    ck.rule("refuse", "the _in variants refuse a destination of another size with an error before writing", 5)
    ck.rule("place", "the in-place variants leave exactly that image", 3)
    ck.rule("dynimage", "the DynamicImage methods use the function of the same name", 5)
    p = ck.p
    for f in p.fns():
        m = re.match(r"^imageops::affine::(rotate90|rotate180|rotate270|flip_horizontal|flip_vertical)(_in|_in_place|)$", f["path"])
        if m:
            g, kind = m.groups()
            {"": fresh, "_in": into, "_in_place": place}[kind](ck, p, f, g)
    dynimage(ck, p)


def summary(ck, p, f, args, hook=None):
    E = trace.Tracer(p)
    E.extra_hook = hook
    st = State()
    vals = []
    for k, a in enumerate(args):
        st.mem[("arg", a)] = E.image(a)
        vals.append(("ref", ("arg", a), (), True))
    outs = E.run(f, vals, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return trace.Summary(E, outs)


def pixels(w, h):
    return {(x, y): ("src", x, y) for x in range(w) for y in range(h)}


def point(S, sizes, images):
    env = {}
    for n, (w, h) in sizes.items():
        env[("sym", n + ".w", (0, 2**32 - 1))] = w
        env[("sym", n + ".h", (0, 2**32 - 1))] = h
    return trace.Run(S, env, images).go()


def compare(r, dst, want_size, geo, w, h):
    """None, or what is wrong"""
    if r.fault:
        return "%s of %s at (%s, %s) of %s" % r.fault
    if r.size.get(dst) != want_size:
        return "the result is %s instead of %s" % (r.size.get(dst), want_size)
    for y in range(want_size[1]):
        for x in range(want_size[0]):
            g, ex = r.img[dst].get((x, y)), ("src",) + geo(w, h, x, y)
            if g != ex:
                return "pixel (%d, %d) is %s instead of source pixel (%d, %d)" % (x, y, say(g), ex[1], ex[2])
    return None


def say(g):
    if isinstance(g, tuple) and g[0] == "src":
        return "source pixel (%d, %d)" % g[1:]
    return {"zero": "left blank"}.get(g, T.show(g)[:80] if isinstance(g, tuple) else str(g))


def where(p, f):
    return "%s (%s)" % (f["path"], p.loc_of_item(f))


def fresh(ck, p, f, g):
    def go():
        S = summary(ck, p, f, ["image"])
        size, geo = GEO[g]
        for w, h in SIZES + LARGE:
            r = point(S, {"image": (w, h)}, {"image": pixels(w, h)})
            if r.out is None and not r.fault:
                raise Undecided("no end reached")
            if not r.fault and r.out.kind != "ret":
                return ck.bad("new", g, "%s: panics for a %dx%d image: %s" % (where(p, f), w, h, r.out.why))
            dst = None
            if not r.fault:
                v = S.E.strip(r.out.st, r.out.val)
                if v[0] != "img":
                    raise Undecided("result %s" % T.show(v)[:100])
                dst = v[1]
            e = compare(r, dst, size(w, h), geo, w, h)
            if e:
                return ck.bad("new", g, "%s: for a %dx%d image %s" % (where(p, f), w, h, e))
        ck.ok("new", g, "%d sizes" % len(SIZES + LARGE))
    ck.each("new", g, go)


def result_kind(S, o):
    v = S.E.strip(o.st, o.val)
    return {0: "Ok", 1: "Err"}.get(v[2]) if v[0] == "agg" else None


def into(ck, p, f, g):
    size, geo = GEO[g]

    def go():
        S = summary(ck, p, f, ["image", "dest"])
        for w, h in SIZES + LARGE:
            dw, dh = size(w, h)
            r = point(S, {"image": (w, h), "dest": (dw, dh)}, {"image": pixels(w, h), "dest": {(x, y): ("old", x, y) for x in range(dw) for y in range(dh)}})
            if not r.fault and (r.out is None or r.out.kind != "ret" or result_kind(S, r.out) != "Ok"):
                return ck.bad("into", g, "%s: a %dx%d image into a %dx%d destination is refused" % (where(p, f), w, h, dw, dh))
            e = compare(r, "dest", (dw, dh), geo, w, h)
            if e:
                return ck.bad("into", g, "%s: for a %dx%d image %s" % (where(p, f), w, h, e))
        ck.ok("into", g, "%d sizes" % len(SIZES + LARGE))

        for w, h in [(2, 3), (3, 2), (1, 4), (3, 3), (0, 2), (2, 0)]:
            dw, dh = size(w, h)
            for xw, xh in {(dw + 1, dh), (dw, dh + 1), (dh, dw), (max(dw - 1, 0), dh), (dw, max(dh - 1, 0)), (dw + 2, dh + 2)}:
                if (xw, xh) == (dw, dh):
                    continue
                old = {(x, y): ("old", x, y) for x in range(xw) for y in range(xh)}
                r = point(S, {"image": (w, h), "dest": (xw, xh)}, {"image": pixels(w, h), "dest": old})
                if r.fault or r.out is None or r.out.kind != "ret" or result_kind(S, r.out) != "Err":
                    return ck.bad("refuse", g, "%s: a %dx%d image into a %dx%d destination is not refused with an error" % (where(p, f), w, h, xw, xh))
                if r.img["dest"] != old:
                    return ck.bad("refuse", g, "%s: a %dx%d destination refused for a %dx%d image has been written to" % (where(p, f), xw, xh, w, h))
        ck.ok("refuse", g)
    ck.each("into", g, go)


def place(ck, p, f, g):
    def go():
        S = summary(ck, p, f, ["image"])
        size, geo = GEO[g]
        for w, h in SIZES + LARGE:
            r = point(S, {"image": (w, h)}, {"image": pixels(w, h)})
            if not r.fault and r.out.kind != "ret":
                return ck.bad("place", g, "%s: panics for a %dx%d image" % (where(p, f), w, h))
            e = compare(r, "image", (w, h), geo, w, h)
            if e:
                return ck.bad("place", g, "%s: for a %dx%d image %s" % (where(p, f), w, h, e))
        ck.ok("place", g, "%d sizes" % len(SIZES + LARGE))
    ck.each("place", g, go)


DYN = {"rotate90": "rotate90", "rotate180": "rotate180", "rotate270": "rotate270", "fliph": "flip_horizontal", "flipv": "flip_vertical"}
DYN_SIZES = [(0, 0), (1, 1), (2, 3), (4, 1), (3, 5), (4, 4)]


def dynimage(ck, p):
    adt = tb.find_adt(p, "DynamicImage")
    variants = [v["n"] for v in p.adts[adt]["variants"]]
    for m, g in DYN.items():
        f = tb.method(p, adt, m)
        if f is None:
            continue

        def go():
            for k, name in enumerate(variants):
                E = trace.Tracer(p)
                st = State()
                st.mem[("arg", "image")] = ("agg", adt, k, (E.image("image"),))
                outs = E.run(f, [("ref", ("arg", "image"), (), False)], st=st)
                E.npaths = len(outs)
                ck.saw(E)
                S = trace.Summary(E, outs)
                size, geo = GEO[g]
                for w, h in DYN_SIZES:
                    r = point(S, {"image": (w, h)}, {"image": pixels(w, h)})
                    dst = None
                    if not r.fault:
                        if r.out is None or r.out.kind != "ret":
                            return ck.bad("dynimage", m, "%s: panics for a %dx%d %s image" % (where(p, f), w, h, name))
                        v = E.deep(r.out.st, E.strip(r.out.st, r.out.val))
                        if v[0] != "agg" or len(v[3]) != 1 or v[3][0][0] != "img":
                            raise Undecided("result %s" % T.show(v)[:100])
                        if v[2] != k:
                            return ck.bad("dynimage", m, "%s: a %s image becomes %s" % (where(p, f), name, variants[v[2]]))
                        dst = v[3][0][1]
                    e = compare(r, dst, size(w, h), geo, w, h)
                    if e:
                        return ck.bad("dynimage", m, "%s: for a %dx%d %s image %s" % (where(p, f), w, h, name, e))
            ck.ok("dynimage", m, "%d variants" % len(variants))
        ck.each("dynimage", m, go)
