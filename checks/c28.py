"""C28: image operations return images of the documented size.

Each operation is executed symbolically on an input of symbolic size; what it does to pixels is opaque.  The size of the value it
returns is read from the construction of that value, through loops by the fact that no step of the loop replaces it.  Operations that
use other operations rely on their sizes, which are checked on their own."""
from vlib import absint, spec, terms as T
from vlib.absint import Out

c = T.c
IB = "buffer_::ImageBuffer"
DI = "dynimage::DynamicImage"
U32 = spec.INT["u32"]
OPAQUE = ("get_pixel", "put_pixel", "get_pixel_mut", "pixels", "pixels_mut", "enumerate_pixels", "enumerate_pixels_mut", "unsafe_get_pixel",
          "unsafe_put_pixel", "blend_pixel", "copy_from", "copy_within", "rows", "rows_mut", "convert_buffer")
SAME = lambda w, h, a: (w, h)
SWAP = lambda w, h, a: (h, w)
ARGS = lambda w, h, a: (a[1], a[2])
# what each operation of imageops returns for an image of w x h and the arguments a (a[0] is the image)
CONTRACT = {
    "blur": SAME, "fast_blur": SAME, "unsharpen": SAME, "filter3x3": SAME, "contrast": SAME, "brighten": SAME, "huerotate": SAME,
    "grayscale": SAME, "grayscale_alpha": SAME, "grayscale_with_type": SAME, "grayscale_with_type_alpha": SAME,
    "rotate180": SAME, "flip_horizontal": SAME, "flip_vertical": SAME, "rotate90": SWAP, "rotate270": SWAP,
    "resize": ARGS, "thumbnail": ARGS, "index_colors": SAME,
    "vertical_sample": lambda w, h, a: (w, a[1]), "horizontal_sample": lambda w, h, a: (a[1], h),
}
METHODS = {
    "grayscale": SAME, "blur": SAME, "fast_blur": SAME, "unsharpen": SAME, "filter3x3": SAME, "adjust_contrast": SAME, "brighten": SAME,
    "huerotate": SAME, "flipv": SAME, "fliph": SAME, "rotate180": SAME, "rotate90": SWAP, "rotate270": SWAP, "resize_exact": ARGS,
    "thumbnail_exact": ARGS,
}


class View:
    """hook: the input image has the symbolic size w x h; writing pixels does not change an image's size"""

    def __init__(self, w, h, own):
        self.w, self.h, self.own = w, h, own
        self.n = 0

    def fresh(self, tag):
        self.n += 1
        return ("sym", "%s%d" % (tag, self.n))

    def size(self, E, st, v):
        v = E.deep(st, E.strip(st, v))
        for _ in range(4):
            if v[0] in ("rf", "deref"):
                v = v[1]
        if v == ("sym", "a0"):
            return self.w, self.h
        return size_of(E, v)

    def __call__(self, E, st, fr, name, fi, fargs, args, site):
        short = name.split("::")[-1]
        tr = fi.get("trait", "").split("::")[-1]
        if short in ("dimensions", "width", "height") and (tr == "GenericImageView" or "ImageBuffer" in name or "DynamicImage" in name):
            z = self.size(E, st, args[0])
            if z is None:
                return None
            w, h = z
            return [Out(st, "ret", {"dimensions": ("agg", "tuple", 0, (w, h)), "width": w, "height": h}[short])]
        if short in OPAQUE and (tr in ("GenericImageView", "GenericImage") or "ImageBuffer" in name):
            if short == "convert_buffer":
                return None
            return [Out(st, "ret", self.fresh(short))]
        if short in ("new", "from_pixel", "from_fn") and "ImageBuffer" in name and len(args) >= 2:
            return [Out(st, "ret", image(E.p, args[0], args[1]))]
        if short in ("from_raw", "from_vec") and "ImageBuffer" in name:
            return [Out(st, "ret", ("agg", "std::option::Option", 1, (image(E.p, args[0], args[1]),)))]
        if tr in ("NumCast", "ToPrimitive", "FromPrimitive"):
            return [Out(st, "ret", ("agg", "std::option::Option", 1, (self.fresh(short),)))]
        if tr in ("Pixel", "Enlargeable", "FnMut", "Fn", "FnOnce", "FromColor", "Primitive", "ColorMap") and args and not args[0][0] == "clo":
            return [Out(st, "ret", self.fresh(short))]
        if name != self.own and ("imageops" in name or "DynamicImage" not in name) and short in CONTRACT and args:
            z = self.size(E, st, args[0])
            if z is not None:
                w, h = CONTRACT[short](z[0], z[1], args)
                return [Out(st, "ret", image(E.p, w, h))]
        if "DynamicImage" in name and short in ("crop", "crop_imm") and len(args) == 5:
            z = self.size(E, st, args[0])
            if z is not None:
                w, h = (("clip", a, b, m) for a, b, m in ((args[1], args[3], z[0]), (args[2], args[4], z[1])))
                return [Out(st, "ret", ("agg", DI, 0, (image(E.p, w, h),)))]
        if "DynamicImage" in name and short in METHODS and args and name != self.own:
            z = self.size(E, st, args[0])
            if z is not None:
                w, h = METHODS[short](z[0], z[1], args)
                return [Out(st, "ret", ("agg", DI, 0, (image(E.p, w, h),)))]
        return None


class Sizes(absint.Engine):
    """remembers the overflow-checked operations with what is known where they are done"""

    def on_overflow(self, st, fr, v, t):
        x = v if v[0] == "ovf" else v[1]
        e = ("ovf", x, st.facts, self.p.loc(t[6]))
        if len(st.eff) < 300 and e not in st.eff:
            st.eff = st.eff + (e,)


def image(p, w, h):
    return ("agg", IB, 0, tuple({"width": w, "height": h}.get(f["n"], ("sym", "new." + f["n"])) for f in p.adts[IB]["variants"][0]["f"]))


def size_of(E, v, seen=()):
    """(width, height) terms of an image value, through loops that only change its pixels"""
    if v[0] in ("rf", "deref", "copy"):
        return size_of(E, v[1], seen)
    if v[0] == "agg" and v[1] == DI:
        return size_of(E, v[3][0], seen)
    if v[0] == "agg" and v[1] == IB:
        d = {x["n"]: y for x, y in zip(E.p.adts[IB]["variants"][0]["f"], v[3])}
        return d.get("width"), d.get("height")
    if v[0] == "phi" and v in E.phis:
        if v in seen:
            return ()
        rs = {size_of(E, x, seen + (v,)) for k in ("init", "back") for x in E.phis[v][k]} - {()}
        if len(rs) == 1:
            return rs.pop()
        return () if not rs and seen else None
    return None


RATIO = {"resize": (False, False), "thumbnail": (False, False), "resize_to_fill": (True, True)}
GRID = [(w, h, a, b) for w, h in ((0, 0), (0, 4), (5, 0), (1, 1), (3, 2), (2, 7), (640, 479)) for a, b in ((0, 0), (0, 6), (9, 0), (1, 1), (4, 6), (640, 479), (1000, 3), (3, 9), (9000, 2), (2, 3), (6, 1), (479, 640))]


def run(ck):
    ck.rule("op", "an operation of imageops returns an image of the documented size", 12)
    ck.rule("method", "a DynamicImage operation returns an image of the documented size", 80)
    ck.rule("fit", "resizing and thumbnailing within bounds keep the proportions; resizing to fill gives the exact size", 20)
    p = ck.p
    for it in p.fns():
        parts = it["path"].split("::")
        if parts[0] == "imageops" and parts[-1] in CONTRACT and it["kind"] != "closure" and len(parts) <= 4:
            ck.each("op", it["path"], op, ck, p, it, CONTRACT[parts[-1]])
        if len(parts) == 3 and parts[0] == "dynimage" and parts[1] == "DynamicImage" and parts[-1] in METHODS:
            for k, v in enumerate(p.adts[DI]["variants"]):
                ck.each("method", "%s of %s" % (parts[-1], v["n"]), method, ck, p, it, METHODS[parts[-1]], k, v)
        if len(parts) == 3 and parts[0] == "dynimage" and parts[1] == "DynamicImage" and parts[-1] in RATIO:
            for k, v in enumerate(p.adts[DI]["variants"]):
                ck.each("fit", "%s of %s" % (parts[-1], v["n"]), ratio, ck, p, it, *RATIO[parts[-1]], k, v)


def op(ck, p, it, want):
    w, h = ("sym", "W", U32), ("sym", "H", U32)
    args, mem = {}, {}
    ty = p.ty(it["body"]["locals"][1][0])
    if ty[0] == "ref" and ty[1][0] == "adt" and ty[1][1] == IB:
        mem[("arg", "image")] = image(p, w, h)
        args[0] = ("ref", ("arg", "image"), (), True)
    cs = spec.Case(ck, it, args=args, mem=mem, hook=View(w, h, it["path"]), engine=Sizes)
    check(ck, p, it, "op", it["path"], cs, want, w, h)


def method(ck, p, it, want, k, v):
    w, h = ("sym", "W", U32), ("sym", "H", U32)
    cs = spec.Case(ck, it, self_val=("agg", DI, k, (image(p, w, h),)), hook=View(w, h, it["path"]), engine=Sizes)
    check(ck, p, it, "method", "%s of %s" % (it["path"].split("::")[-1], v["n"]), cs, want, w, h)


def public(p, it):
    return it.get("pubvis")


def fails(cs, env):
    """a panic that certainly happens"""
    for o in cs.outs:
        if o.kind == "panic" and o.why[0] == "assert" and happens(o.st.facts, env):
            return "%s at %s" % (o.why[1] or o.why[0], o.why[2])
        for e in o.st.eff:
            if e[0] == "ovf" and overflows(e[1], env) and happens(e[2], env):
                return "arithmetic overflow at %s" % e[3]
    return None


def happens(facts, env):
    """true of these sizes, but for conditions that have nothing to do with sizes (what the kernel sums to)"""
    f, u = spec.feasible(facts, env)
    return f is not False and not any(s in env or s and s[0] in ("phi", "ind", "exhausted", "over") for t in u for s in T.subterms(t))


def free(t, env):
    """a condition on the other arguments alone: the caller can make it true"""
    return not any(s in env or s and s[0] in ("phi", "ind", "exhausted", "over", "app", "call", "iter") for s in T.subterms(t))


def overflows(v, env):
    if len(v) > 3 and v[3][0] == "wrap":
        a, b = T.evalt(v[3][3], env), T.evalt(v[3][4], env)
        if a is None or b is None:
            return None
        return T.evalt(("ovf", v[1], v[2], T.binop(v[1], c(a), c(b), v[2])), env)
    return T.evalt(v, env)


def value(t, env):
    """a size; cropping at t[1] for t[2] pixels of t[3] gives what there is"""
    if t[0] == "clip":
        a, b, m = (value(x, env) for x in t[1:])
        return None if None in (a, b, m) else max(0, min(a + b, m) - a) if a >= 0 else -1
    return T.evalt(t, env)


# ---- sizes that keep the proportions ----------------------------------------------------------------------------
SIDES = (0, 1, 2, 3, 7, 100, 101, 255, 640, 1023, 65535, 65537, 100000007)
BOUNDS = ((1, 1), (1, 9), (9, 1), (50, 50), (50, 51), (640, 480), (333, 1000), (65536, 3), (3, 65536), (5, 100000), (160000003, 90000001))


def ratio(ck, p, it, fill, exact, k, v):
    name = it["path"].split("::")[-1]
    inst = "%s of %s" % (name, v["n"])
    w, h = ("sym", "W", U32), ("sym", "H", U32)
    cs = spec.Case(ck, it, self_val=("agg", DI, k, (image(p, w, h),)), hook=View(w, h, it["path"]), engine=Sizes)
    n = 0
    for W in SIDES:
        for H in SIDES:
            for A, B in BOUNDS:
                if fill and W * H and max(A * H // W, B * W // H) >= 2**32 - 1 or not (fill or W * H):
                    continue        # no image of the intermediate size can exist; an empty image has no proportions
                env = {w: W, h: H, cs.args[1]: A, cs.args[2]: B}
                for o, u in cs.at(env):
                    if o.kind != "ret":
                        continue
                    z = size_of(cs.E, cs.E.deep(o.st, o.val))
                    if not z:
                        return ck.und("fit", inst, "%s: size of %s" % (cs.where(), T.show(o.val)[:120]))
                    z = tuple(value(x, env) for x in z)
                    if None in z or u:
                        return ck.und("fit", inst, "%s: size not determined: %s" % (cs.where(), T.show(u[0])[:100] if u else ""))
                    bad = wrong(W, H, A, B, z, fill, exact)
                    if bad:
                        return ck.bad("fit", inst, "%s: an image of %dx%d for %dx%d gives %dx%d: %s" % ((cs.where(), W, H, A, B) + z + (bad,)))
                    n += 1
    ck.judge("fit", inst, True if n else None, "%s: never returns" % cs.where(), "%d points" % n)


def wrong(W, H, A, B, z, fill, exact):
    if exact:
        return None if z == (A, B) else "not the requested size"
    a, b = z
    wide = A * H <= B * W           # the width is what limits (fit) or exceeds (fill)
    if fill:
        wide = not wide
    if (a, b)[0 if wide else 1] != (A, B)[0 if wide else 1] and A * H != B * W:
        return "the limiting side is not the requested one"
    if not fill and (a > A or b > B) and 1 not in (a, b):
        return "does not fit"
    # the other side is the exact proportion rounded, at least 1
    num, den = (A * H, W) if wide else (B * W, H)
    other = b if wide else a
    if other != 1 and abs(other * den - num) * 2 > den + max(1, num >> 40):
        return "the proportions are not kept"
    return "a side of 0" if other < 1 else None


def check(ck, p, it, rule, inst, cs, want, w, h):
    n = 0
    goal = want(w, h, cs.args)
    for W, H, A, B in GRID:
        env = {w: W, h: H}
        env.update({s: x for s, x in zip(cs.args[1:], (A, B)) if s[0] == "sym" and len(s) > 2})
        wanted = tuple(T.evalt(x, env) for x in goal)
        f = public(p, it) and fails(cs, env)
        if f:
            return ck.bad(rule, inst, "%s: panics on an image of %dx%d%s: %s" % (
                cs.where(), W, H, " with the arguments %d, %d" % (A, B) if want is ARGS else "", f))
        doubt, right = [], 0
        for o, u in cs.at(env):
            if o.kind != "ret":
                continue
            z = size_of(cs.E, cs.E.deep(o.st, o.val))
            z = tuple(value(x, env) for x in z) if z else (None,)
            if None in z:
                return ck.und(rule, inst, "%s: size of %s" % (cs.where(), T.show(o.val)[:120]))
            if z == wanted:
                right += 1
            elif all(free(t, env) for t in u):
                doubt[:], right = [z], 0
                break
            else:
                doubt.append(z)
            n += 1
        if doubt and not right:     # whichever of the ways through the operation is taken
            return ck.bad(rule, inst, "%s: an image of %dx%d%s gives %dx%d, not %dx%d" % (
                (cs.where(), W, H, " and the arguments %d, %d" % (A, B) if want is ARGS else "") + doubt[0] + wanted))
        if doubt:
            return ck.und(rule, inst, "%s: possibly %dx%d" % ((cs.where(),) + doubt[0]))
    ck.judge(rule, inst, True if n else None, "%s: never returns" % cs.where(), "%d points" % n)

