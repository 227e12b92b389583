"""C24: cropping, pasting and viewing use exactly the requested region.

The functions are summarised by vlib.trace (each loop body analysed once, for a generic iteration, with the accesses to the images
and every overflow-checked operation recorded as events); the summaries are then evaluated for sizes and offsets that include the
ends of the integer ranges."""
from vlib import trace, spec, terms as T
from vlib.absint import Out, State, Undecided

U = 2**32 - 1
I64 = 2**63 - 1
UNIT = ("agg", "tuple", 0, ())


def run(ck):
    ck.rule("crop", "crop and crop_imm view exactly the part of the requested rectangle that lies in the image", 2)
    ck.rule("view", "view and sub_image give exactly the requested rectangle, and refuse one that does not fit", 4)
    ck.rule("bounds", "a SubImage stores the rectangle it is given and reports its offsets", 3)
    ck.rule("image", "to_image copies exactly the pixels of the view", 1)
    ck.rule("copy", "copy_from writes the other image at the offset and nothing else, or returns an error and writes nothing", 1)
    ck.rule("within", "copy_within moves exactly the rectangle as it was before, or returns false and writes nothing", 2)
    ck.rule("overlay", "overlay and replace treat exactly the intersection, pixel for pixel, for every offset", 2)
    ck.rule("tile", "tile covers every pixel of the bottom image with the repeated top image", 1)
    ck.rule("range", "overlay_bounds is the size of the intersection", 1)
    ck.rule("dynimage", "DynamicImage::crop and crop_imm crop the rectangle they are given", 2)
    p = ck.p
    fns = {f["path"]: f for f in p.fns()}
    for path, rule, fn in (("imageops::crop", "crop", crop), ("imageops::crop_imm", "crop", crop),
                           ("imageops::overlay_bounds", "range", bounds),
                           ("imageops::overlay", "overlay", overlay), ("imageops::replace", "overlay", overlay),
                           ("imageops::tile", "tile", tile)):
        f = fns.get(path)
        if f is None:
            ck.und(rule, path, "not found")
        else:
            ck.each(rule, path, fn, ck, p, f, path)
    for f in fns.values():
        last = f["path"].split("::")[-1]
        sub = "SubImage" in f["path"]
        rule, fn = {"view": ("view", view), "sub_image": ("view", view), "copy_from": ("copy", copy), "copy_within": ("within", within)}.get(
            last, (None, None))
        if sub and last in ("new", "change_bounds", "offsets", "to_image"):
            rule, fn = ("image", image) if last == "to_image" else ("bounds", stored)
        if rule and ("Generic" in f["path"] or sub) and "{" not in f["path"]:
            ck.each(rule, f["path"], fn, ck, p, f, f["path"])
    for m in ("crop", "crop_imm"):
        f = fns.get("dynimage::DynamicImage::" + m)
        if f is None:
            ck.und("dynimage", m, "not found")
        else:
            ck.each("dynimage", m, dyn, ck, p, f, m)


# ---- machinery --------------------------------------------------------------------------------------------------
class Checked(trace.Tracer):
    """records overflow-checked arithmetic and copies inside an image's container as events"""

    def on_overflow(self, st, fr, v, t):
        st.eff = st.eff + (("ev", "ovf", self.p.loc(t[6]), v if v[0] == "ovf" else v[1]),)

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        if name == "slice::copy_within" and len(args) == 3:
            n = self.container(st, args[0])
            r = self.strip(st, args[1])
            if n is not None and r[0] == "agg" and len(r[3]) == 2:
                end = T.add(r[3][1], T.c(1)) if "Inclusive" in r[1] else r[3][1]
                st.eff = st.eff + (("ev", "move", n, r[3][0], end, args[2], site),)
                return [Out(st, "ret", UNIT)]
            raise Undecided("copies within %s" % T.show(args[0])[:80])
        return super().on_call(E, st, fr, name, fi, fargs, args, site)

    def container(self, st, v):
        """the image a reference to a container belongs to"""
        for _ in range(8):
            if v[0] == "ref" and v[1][0] == "arg" and v[1][1] in self.dims:
                return v[1][1]
            if v[0] == "img":
                return v[1]
            if v[0] in ("rf", "sliceref", "fld", "deref"):
                v = v[1]
            elif v[0] == "ref":
                v = self.read(st, v[1], v[2])
        return None

    def write(self, st, cell, pr, val):
        if cell[0] == "arg" and cell[1] in self.dims:
            if val[0] == "phi":
                return          # what a loop does to the container is followed by its events
            raise Undecided("writes into an image directly")
        super().write(st, cell, pr, val)


class Pix(dict):
    """the pixels of an image: what has been written, or what was there"""

    def __init__(self, name):
        self.name = name

    def get(self, k, d=None):
        return dict.get(self, k, (self.name,) + k)


class Walk(trace.Run):
    channels = 1

    def event(self, e):
        if e[0] == "ev" and e[1] == "ovf":
            x = self.overflows(e[3])
            if x is None:
                raise Undecided("arithmetic at %s: %s" % (e[2], T.show(e[3])[:80]))
            if x:
                self.fault = ("arithmetic overflow (at %s)" % e[2],)
            return
        if e[0] == "ev" and e[1] == "move" and len(e) == 7:
            n, cc = e[2], self.channels
            a, b, d = (self.ev(x) for x in e[3:6])
            if a is None or b is None or d is None:
                raise Undecided("copy within the container: %s" % T.show(e[3])[:80])
            w, h = self.size[n]
            if a > b or b > w * h * cc or d + b - a > w * h * cc:
                self.fault = ("samples %d..%d moved to %d of %d" % (a, b, d, w * h * cc),)
                return
            if a % cc or b % cc or d % cc:
                self.fault = ("samples %d..%d of %d channels moved to %d" % (a, b, cc, d),)
                return
            a, b, d = a // cc, b // cc, d // cc
            old = [self.img[n].get((k % w, k // w)) for k in range(a, b)]
            for k, v in zip(range(d, d + b - a), old):
                self.img[n][(k % w, k // w)] = v
            return
        return super().event(e)


    def other(self, e):
        if e[0] == "call":
            for s in mentions(e[2]):
                if s in self.S.E.dims:
                    raise Undecided("image handed to %s" % e[1])
        super().other(e)

    def overflows(self, v):
        """does the operation an ("ovf", op, type, value) stands for leave its type?"""
        if v[3][0] != "wrap":
            return self.ev(v)
        a, b = self.ev(v[3][3]), self.ev(v[3][4])
        if a is None or b is None:
            return None
        return self.ev(("ovf", v[1], v[2], T.binop(v[1], T.c(a), T.c(b), v[2])))


def summ(ck, p, f, build, engine=Checked):
    """summary of f for arguments built by build(engine, state)"""
    E = engine(p)
    st = State()
    vals = build(E, st)
    outs = E.run(f, vals, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return trace.Summary(E, outs)


def mentions(v):
    """the images a value gives access to"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] in ("arg", "img") and isinstance(v[1], str):
            yield v[1]
        for x in v:
            yield from mentions(x)


def img(E, st, name, mut=True):
    st.mem[("arg", name)] = E.image(name)
    return ("ref", ("arg", name), (), mut)


def num(name, lo=0, hi=U):
    return ("sym", name, (lo, hi))


def go(S, sizes, nums, channels=1):
    """evaluate the summary: (result, writes) with images of the given sizes and numbers"""
    env = {}
    for n, (w, h) in sizes.items():
        env[num(n + ".w")] = w
        env[num(n + ".h")] = h
    for k, v in nums.items():
        env[k] = v
    for s in consts(S):
        env[s] = channels
    r = Walk(S, env, {n: {} for n in sizes}, limit=400000)
    r.channels = channels
    r.img = {n: Pix(n) for n in sizes}
    r.go()
    return r


def consts(S):
    """the channel counts the summary mentions"""
    if not hasattr(S, "_consts"):
        S._consts = set()
        stack, seen = [t[0] for t in S.traces] + [t[1] for t in S.traces], set()
        while stack:
            x = stack.pop()
            if not isinstance(x, (tuple, list)) or id(x) in seen:
                continue
            seen.add(id(x))
            if x and x[0] == "cst" and "CHANNEL_COUNT" in repr(x):
                S._consts.add(x)
            stack.extend(x)
    return S._consts


def where(p, f):
    return "%s (%s)" % (f["path"], p.loc_of_item(f))


def ended(r):
    """'ret', 'panic' or what went wrong"""
    if r.fault:
        return "fault"
    if r.out is None:
        raise Undecided("no end reached")
    return r.out.kind


def told(r):
    f = r.fault
    return f[0] if len(f) == 1 else "%s of %s at (%s, %s) of %s" % f


def px(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] in ("top", "image", "self", "other", "bottom") and isinstance(v[1], int):
        return "pixel (%d, %d) of %s" % (v[1], v[2], v[0])
    if isinstance(v, tuple) and v and v[0] == "blend":
        return "%s blended over %s" % (px(v[2]), px(v[1]))
    return T.show(v)[:80] if isinstance(v, tuple) else str(v)


def kind(S, r):
    v = S.E.strip(r.out.st, r.out.val)
    return {0: "Ok", 1: "Err"}.get(v[2]) if v[0] == "agg" else None


def rect(S, r):
    """(image, x, y, w, h) of a SubImage value"""
    v = S.E.deep(r.out.st, S.E.strip(r.out.st, r.out.val))
    if v[0] == "agg" and v[1].endswith("SubImage"):
        v = v[3][0]
    if v[0] != "agg" or not v[1].endswith("SubImageInner"):
        raise Undecided("result %s" % T.show(v)[:100])
    f = [x["n"] for x in S.E.p.adts[v[1]]["variants"][0]["f"]]
    d = dict(zip(f, v[3]))
    return (d["image"],) + tuple(r.ev(d[k]) for k in ("xoffset", "yoffset", "xstride", "ystride"))


def isimg(S, r, v, name):
    return S.E.img_of(r.out.st, v) == name or T.contains(v, ("img", name))


# ---- rectangles -------------------------------------------------------------------------------------------------
AX = [(n, o, m) for n in (0, 1, 7, U - 1, U) for o in (0, 1, 6, 7, 8, U - 1, U) for m in (0, 1, 6, 7, 8, U - 1, U)]


def axes():
    """pairs of one-dimensional cases (size, offset, length): every case on each axis, with a few on the other"""
    few = [(7, 2, 3), (7, 3, 9), (0, 0, 0), (U, U - 5, 5)]
    for a in AX:
        for b in few:
            yield a, b
            yield b, a


def crop(ck, p, f, inst):
    x, y, w, h = (num(n) for n in "xywh")
    S = summ(ck, p, f, lambda E, st: [img(E, st, "image"), x, y, w, h])
    n = 0
    for (W, X, A), (H, Y, B) in axes():
        r = go(S, {"image": (W, H)}, {x: X, y: Y, w: A, h: B})
        at = "%s: rectangle of %dx%d at (%d, %d) of a %dx%d image" % (where(p, f), A, B, X, Y, W, H)
        e = ended(r)
        if e == "fault":
            return ck.bad("crop", inst, "%s: %s" % (at, told(r)))
        if e == "panic":
            return ck.bad("crop", inst, "%s: panics (%s)" % (at, r.out.why))
        im, a, b, cw, ch = rect(S, r)
        if None in (a, b, cw, ch):
            raise Undecided("a bound of the view")
        want = (max(0, min(X + A, W) - X), max(0, min(Y + B, H) - Y))
        if not isimg(S, r, im, "image"):
            raise Undecided("the image viewed")
        if (cw, ch) != want or want[0] and a != X or want[1] and b != Y or a > W or b > H:
            return ck.bad("crop", inst, "%s: gives %dx%d at (%d, %d), not %dx%d" % (at, cw, ch, a, b, want[0], want[1]))
        n += 1
    ck.ok("crop", inst, "%d points" % n)


def view(ck, p, f, inst):
    """GenericImageView::view, GenericImage::sub_image and the same on a SubImage"""
    x, y, w, h = (num(n) for n in "xywh")
    sub = "SubImage" in f["path"]
    xo, yo, xs, ys = (num("s." + n) for n in "xywh")

    def build(E, st):
        i = img(E, st, "image")
        if sub:
            ad = {a.split("::")[-1]: a for a in p.adts}
            st.mem[("arg", "view")] = ("agg", ad["SubImage"], 0, (("agg", ad["SubImageInner"], 0, (i, xo, yo, xs, ys)),))
            i = ("ref", ("arg", "view"), (), True)
        return [i, x, y, w, h]

    S = summ(ck, p, f, build)
    n = 0
    for (W, X, A), (H, Y, B) in axes():
        for off in ((0, 0), (3, 4)) if sub else ((0, 0),):
            if W + off[0] > U or H + off[1] > U:
                continue
            env = {x: X, y: Y, w: A, h: B}
            if sub:
                env.update({xo: off[0], yo: off[1], xs: W, ys: H})
            r = go(S, {"image": (W + off[0], H + off[1])}, env)
            at = "%s: rectangle of %dx%d at (%d, %d) of %dx%d%s" % (where(p, f), A, B, X, Y, W, H, " (itself at (%d, %d))" % off if sub else "")
            fits = X + A <= W and Y + B <= H
            e = ended(r)
            if e == "fault" and fits:
                return ck.bad("view", inst, "%s: %s" % (at, told(r)))
            if e == "fault":
                continue
            if e == "panic" and fits:
                return ck.bad("view", inst, "%s: refused (%s)" % (at, r.out.why))
            if e == "panic":
                continue
            if not fits:
                return ck.bad("view", inst, "%s: accepted" % at)
            im, a, b, cw, ch = rect(S, r)
            if None in (a, b, cw, ch) or not isimg(S, r, im, "image"):
                raise Undecided("a bound of the view")
            if (a, b, cw, ch) != (X + off[0], Y + off[1], A, B):
                return ck.bad("view", inst, "%s: gives %dx%d at (%d, %d)" % (at, cw, ch, a, b))
            n += 1
    ck.ok("view", inst, "%d points" % n)


def stored(ck, p, f, inst):
    m = f["path"].split("::")[-1]
    ad = {a.split("::")[-1]: a for a in p.adts}
    new = tuple(num(n) for n in "xywh")
    old = tuple(num("o." + n) for n in "xywh")

    def obj(im):
        return ("agg", ad["SubImage"], 0, (("agg", ad["SubImageInner"], 0, (im,) + old),))

    def build(E, st):
        i = img(E, st, "image")
        if m == "new":
            return [i] + list(new)
        st.mem[("arg", "view")] = obj(i)
        return [("ref", ("arg", "view"), (), True)] + (list(new) if m == "change_bounds" else [])

    S = summ(ck, p, f, build)
    for vals in ((1, 2, 3, 4), (0, 0, 0, 0), (U, 5, 0, 7)):
        env = dict(zip(new, vals))
        env.update(dict(zip(old, (11, 12, 13, 14))))
        r = go(S, {"image": (100, 100)}, env)
        if ended(r) != "ret":
            return ck.bad("bounds", inst, "%s: does not return for (%d, %d, %d, %d)" % ((where(p, f),) + vals))
        if m == "offsets":
            v = S.E.strip(r.out.st, r.out.val)
            got, want = tuple(r.ev(t) for t in v[3]) if v[0] == "agg" else None, (11, 12)
        else:
            if m == "change_bounds":
                v = S.E.deep(r.out.st, r.out.st.mem[("arg", "view")])
                r.out.val = v
            got, want = rect(S, r)[1:], vals
        if got is None or None in got:
            raise Undecided("a bound of the view")
        if got != want:
            return ck.bad("bounds", inst, "%s: %s instead of %s" % (where(p, f), got, want))
    ck.ok("bounds", inst)


def image(ck, p, f, inst):
    ad = {a.split("::")[-1]: a for a in p.adts}
    o = tuple(num("o." + n) for n in "xywh")

    def build(E, st):
        st.mem[("arg", "view")] = ("agg", ad["SubImage"], 0, (("agg", ad["SubImageInner"], 0, (img(E, st, "image"),) + o),))
        return [("ref", ("arg", "view"), (), False)]

    S = summ(ck, p, f, build)
    n = 0
    for W, H, a, b, w, h in [(5, 4, 1, 2, 3, 2), (5, 4, 0, 0, 5, 4), (5, 4, 5, 4, 0, 0), (5, 4, 4, 3, 1, 1), (5, 4, 2, 0, 0, 3),
                             (U, U, U - 2, U - 3, 2, 3), (U, 2, 7, 1, 2, 1), (3, 3, 0, 1, 2, 0)]:
        r = go(S, {"image": (W, H)}, dict(zip(o, (a, b, w, h))))
        at = "%s: view of %dx%d at (%d, %d) of a %dx%d image" % (where(p, f), w, h, a, b, W, H)
        e = ended(r)
        if e != "ret":
            return ck.bad("image", inst, "%s: %s" % (at, told(r) if e == "fault" else "panics (%s)" % (r.out.why,)))
        v = S.E.strip(r.out.st, r.out.val)
        if v[0] != "img":
            raise Undecided("result %s" % T.show(v)[:100])
        if r.size[v[1]] != (w, h):
            return ck.bad("image", inst, "%s: the result is %dx%d" % ((at,) + r.size[v[1]]))
        for y in range(h):
            for x in range(w):
                g = dict.get(r.img[v[1]], (x, y))
                if g != ("image", a + x, b + y):
                    return ck.bad("image", inst, "%s: pixel (%d, %d) is %s" % (at, x, y, px(g)))
        n += 1
    ck.ok("image", inst, "%d points" % n)


# ---- pasting ----------------------------------------------------------------------------------------------------
def differ(r, name, want):
    """None, or how the writes to an image differ from {(x, y): value}"""
    got = {k: v for k, v in dict.items(r.img[name]) if v != (name,) + k}
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            if k not in want:
                return "pixel (%d, %d) is overwritten with %s" % (k + (px(got[k]),))
            if k not in got:
                return "pixel (%d, %d) is left as it was" % k
            return "pixel (%d, %d) becomes %s, not %s" % (k + (px(got[k]), px(want[k])))
    return None


PASTE = [((5, 4), (2, 3), 0, 0), ((5, 4), (2, 3), 1, 1), ((5, 4), (2, 3), 3, 1), ((5, 4), (2, 3), 4, 1), ((5, 4), (2, 3), 3, 2),
         ((5, 4), (5, 4), 0, 0), ((5, 4), (6, 4), 0, 0), ((5, 4), (5, 5), 0, 0), ((5, 4), (0, 0), 5, 4), ((5, 4), (0, 3), 2, 1),
         ((5, 4), (2, 0), 2, 1), ((0, 0), (0, 0), 0, 0), ((0, 3), (0, 2), 0, 1), ((5, 4), (2, 2), U, 0), ((5, 4), (2, 2), 0, U),
         ((5, 4), (2, 2), U - 1, 0), ((5, 4), (3, 2), U - 1, 1), ((5, 4), (2, 3), 1, U - 1), ((5, 4), (1, 1), U, U),
         ((U, 4), (2, 2), U - 2, 1), ((U, U), (2, 2), U - 2, U - 2), ((U, U), (2, 2), U - 1, 0), ((U, U), (2, 2), 0, U - 1),
         ((5, 4), (5, 1), 0, 3), ((5, 4), (1, 4), 4, 0), ((5, 4), (1, 1), 5, 0), ((5, 4), (1, 1), 0, 4), ((4, 5), (3, 2), 1, 3)]


def copy(ck, p, f, inst):
    x, y = num("x"), num("y")
    S = summ(ck, p, f, lambda E, st: [img(E, st, "self"), img(E, st, "other", False), x, y])
    n = 0
    for (W, H), (w, h), X, Y in PASTE:
        r = go(S, {"self": (W, H), "other": (w, h)}, {x: X, y: Y})
        at = "%s: a %dx%d image at (%d, %d) of a %dx%d image" % (where(p, f), w, h, X, Y, W, H)
        e = ended(r)
        if e != "ret":
            return ck.bad("copy", inst, "%s: %s" % (at, told(r) if e == "fault" else "panics (%s)" % (r.out.why,)))
        fits = X + w <= W and Y + h <= H
        k = kind(S, r)
        if k != ("Ok" if fits else "Err"):
            return ck.bad("copy", inst, "%s: %s" % (at, "refused although it fits" if fits else "not refused"))
        d = differ(r, "self", {(X + i, Y + j): ("other", i, j) for i in range(w) for j in range(h)} if fits else {})
        if d:
            return ck.bad("copy", inst, "%s: %s" % (at, d))
        n += 1
    ck.ok("copy", inst, "%d points" % n)


def within_cases():
    for W, H in ((5, 4), (1, 3), (4, 1)):
        for sx in range(W):
            for sy in range(H):
                for dx in range(W):
                    for dy in range(H):
                        for w, h in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (0, 1), (1, 0), (0, 0), (W, H)):
                            if (sx + sy + dx + dy + w + h) % 3 == 0 or (W, H) != (5, 4) or not w or not h:
                                yield (W, H), (sx, sy, w, h), dx, dy
    for q in (((5, 4), (1, 1, U, 1), 0, 0), ((5, 4), (1, 1, 1, U), 0, 0), ((5, 4), (1, 1, U, U), 2, 2), ((5, 4), (5, 0, 1, 1), 0, 0),
              ((5, 4), (0, 0, 1, 1), 5, 0), ((5, 4), (0, 4, 1, 1), 0, 0), ((5, 4), (0, 0, 1, 1), 0, 4), ((5, 4), (0, 0, 1, 1), U, U),
              ((5, 4), (U, U, 1, 1), 0, 0), ((U, U), (U - 1, U - 1, 1, 1), 0, 0), ((U, U), (0, 0, 1, 1), U - 1, U - 1),
              ((U, U), (0, 0, 2, 2), U - 1, U - 1), ((U, 3), (U - 1, 1, 1, 1), 0, 2), ((U, 3), (0, 0, 2, 2), U - 2, 1),
              ((U, 3), (0, 0, 2, 2), U - 1, 1), ((3, U), (0, 0, 2, 2), 1, U - 2), ((3, U), (1, U - 2, 2, 2), 0, 0), ((3, U), (0, 0, 2, 2), 1, U - 1)):
        yield q


def within(ck, p, f, inst):
    x, y = num("to.x"), num("to.y")
    src = spec.obj(p, next(a for a in p.adts if a.split("::")[-1] == "Rect"))
    names = spec.symbols(src)
    S = summ(ck, p, f, lambda E, st: [img(E, st, "self"), src, x, y])
    n = 0
    for (W, H), (sx, sy, w, h), X, Y in within_cases():
        nums = {x: X, y: Y, names["x"]: sx, names["y"]: sy, names["width"]: w, names["height"]: h}
        for cc in (1, 3) if consts(S) else (1,):
            if cc > 1 and n % 7 and W < U or consts(S) and W * H * cc > I64:
                continue                # (no container holds that many samples)
            r = go(S, {"self": (W, H)}, nums, channels=cc)
            at = "%s: %dx%d from (%d, %d) to (%d, %d) in a %dx%d image" % (where(p, f), w, h, sx, sy, X, Y, W, H)
            fits = max(sx, X) + w <= W and max(sy, Y) + h <= H
            origin = sx < W and X < W and sy < H and Y < H
            e = ended(r)
            if e == "fault":
                return ck.bad("within", inst, "%s: %s" % (at, told(r)))
            if e == "panic":
                if origin:
                    return ck.bad("within", inst, "%s: panics (%s)" % (at, r.out.why))
                ok = False
            else:
                ok = r.ev(S.E.strip(r.out.st, r.out.val))
                if ok is None:
                    raise Undecided("result")
                if bool(ok) != fits and (origin or ok):
                    return ck.bad("within", inst, "%s: %s" % (at, "refused although it fits" if fits else "not refused"))
            want = {(X + i, Y + j): ("self", sx + i, sy + j) for i in range(w) for j in range(h)} if ok else {}
            d = differ(r, "self", {k: v for k, v in want.items() if v != ("self",) + k})
            if d:
                return ck.bad("within", inst, "%s: %s" % (at, d))
        n += 1
    ck.ok("within", inst, "%d points" % n)


OVER = [((5, 4), (2, 3), X, Y) for X in (-3, -2, -1, 0, 1, 3, 4, 5, 6) for Y in (-4, -3, -2, 0, 2, 3, 4, 5)]
OVER += [((5, 4), (8, 9), X, Y) for X in (-4, -3, -1, 0, 2) for Y in (-6, -5, 0, 3)]
OVER += [((0, 4), (2, 2), 0, 0), ((5, 0), (2, 2), -1, 0), ((5, 4), (0, 3), 1, 1), ((5, 4), (3, 0), 1, 1), ((5, 4), (0, 0), 0, 0),
         ((5, 4), (2, 3), I64, 0), ((5, 4), (2, 3), 0, I64), ((5, 4), (2, 3), -I64 - 1, 0), ((5, 4), (2, 3), 0, -I64 - 1),
         ((5, 4), (2, 3), 1 << 32, 0), ((5, 4), (2, 3), (1 << 32) + 1, 1), ((5, 4), (2, 3), -(1 << 32), 0), ((5, 4), (2, 3), 1, -(1 << 32) - 1),
         ((5, 4), (U, 2), -U + 2, 1), ((5, 4), (2, U), 1, -U + 2), ((5, 4), (U, U), -U, 0), ((5, 4), (U, U), 4, 3), ((U, U), (2, 2), U - 1, U - 1),
         ((U, U), (2, 2), U, 0), ((U, 3), (2, 2), U - 2, 1), ((U, U), (1, 1), U - 1, U - 1), ((2, 2), (U, U), -5, -7), ((2, 2), (U, U), -U + 1, -U + 2)]


def pasted(W, H, w, h, X, Y):
    for j in range(max(0, Y), min(H, Y + h)):
        for i in range(max(0, X), min(W, X + w)):
            yield i, j, i - X, j - Y


def overlay(ck, p, f, inst):
    blend = inst.endswith("overlay")
    x, y = num("x", -I64 - 1, I64), num("y", -I64 - 1, I64)
    S = summ(ck, p, f, lambda E, st: [img(E, st, "bottom"), img(E, st, "top", False), x, y], engine=Blending)
    n = 0
    for (W, H), (w, h), X, Y in OVER:
        r = go(S, {"bottom": (W, H), "top": (w, h)}, {x: X, y: Y})
        at = "%s: a %dx%d image at (%d, %d) over a %dx%d image" % (where(p, f), w, h, X, Y, W, H)
        e = ended(r)
        if e != "ret":
            return ck.bad("overlay", inst, "%s: %s" % (at, told(r) if e == "fault" else "panics (%s)" % (r.out.why,)))
        want = {(i, j): ("blend", ("bottom", i, j), ("top", a, b)) if blend else ("top", a, b) for i, j, a, b in pasted(W, H, w, h, X, Y)}
        d = differ(r, "bottom", want)
        if d:
            return ck.bad("overlay", inst, "%s: %s" % (at, d))
        n += 1
    ck.ok("overlay", inst, "%d points" % n)


class Blending(Checked):
    """Pixel::blend as an uninterpreted combination of the two pixels"""

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        if name == "Pixel::blend" and len(args) == 2:
            cell, pr = self.target(args[0])
            a, b = self.val(st, self.read(st, cell, pr)), self.val(st, args[1])
            self.write(st, cell, pr, ("blend", a, b))
            return [Out(st, "ret", UNIT)]
        return super().on_call(E, st, fr, name, fi, fargs, args, site)


def tile(ck, p, f, inst):
    """in terms of overlay (judged above): the places it is called for cover the bottom image exactly once"""
    class Tiles(Checked):
        def on_call(self, E, st, fr, name, fi, fargs, args, site):
            if name in ("imageops::overlay", "imageops::replace") or name.split("::")[-1] in ("overlay", "replace") and len(args) == 4:
                if [self.img_of(st, a) for a in args[:2]] != ["bottom", "top"]:
                    raise Undecided("overlays other images")
                st.eff = st.eff + (("ev", "tile", name.split("::")[-1], args[2], args[3], site),)
                return [Out(st, "ret", UNIT)]
            return super().on_call(E, st, fr, name, fi, fargs, args, site)

    S = summ(ck, p, f, lambda E, st: [img(E, st, "bottom"), img(E, st, "top", False)], engine=Tiles)
    n = 0
    for W, H, w, h in [(5, 4, 2, 3), (6, 6, 3, 2), (1, 1, 9, 9), (7, 1, 7, 1), (3, 8, 1, 1), (0, 4, 2, 2), (4, 0, 2, 2), (0, 0, 1, 1), (U, 2, U, 1),
                       (2, U, 3, U - 1), (U, U, U - 1, U), (5, 4, 0, 0), (5, 4, 0, 2), (5, 4, 2, 0), (0, 0, 0, 0)]:
        r = go_tiles(S, W, H, w, h)
        at = "%s: a %dx%d image over a %dx%d image" % (where(p, f), w, h, W, H)
        e = ended(r)
        if e != "ret":
            return ck.bad("tile", inst, "%s: %s" % (at, told(r) if e == "fault" else "panics (%s)" % (r.out.why,)))
        want = sorted((i, j) for i in range(0, W, w) for j in range(0, H, h)) if w and h and W and H else []
        got = sorted(t for t in r.tiles if w and h and t[0] < W and t[1] < H)
        if got != want:
            return ck.bad("tile", inst, "%s: tiles at %s instead of %s" % (at, got[:6], want[:6]))
        n += 1
    ck.ok("tile", inst, "%d points" % n)


class Tiling(Walk):
    def event(self, e):
        if e[0] == "ev" and e[1] == "tile":
            x, y = self.ev(e[3]), self.ev(e[4])
            if x is None or y is None:
                raise Undecided("place of a tile: %s" % T.show(e[3])[:80])
            self.tiles.append((x, y))
            return
        return super().event(e)


def go_tiles(S, W, H, w, h):
    env = {num("bottom.w"): W, num("bottom.h"): H, num("top.w"): w, num("top.h"): h}
    r = Tiling(S, env, {"bottom": {}, "top": {}}, limit=400000)
    r.tiles = []
    return r.go()


def bounds(ck, p, f, inst):
    bw, bh, tw, th, x, y = (num(n) for n in ("bw", "bh", "tw", "th", "x", "y"))
    tup = lambda *a: ("agg", "tuple", 0, a)
    S = summ(ck, p, f, lambda E, st: [tup(bw, bh), tup(tw, th), x, y])
    n = 0
    for (W, X, A), (H, Y, B) in axes():
        r = go(S, {}, {bw: W, bh: H, tw: A, th: B, x: X, y: Y})
        at = "%s: bottom %dx%d, top %dx%d at (%d, %d)" % (where(p, f), W, H, A, B, X, Y)
        e = ended(r)
        if e != "ret":
            return ck.bad("range", inst, "%s: %s" % (at, told(r) if e == "fault" else "panics (%s)" % (r.out.why,)))
        v = S.E.strip(r.out.st, r.out.val)
        got = tuple(r.ev(t) for t in v[3]) if v[0] == "agg" else (None,)
        if None in got:
            raise Undecided("result")
        # a coordinate sum outside of u32 saturates, which cuts the range to the bottom image as well
        want = (max(0, min(X + A, W) - X), max(0, min(Y + B, H) - Y))
        if got != want:
            return ck.bad("range", inst, "%s: %s instead of %s" % (at, got, want))
        n += 1
    ck.ok("range", inst, "%d points" % n)


def dyn(ck, p, f, inst):
    x, y, w, h = (num(n) for n in "xywh")
    calls = []

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name in ("imageops::crop", "imageops::crop_imm") or name.split("::")[-1] in ("crop", "crop_imm") and len(args) == 5 and "DynamicImage" not in name:
            calls.append(args[1:])
            return [Out(st, "ret", ("call", "cropped", tuple(args[1:]), ()))]
        return None

    case = spec.Case(ck, f, args={1: x, 2: y, 3: w, 4: h}, hook=hook)
    n = 0
    for o in case.outs:
        if o.kind == "ret":
            n += 1
    if not calls:
        raise Undecided("does not crop")
    for c in calls:
        if tuple(c) != (x, y, w, h):
            return ck.bad("dynimage", inst, "%s: crops %s" % (where(p, f), ", ".join(T.show(a) for a in c)))
    ck.ok("dynimage", inst, "%d calls" % len(calls))
