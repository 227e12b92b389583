"""C32: animation frames are composited as their format prescribes.

One step of each animation decoder is summarised (vlib.trace): given the canvas before the step, which pixel of the file's frame or of
the canvas does every pixel of the new frame and of the canvas kept for later steps become?  The summary is evaluated for every
disposal and blending method and for frame rectangles in every position; the invariant that the kept canvases carry from step to
step makes the single step stand for every animation."""
import itertools
from vlib import trace, spec, pixels as px, tables as tb, terms as T
from vlib.absint import Out, State, Undecided, RESULT

U = 2**32 - 1


def num(n, hi=U):
    return ("sym", n, (0, hi))


def some(v):
    return ("agg", "std::option::Option", 1, (v,))


def ok_(v):
    return ("agg", RESULT, 0, (v,))


class Frames(trace.Tracer):
    """images made from samples, copied, converted and viewed keep their identity"""

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if name == "ImageBuffer::from_raw" and len(args) == 3:
            self.nimg += 1
            n = "raw%d" % self.nimg
            im = self.image(n, args[0], args[1])
            self.shape(n)
            st.eff = st.eff + (("ev", "raw", n, args[0], args[1], self.strip(st, args[2])),)
            return [Out(st, "ret", some(im))]
        if name == "ImageBuffer::from_pixel" and len(args) == 3:
            n = "new%d" % (self.nimg + 1)
            self.shape(n)
            im = super().on_call(E, st, fr, "ImageBuffer::new", fi, fargs, args[:2], site)
            st.eff = st.eff + (("ev", "fill", n, args[0], args[1], self.val(st, args[2])),)
            return im
        if name == "ImageBuffer::new" and len(args) == 2:
            self.shape("new%d" % (self.nimg + 1))
        if name.startswith(("Limits::reserve", "Limits::free")):
            return [Out(st, "ret", ok_(trace.UNIT) if "reserve" in name else trace.UNIT)]
        img = [self.img_of(st, a) for a in args]
        if name == "SubImage::new" and img[0]:
            return [Out(st, "ret", self.made(st, "view", args[3], args[4], img[0], args[1], args[2]))]
        if img and img[0] and m in ("deref", "deref_mut", "into_rgba8", "as_ref", "as_mut"):
            return [Out(st, "ret", args[0])]
        if img and img[0] and m in ("to_image", "clone"):
            return [Out(st, "ret", self.made(st, "copy", *self.dims[img[0]], img[0]))]
        if len(img) > 1 and img[0] and img[1]:
            if m == "clone_from":
                st.eff = st.eff + (("ev", "assign", img[0], trace.c(0), trace.c(0), img[1]),)
                return [Out(st, "ret", trace.UNIT)]
            if m == "copy_from":
                st.eff = st.eff + (("ev", "place", img[0], args[2], args[3], img[1]),)
                return [Out(st, "ret", ok_(trace.UNIT))]
        if m == "collect" and args[0][:2] == ("it", "img"):
            im = self.made(st, "copy", *self.dims[args[0][2]], args[0][2])
            return [Out(st, "ret", ("it", "img", im[1], "collected:" + args[0][3]))]
        if m in ("into_iter", "iter") and args[0][0] == "ref":
            v = self.strip(st, args[0])
            if v[:2] == ("it", "img") and v[3].startswith("collected:"):
                return [Out(st, "ret", v)]
        if m == "blend" and args[0][0] == "ref" and args[0][1][0] == "pxm":
            x = args[0][1]
            st.eff = st.eff + (("ev", "blend", x[1], x[2], x[3], self.val(st, args[1]), site),)
            return [Out(st, "ret", trace.UNIT)]
        return super().on_call(E, st, fr, name, fi, fargs, args, site)

    def made(self, st, how, w, h, src, *at):
        self.nimg += 1
        n = "%s%d" % (how, self.nimg)
        im = self.image(n, w, h)
        self.shape(n)
        st.eff = st.eff + (("ev", how, n, w, h, src) + at,)
        return im

    def it_img_elem(self, st, it, k):
        if not it[3].startswith("collected:"):
            return super().it_img_elem(st, it, k)
        v = super().it_img_elem(st, it[:3] + (it[3][10:],) + it[4:], k)
        self.uid += 1
        st.mem[("elem", self.uid)] = v
        return ("ref", ("elem", self.uid), (), False)

    def shape(self, n):
        self.shapes = dict(self.shapes)
        self.shapes[n] = self.kind


def run(ck):
    ck.rule("gif", "each frame of a GIF animation is drawn over the canvas the frames before it left, as their disposal methods say", 1)
    p = ck.p
    for f in p.fns():
        if "GifFrameIterator" in f["path"] and f["path"].endswith("::next"):
            ck.each("gif", f["path"], gif, ck, p, f)
    ck.rule("still", "the image a GIF decoder reads is the first frame at its place on a transparent screen", 1)
    for f in p.fns():
        if f["path"].endswith("::read_image") and p.ty(f["body"]["locals"][1][0])[1].endswith("::GifDecoder"):
            ck.each("still", f["path"], still, ck, p, f)
    ck.rule("apng", "each frame of an animated PNG is drawn over the canvas the frames before it left, as their disposal and its blending say", 1)
    for f in p.fns():
        if f["path"].endswith("::mix_next_frame"):
            ck.each("apng", f["path"], apng, ck, p, f)


def fields(p, adt, **kw):
    """a struct value with the given fields, others opaque"""
    fs = p.adts[adt]["variants"][0]["f"]
    if not set(kw) <= {f["n"] for f in fs}:
        raise Undecided("fields of %s" % adt)
    return ("agg", adt, 0, tuple(kw.get(f["n"], ("sym", adt + "." + f["n"])) for f in fs))


def gif(ck, p, f):
    own = p.ty(f["body"]["locals"][1][0])[1][1]
    n = 0
    for (k, v), first in itertools.product(variants(p, "gif::DisposalMethod"), (False, True)):
        E = Frames(p, unroll=8)
        E.kind = (tb.find_adt(p, "Rgba"), 4)
        E.shapes = {"canvas": E.kind}
        st = State()
        s16 = lambda n: ("sym", n, (0, 65535))
        st.mem[("frame",)] = gif_frame(p, dispose=enum(p, "gif::DisposalMethod", k))
        st.mem[("self",)] = fields(p, own, width=num("W"), height=num("H"), 
                                   non_disposed_frame=NONE if first else some(E.image("canvas", num("W"), num("H"))))

        def hook(E, st, fr, name, fi, fargs, args, site):
            if name.endswith("::next_frame_info"):
                return [Out(st, "ret", ok_(some(("ref", ("frame",), (), False))))]
            if name.endswith("::read_into_buffer"):
                return [Out(st, "ret", ok_(trace.UNIT))]
            return px.numeric(E, st, fr, name, fi, fargs, args, site)
        E.extra_hook = hook
        outs = E.run(f, [("ref", ("self",), (), True)], st=st)
        E.npaths = len(outs)
        ck.saw(E)
        S = trace.Summary(E, outs)
        for W, H in ((3, 2), (2, 4)):
            for rect in rects(W, H):
                x, y, w, h = rect
                env = {num("W"): W, num("H"): H, s16("left"): x, s16("top"): y, s16("w"): w, s16("h"): h, s16("delay"): 7}
                at = "%s: frame of %dx%d at (%d, %d) of a %dx%d screen, disposal %s" % (where(p, f), w, h, x, y, W, H, v)
                old, new = canvas(W, H), frame_pixels(w, h)
                if first:
                    at += ", first of its file"
                    old = dict.fromkeys(old, BLANK)
                r = Step(S, env, {} if first else {"canvas": old}, new).go()
                e = ended(r)
                if e:
                    return ck.bad("gif", f["path"], "%s: %s" % (at, e))
                out = r.out.val
                im = E.img_of(r.out.st, unwrapped(E, r.out, "Frame", 3))
                shown, kept = {}, {}
                for i, j in old:
                    q = new.get((i - x, j - y))
                    shown[i, j] = q if q and q[0][3] else old[i, j]
                    kept[i, j] = {"Background": BLANK, "Previous": old[i, j]}.get(v, shown[i, j]) if q else old[i, j]
                e = differs(r, im, shown, "the frame shown", (W, H)) or differs(r, canvas_of(p, E, r, own), kept, "the canvas for the next frame", (W, H))
                if e:
                    return ck.bad("gif", f["path"], "%s: %s" % (at, e))
                n += 1
    ck.ok("gif", f["path"], "%d evaluations" % n)


def gif_frame(p, **kw):
    s16 = lambda n: ("sym", n, (0, 65535))
    return fields(p, "gif::Frame", left=s16("left"), top=s16("top"), width=s16("w"), height=s16("h"), delay=s16("delay"), **kw)


BUF = ("sym", "buf")


def span(v, env):
    """(start, length) of a slice of the buffer"""
    if v in (BUF, ("deref", BUF)):
        return 0, env["buf"]
    if v[0] == "ref" and not v[2] and v[1][0] == "sl":
        return span(v[1][1], env)
    if v[0] == "sliceref":
        a, n = span(v[1], env)
        return a + T.evalt(v[2], env), T.evalt(v[3], env)
    raise Undecided("slice %s" % T.show(v)[:120])


def still(ck, p, f):
    own = p.ty(f["body"]["locals"][1][0])[1]
    W, H = ("sym", "W", (0, 65535)), ("sym", "H", (0, 65535))
    E = Frames(p, unroll=8)
    E.kind = (tb.find_adt(p, "Rgba"), 4)
    E.shapes = {}
    st = State()
    st.mem[("frame",)] = gif_frame(p)
    st.mem[("self",)] = fields(p, own)

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name.endswith("::next_frame_info"):
            return [Out(st, "ret", ok_(some(("ref", ("frame",), (), False))))]
        if name.endswith("::read_into_buffer"):
            st.eff = st.eff + (("into", args[1]),)
            return [Out(st, "ret", ok_(trace.UNIT))]
        if name.endswith("::split_at_mut") and args[1]:
            ln = E.len_of_ref(st, args[0])
            return [Out(st, "ret", ("agg", "tuple", 0, (("sliceref", args[0], ("c", 0), args[1]), ("sliceref", args[0], args[1], T.sub(ln, args[1])))))]
        if name in ("Decoder::width", "Decoder::height"):
            return [Out(st, "ret", W if name.endswith("width") else H)]
        return px.numeric(E, st, fr, name, fi, fargs, args, site)
    E.extra_hook = hook
    outs = E.run(f, [E.read(st, ("self",), ()), BUF], st=st)
    E.npaths = len(outs)
    ck.saw(E)
    S = trace.Summary(E, outs)
    n = 0
    for w, h in ((3, 2), (2, 4), (1, 1)):
        for x, y, fw, fh in rects(w, h):
            env = {W: w, H: h, ("sym", "left", (0, 65535)): x, ("sym", "top", (0, 65535)): y, ("sym", "w", (0, 65535)): fw,
                   ("sym", "h", (0, 65535)): fh, ("len", BUF): 4 * w * h, ("len", ("deref", BUF)): 4 * w * h, "buf": 4 * w * h}
            at = "%s: frame of %dx%d at (%d, %d) of a %dx%d screen" % (where(p, f), fw, fh, x, y, w, h)
            r = Step(S, env, {}, frame_pixels(fw, fh))
            r.target = {q: ((1, 2, 3, 4),) for q in itertools.product(range(w), range(h))}
            r.go()
            e = ended(r)
            v = r.out and r.out.val and E.deep(r.out.st, r.out.val)
            if not e and v[2] != 0:
                e = "an error"
            if not e and r.canvas is None:
                # the reader is handed the part of the buffer that the frame fills
                at_ = span([q[1] for q in r.out.st.eff if q[0] == "into"][0], env)
                if at_ != (4 * w * y, 4 * fw * fh) or x or fw != w or y + fh > h:
                    e = "its samples go to bytes %d to %d of the image" % (at_[0], sum(at_))
            elif not e:
                want = {(i, j): frame_pixels(fw, fh).get((i - x, j - y), BLANK) for i, j in r.target}
                e = differs(r, r.canvas, want, "the image", (w, h))
            if e:
                return ck.bad("still", f["path"], "%s: %s" % (at, e))
            n += 1
    ck.ok("still", f["path"], "%d evaluations" % n)


def enum(p, adt, k):
    return ("agg", adt, k, ())


def variants(p, adt):
    return [(k, v["n"]) for k, v in enumerate(p.adts[adt]["variants"])]


def apng(ck, p, f):
    own = p.ty(f["body"]["locals"][1][0])[1][1]
    dec = next(a for a in p.adts if a.endswith("codecs::png::PngDecoder"))
    W, H = num("W", 2**31 - 1), num("H", 2**31 - 1)
    reg = tuple(num("p" + q, 2**31 - 1) for q in "xywh")
    cur = tuple(num("f" + q, 2**31 - 1) for q in "xywh")
    n = 0
    for (dk, dn), (bk, bn), (ek, en) in itertools.product(variants(p, "png::DisposeOp"), variants(p, "png::BlendOp"), variants(p, "png::DisposeOp")):
        for first, thumb in ((False, False), (True, False), (True, True)):
            if first and (dn, ek) != ("Background", 0):
                continue
            E = Frames(p, unroll=8)
            E.kind = (tb.find_adt(p, "Rgba"), 4)
            E.shapes = {"cur": E.kind, "prev": E.kind}
            st = State()
            fc = fields(p, "png::FrameControl", width=cur[2], height=cur[3], x_offset=cur[0], y_offset=cur[1],
                        dispose_op=enum(p, "png::DisposeOp", ek), blend_op=enum(p, "png::BlendOp", bk))
            st.mem[("fc",)] = fc
            st.mem[("info",)] = fields(p, "png::Info", width=W, height=H, frame_control=some(fc))
            color = next(k for k, v in variants(p, tb.find_adt(p, "ColorType")) if v == "Rgba8")
            st.mem[("self",)] = fields(
                p, own, inner=fields(p, dec, color_type=enum(p, tb.find_adt(p, "ColorType"), color)),
                current=NONE if first else some(E.image("cur", W, H)), previous=NONE if first else some(E.image("prev", W, H)),
                dispose=enum(p, "png::DisposeOp", dk), dispose_region=NONE if first else some(("agg", "tuple", 0, reg)),
                remaining=num("remaining"), has_thumbnail=("c", int(thumb)))

            def hook(E, st, fr, name, fi, fargs, args, site):
                m = name.split("::")[-1]
                if m == "info" and len(args) == 1:
                    return [Out(st, "ret", ("ref", ("info",), (), False))]
                if m == "frame_control":
                    return [Out(st, "ret", some(("ref", ("fc",), (), False)))]
                if name.endswith("Info::size"):
                    return [Out(st, "ret", ("agg", "tuple", 0, (W, H)))]
                if m == "next_frame":
                    st.eff = st.eff + (("read",),)
                    return [Out(st, "ret", ok_(("sym", "outinfo")))]
                return px.numeric(E, st, fr, name, fi, fargs, args, site)
            E.extra_hook = hook
            outs = E.run(f, [("ref", ("self",), (), True)], st=st)
            E.npaths = len(outs)
            ck.saw(E)
            S = trace.Summary(E, outs)
            for w, h in ((3, 2), (2, 4)):
                rs = rects(w, h, inside=True)
                for i, rect in enumerate(rs):
                    last = rs[(i * 5 + 3) % len(rs)]
                    env = {W: w, H: h, num("remaining"): 3}
                    env.update(zip(cur, rect))
                    env.update(zip(reg, last))
                    before = {q: BLANK for q in itertools.product(range(w), range(h))}
                    old, new = canvas(w, h), frame_pixels(*rect[2:], alpha=(255, 0, 128))
                    if dn == "Previous":
                        # the canvas kept aside differs from the shown one within the frame only
                        before = {(x, y): ((5 + x, 6 + y, 7, 200),) if within(last, x, y) else v for (x, y), v in old.items()}
                    elif not first:
                        before = {q: ((1, 2, 3, 77),) for q in old}     # not what it should be: nothing may rely on it
                    at = "%s: frame of %dx%d at (%d, %d), blending %s, after a frame of %dx%d at (%d, %d), disposal %s, of a %dx%d canvas" % (
                        (where(p, f),) + rect[2:] + rect[:2] + (bn,) + last[2:] + last[:2] + (dn, w, h))
                    if first:
                        old = {q: BLANK for q in before}
                        at = "%s: first frame, of %dx%d at (%d, %d), blending %s, of a %dx%d canvas" % ((where(p, f),) + rect[2:] + rect[:2] + (bn, w, h))
                    r = Step(S, env, {} if first else {"cur": old, "prev": before}, new).go()
                    e = ended(r)
                    if e:
                        return ck.bad("apng", f["path"], "%s: %s" % (at, e))
                    clean = dict(old)
                    for q in old:
                        if not first and within(last, *q):
                            clean[q] = {"None": old, "Background": {q: BLANK}, "Previous": before}[dn][q]
                    shown = dict(clean)
                    for x, y in shown:
                        if within(rect, x, y):
                            s = new[x - rect[0], y - rect[1]]
                            shown[x, y] = s if bn == "Source" else Step.blended(clean[x, y], s)
                    o = r.out
                    v = E.deep(o.st, E.strip(o.st, o.val))
                    me = E.read(o.st, ("self",), ())
                    kept = {x["n"]: E.deep(o.st, y) for x, y in zip(p.adts[own]["variants"][0]["f"], me[3])}
                    e = differs(r, inner(v), shown, "the frame shown", (w, h)) \
                        or differs(r, inner(kept["current"]), shown, "the canvas kept for the next frame", (w, h)) \
                        or en == "Previous" and differs(r, inner(kept["previous"]), clean, "the canvas kept for disposal Previous", (w, h))
                    if not e and kept["dispose"] != enum(p, "png::DisposeOp", ek):
                        e = "the disposal kept is not the frame's"
                    if not e and [T.evalt(x, env) for x in kept["dispose_region"][3][0][3]] != list(rect):
                        e = "the region kept is not the frame's"
                    if not e and sum(q == ("read",) for q in o.st.eff) != 1 + thumb:
                        e = "%d frames are read%s" % (sum(q == ("read",) for q in o.st.eff), ", one of which is not part of the animation" if thumb else "")
                    if not e and T.evalt(kept["remaining"], env) != 2:
                        e = "%s frames remain after one of 3" % T.evalt(kept["remaining"], env)
                    if e:
                        return ck.bad("apng", f["path"], "%s: %s" % (at, e))
                    n += 1
    ck.ok("apng", f["path"], "%d evaluations" % n)


def within(r, x, y):
    return r[0] <= x < r[0] + r[2] and r[1] <= y < r[1] + r[3]


def inner(v):
    while v[0] == "agg" and v[1].split("::")[-1] in ("Option", "Result") and len(v[3]) == 1:
        v = v[3][0]
    while v[0] in ("rf", "ref") and isinstance(v[1], tuple) and v[1][0] in ("img", "rf"):
        v = v[1]
    return v[1] if v[0] == "img" else None


def canvas_of(p, E, r, own):
    me = E.read(r.out.st, ("self",), ())
    return inner(next(E.deep(r.out.st, y) for x, y in zip(p.adts[own]["variants"][0]["f"], me[3]) if x["n"] == "non_disposed_frame"))


NONE = ("agg", "std::option::Option", 0, ())
BLANK = ((0, 0, 0, 0),)


def where(p, f):
    return "%s (%s)" % (f["path"], p.loc_of_item(f))


def rects(W, H, inside=False):
    r = [(x, y, w, h) for x in (0, 1, W - 1) for y in (0, 1, H - 1) for w in (1, W - 1, W) for h in (1, H)]
    r += [] if inside else [(0, 0, W + 2, H + 1), (W + 1, 0, 2, 2), (1, H, 1, 1), (0, 0, 0, 0)]
    return sorted({q for q in r if not inside or q[0] + q[2] <= W and q[1] + q[3] <= H})


def canvas(W, H):
    return {(x, y): BLANK if (x + y) % 3 == 2 else ((10 + x, 20 + y, 30 + x + y, 255),) for x in range(W) for y in range(H)}


def frame_pixels(w, h, alpha=(255, 0, 255)):
    return {(x, y): ((100 + x, 120 + y, 140 + x + y, alpha[(x + 2 * y) % len(alpha)]),) for x in range(w) for y in range(h)}


class Step(trace.Run):
    target = None       # what the caller's buffer holds

    def __init__(self, S, env, images, frame):
        super().__init__(S, env, images)
        self.frame = frame
        self.canvas = None
        self.views = {}

    def event(self, e):
        if e[0] == "ev" and e[1] == "raw":
            n = e[2]
            self.size[n] = self.ev(e[3]), self.ev(e[4])
            self.img[n] = dict(self.target if self.target and e[5] in (BUF, ('deref', BUF)) else self.frame)
            if e[5] in (BUF, ('deref', BUF)):
                self.canvas = n
            return
        if e[0] != "ev" or e[1] not in ("view", "copy", "fill", "assign", "place", "get", "put", "blend"):
            return super().event(e)
        k, n = e[1], e[2]
        x, y = self.ev(e[3]), self.ev(e[4])
        if x is None or y is None:
            raise Undecided("coordinate %s, %s" % (T.show(e[3])[:80], T.show(e[4])[:80]))
        if k == "view":
            self.size[n] = x, y
            self.views[n] = e[5], self.ev(e[6]), self.ev(e[7])
            self.img[n] = None
        elif k == "copy":
            self.size[n] = x, y
            self.img[n] = {(i, j): self.pixel(e[5], i, j) for i in range(x) for j in range(y)}
        elif k == "fill":
            v = self.value(e[5])
            if v[0] == "agg" and all(q[0] == "c" for q in v[3][0][3]):
                v = (tuple(q[1] for q in v[3][0][3]),)
            self.img[n] = {(i, j): v for i in range(x) for j in range(y)}
        elif k == "assign":
            self.size[n] = self.size[e[5]]
            self.img[n] = {q: self.pixel(e[5], *q) for q in itertools.product(*map(range, self.size[n]))}
        elif k == "place":
            w, h = self.size[e[5]]
            if x + w > self.size[n][0] or y + h > self.size[n][1]:
                self.fault = "copying a larger image into", n, x, y, self.size[n]
                return
            for i, j in [(i, j) for i in range(w) for j in range(h)]:
                n2, x2, y2 = self.base(n, x + i, y + j)
                self.img[n2][x2, y2] = self.pixel(e[5], i, j)
        else:
            if not (0 <= x < self.size[n][0] and 0 <= y < self.size[n][1]):
                self.fault = ("access outside the image", n, x, y, self.size[n])
                return
            n, x, y = self.base(n, x, y)
            if k == "blend":
                self.img[n][x, y] = self.blended(self.img[n].get((x, y)), self.value(e[5]))
            else:
                super().event(e[:2] + (n, ("c", x), ("c", y)) + e[5:])

    def base(self, n, x, y):
        while n in self.views:
            n, dx, dy = self.views[n]
            x, y = x + dx, y + dy
        return n, x, y

    def pixel(self, n, x, y):
        n, x, y = self.base(n, x, y)
        return self.img[n].get((x, y))

    @staticmethod
    def blended(a, b):
        a = BLANK if a == "zero" else a
        return a if b[0][3] == 0 else b if b[0][3] == 255 else ("blend", a, b)


def ended(r):
    if r.fault:
        return "%s of %s at (%s, %s) of %s" % r.fault
    if r.out is None:
        raise Undecided("no end reached")
    if r.out.kind != "ret":
        return "panics (%s)" % (r.out.why,)
    return None


def unwrapped(E, o, what, nf):
    """the image inside Some(Ok(Frame { .. }))"""
    v = E.deep(o.st, E.strip(o.st, o.val))
    while v[0] == "agg" and v[1].split("::")[-1] in ("Option", "Result") and v[3]:
        if v[1].endswith("Result") and v[2] == 1:
            raise Undecided("an error is returned")
        v = v[3][0]
    if v[0] == "agg" and v[1].endswith(what):
        for x in v[3]:
            if x[0] == "img":
                return x
    raise Undecided("result %s" % T.show(v)[:120])


def differs(r, im, want, what, size):
    im = im[1] if isinstance(im, tuple) else im
    if im is None or im not in r.img:
        raise Undecided("%s" % what)
    if r.size[im] != size:
        return "%s is %dx%d" % ((what,) + r.size[im])
    for (x, y), q in want.items():
        g = r.img[im].get((x, y))
        g = BLANK if g == "zero" else g
        if isinstance(g, tuple) and g and isinstance(g[0], str) and g[0] != "blend":
            g = T.evalt(g, r.env)
        if g != q and (g is None or not isinstance(g, tuple) or isinstance(g[0], str) and g[0] != "blend"):
            raise Undecided("pixel (%d, %d) of %s, %s, becomes %s" % (x, y, what, im, T.show(g)[:200] if isinstance(g, tuple) else r.img[im].get((x, y))))
        if g != q:
            return "pixel (%d, %d) of %s is %s, not %s" % (x, y, what, shown_(g), shown_(q))
    return None


def shown_(q):
    return "a blend of %s and %s" % (shown_(q[1]), shown_(q[2])) if q[0] == "blend" else list(q[0])
