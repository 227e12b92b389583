"""C16: colour conversions keep channel roles."""
from checks import c13
from vlib import pixels as px, spec, tables as tb, terms as T
from vlib.absint import Out, Undecided



def run(ck):
    ck.rule("component", "component types are converted as documented: full range to full range, rounding, clamping floats to 0..1", 7)
    ck.rule("role", "each pixel conversion takes every channel from the channel of the same role, with the documented luma weights and opaque alpha where there is none", 16)
    ck.rule("opaque", "the missing alpha channel becomes the maximum of every component type", 5)
    ck.rule("wrap", "the conversions offered by pixels (to_rgb, to_rgba, to_luma, to_luma_alpha, into_color) are those conversions", 16)
    ck.rule("layout", "splitting a pixel into channels and building it from channels keeps their order", 8)
    ck.rule("buffer", "converting a buffer gives an image of the same size whose every pixel is the conversion of the pixel at the same place", 1)
    p = ck.p
    C = Ctx(ck)
    for f in p.fns():
        if f["name"] == "convert" and "ConvertBuffer" in f["path"] and "body" in f:
            ck.each("buffer", "ImageBuffer::convert", lambda: C.buffer(f))
    n = 0
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "FromPrimitive" or not im["trait"].startswith("color::"):
            continue
        if im["_self"][0] != "prim" or im["_targs"][1][0] != "prim":
            continue
        s, t = im["_targs"][1][1], im["_self"][1]
        if s in px.TYPES and t in px.TYPES:
            ck.each("component", "%s to %s" % (s, t), lambda: C.component(im, s, t))
            n += 1
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "FromPrimitive" or im["_self"][0] != "param":
            continue
        ck.each("component", "identity", lambda: C.identity(im))
    for im in C.impls("FromColor"):
        S, D = im["_targs"][1], im["_self"]
        sn, dn = S[1].split("::")[-1], D[1].split("::")[-1]
        ck.each("role", "%s to %s" % (sn, dn), lambda: C.role(im, sn, dn, S, D))
    im = [i for i in C.impls("FromColor") if (i["_targs"][1][1], i["_self"][1]) == ("color::Luma", "color::LumaA")]
    for q in p.impls:
        if q.get("trait", "").split("::")[-1] == "Primitive" and q["_self"][0] == "prim":
            ck.each("opaque", q["_self"][1], lambda: C.opaque(im[0], q["_self"][1]))
    for kind in px.ROLES:
        for m, d in (("to_rgb", "Rgb"), ("to_rgba", "Rgba"), ("to_luma", "Luma"), ("to_luma_alpha", "LumaA")):
            ck.each("wrap", "%s.%s" % (kind, m), lambda: C.wrap(kind, m, d))
        ck.each("wrap", "%s into_color" % kind, lambda: C.into(kind))
        ck.each("layout", "%s.channels4" % kind, lambda: C.channels4(kind))
        ck.each("layout", "%s.from_channels" % kind, lambda: C.from_channels(kind))


class Ctx:
    def __init__(self, ck):
        self.ck, self.p = ck, ck.p
        self.adts = {k: tb.find_adt(ck.p, k) for k in px.ROLES}

    def impls(self, trait):
        r = []
        for im in self.p.impls:
            if im.get("trait", "").split("::")[-1] == trait and im["_self"][0] == "adt" and len(im["_targs"]) > 1 and im["_targs"][1][0] == "adt":
                r.append(im)
        return r

    def component(self, im, s, t):
        it = self.p.items[im["_items"]["from_primitive"]["key"]]
        x = px.sym("x", s)
        c = spec.Case(self.ck, it, args={0: x}, byref=False, hook=px.numeric, unroll=8)
        if s == "f32":
            grid = [k / px.MAX[t] + d / px.MAX[t] for k in range(0, px.MAX[t] + 1, 1 if t == "u8" else 97) for d in (-0.4, 0.0, 0.4)]
            grid += [-1.0, -1e30, 1.0, 1.5, 1e30, float("inf"), float("-inf")]
        else:
            grid = range(px.MAX[s] + 1)
        n = px.compare(self.ck, "component", "%s to %s" % (s, t), c, lambda o: [o.val], ({"x": v} for v in grid),
                         lambda v: [px.component(v["x"], s, t)], t, {"x": x})
        if n:
            self.ck.ok("component", "%s to %s" % (s, t), "%d values" % n)

    def identity(self, im):
        it = self.p.items[im["_items"]["from_primitive"]["key"]]
        c = spec.Case(self.ck, it, args={0: ("sym", "x")}, byref=False)
        bad = [o for o in c.outs if o.kind != "ret" or o.val != ("sym", "x")]
        if bad:
            raise Undecided("from_primitive of the same type yields %s" % T.show(bad[0].val or ("c", 0))[:100])
        self.ck.ok("component", "identity", "")

    def role(self, im, sn, dn, S, D):
        inst = "%s to %s" % (sn, dn)
        it = self.p.items[im["_items"]["from_color"]["key"]]
        n = 0
        for s in px.TYPES:
            for t in px.TYPES:
                sub = {}
                for ty, v in ((S, s), (D, t)):
                    if ty[2][0][0] != "param":
                        raise Undecided("type %s" % (ty,))
                    sub[ty[2][0][1]] = ("prim", v)
                c = spec.Case(self.ck, it, self_val=px.pixel(self.p, dn, prefix="old ", ty=t), args={1: ("ref", ("o",), (), False)},
                              mem={("o",): px.pixel(self.p, sn, ty=s)}, subst=sub, hook=px.numeric, unroll=8)
                k = px.compare(self.ck, "role", inst, c, lambda o: px.channels(c.E.deep(o.st, o.st.mem[("arg", "self")])),
                                 px.values(s, px.ROLES[sn]), lambda v: px.expected(sn, dn, s, t, v), t,
                                 {r: px.sym(r, s) for r in px.ROLES[sn]})
                if not k:
                    return
                n += k
        self.ck.ok("role", inst, "%d component pairs, %d evaluations" % (len(px.TYPES) ** 2, n))

    def opaque(self, im, t):
        S, D = im["_targs"][1], im["_self"]
        it = self.p.items[im["_items"]["from_color"]["key"]]
        sub = {S[2][0][1]: ("prim", t), D[2][0][1]: ("prim", t)}
        c = spec.Case(self.ck, it, self_val=px.pixel(self.p, "LumaA", prefix="old "), args={1: ("ref", ("o",), (), False)},
                      mem={("o",): px.pixel(self.p, "Luma")}, subst=sub, hook=px.numeric, unroll=8)
        w = 1.0 if t in ("f32", "f64") else T.INT_TYPES[t][1]
        for o in c.outs:
            ch = px.channels(c.E.deep(o.st, o.st.mem[("arg", "self")])) if o.kind == "ret" else None
            g = T.evalt(ch[1], {}) if ch else None
            if g is None:
                raise Undecided("alpha of %s" % t)
            if g != w:
                return self.ck.bad("opaque", t, "the maximum of %s components, used for missing alpha, is %s instead of %s" % (t, g, w))
        self.ck.ok("opaque", t, str(w))

    def buffer(self, f):
        inst = "ImageBuffer::convert"

        def hook(E, st, fr, name, fi, fargs, args, site):
            if name == "FromColor::from_color" and args[0][0] == "ref":
                E.write(st, args[0][1], args[0][2], ("call", "converted", (E.val(st, args[1]),)))
                return [Out(st, "ret", ("agg", "tuple", 0, ()))]
            if name.endswith("into_color"):
                return [Out(st, "ret", ("call", "converted", (E.val(st, args[0]),)))]
            return None
        S = c13.summary(self.ck, self.p, f, ["src"], hook)
        for w, h in c13.SIZES:
            r = c13.point(S, {"src": (w, h)}, {"src": c13.pixels(w, h)})
            e = None
            if r.fault:
                e = "%s of %s at (%s, %s) of %s" % r.fault
            else:
                if r.out.kind != "ret" or r.out.val[0] != "img":
                    raise Undecided("result %s" % (r.out.val or r.out.why,))
                n = r.out.val[1]
                if r.size[n] != (w, h):
                    e = "the result is %s" % (r.size[n],)
                for x, y in c13.pixels(w, h):
                    g = r.img[n].get((x, y))
                    if e is None and g != ("call", "converted", (("src", x, y),)):
                        e = "pixel (%d, %d) becomes %s" % (x, y, c13.say(g))
            if e:
                return self.ck.bad("buffer", inst, "%s (%s): for a %d x %d image: %s" % (f["path"], self.p.loc_of_item(f), w, h, e))
        self.ck.ok("buffer", inst, "%d sizes" % len(c13.SIZES))

    def method(self, kind, m):
        for im in self.p.impls:
            if im.get("trait", "").split("::")[-1] == "Pixel" and im["_self"][0] == "adt" and im["_self"][1] == self.adts[kind]:
                if m in im["_items"]:
                    return im, self.p.items[im["_items"][m]["key"]]
        raise Undecided("no %s for %s" % (m, kind))

    def wrap(self, kind, m, d):
        inst = "%s.%s" % (kind, m)
        im, it = self.method(kind, m)
        n = 0
        for t in px.TYPES:
            c = spec.Case(self.ck, it, self_val=px.pixel(self.p, kind, ty=t), subst={im["_self"][2][0][1]: ("prim", t)}, hook=px.numeric, unroll=8)
            k = px.compare(self.ck, "wrap", inst, c, lambda o: px.channels(c.E.deep(o.st, c.E.strip(o.st, o.val))), px.values(t, px.ROLES[kind]),
                             lambda v: px.expected(kind, d, t, t, v), t, {r: px.sym(r, t) for r in px.ROLES[kind]})
            if not k:
                return
            n += k
        self.ck.ok("wrap", inst, "%d evaluations" % n)

    def into(self, kind):
        inst = "%s into_color" % kind
        it = self.p.items[[im for im in self.p.impls if im.get("trait", "").split("::")[-1] == "IntoColor"][0]["_items"]["into_color"]["key"]]
        n = 0
        im = [im for im in self.p.impls if im.get("trait", "").split("::")[-1] == "IntoColor"][0]
        o_, s_ = im["_targs"][1], im["_self"]
        for d in px.ROLES:
            for s, t in (("u8", "u8"), ("u16", "u8"), ("f32", "u16"), ("u8", "f32")):
                sub = {o_[1]: ("adt", self.adts[d], (("prim", t),)), s_[1]: ("adt", self.adts[kind], (("prim", s),))}
                c = spec.Case(self.ck, it, self_val=px.pixel(self.p, kind, ty=s), subst=sub, hook=px.numeric, unroll=8)
                k = px.compare(self.ck, "wrap", inst, c, lambda o: px.channels(c.E.deep(o.st, c.E.strip(o.st, o.val))), px.values(s, px.ROLES[kind]),
                                 lambda v: px.expected(kind, d, s, t, v), t, {r: px.sym(r, s) for r in px.ROLES[kind]})
                if not k:
                    return
                n += k
        self.ck.ok("wrap", inst, "%d evaluations" % n)

    def channels4(self, kind):
        inst = "%s.channels4" % kind
        im, it = self.method(kind, "channels4")
        roles = px.ROLES[kind]
        for t in px.TYPES:
            c = spec.Case(self.ck, it, self_val=px.pixel(self.p, kind, ty=t), subst={im["_self"][2][0][1]: ("prim", t)}, hook=px.numeric, unroll=8)
            k = px.compare(self.ck, "layout", inst, c, lambda o: o.val[3] if o.val[0] == "agg" else None, px.values(t, roles),
                             lambda v: [v[r] for r in roles] + [px.MAX[t]] * (4 - len(roles)), t, {r: px.sym(r, t) for r in roles})
            if not k:
                return
        self.ck.ok("layout", inst, "")

    def from_channels(self, kind):
        inst = "%s.from_channels" % kind
        im, it = self.method(kind, "from_channels")
        n = len(px.ROLES[kind])
        for t in px.TYPES:
            c = spec.Case(self.ck, it, args={i: px.sym("abcd"[i], t) for i in range(4)}, byref=False, subst={im["_self"][2][0][1]: ("prim", t)}, hook=px.numeric, unroll=8)
            k = px.compare(self.ck, "layout", inst, c, lambda o: px.channels(c.E.deep(o.st, c.E.strip(o.st, o.val))), px.values(t, "abcd"),
                             lambda v: [v[r] for r in "abcd"[:n]], t, {r: px.sym(r, t) for r in "abcd"})
            if not k:
                return
        self.ck.ok("layout", inst, "")
