"""C15: dynamic images do the same operation for every pixel type."""
import re
from vlib import pixels as px, spec, tables as tb, terms as T
from vlib.absint import OPTION, Out, Undecided

INNER, W, H = ("sym", "inner"), ("sym", "W", (0, 2**32 - 1)), ("sym", "H", (0, 2**32 - 1))

# method -> (callees that do the operation, arguments after the image, wrapped again?)
OPS = {
    "resize_exact": (["sample::resize"], ["a1", "a2", "a3"], True),
    "thumbnail_exact": (["sample::thumbnail"], ["a1", "a2"], True),
    "blur": (["sample::blur"], ["a1"], True),
    "fast_blur": (["fast_blur::fast_blur", "imageops::fast_blur"], ["a1"], True),
    "unsharpen": (["sample::unsharpen"], ["a1", "a2"], True),
    "filter3x3": (["sample::filter3x3"], ["a1"], True),
    "adjust_contrast": (["colorops::contrast"], ["a1"], True),
    "brighten": (["colorops::brighten"], ["a1"], True),
    "huerotate": (["colorops::huerotate"], ["a1"], True),
    "rotate90": (["affine::rotate90"], [], True),
    "rotate180": (["affine::rotate180"], [], True),
    "rotate270": (["affine::rotate270"], [], True),
    "fliph": (["affine::flip_horizontal"], [], True),
    "flipv": (["affine::flip_vertical"], [], True),
    "crop": (["imageops::crop", "imageops::crop_imm"], ["a1", "a2", "a3", "a4"], True),
    "crop_imm": (["imageops::crop_imm", "imageops::crop"], ["a1", "a2", "a3", "a4"], True),
    "save": (["ImageBuffer::save"], ["a1"], False),
    "save_with_format": (["ImageBuffer::save_with_format"], ["a1", "a2"], False),
    "write_with_encoder": (["ImageBuffer::write_with_encoder"], ["a1"], False),
    "inner_bytes": (["ImageBuffer::inner_pixels", "ImageBuffer::as_raw", "ImageBuffer::as_bytes"], [], False),
    "as_bytes": (["ImageBuffer::inner_pixels", "ImageBuffer::as_raw", "ImageBuffer::as_bytes"], [], False),
    "clone": ([], [], True),
}
EFFECTS = {
    "invert": ["colorops::invert"],
    "rotate180_in_place": ["affine::rotate180_in_place"],
    "fliph_in_place": ["affine::flip_horizontal_in_place"],
    "flipv_in_place": ["affine::flip_vertical_in_place"],
}
GREY = {"Luma": "Luma", "LumaA": "LumaA", "Rgb": "Luma", "Rgba": "LumaA"}


def run(ck):
    ck.rule("op", "every operation reaches the same function with the same arguments for each of the ten pixel types and keeps the pixel type", 25)
    ck.rule("fit", "resizing within bounds computes the bounds from the image's own size and resizes to exactly them", 2)
    ck.rule("size", "width, height and dimensions are those of the contained image", 3)
    ck.rule("grey", "grayscale keeps depth and alpha and uses the conversion that keeps alpha where there is alpha", 1)
    ck.rule("clone", "cloning, also into an existing image, yields the same pixel type and content", 1)
    ck.rule("flat", "flat samples are offered for exactly the images of that sample type", 3)
    ck.rule("convert", "the conversions to_* and into_* convert the contained image, or return it where it already has that type", 20)
    ck.rule("access", "as_* and as_mut_* give the contained image for exactly its own pixel type", 20)
    ck.rule("create", "a new dynamic image has the requested colour type, width and height", 11)
    ck.rule("pixel", "pixels are read and written at the given coordinates with each channel in its role", 3)
    p = ck.p
    D = tb.find_adt(p, "DynamicImage")
    kinds = [v["n"] for v in p.adts[D]["variants"]]

    def find(name):
        r = []
        for it in p.items.values():
            if it["kind"] == "fn" and "body" in it and it["name"] == name and "impl_self" in it and p.ty(it["impl_self"]) == ("adt", D, ()):
                r.append(it)
        return r[0] if len(r) == 1 else None

    C = Ctx(ck, p, D, kinds, find)
    for m in OPS:
        if find(m):
            ck.each("op", m, lambda: C.op(m))
    for m in EFFECTS:
        if find(m):
            ck.each("op", m, lambda: C.effect(m))
    for m in ("resize", "thumbnail"):
        ck.each("fit", m, lambda: C.fit(m))
    for m in ("width", "height", "dimensions"):
        ck.each("size", m, lambda: C.size(m))
    ck.each("grey", "grayscale", C.grey)
    ck.each("clone", "clone_from", C.clone_from)
    for m in ("u8", "u16", "f32"):
        ck.each("flat", m, lambda: C.flat(m))
    for it in list(p.items.values()):
        if it["kind"] != "fn" or "body" not in it or p.ty(it.get("impl_self", 0)) != ("adt", D, ()) or it.get("trait_item"):
            continue
        m = it["name"]
        if find(m) is not it:
            continue
        if re.match(r"(to|into)_(rgb|rgba|luma|luma_alpha)(8|16|32f)$", m):
            ck.each("convert", m, lambda: C.convert(m))
        elif re.match(r"as_(mut_)?(rgb|rgba|luma|luma_alpha)(8|16|32f)$", m):
            ck.each("access", m, lambda: C.access(m))
        elif re.match(r"new_(rgb|rgba|luma|luma_a)(8|16|32f)$", m):
            ck.each("create", m, lambda: C.create(m))
    ck.each("create", "new", lambda: C.create("new"))
    for m in ("get_pixel", "put_pixel", "blend_pixel"):
        ck.each("pixel", m, lambda: C.pixel(m))


def leaf(n):
    return ".".join(n.split("::")[-2:])


class Ctx:
    def __init__(self, ck, p, D, kinds, find):
        self.ck, self.p, self.D, self.kinds, self.find = ck, p, D, kinds, find

    def norm(self, E, st, v):
        """resolve references, drop wrappers that do not change the value"""
        v = E.deep(st, E.strip(st, v))
        return self.n(v)

    def n(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] in ("rf", "deref") and len(v) >= 2 and isinstance(v[1], tuple):
            return self.n(v[1])
        if v[0] == "post" and len(v) == 3:
            return self.n(v[2])
        if v[0] == "call" and v[1].split("::")[-1] in ("clone", "cast_slice", "to_image", "deref", "as_ref", "borrow", "as_slice", "as_bytes", "to_owned") and len(v[2]) == 1:
            return self.n(v[2][0])
        if v[0] == "call":
            return ("call", v[1], tuple(self.n(a) for a in v[2]))
        if v[0] == "agg":
            return v[:3] + (tuple(self.n(x) for x in v[3]),)
        return v

    def root(self, v):
        """the image a value stands for"""
        v = self.n(v)
        if v[0] == "agg" and v[1] == self.D:
            return self.root(v[3][0])
        return v

    def hook(self, E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m in ("width", "height", "dimensions") and len(args) == 1:
            v = self.root(E.deep(st, E.strip(st, args[0])))
            if v == INNER:
                w, h = W, H
            elif v[0] == "call" and v[1].endswith(("sample::resize", "sample::thumbnail")):
                w, h = v[2][1], v[2][2]
            else:
                return None
            if not name.startswith("ImageBuffer") and not name.startswith("GenericImageView"):
                return None
            return [Out(st, "ret", {"width": w, "height": h}.get(m) or ("agg", "tuple", 0, (w, h)))]
        return None

    def case(self, m, k, **kw):
        f = self.find(m)
        ref = self.p.ty(f["body"]["locals"][1][0])[0] == "ref"
        kw.setdefault("no_inline", lambda fi, n: not self.mine(fi, n))
        return spec.Case(self.ck, f, self_val=("agg", self.D, k, (INNER,)), byref=ref, hook=kw.pop("hook", self.hook), **kw)

    def mine(self, fi, n):
        """the methods of DynamicImage itself and the helpers beside them"""
        key = fi.get("res") or fi.get("key") or ""
        it = self.p.items.get(key)
        return it is not None and it["path"].lstrip("<").startswith("dynimage::") and "write_buffer" not in it["path"]

    def each(self, m, judge):
        """judge(k, kind name, case) -> None or what is wrong"""
        for k, kind in enumerate(self.kinds):
            c = self.case(m, k)
            e = judge(k, kind, c)
            if e:
                return self.ck.bad(self.rule, m, "%s: for %s %s" % (c.where(), kind, e))
        self.ck.ok(self.rule, m, "%d pixel types" % len(self.kinds))

    def op(self, m):
        self.rule = "op"
        names, args, wrap = OPS[m]
        n = {"n": 0}

        def judge(k, kind, c):
            rets = [o for o in c.outs if o.kind == "ret"]
            if not rets:
                return "it never returns"
            for o in rets:
                v = self.norm(c.E, o.st, o.val)
                if wrap:
                    if v[0] != "agg" or v[1] != self.D:
                        raise Undecided("result %s" % T.show(v)[:100])
                    if v[2] != k:
                        return "the result is %s" % self.kinds[v[2]]
                    v = v[3][0]
                if not names:
                    if v != INNER:
                        raise Undecided("result %s" % T.show(v)[:100])
                    continue
                e = self.call(v, names, args)
                if e:
                    return e
        self.each(m, judge)

    def call(self, v, names, args):
        if v[0] != "call":
            raise Undecided("result %s" % T.show(v)[:100])
        if leaf(v[1]) not in [leaf(n) for n in names]:
            known = {leaf(x) for o in OPS.values() for x in o[0]} | {leaf(x) for o in EFFECTS.values() for x in o}
            if leaf(v[1]) not in known:
                raise Undecided("calls %s" % v[1])
            return "it calls %s" % v[1]
        if self.root(v[2][0]) != INNER:
            raise Undecided("image argument %s" % T.show(v[2][0])[:100])
        got = [T.show(x) for x in v[2][1:]]
        if got != args:
            if sorted(got) == sorted(args) or all(re.match(r"a\d$|-?\d+$", g) for g in got):
                return "%s receives the arguments %s instead of %s" % (v[1], ", ".join(got), ", ".join(args))
            # other expressions of the caller's arguments: compare their values
            env = {x: 3 + 2 * i for i, x in enumerate(sorted({y for t in v[2][1:] for y in T.subterms(t) if y[0] == "sym"}, key=repr))}
            val = {T.show(x): y for x, y in env.items()}
            for g, x, w in zip(got, v[2][1:], args):
                y = T.evalt(x, env)
                if y is None or w not in val and g != w:
                    raise Undecided("arguments %s" % ", ".join(got)[:100])
                if g != w and y != val[w]:
                    return "%s receives %s instead of %s" % (v[1], g[:80], w)
        return None

    def effect(self, m):
        self.rule = "op"

        def judge(k, kind, c):
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                cs = [e for e in o.st.eff if e[0] == "call" and not e[1].endswith(("deref_mut", "deref"))]
                if len(cs) != 1:
                    if not cs:
                        return "it does nothing"
                    raise Undecided("calls %s" % [e[1] for e in cs])
                a = tuple(self.norm(c.E, o.st, x) for x in cs[0][2])
                e = self.call(("call", cs[0][1], a), EFFECTS[m], [])
                if e:
                    return e
                v = o.st.mem[("arg", "self")]
                if v[0] != "agg" or v[2] != k:
                    return "the image becomes %s" % T.show(v)[:80]
        self.each(m, judge)

    def fit(self, m):
        self.rule = "fit"
        callee, rest = {"resize": ("sample::resize", ["a3"]), "thumbnail": ("sample::thumbnail", [])}[m]

        def judge(k, kind, c):
            a = [x for x in c.args]
            n = 0
            for env in ({W: 4, H: 6, a[1]: 2, a[2]: 9}, {W: 9, H: 3, a[1]: 9, a[2]: 4}, {W: 4, H: 6, a[1]: 6, a[2]: 4}):
                for o, u in c.at(env):
                    if o.kind != "ret":
                        return "it panics"
                    v = self.norm(c.E, o.st, o.val)
                    if v[0] != "agg" or v[1] != self.D:
                        raise Undecided("result %s" % T.show(v)[:100])
                    if v[2] != k:
                        return "the result is %s" % self.kinds[v[2]]
                    v = v[3][0]
                    if v == INNER:
                        return "the image is returned unchanged although its size (%d, %d) is not the requested (%d, %d)" % (env[W], env[H], env[a[1]], env[a[2]])
                    if v[0] != "call" or len(v[2]) < 3:
                        raise Undecided("result %s" % T.show(v)[:100])
                    if leaf(v[1]) != leaf(callee):
                        return "it calls %s" % v[1]
                    if self.root(v[2][0]) != INNER or [T.show(x) for x in v[2][3:]] != rest:
                        raise Undecided("arguments %s" % T.show(v)[:160])
                    d = []
                    for x in v[2][1:3]:
                        if x[0] != "fld" or x[1][0] != "call" or leaf(x[1][1]) != "utils.resize_dimensions":
                            raise Undecided("size %s" % T.show(x)[:100])
                        d.append(x[3] if len(x) > 3 else x[2])
                        ar = [T.show(y) for y in x[1][2]]
                        if ar != ["W", "H", "a1", "a2", "False"]:
                            if set(ar) <= {"W", "H", "a1", "a2", "False", "True", "0", "1"}:
                                return "the size is computed from (%s)" % ", ".join(ar)
                            raise Undecided("size computed from (%s)" % ", ".join(ar)[:100])
                    if d != [0, 1]:
                        return "width and height are exchanged"
                    n += 1
            if not n:
                raise Undecided("nothing evaluated")
        self.each(m, judge)

    def size(self, m):
        self.rule = "size"
        want = {"width": W, "height": H, "dimensions": ("agg", "tuple", 0, (W, H))}[m]

        def judge(k, kind, c):
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                v = self.norm(c.E, o.st, o.val)
                if v != want:
                    if set(re.findall(r"[A-Za-z]\w*", T.show(v))) <= {"W", "H", "tuple"}:
                        return "it answers %s" % T.show(v)
                    raise Undecided("result %s" % T.show(v)[:100])
        # here the method itself is one of the hooked names: analyse its body with the hook applied to what it calls
        self.each(m, judge)

    def grey(self):
        self.rule = "grey"

        def judge(k, kind, c):
            base, depth = re.match(r"Image(LumaA|Luma|Rgba|Rgb)(\w+)$", kind).groups()
            want = "Image" + (base if depth == "32F" else GREY[base]) + depth
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                v = self.norm(c.E, o.st, o.val)
                if v[0] != "agg" or v[1] != self.D:
                    raise Undecided("result %s" % T.show(v)[:100])
                if self.kinds[v[2]] != want:
                    return "the result is %s instead of %s" % (self.kinds[v[2]], want)
                x = v[3][0]
                if x == INNER:
                    if base in ("Luma", "LumaA"):
                        continue
                    return "the image is returned unchanged"
                if x[0] != "call" or self.root(x[2][0]) != INNER or "grayscale" not in x[1]:
                    raise Undecided("result %s" % T.show(x)[:100])
                # the functions without "alpha" in their name make alpha opaque
                if base in ("LumaA", "Rgba") and "alpha" not in x[1].split("::")[-1]:
                    return "%s drops the image's alpha" % x[1]
        self.each("grayscale", judge)

    def clone_from(self):
        f = self.find("clone_from")
        SRC = ("sym", "source")
        for k, a in enumerate(self.kinds):
            for j, b in enumerate(self.kinds):
                c = spec.Case(self.ck, f, self_val=("agg", self.D, k, (INNER,)), no_inline=lambda fi, n: not self.mine(fi, n),
                              mem={("arg", "src"): ("agg", self.D, j, (SRC,))}, args={1: ("ref", ("arg", "src"), (), False)})
                for o in c.outs:
                    if o.kind != "ret":
                        return self.ck.bad("clone", "clone_from", "%s: panics for %s from %s" % (c.where(), a, b))
                    v = self.n(c.E.deep(o.st, o.st.mem[("arg", "self")]))
                    cs = [e for e in o.st.eff if e[0] == "call" and e[1].endswith("clone_from")]
                    if v[0] != "agg" or v[1] != self.D:
                        raise Undecided("result %s" % T.show(v)[:100])
                    if v[2] != j:
                        return self.ck.bad("clone", "clone_from", "%s: %s filled from %s stays %s" % (c.where(), a, b, self.kinds[v[2]]))
                    if v[3][0] == SRC:
                        continue
                    if any(self.norm(c.E, o.st, e[2][1]) == SRC for e in cs):
                        continue
                    return self.ck.bad("clone", "clone_from", "%s: %s filled from %s is %s" % (c.where(), a, b, T.show(v)[:100]))
        self.ck.ok("clone", "clone_from", "%d pairs" % (len(self.kinds) ** 2))

    def flat(self, t):
        m = "as_flat_samples_" + t
        self.rule = "flat"
        end = {"u8": "8", "u16": "16", "f32": "32F"}[t]

        def judge(k, kind, c):
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                v = self.norm(c.E, o.st, o.val)
                if v[0] != "agg" or v[1] != OPTION:
                    raise Undecided("result %s" % T.show(v)[:100])
                if (v[2] == 1) != kind.endswith(end):
                    return "it answers %s" % ("Some" if v[2] else "None")
                if v[2] == 1:
                    x = v[3][0]
                    if x[0] != "call" or x[1].split("::")[-1] != "as_flat_samples" or self.root(x[2][0]) != INNER:
                        raise Undecided("result %s" % T.show(x)[:100])
        self.each(m, judge)

    @staticmethod
    def kind_of(m):
        """image_kind of the method's name"""
        base, depth = re.search(r"_(luma_alpha|luma_a|luma|rgba|rgb)(8|16|32f)$", m).groups()
        return "Image" + {"luma": "Luma", "rgb": "Rgb", "rgba": "Rgba"}.get(base, "LumaA") + depth.upper()

    def convert(self, m):
        self.rule = "convert"

        def judge(k, kind, c):
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                v = self.norm(c.E, o.st, o.val)
                if v == INNER:
                    if kind != self.kind_of(m):
                        return "the image is returned as it is"
                elif v[0] != "call" or v[1] != "ConvertBuffer::convert" or self.root(v[2][0]) != INNER:
                    raise Undecided("result %s" % T.show(v)[:100])
        self.each(m, judge)

    def access(self, m):
        self.rule = "access"

        def judge(k, kind, c):
            for o in c.outs:
                if o.kind != "ret":
                    return "it panics"
                v = self.norm(c.E, o.st, o.val)
                if v[0] != "agg" or v[1] != OPTION:
                    raise Undecided("result %s" % T.show(v)[:100])
                if (v[2] == 1) != (kind == self.kind_of(m)):
                    return "it answers %s" % ("Some" if v[2] else "None")
                if v[2] == 1 and self.root(v[3][0]) != INNER:
                    raise Undecided("result %s" % T.show(v)[:100])
        self.each(m, judge)

    def create(self, m):
        f = self.find(m)
        n = 0
        ct = tb.find_adt(self.p, "ColorType")
        for k, v in enumerate(self.p.adts[ct]["variants"] if m == "new" else [{"n": None}]):
            c = spec.Case(self.ck, f, byref=False, no_inline=lambda fi, n: not self.mine(fi, n), args={2: ("agg", ct, k, ())} if m == "new" else None)
            want = self.kind_of(m) if m != "new" else "Image" + {"L": "Luma", "La": "LumaA", "Rgb": "Rgb", "Rgba": "Rgba"}[re.match(r"[A-Za-z]+", v["n"].rstrip("F")).group()] + re.search(r"\d+F?$", v["n"]).group()
            for o in c.outs:
                r = self.norm(c.E, o.st, o.val) if o.kind == "ret" else None
                if r is None or r[0] != "agg" or r[1] != self.D:
                    raise Undecided("%s" % (o.why if r is None else T.show(r)[:100],))
                if self.kinds[r[2]] != want:
                    return self.ck.bad("create", m, "%s: %s gives an %s instead of %s" % (c.where(), v["n"] or m, self.kinds[r[2]], want))
                x = r[3][0]
                if x[0] != "call" or leaf(x[1]) != "ImageBuffer.new":
                    raise Undecided("result %s" % T.show(x)[:100])
                if [T.show(y) for y in x[2]] != ["a0", "a1"]:
                    return self.ck.bad("create", m, "%s: the size is (%s)" % (c.where(), ", ".join(T.show(y)[:40] for y in x[2])))
                n += 1
        self.ck.ok("create", m, "%d" % n)

    def pixel(self, m):
        """the pixel read or written, by formula: every channel value converted as the layouts demand"""
        self.rule = "pixel"
        n = 0
        for k, kind in enumerate(self.kinds):
            base, depth = re.match(r"Image(LumaA|Luma|Rgba|Rgb)(\w+)$", kind).groups()
            t = {"8": "u8", "16": "u16", "32F": "f32"}[depth]

            def hook(E, st, fr, name, fi, fargs, args, site):
                if args and name.split("::")[-1] == m and self.root(E.deep(st, E.strip(st, args[0]))) == INNER:
                    st = st.fork()
                    st.eff += (("px", name, tuple(args)),)
                    if m != "get_pixel":
                        return [Out(st, "ret", ("agg", "tuple", 0, ()))]
                    v = px.pixel(self.p, base, ty=t)
                    if name.startswith("ImageBuffer"):
                        st.mem[("px",)] = v
                        v = ("ref", ("px",), (), False)
                    return [Out(st, "ret", v)]
                return px.numeric(E, st, fr, name, fi, fargs, args, site)

            kw = {} if m == "get_pixel" else {"args": {3: px.pixel(self.p, "Rgba", ty="u8")}}
            c = self.case(m, k, hook=hook, no_inline=lambda fi, n: False, unroll=8, **kw)
            for o in c.outs:
                es = [e for e in o.st.eff if e[0] == "px"]
                if o.kind == "ret" and len(es) != 1:
                    return self.ck.bad("pixel", m, "%s: for %s %d pixels are accessed" % (c.where(), kind, len(es)))
                if es and [T.show(x) for x in es[0][2][1:3]] != ["a1", "a2"]:
                    return self.ck.bad("pixel", m, "%s: for %s the pixel is accessed at (%s, %s)" % (c.where(), kind, T.show(es[0][2][1])[:40], T.show(es[0][2][2])[:40]))
            if m == "get_pixel":
                src, dst, s, d = base, "Rgba", t, "u8"

                def final(o):
                    return px.channels(c.E.deep(o.st, c.E.strip(o.st, o.val)))
            else:
                src, dst, s, d = "Rgba", base, "u8", t

                def final(o):
                    return px.channels(c.E.deep(o.st, c.E.strip(o.st, [e for e in o.st.eff if e[0] == "px"][0][2][3])))
            k = px.compare(self.ck, "pixel", m, c, final, px.values(s, px.ROLES[src]), lambda v: px.expected(src, dst, s, d, v), d,
                           {r: px.sym(r, s) for r in px.ROLES[src]}, "for %s " % kind)
            if not k:
                return
            n += k
        self.ck.ok("pixel", m, "%d pixel types, %d evaluations" % (len(self.kinds), n))
