"""C11: the descriptions of a colour layout agree everywhere."""
import re
from vlib import absint, terms as T, tables as tb

CH = {"A": 1, "L": 1, "La": 2, "Rgb": 3, "Rgba": 4, "Bgr": 3, "Bgra": 4, "Cmyk": 4}
PIX = {"Luma": "L", "LumaA": "La", "Rgb": "Rgb", "Rgba": "Rgba"}
SUB = {"u8": "8", "u16": "16", "f32": "32F"}


def facts(name):
    m = re.match(r"^([A-Z][a-z]*)(\d+)(F?)$", name)
    return m and m.group(1) in CH and (m.group(1), CH[m.group(1)], int(m.group(2)))


def pix_color(p, ty):
    """('adt','color::Rgb',(('prim','u8'),)) -> 'Rgb8'"""
    n = ty[1].split("::")[-1]
    a = ty[2][0]
    if n in PIX and a[0] == "prim" and a[1] in SUB:
        return PIX[n] + SUB[a[1]]
    return None


def buf_pixel(p, ty):
    while ty[0] == "ref":
        ty = ty[1]
    if ty[0] == "adt" and ty[1].endswith("ImageBuffer"):
        return pix_color(p, ty[2][0])
    return None


def table(ck, adt, meth, want, rid):
    p = ck.p
    it = tb.method(p, adt, meth)
    if it is None:
        return
    for i, v in enumerate(p.adts[adt]["variants"]):
        f = facts(v["n"])
        if not f:
            continue
        def one():
            E, outs = tb.eval_variant(ck, it, adt, i)
            vs = [tb.plain(E, o.st, o.val) if o.kind == "ret" else o.kind for o in outs]
            w = want(f)
            inst = "%s::%s(%s)" % (adt.split("::")[-1], meth, v["n"])
            if len(vs) != 1 or vs[0] is None:
                ck.und(rid, inst, "not constant: %s" % vs)
            else:
                ck.judge(rid, inst, vs[0] == w, "%s (%s): %s gives %s, the layout has %s" % (it["path"], p.loc_of_item(it), v["n"], vs[0], w), w)
        ck.each(rid, "%s(%s)" % (meth, v["n"]), one)


def const_val(ck, it):
    p = ck.p
    if it.get("val") is not None:
        v = it["val"]
        return v
    E = absint.Engine(p)
    outs = E.run(it, [])
    return tb.plain(E, outs[0].st, outs[0].val) if len(outs) == 1 else None


def run(ck):
    p = ck.p
    ck.rule("layout", "per colour variant: bytes, bits, channel count, alpha and colour flags follow from the layout", 60)
    ck.rule("extend", "conversion to the extended colour type keeps the layout", 8)
    ck.rule("pixel", "each pixel type declares the channel count, colour model and colour type of its own storage", 12)
    ck.rule("image", "each dynamic image variant reports the colour of its pixel type, is built for exactly that colour, and accessors open exactly that variant", 60)
    ck.rule("size", "buffer sizes derived from dimensions and colour: rows rounded up to bytes, 64-bit, saturating", 2)
    C, X, D = (tb.find_adt(p, n) for n in ("ColorType", "ExtendedColorType", "DynamicImage"))
    table(ck, C, "bytes_per_pixel", lambda f: f[1] * f[2] // 8, "layout")
    table(ck, C, "bits_per_pixel", lambda f: f[1] * f[2], "layout")
    table(ck, C, "channel_count", lambda f: f[1], "layout")
    table(ck, C, "has_alpha", lambda f: f[0] in ("La", "Rgba"), "layout")
    table(ck, C, "has_color", lambda f: f[0] in ("Rgb", "Rgba"), "layout")
    table(ck, X, "bits_per_pixel", lambda f: f[1] * f[2], "layout")
    table(ck, X, "channel_count", lambda f: f[1], "layout")
    # From<ColorType> for ExtendedColorType
    for im in p.impls:
        if im.get("trait", "").endswith("convert::From") and im["_self"] == ("adt", X, ()) and im["_targs"][1:] == (("adt", C, ()),):
            it = p.items.get(im["_items"]["from"]["key"])
            for i, v in enumerate(p.adts[C]["variants"]):
                def one():
                    E, outs = tb.eval_variant(ck, it, C, i)
                    vs = [tb.plain(E, o.st, o.val) for o in outs]
                    ck.judge("extend", v["n"], vs == [v["n"]] if None not in vs else None, "%s (%s): %s becomes %s" % (it["path"], p.loc_of_item(it), v["n"], vs))
                ck.each("extend", v["n"], one)
    # pixel types
    for it in list(p.items.values()):
        if it["kind"] != "const" or "impl_self" not in it or it.get("impl_trait", "").split("::")[-1] not in ("Pixel", "PixelWithColorType"):
            continue
        ty = p.ty(it["impl_self"])
        if ty[0] != "adt" or ty[1].split("::")[-1] not in PIX:
            continue
        n = ty[1].split("::")[-1]
        def one():
            v = const_val(ck, it)
            inst = "%s::%s" % (p.tystr(ty), it["name"])
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            # storage: the array length of the tuple field
            fty = p.ty(p.adts[ty[1]]["variants"][0]["f"][0]["ty"])
            width = fty[2] if fty[0] == "array" else None
            if it["name"] == "CHANNEL_COUNT":
                if isinstance(v, dict):
                    v = v.get("v")
                ck.judge("pixel", inst, None if v is None else v == CH[PIX[n]], "%s = %s for a %s pixel" % (where, v, n))
            elif it["name"] == "COLOR_MODEL":
                w = {"Luma": "Y", "LumaA": "YA", "Rgb": "RGB", "Rgba": "RGBA"}[n]
                ck.judge("pixel", inst, None if v is None else v == w, "%s = %r for a %s pixel" % (where, v, n))
            elif it["name"] == "COLOR_TYPE":
                got = p.adts[X]["variants"][v["var"]]["n"] if isinstance(v, dict) and v.get("adt") == X else None
                ck.judge("pixel", inst, None if got is None else got == pix_color(p, ty), "%s = %s for %s" % (where, got, p.tystr(ty)))
        ck.each("pixel", it["path"], one)
    # DynamicImage
    col = [buf_pixel(p, p.ty(v["f"][0]["ty"])) for v in p.adts[D]["variants"]]
    it = tb.method(p, D, "color")
    for i, v in enumerate(p.adts[D]["variants"]):
        def one():
            E, outs = tb.eval_variant(ck, it, D, i)
            vs = [tb.plain(E, o.st, o.val) for o in outs]
            ck.judge("image", "color(%s)" % v["n"], None if None in vs else vs == [col[i]], "%s (%s): %s holds %s pixels but reports %s" % (it["path"], p.loc_of_item(it), v["n"], col[i], vs))
        if it:
            ck.each("image", "color(%s)" % v["n"], one)
    # as_* accessors: Some exactly for the variant of the promised buffer type, and that variant's buffer
    for it in p.items.values():
        if it["kind"] != "fn" or "impl_self" not in it or "impl_trait" in it or p.ty(it["impl_self"]) != ("adt", D, ()):
            continue
        if not re.match(r"^as_(mut_)?(rgb|luma)", it["name"]):
            continue
        rt = p.ty(it["body"]["locals"][0][0])
        want = buf_pixel(p, rt[2][0]) if rt[0] == "adt" and rt[2] else None
        if want is None:
            continue
        for i, v in enumerate(p.adts[D]["variants"]):
            def one():
                E, outs = tb.eval_variant(ck, it, D, i)
                if len(outs) != 1 or outs[0].val[0] != "agg":
                    ck.und("image", "%s(%s)" % (it["name"], v["n"]), "not constant")
                    return
                r = outs[0].val
                ck.judge("image", "%s(%s)" % (it["name"], v["n"]), (r[2] == 1) == (col[i] == want),
                         "%s (%s): an image of %s pixels %s" % (it["path"], p.loc_of_item(it), col[i], "is opened as " + want if r[2] else "is refused"))
            ck.each("image", "%s(%s)" % (it["name"], v["n"]), one)
    # new / from_decoder
    bufni = lambda fi, n: n.startswith("ImageBuffer::") or "decoder_to_vec" in n
    new = tb.method(p, D, "new")
    fd = tb.method(p, D, "from_decoder")
    for i, v in enumerate(p.adts[C]["variants"]):
        def one_new():
            E = absint.Engine(p, no_inline=bufni)
            outs = E.run(new, [("sym", "w"), ("sym", "h"), ("agg", C, i, ())])
            ck.saw(E)
            for o in outs:
                if o.kind != "ret" or o.val[0] != "agg":
                    ck.und("image", "new(%s)" % v["n"], "shape")
                    continue
                ck.judge("image", "new(%s)" % v["n"], col[o.val[2]] == v["n"], "%s (%s): colour %s makes a %s image" % (new["path"], p.loc_of_item(new), v["n"], col[o.val[2]]))
                e = [e for e in o.st.eff if e[1] == "ImageBuffer::new"]
                if e:
                    ck.judge("size", "new(%s)" % v["n"], e[0][2] == (("sym", "w"), ("sym", "h")), "%s (%s): dimensions passed as %s" % (new["path"], p.loc_of_item(new), [T.show(x) for x in e[0][2]]))
        if new:
            ck.each("image", "new(%s)" % v["n"], one_new)
        def one_fd():
            def hook(E, st, fr, name, fi, fargs, args, site):
                if name == "ImageDecoder::color_type":
                    return [absint.Out(st, "ret", ("agg", C, i, ()))]
            E = absint.Engine(p, hook=hook, no_inline=bufni)
            outs = E.run(fd, [("sym", "d")])
            ck.saw(E)
            okp = 0
            for o in outs:
                if o.kind != "ret" or o.val[0] != "agg" or o.val[2] == 1:
                    continue
                im = E.strip(o.st, o.val[3][0])
                if im[0] != "agg" or im[1] != D:
                    ck.und("image", "from_decoder(%s)" % v["n"], "shape")
                    continue
                okp += 1
                ck.judge("image", "from_decoder(%s)" % v["n"], col[im[2]] == v["n"], "%s (%s): a decoder of colour %s yields a %s image" % (fd["path"], p.loc_of_item(fd), v["n"], col[im[2]]))
                for e in o.st.eff:
                    if e[1] == "ImageBuffer::from_raw":
                        w, h = e[2][0], e[2][1]
                        good = w[0] == "fld" and h[0] == "fld" and (w[3], h[3]) == (0, 1) and "dimensions" in T.show(w) and w[1] == h[1]
                        ck.judge("size", "from_decoder(%s)" % v["n"], good if "dimensions" in T.show(w) + T.show(h) else None,
                                 "%s (%s): buffer made with width %s, height %s" % (fd["path"], p.loc_of_item(fd), T.show(w), T.show(h)))
            if not okp:
                bad = all(o.kind == "ret" and o.val[0] == "agg" for o in outs)
                ck.judge("image", "from_decoder(%s)" % v["n"], False if bad else None, "%s (%s): a decoder of colour %s never yields an image" % (fd["path"], p.loc_of_item(fd), v["n"]))
        if fd:
            ck.each("image", "from_decoder(%s)" % v["n"], one_fd)
    # From<ImageBuffer<P>> for DynamicImage keeps the layout
    for im in p.impls:
        if im.get("trait", "").endswith("convert::From") and im["_self"] == ("adt", D, ()) and len(im["_targs"]) > 1:
            src = buf_pixel(p, im["_targs"][1])
            if src is None or src not in col:
                continue
            it = p.items.get(im["_items"]["from"]["key"])
            def one():
                E = absint.Engine(p, no_inline=bufni)
                outs = E.run(it, [("sym", "buf")])
                ck.saw(E)
                for o in outs:
                    g = o.val[0] == "agg" and o.val[1] == D
                    ck.judge("image", "From<%s>" % src, (col[o.val[2]] == src and o.val[3] == (("sym", "buf"),)) if g else None,
                             "%s (%s): a buffer of %s pixels becomes %s" % (it["path"], p.loc_of_item(it), src, T.show(o.val)))
            ck.each("image", "From<%s>" % src, one)
    # ExtendedColorType::buffer_size and the default total_bytes
    def bsize():
        its = [x for x in p.items.values() if x["kind"] == "fn" and x["name"] == "buffer_size" and x.get("impl_self") is not None and p.ty(x["impl_self"]) == ("adt", X, ())]
        if not its:
            return
        it = its[0]
        W, H = ("sym", "w", (0, 2**32 - 1)), ("sym", "h", (0, 2**32 - 1))
        for i, v in enumerate(p.adts[X]["variants"]):
            f = facts(v["n"])
            if not f:
                continue
            E = absint.Engine(p)
            outs = E.run(it, [("agg", X, i, ()), W, H])
            ck.saw(E)
            bits = f[1] * f[2]
            grid = [{W: w, H: h} for w in (0, 1, 2, 3, 5, 7, 8, 9, 255, 65536, 2**31, 2**32 - 1) for h in (0, 1, 2, 7, 65535, 2**32 - 1)]
            res = []
            for o in outs:
                if o.kind != "ret":
                    res.append("a panic" if o.kind == "panic" else "unknown")
                    continue
                g = [e for e in grid if all(T.evalt(t, e) in (None, b) for t, b in o.st.facts)]
                d = T.differs(o.val, lambda e: min(((e[W] * bits + 7) // 8) * e[H], 2**64 - 1), g) if g else None
                res.append(d)
            pt = [r for r in res if r not in (None, "unknown")]
            ck.judge("size", "buffer_size(%s)" % v["n"], False if pt else (None if "unknown" in res else True),
                     "%s (%s): %s gives %s, not ceil(width*%d/8)*height: %s" % (it["path"], p.loc_of_item(it), v["n"], [T.show(o.val) for o in outs if o.val], bits, pt))
    ck.each("size", "buffer_size", bsize)

