"""C22: the dimension fields of an encoded file hold exactly the image's width and height, or encoding fails first."""
import re
from vlib import absint, terms as T, tables as tb
from vlib.errflow import is_failure, err_facts
from . import c08, encoders as N, limits as L

VALS = (1, 2, 3, 255, 256, 257, 1000, 16384, 65535, 65536, 65537, 2**30, 2**30 + 1, 2**32 // 3 + 1, 2**31 - 1, 2**31, 2**32 - 1)
GRID = [(100, 200), (3, 5), (40000, 40000), (16385, 2)] + [(v, 1) for v in VALS] + [(1, v) for v in VALS] + [(v, 4) for v in VALS[4:]] + [(6, v) for v in VALS[4:]]

# calls of third-party codecs that are given the dimensions: (function, argument index of the width, of the height)
CALLS = {"PngEncoder": [("Info::with_size", 0, 1), ("Encoder::new", 1, 2)], "IcoEncoder": [("Info::with_size", 0, 1), ("Encoder::new", 1, 2)],
         "WebPEncoder": [("WebPEncoder::encode", 2, 3)], "TiffEncoder": [("TiffEncoder::write_image", 1, 2), ("TiffEncoder::new_image", 1, 2)],
         "AvifEncoder": [("Img::new", 1, 2)], "QoiEncoder": [("qoi::encode_to_vec", 1, 2), ("Encoder::new", 1, 2)]}


def fields_of(E, o, enc):
    """[(what, term, 'w' or 'h', map)]: every place of the file that holds a dimension"""
    idn = lambda v: v
    fs = c08.fields(E, o) if enc in ("BmpEncoder", "TgaEncoder", "FarbfeldEncoder") else None
    out = []
    if enc == "BmpEncoder":
        out = [("width field", c08.at(fs, 18), "w", idn), ("height field", c08.at(fs, 22), "h", idn)]
    elif enc == "TgaEncoder":
        out = [("width field", c08.at(fs, 12), "w", idn), ("height field", c08.at(fs, 14), "h", idn)]
    elif enc == "FarbfeldEncoder":
        out = [("width field", c08.at(fs, 8), "w", idn), ("height field", c08.at(fs, 12), "h", idn)]
    elif enc == "IcoEncoder":
        for st in E.bodies:
            if not c08.prefix(st, o):
                continue
            f = c08.entry(E, o, st)
            if f and len(f) >= 8:
                # 256 is stored as zero
                out += [("width byte of the directory entry", f[0][2], "w", lambda v: v % 256 if v <= 256 else v),
                        ("height byte of the directory entry", f[1][2], "h", lambda v: v % 256 if v <= 256 else v)]
    elif enc == "GifEncoder":
        for x in o.st.eff:
            for a in x[2] if x[0] == "call" and x[1] == "Encoder::write_frame" else ():
                for s in T.subterms(E.deep(o.st, a)):
                    if s and s[0] == "call" and str(s[1]).startswith("Frame::from_"):
                        out += [("width of the frame", s[2][0], "w", idn), ("height of the frame", s[2][1], "h", idn)]
            if x[0] == "call" and x[1] == "Encoder::new" and len(x[2]) >= 3:
                out += [("width of the screen", x[2][1], "w", idn), ("height of the screen", x[2][2], "h", idn)]
    elif enc == "OpenExrEncoder":
        for x in c08.calls(o, "Image::from_channels"):
            v = E.strip(o.st, x[2][0])
            if v[0] == "agg" and len(v[3]) == 2:
                out += [("width of the layer", v[3][0], "w", idn), ("height of the layer", v[3][1], "h", idn)]
    elif enc == "HdrEncoder":
        d = [E.strip(o.st, x[2][0]) for x in c08.calls(o, "Argument::new_display")]
        if len(d) == 2:
            # "-Y height +X width"
            out = [("height in the resolution line", d[0], "h", idn), ("width in the resolution line", d[1], "w", idn)]
    elif enc == "PnmEncoder":
        d = [E.strip(o.st, x[2][0]) for x in c08.calls(o, "Argument::new_display")]
        if len(d) >= 2:
            out = [("width in the header", d[0], "w", idn), ("height in the header", d[1], "h", idn)]
    elif enc == "JpegEncoder":
        for x in c08.calls(o, "JpegEncoder::encode_image"):
            v = E.strip(o.st, x[2][1])
            if v[0] == "agg" and v[1].endswith("ImageBuffer"):
                fn = L.fields(E.p, v[1])
                out += [("width of the image encoded", v[3][fn.index("width")], "w", idn), ("height of the image encoded", v[3][fn.index("height")], "h", idn)]
        sof = c08.segments(E, o).get(0xC0)
        if sof and len(sof) >= 5:
            for what, k, d in (("height in the frame header", 1, "h"), ("width in the frame header", 3, "w")):
                b = sof[k]
                if b == sof[k + 1] and b[0] == "call" and b[1] == "u16::to_be_bytes":
                    out.append((what, b[2][0], d, idn))
    for fnm, a, b in CALLS.get(enc, ()):
        for x in c08.calls(o, fnm):
            if len(x[2]) > max(a, b):
                out += [("width given to %s" % fnm, x[2][a], "w", idn), ("height given to %s" % fnm, x[2][b], "h", idn)]
    return out


FLOOR = {"IcoEncoder": 4}


def envs(o, bits, extra=None):
    for w, h in GRID:
        env = {N.W: w, N.H: h, N.LEN: N.need(bits or 8, w, h), N.UNK: bits or 8}
        if extra:
            env.update(extra(w, h))
        f, u = L.feasible(o, env)
        if f is not False:
            yield w, h, env, f


def run(ck):
    p = ck.p
    ck.rule("field", "every header field or codec argument that holds a dimension holds exactly the width or the height, on every path to success", 30)
    ck.rule("early", "dimensions are refused before anything is written", 30)
    ck.rule("bmp-size", "the size fields of a BMP header are those of its rows", 6)
    ck.rule("pnm-header", "a PNM header chosen by the caller is written only for an image of its size", 2)
    ck.assumptions += ["third-party encoders refuse dimensions their own format cannot hold"]
    X, cols = N.colours(p)
    for e in N.entries(p):
        enc = e.name.split("::")[0]
        for cv, cn, bits in cols:
            pl = len(p.adts[X]["variants"][cv]["f"])
            if ck.each("field", "%s(%s)" % (e.name, cn), one, ck, e, enc, X, cv, cn, bits, pl) == "nocolour":
                break
    ck.each("field", "JpegEncoder::encode_image", jpeg, ck)
    ck.each("field", "GifEncoder::encode_frame", gif_frame, ck)


def one(ck, e, enc, X, cv, cn, bits, pl):
    p = ck.p
    kw = {"no_inline": lambda fi, name: name == "JpegEncoder::encode_image"} if enc == "JpegEncoder" else {}
    E, outs, takes, unit = c08.run_ok(ck, e, cv, X, pl, **kw)
    if not takes:
        bits = 8 if unit == "pixels" else {"FarbfeldEncoder": 64}.get(enc)
    judge(ck, E, outs, enc, "%s(%s)" % (e.name, cn if takes else "-"), "%s (%s)" % (e.it["path"], p.loc_of_item(e.it)), bits)
    return None if takes else "nocolour"


def judge(ck, E, outs, enc, inst, where, bits):
    und = None
    n = nf = 0
    early = False
    for o in outs:
        if o.kind != "ret":
            continue
        wr = [x for x in o.st.eff if x[0] == "write"]
        if not wr:
            continue
        fail = is_failure(E, o.st, o.val)
        if fail is True:
            if not early and 1 not in err_facts(o.st).values() and c08.decided(E, o):
                big = [(w, h) for w, h, env, f in envs(o, bits)]
                # the dimensions decide: an ordinary size does not come here
                if big and not any(max(d) <= 200 for d in big):
                    early = True
                    ck.bad("early", inst, "%s: a %dx%d image is refused only after %s at %s" % (where, big[0][0], big[0][1], wr[0][1], wr[0][4][2]))
            continue
        n += 1
        chosen = enc == "PnmEncoder" and c08.chosen(E, o)
        if chosen:
            pnm(ck, E, o, inst, where, bits)
            continue
        locs = fields_of(E, o, enc)
        ws = [x for x in locs if x[2] == "w"]
        if not ws or len(ws) * 2 != len(locs) or any(x[1] is None for x in locs):
            if any(True for _ in envs(o, bits)):
                und = und or "%s: where the dimensions are written was not determined" % where
            continue
        for w, h, env, f in envs(o, bits):
            for what, t, d, fn in locs:
                t = E.strip(o.st, t)
                v = T.evalt(t, env)
                if v is None:
                    v = frame_field(E, t, env)
                want = fn(w if d == "w" else h)
                if v is None:
                    und = "%s: the %s is not determined by the dimensions" % (where, what)
                elif v != want:
                    return ck.bad("field", inst, "%s: for a %dx%d image the %s is %d" % (where, w, h, what, v))
                nf += 1
            if enc == "BmpEncoder":
                b = bmp(E, o, env, w, h)
                if b:
                    return ck.bad("bmp-size", inst, "%s: for a %dx%d image %s" % (where, w, h, b))
        if enc == "BmpEncoder":
            ck.ok("bmp-size", inst, "file size and image size")
    if und:
        ck.und("field", inst, und)
    elif nf:
        ck.ok("field", inst, "%d paths, %d field values" % (n, nf))
    if nf and not early:
        ck.ok("early", inst, "%d paths" % n)


def frame_field(E, t, env):
    """a field of a frame made by the gif crate's constructors is what they were given"""
    if t[0] == "fld" and t[1][0] == "call" and str(t[1][1]).startswith("Frame::from_"):
        a = [x for x in E.p.adts if x.endswith("gif::Frame") or x == "gif::Frame"]
        if a:
            k = {"width": 0, "height": 1}.get(L.fields(E.p, a[0])[t[3]])
            if k is not None:
                return T.evalt(t[1][2][k], env)
    return None


def bmp(E, o, env, w, h):
    fs = c08.fields(E, o)
    env = dict(env)
    for k in (2, 10, 34):
        for t in T.subterms(c08.at(fs, k) or ()):
            if t and t[0] == "len" and t != N.LEN:
                env[t] = 16         # colours in the palette
    ev = lambda k: T.evalt(E.strip(o.st, c08.at(fs, k)), env) if c08.at(fs, k) is not None else None
    bpp, off, img, size = ev(28), ev(10), ev(34), ev(2)
    if None in (bpp, off, img, size):
        return "a size field could not be determined"
    want = (w * bpp + 31) // 32 * 4 * h
    if img != want:
        return "the image size field is %d, the rows take %d bytes" % (img, want)
    if size != off + want:
        return "the file size field is %d, the file has %d bytes" % (size, off + want)


def pnm(ck, E, o, inst, where, bits):
    p = E.p
    hadt = tb.find_adt(p, "HeaderRecord")
    rec = [(t[1], v) for t, v in o.st.facts if t[0] == "discr" and t[2] == hadt and type(v) is int]
    if not rec:
        return ck.und("pnm-header", inst, "%s: kind of header not determined" % where)
    base, v = rec[0]
    h = ("fld", base, v, 0)
    fn = L.fields(p, p.ty(p.adts[hadt]["variants"][v]["f"][0]["ty"])[1])
    fw, fh = (c08.find(o, h, fn.index(k)) for k in ("width", "height"))
    for dw, dh in ((1, 0), (0, 1), (0, 2**16), (2**16, 0)):
        extra = lambda w, hh: {k: x for k, x in ((fw, w + dw), (fh, hh + dh)) if k is not None}
        for w, hh, env, f in envs(o, bits, extra):
            return ck.bad("pnm-header", inst, "%s: a header for %dx%d is written for an image of %dx%d" % (where, w + dw, hh + dh, w, hh))
    ck.ok("pnm-header", inst, "size compared")


def image_of(p, px, E):
    """an image buffer of W x H pixels"""
    t = c08.pixel_image(p, px)
    v = ("sym", "image")
    out = []
    for i, f in enumerate(L.fields(p, t[1])):
        out.append({"width": N.W, "height": N.H}.get(f, ("fld", v, 0, i)))
    return t, ("agg", t[1], 0, tuple(out))


def jpeg(ck):
    p = ck.p
    it = [i for i in p.fns() if i["name"] == "encode_image" and "JpegEncoder" in i["path"]]
    if len(it) != 1:
        return ck.und("field", "JpegEncoder::encode_image", "method not found")
    it = it[0]
    enc = p.ty(it["body"]["locals"][1][0])[1]
    gi = [g[0] for g in it["generics"] if g[2] == "type" and g[0] >= len(enc[2])]
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    for px in sorted({im["_self"] for im in p.impls if im.get("trait", "").split("::")[-1] == "PixelWithColorType"}, key=str):
        if p.tystr(px[2][0]) != "u8":
            continue
        E = c08.OkEngine(p, max_paths=3000, max_steps=200000, no_inline=lambda fi, name: "huffman" in name or name in ("JpegEncoder::encode_rgb", "JpegEncoder::encode_gray"))
        E.stop = False
        E.wparams = tuple(a for a in enc[2] if a[0] == "param")
        st = absint.State()
        st.mem[("arg", "self")] = ("sym", "enc")
        ty, img = image_of(p, px, E)
        st.mem[("arg", "img")] = img
        outs = E.run(it, [("ref", ("arg", "self"), (), True), ("ref", ("arg", "img"), (), False)], st=st, subst={gi[0]: ty})
        E.npaths = len(outs)
        ck.saw(E)
        judge(ck, E, outs, "JpegEncoder", "encode_image(%s)" % p.tystr(px), where, 8)


def gif_frame(ck):
    p = ck.p
    it = [i for i in p.fns() if i["name"] == "encode_frame" and "GifEncoder" in i["path"]]
    if len(it) != 1:
        return ck.und("field", "GifEncoder::encode_frame", "method not found")
    it = it[0]
    fr = p.ty(it["body"]["locals"][2][0])
    enc = p.ty(it["body"]["locals"][1][0])[1]
    fs = p.adts[fr[1]]["variants"][0]["f"]
    img = None
    vals = []
    for i, f in enumerate(fs):
        t = p.ty(f["ty"])
        if t[0] == "adt" and t[1].endswith("ImageBuffer"):
            v = ("sym", "image")
            vals.append(("agg", t[1], 0, tuple({"width": N.W, "height": N.H}.get(k, ("fld", v, 0, j)) for j, k in enumerate(L.fields(p, t[1])))))
            img = True
        else:
            vals.append(("sym", "frame." + f["n"]))
    if not img:
        return ck.und("field", "GifEncoder::encode_frame", "the frame's buffer was not found")
    E = c08.OkEngine(p, max_paths=6000, max_steps=200000, hook=c08.hook)
    E.stop = False
    E.wparams = tuple(a for a in enc[2] if a[0] == "param")
    st = absint.State()
    st.mem[("arg", "self")] = ("sym", "enc")
    outs = E.run(it, [("ref", ("arg", "self"), (), True), ("agg", fr[1], 0, tuple(vals))], st=st)
    E.npaths = len(outs)
    ck.saw(E)
    judge(ck, E, outs, "GifEncoder", "GifEncoder::encode_frame", "%s (%s)" % (it["path"], p.loc_of_item(it)), 32)
