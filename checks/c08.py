"""C08: an encoder refuses a colour type before writing, or declares exactly its layout."""
import re
from vlib import absint, graph, terms as T, tables as tb
from vlib.absint import Out, RESULT
from vlib.errflow import is_failure, err_facts
from . import encoders as N, limits as L
from .c11 import facts as layout

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u24": 3, "u32": 4, "i32": 4, "u64": 8}
# non-empty images, the only ones a header can describe
DIMS = [(1, 1), (3, 5), (8, 3), (200, 100), (256, 256), (40000, 2)]


class OkEngine(N.EncEngine):
    """every write succeeds, so what is left is what the encoder itself decides"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.bodies = []        # effects of loop iterations

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        if t[3] and self.writes(fr, t):
            for o in outs:
                o.val = ("agg", RESULT, 0, (("fld", o.val, 0, 0),))
        return outs

    def on_back_edge(self, st, fr, h):
        self.bodies.append(st)


def hook(E, st, fr, name, fi, fargs, args, site):
    if name == "slice::swap":
        st.eff = st.eff + (("call", name, tuple(args), None, site, fargs),)
    return N.hook(E, st, fr, name, fi, fargs, args, site)


def run_ok(ck, e, cv, X, pl, **kw):
    save = N.EncEngine
    N.EncEngine = OkEngine
    try:
        return N.run(ck, e, cv, X, pl, stop=False, max_steps=400000, hook=hook, **kw)
    finally:
        N.EncEngine = save


def live(o, bits, extra=()):
    """some valid call on a non-empty image takes this path"""
    for w, h in DIMS:
        env = {N.W: w, N.H: h, N.LEN: N.need(bits or 8, w, h), N.UNK: bits or 8}
        f, u = L.feasible(o, env)
        if f is not False:
            return True, f, u
    return False, False, ()


def fields(E, o):
    """the fixed-size values written first: [(offset, size, value term, byte order or None)]"""
    out, off = [], 0
    for x in o.st.eff:
        if x[0] != "call":
            continue
        m = re.match(r"^WriteBytesExt::write_([ui]\d+)$", x[1])
        if m:
            n = SIZES[m.group(1)]
            bo = E.p.tystr(x[5][1]) if len(x[5]) > 1 else None
            out.append((off, n, E.strip(o.st, x[2][1]), bo))
            off += n
        elif x[1] == "Write::write_all":
            v = E.strip(o.st, x[2][1])
            if v[0] == "agg" and v[1] == "array":
                for b in v[3]:
                    out.append((off, 1, b, None))
                    off += 1
            elif v[0] == "call" and re.match(r"^[ui]\d+::to_[bln]e_bytes$", v[1]):
                n = SIZES[v[1].split("::")[0]]
                out.append((off, n, v[2][0], {"b": "BigEndian", "l": "LittleEndian", "n": "NativeEndian"}[v[1].split("to_")[1][0]]))
                off += n
            elif v[0] == "s":
                for b in v[1].encode():
                    out.append((off, 1, T.c(b), None))
                    off += 1
            else:
                break
    return out


def at(fs, off):
    for f in fs:
        if f[0] == off:
            return f[2]
    return None


def const(v):
    return v[1] if v is not None and v[0] == "c" else None


def calls(o, suffix):
    return [x for x in o.st.eff if x[0] == "call" and (x[1].endswith(suffix) if isinstance(suffix, str) else suffix.match(x[1]))]


def vname(E, o, v):
    v = E.strip(o.st, v)
    if v[0] == "agg" and v[1] in E.p.adts:
        return E.p.adts[v[1]]["variants"][v[2]]["n"]
    return None


# --- what each format's file declares on a path: (channels name, bits) or a reason ------------------------------------
def d_png(E, o, cn):
    c, d = calls(o, "Encoder::set_color"), calls(o, "Encoder::set_depth")
    if not c or not d:
        return None
    k = {"Grayscale": "L", "GrayscaleAlpha": "La", "Rgb": "Rgb", "Rgba": "Rgba"}.get(vname(E, o, c[-1][2][1]))
    n = {"One": 1, "Two": 2, "Four": 4, "Eight": 8, "Sixteen": 16}.get(vname(E, o, d[-1][2][1]))
    return (k, n) if k and n else None


def d_ico(E, o, cn):
    # directory entries are written in a loop: width, height, palette size, 0, planes, bits per pixel, size, offset
    f = layout(cn)
    inner = d_png(E, o, cn)
    if inner is None:
        return None
    n = 0
    for st in E.bodies:
        fs = entry(E, o, st)
        if fs is None or len(fs) < 8:
            continue
        n += 1
        if [x[1] for x in fs[:8]] != [1, 1, 1, 1, 2, 2, 4, 4]:
            return "the directory entry has fields of %s bytes" % [x[1] for x in fs[:8]]
        got = const(at(fs, 6))
        if got is None:
            return None
        if got != f[1] * f[2]:
            return "the directory entry declares %s bits per pixel" % got
    return inner if n else None


def entry(E, o, st):
    """fields a loop iteration writes after the path's own prefix"""
    pre = fields(E, ico_only(o))
    class V:
        pass
    v = V()
    v.st = st
    fs = fields(E, ico_only(v))
    k = sum(x[1] for x in pre)
    return [(a - k, n, t, b) for a, n, t, b in fs if a >= k]


def ico_only(o):
    class V:
        pass
    v = V()
    v.st = o.st.fork()
    # what is written to the destination itself, not to the embedded PNG
    v.st.eff = tuple(x for x in o.st.eff if not (x[0] == "call" and x[1].startswith(("Encoder::", "Writer::"))))
    return v


def d_webp(E, o, cn):
    c = calls(o, "WebPEncoder::encode")
    n = vname(E, o, c[-1][2][4]) if c and len(c[-1][2]) > 4 else None
    f = layout(n) if n else None
    return (f[0], f[2]) if f else None


def d_tiff(E, o, cn):
    c = [x for x in calls(o, "TiffEncoder::write_image") + calls(o, "TiffEncoder::new_image") + calls(o, "ImageEncoder::write_data") if len(x[5]) > 2]
    for x in c:
        n = E.p.tystr(x[5][2]).split("::")[-1]
        m = re.match(r"^(Gray|RGB|RGBA|CMYK|GrayA)(8|16|32|64)(Float)?$", n)
        if m:
            return {"Gray": "L", "RGB": "Rgb", "RGBA": "Rgba", "CMYK": "Cmyk", "GrayA": "La"}[m.group(1)], int(m.group(2))
    return None


def d_gif(E, o, cn):
    n = {s for s in ("rgb", "rgba") if any(T.contains(a, "Frame::from_" + s) or T.contains(a, "Frame::from_%s_speed" % s)
                                           for e in o.st.eff if e[0] == "write" for a in (E.deep(o.st, b) for b in e[2]))}
    if len(n) != 1:
        return None
    return {"rgb": "Rgb", "rgba": "Rgba"}[n.pop()], 8


def d_avif(E, o, cn):
    c = calls(o, re.compile(r"^Encoder::encode_(rgb|rgba)$"))
    if len(c) != 1:
        return None
    k = c[0][1].endswith("rgba")
    f = layout(cn)
    # everything but Rgb8 is converted to 8-bit RGBA (C16 covers the conversion)
    if k:
        return (f[0], f[2])
    return ("Rgb", 8)


def d_exr(E, o, cn):
    c = calls(o, re.compile(r"^SpecificChannels::(rgb|rgba)$"))
    return ({"rgb": "Rgb", "rgba": "Rgba"}[c[0][1].split("::")[-1]], 32) if len(c) == 1 else None


def d_bmp(E, o, cn):
    fs = fields(E, o)
    bpp, comp, dib = const(at(fs, 28)), const(at(fs, 30)), const(at(fs, 14))
    if bpp is None or comp is None or dib is None:
        return None
    if bpp == 24 and comp == 0:
        return "Rgb", 8
    if bpp == 8 and comp == 0:
        return "L", 8
    if bpp == 32 and comp == 3:
        masks = [const(at(fs, x)) for x in (54, 58, 62, 66)]
        if None in masks:
            return None
        if masks == [0xff0000, 0xff00, 0xff, 0xff000000]:
            return "Rgba", 8
        return "32-bit pixels with channel masks %s" % [hex(x) for x in masks]
    return "%d bits per pixel with compression %d" % (bpp, comp)


def d_tga(E, o, cn):
    fs = fields(E, o)
    ty, depth, desc = const(at(fs, 2)), const(at(fs, 16)), const(at(fs, 17))
    if None in (ty, depth, desc):
        return None
    k = {(2, 24, 0): "Rgb", (2, 32, 8): "Rgba", (3, 8, 0): "L", (3, 16, 8): "La"}.get((ty & 7, depth, desc & 15))
    return (k, 8) if k else "image type %d, %d bits per pixel, %d alpha bits" % (ty, depth, desc & 15)


def d_farbfeld(E, o, cn):
    fs = fields(E, o)
    if bytes(const(f[2]) or 0 for f in fs[:8]) != b"farbfeld":
        return None
    return "Rgba", 16


def d_hdr(E, o, cn):
    return "Rgb", 32


def d_qoi(E, o, cn):
    # the qoi crate tells three from four channels by the length it is given
    return ("Rgb" if cn == "Rgb8" else "Rgba", 8)


def d_jpeg(E, o, cn):
    c = calls(o, "JpegEncoder::encode_image")
    out = set()
    for x in c:
        for a in x[5]:
            if a[0] == "adt" and a[1].split("::")[-1] == "ImageBuffer":
                px = a[2][0]
                b = {"u8": 8, "u16": 16, "f32": 32}.get(E.p.tystr(px[2][0])) if px[0] == "adt" else None
                out.add((PIX.get(px[1].split("::")[-1]), b))
    return out.pop() if len(out) == 1 else None


PIX = {"Luma": "L", "LumaA": "La", "Rgb": "Rgb", "Rgba": "Rgba"}
TUPL = {"BlackAndWhite": "L", "BlackAndWhiteAlpha": "La", "Grayscale": "L", "GrayscaleAlpha": "La", "RGB": "Rgb", "RGBAlpha": "Rgba"}


def d_pnm(E, o, cn):
    f = layout(cn)
    ws = [x for x in o.st.eff if x[0] == "call" and x[1] == "Write::write_all"]
    if not ws:
        return None
    v = E.strip(o.st, ws[0][2][1])
    magic = bytes(const(b) or 0 for b in v[3]) if v[0] == "agg" and v[1] == "array" else None
    disp = [x for x in o.st.eff if x[0] == "call" and x[1] == "Argument::new_display"]
    if magic is None:
        return None
    vals = []
    for x in disp:
        a = E.strip(o.st, x[2][0])
        vals.append(a)
    if magic in (b"P1", b"P4"):
        return ("L", f[2]) if f and f[0] == "L" else "a bitmap"
    maxval = const(vals[2]) if magic != b"P7" and len(vals) > 2 else const(vals[3]) if len(vals) > 3 else None
    if maxval is None:
        return None
    bits = {1: 1, 255: 8, 65535: 16}.get(maxval)
    if bits is None:
        return "a largest value of %d" % maxval
    if magic in (b"P2", b"P5"):
        return "L", bits
    if magic in (b"P3", b"P6"):
        return "Rgb", bits
    depth = const(vals[2])
    tup = None
    if len(vals) > 4:
        for s in T.subterms(E.deep(o.st, vals[4])):
            if s and s[0] == "agg" and isinstance(s[1], str) and s[1].endswith("ArbitraryTuplType"):
                tup = TUPL.get(E.p.adts[s[1]]["variants"][s[2]]["n"])
    if depth is None or tup is None:
        return None
    if depth != {"L": 1, "La": 2, "Rgb": 3, "Rgba": 4}[tup]:
        return "depth %d for %s" % (depth, tup)
    return tup, bits


DECL = {"PngEncoder": d_png, "IcoEncoder": d_ico, "WebPEncoder": d_webp, "TiffEncoder": d_tiff, "GifEncoder": d_gif, "AvifEncoder": d_avif,
        "OpenExrEncoder": d_exr, "BmpEncoder": d_bmp, "TgaEncoder": d_tga, "FarbfeldEncoder": d_farbfeld, "HdrEncoder": d_hdr, "QoiEncoder": d_qoi,
        "PnmEncoder": d_pnm, "JpegEncoder": d_jpeg}
# documented in the source: BMP has no grey with alpha, the alpha channel is left out
STORED = {("BmpEncoder", "La8"): ("L", 8)}
ONLY = {"QoiEncoder": ("Rgb8", "Rgba8"), "HdrEncoder": ("Rgb32F",), "FarbfeldEncoder": ("Rgba16",), "OpenExrEncoder": ("Rgb32F", "Rgba32F"),
        "AvifEncoder": ("L8", "La8", "Rgb8", "Rgba8", "L16", "La16", "Rgb16", "Rgba16")}


def run(ck):
    p = ck.p
    ck.rule("refuse", "a colour type an encoder does not take is refused before anything is written", 150)
    ck.rule("declare", "the header an encoder writes for a colour type it takes declares that type's channels and depth", 30)
    ck.rule("order", "colour samples are written in the order the format stores them", 6)
    ck.rule("pnm-header", "a PNM header chosen by the caller is refused unless its channel count and sample width are those of the samples", 2)
    ck.rule("jpeg-pixel", "JpegEncoder::encode_image writes one component for grey and three for colour pixels of 8 bits and refuses other pixel types before writing", 8)
    ck.assumptions += ["AVIF stores 8-bit RGB or RGBA, other types are converted first (documented)", "images are non-empty",
                       "third-party encoders honour the colour type, depth and type parameter they are given"]
    X, cols = N.colours(p)
    for e in N.entries(p):
        enc = e.name.split("::")[0]
        for cv, cn, bits in cols:
            pl = len(p.adts[X]["variants"][cv]["f"])
            if ck.each("refuse", "%s(%s)" % (e.name, cn), one, ck, e, enc, X, cv, cn, bits, pl) == "nocolour":
                break
    ck.each("pnm-header", "PnmEncoder", pnm_header, ck, X, cols)
    ck.each("jpeg-pixel", "JpegEncoder::encode_image", jpeg_pixel, ck)


def one(ck, e, enc, X, cv, cn, bits, pl):
    p = ck.p
    # encode_image is judged per pixel type by the rule jpeg-pixel
    kw = {"no_inline": lambda fi, name: name == "JpegEncoder::encode_image"} if enc == "JpegEncoder" else {}
    E, outs, takes, unit = run_ok(ck, e, cv, X, pl, **kw)
    inst = "%s(%s)" % (e.name, cn)
    where = "%s (%s)" % (e.it["path"], p.loc_of_item(e.it))
    if not takes:
        return "nocolour"
    late = None
    acc = []
    for o in outs:
        ok, f, u = live(o, bits)
        if not ok:
            continue
        if o.kind != "ret":
            if o.kind == "panic" and f is True and bits is not None:
                late = late or "%s: panics for %s samples of the right number (%s)" % (where, cn, o.why)
            continue
        wr = [x for x in o.st.eff if x[0] == "write"]
        fail = is_failure(E, o.st, o.val)
        if fail is True:
            if wr and 1 not in err_facts(o.st).values() and decided(E, o):
                late = "%s: %s is refused after %s at %s" % (where, cn, wr[0][1], wr[0][4][2])
        elif fail is False and wr:
            acc.append(o)
    if acc:
        dec = DECL.get(enc)
        if enc in ONLY and cn not in ONLY[enc]:
            return ck.bad("declare", inst, "%s: %s is accepted, the format cannot store it" % (where, cn))
        f = layout(cn)
        want = STORED.get((enc, cn)) or ((f[0], f[2]) if f else None)
        n = 0
        und = None
        for o in acc:
            if enc == "PnmEncoder" and chosen(E, o):
                continue
            d = dec(E, o, cn) if dec else None
            if d is None:
                und = "%s: what is declared for %s could not be determined" % (where, cn)
            elif d != want:
                return ck.bad("declare", inst, "%s: %s is written as %s" % (where, cn, "%s, %s bits per sample" % d if isinstance(d, tuple) else d))
            else:
                n += 1
        if n or und:
            ck.judge("declare", inst, None if und else True, und, "%d paths" % n)
            if n and enc in ("BmpEncoder", "TgaEncoder"):
                order(ck, E, acc, enc, cn, inst, where)
    elif late:
        return ck.bad("refuse", inst, late)
    else:
        ck.ok("refuse", inst, "%d outcomes" % len(outs))
    if acc and late:
        ck.bad("refuse", inst, late)


def decided(E, o):
    """the error is one the encoder makes itself, not one of the destination"""
    v = E.deep(o.st, o.val)
    e = v[3][0] if v[0] == "agg" and len(v[3]) == 1 else None
    if e is None or e[0] != "agg" or not str(e[1]).endswith("ImageError"):
        return False
    return E.p.adts[e[1]]["variants"][e[2]]["n"] != "IoError"


def chosen(E, o):
    for t, v in o.st.facts:
        if t[0] == "discr" and t[2].endswith("HeaderStrategy"):
            names = [x["n"] for x in E.p.adts[t[2]]["variants"]]
            return v == names.index("Chosen") if type(v) is int else None
    return False


# --- sample order ------------------------------------------------------------------------------------------------------
def order(ck, E, acc, enc, cn, inst, where):
    """BMP and TGA store blue first"""
    f = layout(cn)
    want = {"Rgb": [2, 1, 0], "Rgba": [2, 1, 0, 3]}.get(f[0])
    if enc == "TgaEncoder":
        # samples are swapped in a copy of the caller's buffer
        for o in acc:
            sw = []
            for st in [o.st] + [b for b in E.bodies if prefix(b, o)]:
                for x in st.eff:
                    if x[0] == "call" and x[1] == "slice::swap":
                        sw.append(tuple(sorted((const(x[2][1]), const(x[2][2])), key=str)))
            if want and (not sw or set(sw) != {(0, 2)}):
                return ck.bad("order", inst, "%s: the samples of %s are written with %s exchanged" % (where, cn, sorted(set(sw), key=str) or "nothing"))
            if not want and sw:
                return ck.bad("order", inst, "%s: the samples of %s are written with %s exchanged" % (where, cn, sorted(set(sw), key=str)))
        return ck.ok("order", inst, "red and blue exchanged" if want else "unchanged")
    got = set()
    for st in E.bodies:
        for x in st.eff:
            if x[0] == "call" and x[1] == "Write::write_all":
                v = E.strip(st, x[2][1])
                if v[0] == "agg" and v[1] == "array" and not all(b[0] == "c" for b in v[3]):
                    bs = [E.strip(st, y) for y in v[3]]
                    src = {b[1] for b in bs if b[0] == "idx"}
                    if len(src) == 1 and T.contains(next(iter(src)), N.BUF):
                        got.add(tuple(first(b[2]) if b[0] == "idx" else None for b in bs))
    if not want:
        return
    if not got or any(None in g for g in got):
        return ck.und("order", inst, "%s: order of the samples of a pixel not determined" % where)
    ck.judge("order", inst, got == {tuple(want)}, "%s: the samples of a %s pixel are written in the order %s, the format stores %s" % (
        where, cn, sorted(got), want), "order %s" % want)


def first(t):
    """the index a sample is taken from in the first iteration of the loops, for a 1x1 image"""
    env = {N.W: 1, N.H: 1}
    for s in T.subterms(t):
        if s and s[0] == "ind":
            env[s] = 0
    return T.evalt(t, env)


def prefix(st, o):
    """a loop iteration entered by this path (same decisions as far as both go)"""
    d = dict(st.facts)
    return all(d.get(t, v) == v for t, v in o.st.facts)


# --- PNM headers chosen by the caller -----------------------------------------------------------------------------------
def pnm_header(ck, X, cols):
    p = ck.p
    es = [e for e in N.entries(p) if e.name.startswith("PnmEncoder::write_image")]
    if len(es) != 1:
        return ck.und("pnm-header", "PnmEncoder", "entry point not found")
    e = es[0]
    where = "%s (%s)" % (e.it["path"], p.loc_of_item(e.it))
    hadt = tb.find_adt(p, "HeaderRecord")
    vs = [v["n"] for v in p.adts[hadt]["variants"]]
    for cv, cn, bits in cols:
        f = layout(cn)
        if f is None:
            continue
        E, outs, takes, unit = run_ok(ck, e, cv, X, 0)
        n = 0
        for o in outs:
            if o.kind != "ret" or is_failure(E, o.st, o.val) is not False or not chosen(E, o):
                continue
            rec = [(t[1], v) for t, v in o.st.facts if t[0] == "discr" and t[2] == hadt and type(v) is int]
            if not rec:
                continue
            base, v = rec[0]
            h = ("fld", base, v, 0)
            adt = p.ty(p.adts[hadt]["variants"][v]["f"][0]["ty"])[1]
            fn = [x["n"] for x in p.adts[adt]["variants"][0]["f"]]
            kind = vs[v]
            fld = {nm: ("fld", h, 0, i) for i, nm in enumerate(fn)}
            fld.update({nm: alt for nm in fn for alt in [find(o, h, fn.index(nm))] if alt})
            bad = pnm_bad(o, fld, kind, cn, f)
            n += 1
            if bad:
                return ck.bad("pnm-header", "PnmEncoder(%s)" % cn, "%s: a chosen %s header with %s is written for %s samples" % (where, kind, bad, cn))
        if n:
            ck.ok("pnm-header", "PnmEncoder(%s)" % cn, "%d accepted paths" % n)


def find(o, h, i):
    for t, v in o.st.facts:
        for s in T.subterms(t):
            if s and s[0] == "fld" and s[1] == h and s[3] == i:
                return s
    return None


def pnm_bad(o, fld, kind, cn, f):
    chans = f[1]
    for w, h in ((3, 2), (1, 1), (8, 1)):
        for depth in (1, 2, 3, 4):
            for mx in (1, 255, 256, 65535):
                for ascii_ in (False, True):
                    env = {N.W: w, N.H: h, N.LEN: N.need(f[2] * chans, w, h), fld["width"]: w, fld["height"]: h}
                    m = fld.get("maxval") or fld.get("maxwhite")
                    if m:
                        env[m] = mx
                    if "depth" in fld:
                        env[fld["depth"]] = depth
                    r = L.feasible(o, env)[0]
                    if r is False:
                        continue
                    # write_image hands the samples over as bytes
                    if "depth" in fld and depth != chans:
                        return "depth %d" % depth
                    if kind == "Pixmap" and chans != 3 or kind in ("Graymap", "Bitmap") and chans != 1:
                        return "another channel count"
                    enc = [v for t, v in o.st.facts if t[0] == "discr" and "encoding" in fld and t[1] == fld["encoding"]]
                    binary = kind == "Arbitrary" or kind != "Bitmap" and 0 in enc
                    if m and mx > 255 and binary:
                        return "a largest value of %d and one byte per sample" % mx
    return None


# --- JPEG from any image view -------------------------------------------------------------------------------------------
def pixel_image(p, px):
    """ImageBuffer<P, Vec<sample>>"""
    ib = tb.find_adt(p, "ImageBuffer")
    for it in p.fns():
        for l in it["body"]["locals"]:
            t = p.ty(l[0])
            if t[0] == "adt" and t[1].split("::")[-1] == "Vec" and len(t[2]):
                return ("adt", ib, (px, ("adt", t[1], (px[2][0],) + t[2][1:])))


def jpeg_pixel(ck):
    p = ck.p
    it = [i for i in p.fns() if i["name"] == "encode_image" and "JpegEncoder" in i["path"]]
    if len(it) != 1:
        return ck.und("jpeg-pixel", "JpegEncoder::encode_image", "method not found")
    it = it[0]
    b = it["body"]
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    enc = p.ty(b["locals"][1][0])[1]
    gi = [g[0] for g in it["generics"] if g[2] == "type" and g[0] >= len(enc[2])]
    G = graph.Graph(p)
    pixels = sorted({im["_self"] for im in p.impls if im.get("trait", "").split("::")[-1] == "PixelWithColorType"}, key=str)
    IMG = ("sym", "img")

    def coder(fi, name):
        # the functions that turn pixels into blocks: they take the encoder and the image
        if not name.startswith("JpegEncoder::") or name == "JpegEncoder::encode_image":
            return name.endswith("build_huffman_segment")
        return name in coders
    coders = set()
    for ci in p.fns():
        if "JpegEncoder" in ci["path"] and ci["kind"] != "closure" and ci["body"]["argc"] == 2 and ci is not it:
            t = p.ty(ci["body"]["locals"][2][0])
            if t[0] == "ref" and t[1][0] == "param" and not ci.get("pubvis"):
                coders.add("JpegEncoder::" + ci["name"])
    for px in pixels:
        nm = p.tystr(px)
        inst = "encode_image(%s)" % nm
        E = OkEngine(p, max_paths=3000, max_steps=200000, no_inline=coder)
        E.stop = False
        E.wparams = tuple(a for a in enc[2] if a[0] == "param")
        st = absint.State()
        st.mem[("arg", "self")] = ("sym", "enc")
        outs = E.run(it, [("ref", ("arg", "self"), (), True), IMG], st=st, subst={gi[0]: pixel_image(p, px)})
        E.npaths = len(outs)
        ck.saw(E)
        eight = p.tystr(px[2][0]) == "u8"
        grey = px[1].split("::")[-1].startswith("Luma")
        bad = und = None
        acc = 0
        for o in outs:
            if o.kind != "ret":
                continue
            fail = is_failure(E, o.st, o.val)
            wr = [x for x in o.st.eff if x[0] == "write"]
            if not eight:
                if fail is not True or wr and 1 not in err_facts(o.st).values():
                    bad = "%s pixels are written (first by %s)" % (nm, wr[0][4][2] if wr else "?")
                    break
                continue
            if fail is True:
                continue
            acc += 1
            seg = segments(E, o)
            sof, sos = seg.get(0xC0), seg.get(0xDA)
            n = 1 if grey else 3
            if sof is None or sos is None or not sof or not sos:
                und = "frame or scan header not determined"
                continue
            if len(sof) < 6 or const(sof[0]) != 8 or const(sof[5]) != n:
                bad = "the frame header declares %s bits per sample and %s components for %s" % (const(sof[0]), const(sof[5]) if len(sof) > 5 else None, nm)
                break
            if const(sos[0]) != n:
                bad = "the scan header declares %s components for %s" % (const(sos[0]), nm)
                break
            cs = {x[1] for x in o.st.eff if x[0] == "call" and x[1] in coders}
            kinds = {colour_coder(p, G, c) for c in cs}
            if len(kinds) != 1 or None in kinds:
                und = "which blocks are written was not determined (%s)" % sorted(cs)
            elif kinds != {not grey}:
                bad = "%s pixels are written with the %s coder" % (nm, "grey" if not grey else "colour")
                break
        if bad:
            ck.bad("jpeg-pixel", inst, "%s: %s" % (where, bad))
        elif und or eight and not acc:
            ck.und("jpeg-pixel", inst, "%s: %s" % (where, und or "no path"))
        else:
            ck.ok("jpeg-pixel", inst, "%d paths" % len(outs))


def colour_coder(p, G, name):
    """does the function write three components per pixel?"""
    its = [i for i in p.fns() if i["name"] == name.split("::")[-1] and "JpegEncoder" in i["path"]]
    if len(its) != 1:
        return None
    n = set()
    seen, todo = set(), [its[0]]
    while todo:
        it = todo.pop()
        if it["key"] in seen:
            continue
        seen.add(it["key"])
        for x in G.sites[it["key"]]:
            n.add(x.name.split("::")[-1])
            ci = p.items.get((x.fi or {}).get("key") or "")
            if ci is not None and "body" in ci and "jpeg" in ci["path"]:
                todo.append(ci)
    if "to_rgb" in n or "to_rgba" in n:
        return True
    if "to_luma" in n:
        return False
    return None


def segments(E, o):
    """marker byte -> the bytes of its segment (from the scratch buffer filled before the marker was written)"""
    out, cur = {}, []
    for x in o.st.eff:
        if x[0] != "call":
            continue
        if x[1] == "Vec::clear":
            cur = []
        elif x[1] == "Vec::push":
            cur.append(E.strip(o.st, x[2][1]))
        elif x[1] == "Vec::extend_from_slice":
            v = E.strip(o.st, x[2][1])
            if v[0] == "agg" and v[1] == "array":
                cur += list(v[3])
            elif v[0] == "call" and re.match(r"^[ui]\d+::to_[bln]e_bytes$", v[1]):
                cur += [v] * SIZES[v[1].split("::")[0]]
            else:
                cur.append(v)
        elif x[1] == "Write::write_all":
            v = E.strip(o.st, x[2][1])
            if v[0] == "agg" and v[1] == "array" and len(v[3]) == 2 and const(v[3][0]) == 0xFF and const(v[3][1]) is not None:
                out.setdefault(const(v[3][1]), list(cur))
    return out
