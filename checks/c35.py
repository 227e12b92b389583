"""C35: BMP, TGA and farbfeld files hold exactly the image."""
from checks import encoders as N
from vlib import spec, tables as tb, trace, wire, terms as T
from vlib.absint import State, Undecided, Out

BUF, W, H = ("sym", "buf"), ("sym", "w", (0, 2**32 - 1)), ("sym", "h", (0, 2**32 - 1))
OUT = ("stream", "out")
SIZES = [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 3), (2, 3), (3, 2), (4, 3), (5, 2)]
NCH = {"L8": 1, "La8": 2, "Rgb8": 3, "Rgba8": 4, "Rgba16": 8}


def writer(p, name):
    for it in p.fns():
        if it["name"] == "write_image" and it["path"].startswith("<") and ("::%s<" % name) in it["path"].split(" as ")[0] and it["path"].split(" as ")[1].startswith("image::ImageEncoder"):
            return it
    return None


def engine(ck, p, it, args, st, name):
    E = wire.Wire(p, unroll=8)
    outs = E.run(it, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return it, trace.Summary(E, outs), E


def encoder(p, name, over):
    adt = [a for a in p.adts if a.endswith("::" + name) and p.adts[a].get("local", True)][0]
    S = spec.obj(p, adt)
    fs = [f["n"] for f in p.adts[adt]["variants"][0]["f"]]
    left = set(over) - set(fs)
    if left:
        raise Undecided("%s has no field %s" % (name, sorted(left)))
    return S[:3] + (tuple(over.get(f, x) for f, x in zip(fs, S[3])),)


def colour(p, name):
    X, cols = N.colours(p)
    return [("agg", X, i, ()) for i, cn, _ in cols if cn == name][0]


def summary(ck, p, name, col, over=None):
    it = writer(p, name)
    if it is None:
        raise Undecided("no write_image for %s" % name)
    return engine(ck, p, it, [encoder(p, name, over or {}), ("ref", ("arg", "buf"), (), False), W, H, colour(p, col)], start(), name)


def start():
    st = State()
    st.mem[("arg", "buf")] = BUF
    return st


def emit(S, w, h, data, extra=None, name="out"):
    env = {W: w, H: h, BUF: tuple(data), ("ref", ("arg", "buf"), (), False): tuple(data), ("len", BUF): len(data)}
    env.update(extra or {})
    r = wire.Emit(S, env)
    r.go()
    return r


def file_of(S, w, h, data, extra=None):
    """(bytes, None) or (None, what went wrong)"""
    r = emit(S, w, h, data, extra)
    if r.fault:
        return None, "encoding fails: %s" % (r.fault,)
    if r.out is None or r.out.kind != "ret":
        return None, "encoding panics"
    if r.out.val[0] == "agg" and r.out.val[2] == 1:
        return None, "encoding is refused"
    b = r.buf.get("out")
    if b is None or any(not isinstance(x, int) for x in b.items):
        raise Undecided("bytes of the file")
    return bytes(b.items), None


class Bad(Exception):
    pass


def le(b, at, n):
    if at + n > len(b):
        raise Bad("the file ends inside its header")
    return int.from_bytes(b[at:at + n], "little")


def want(name, got, exp):
    if got != exp:
        raise Bad("%s is %s, not %s" % (name, got, exp))


def read_bmp(b, w, h):
    """[row][column] -> (r, g, b, a) following the BMP specification"""
    want("the signature", b[:2], b"BM")
    want("the file size field", le(b, 2, 4), len(b))
    off, dib = le(b, 10, 4), le(b, 14, 4)
    if dib not in (40, 108, 124):
        raise Bad("header size %d" % dib)
    want("the width field", le(b, 18, 4), w)
    sh = le(b, 22, 4)
    down = sh >= 2**31
    want("the height field", 2**32 - sh if down else sh, h)
    want("the number of planes", le(b, 26, 2), 1)
    bpp, comp, size, ncol = le(b, 28, 2), le(b, 30, 4), le(b, 34, 4), le(b, 46, 4)
    if comp not in (0, 3) or bpp not in (8, 24, 32) or (comp == 3) != (bpp == 32 and comp == 3):
        raise Bad("%d bits per pixel with compression %d" % (bpp, comp))
    masks = None
    at = 14 + dib
    if comp == 3:
        masks = [le(b, 54 + 4 * i, 4) for i in range(4 if dib >= 108 else 3)]
        if dib == 40:
            at += 12
        if dib >= 108 and le(b, 70, 4) not in (0x73524742, 0x57696E20):
            raise Bad("the colour space is %#x" % le(b, 70, 4))
    pal = []
    if bpp == 8:
        n = ncol or 256
        for i in range(n):
            q = b[at + 4 * i:at + 4 * i + 4]
            if len(q) < 4:
                raise Bad("the file ends inside its palette")
            pal.append((q[2], q[1], q[0], 255))
        at += 4 * n
    if off < at or off > len(b):
        raise Bad("the pixel data is said to start at %d, the headers end at %d" % (off, at))
    want("the pixel data offset", off, at)
    stride = (w * bpp + 31) // 32 * 4
    if size or comp:
        want("the image size field", size, stride * h)
    want("the size of the file", len(b), off + stride * h)
    rows = []
    for y in range(h):
        o = off + stride * (y if down else h - 1 - y)
        row = []
        for x in range(w):
            q = b[o + x * bpp // 8:o + (x + 1) * bpp // 8]
            if bpp == 8:
                if q[0] >= len(pal):
                    raise Bad("an index outside the palette")
                row.append(pal[q[0]])
            elif masks:
                v = int.from_bytes(q, "little")
                row.append(tuple((v & m) // (m & -m) if m else 255 for m in (masks + [0])[:4]))
            else:
                row.append((q[2], q[1], q[0], 255))
        rows.append(row)
        if any(b[o + w * bpp // 8:o + stride]):
            raise Bad("row padding is not zero")
    return rows


def read_tga(b, w, h):
    idlen, cmap, typ = le(b, 0, 1), le(b, 1, 1), le(b, 2, 1)
    want("the colour map type", cmap, 0)
    want("the width field", le(b, 12, 2), w)
    want("the height field", le(b, 14, 2), h)
    bpp, desc = le(b, 16, 1), le(b, 17, 1)
    if (typ, bpp) not in ((2, 24), (2, 32), (3, 8), (3, 16), (10, 24), (10, 32), (11, 8), (11, 16)):
        raise Bad("image type %d with %d bits per pixel" % (typ, bpp))
    want("the number of alpha bits", desc & 15, {24: 0, 32: 8, 8: 0, 16: 8}[bpp])
    n = bpp // 8
    at = 18 + idlen
    px = []
    if typ >= 8:
        while len(px) < w * h:
            k = le(b, at, 1)
            at += 1
            c = (k & 127) + 1
            m = 1 if k & 128 else c
            q = [b[at + n * i:at + n * i + n] for i in range(m)]
            if any(len(x) < n for x in q):
                raise Bad("the file ends inside a packet")
            at += n * m
            px += q * c if k & 128 else q
        want("the number of pixels in the packets", len(px), w * h)
    else:
        px = [b[at + n * i:at + n * i + n] for i in range(w * h)]
        at += n * w * h
    want("the size of the file", len(b), at)
    rows = []
    for y in range(h):
        row = []
        for x in range(w):
            yy = y if desc & 32 else h - 1 - y
            xx = w - 1 - x if desc & 16 else x
            q = px[yy * w + xx]
            row.append({1: lambda: (q[0], q[0], q[0], 255), 2: lambda: (q[0], q[0], q[0], q[1]), 3: lambda: (q[2], q[1], q[0], 255), 4: lambda: (q[2], q[1], q[0], q[3])}[n]())
        rows.append(row)
    return rows


def read_ff(b, w, h):
    want("the signature", b[:8], b"farbfeld")
    want("the width field", int.from_bytes(b[8:12], "big"), w)
    want("the height field", int.from_bytes(b[12:16], "big"), h)
    want("the size of the file", len(b), 16 + 8 * w * h)
    v = [int.from_bytes(b[16 + 2 * i:18 + 2 * i], "big") for i in range(4 * w * h)]
    return [[tuple(v[4 * (y * w + x):4 * (y * w + x) + 4]) for x in range(w)] for y in range(h)]


def pixels(col, w, h, data, palette=None, alpha=True):
    """what the image shows"""
    n = NCH[col]
    def at(i):
        q = data[i * n:i * n + n]
        if col == "Rgba16":
            return tuple(int.from_bytes(bytes(q[2 * j:2 * j + 2]), "little") for j in range(4))
        if col in ("L8", "La8"):
            g = palette[q[0]] if palette else (q[0],) * 3
            return tuple(g) + (q[1] if col == "La8" and alpha else 255,)
        return tuple(q) + (255,) * (4 - n)
    return [[at(y * w + x) for x in range(w)] for y in range(h)]


def noise(k, seed=1):
    v = seed * 2654435761 % 2**32
    out = []
    for _ in range(k):
        v = (v * 1103515245 + 12345) % 2**31
        out.append(v >> 16 & 255)
    return out


def plain(col):
    """(w, h, data) of ordinary images"""
    n = NCH[col]
    for i, (w, h) in enumerate(SIZES):
        yield w, h, noise(w * h * n, i + 1)
    if n == 1 or n == 8:
        yield 257, 1, noise(257 * n)
        yield 1, 258, noise(258 * n)
    yield 3, 1, [0, 255, 128, 1, 254, 2, 253, 129][:n] * 3


def runs(col):
    """images that exercise run lengths"""
    n = NCH[col]
    a, b, d = ([k + i for i in range(n)] for k in (10, 77, 200))
    near = a[:-1] + [a[-1] ^ 1]
    base = [
        [a] * 2, [a] * 3, [a, b], [a, a, b], [a, b, b], [a, b, a, b], [a, a, b, b], [a, b, b, b, d], [b, a, a, d, d], [a, near, a], [near, near, a, a],
        [a] * 127, [a] * 128, [a] * 129, [a] * 130, [a] * 256, [a] * 257, [a] * 128 + [b], [a] * 129 + [b], [a] * 127 + [b, b],
    ]
    alt = [[(k * 7 + i) % 256 for i in range(n)] for k in range(300)]
    base += [alt[:k] for k in (127, 128, 129, 130, 256, 257)]
    base += [alt[:127] + [a, a, a], alt[:128] + [a, a], alt[:126] + [a, a, b], [a] * 5 + alt[:128] + [a] * 5, alt[:128] + [alt[127]] * 3, [a] * 128 + [a, b, a]]
    for r in base:
        yield len(r), 1, [x for q in r for x in q]
    yield 3, 2, [x for q in [a, a, b, b, b, a] for x in q]
    yield 2, 3, [x for q in [a, b, b, b, b, d] for x in q]


def judge(ck, rule, inst, path, S, col, cases, read, alpha=True, palette=None, extra=None):
    done = 0
    for w, h, data in cases:
        b, why = file_of(S, w, h, data, extra)
        if why is None:
            try:
                got = read(b, w, h)
                exp = pixels(col, w, h, data, palette, alpha)
                if got != exp:
                    y, x = next((y, x) for y in range(h) for x in range(w) if got[y][x] != exp[y][x])
                    why = "the pixel at %d, %d reads back as %s, not %s" % (x, y, got[y][x], exp[y][x])
            except Bad as e:
                why = str(e)
        if why is not None:
            return ck.bad(rule, inst, "%s: for a %d x %d %s image with bytes %s%s: %s" % (path, w, h, col, list(data)[:24], "..." if len(data) > 24 else "", why))
        done += 1
    ck.ok(rule, inst, "%d images, %d paths of %s" % (done, len(S.traces), path))


def one(ck, rule, enc, col, over, cases, read, alpha=True, tag=""):
    def go():
        it, S, E = summary(ck, ck.p, enc, col, over)
        judge(ck, rule, "%s %s%s" % (enc, col, tag), it["path"], S, col, cases, read, alpha)
    ck.each(rule, "%s %s%s" % (enc, col, tag), go)


def run(ck):
    p = ck.p
    ck.rule("bmp", "a BMP file read by its specification shows the image's pixels: header fields, palette, channel masks, row order, padding, sizes", 5)
    ck.rule("tga", "a TGA file read by its specification shows the image's pixels: header fields, origin, packets", 8)
    ck.rule("farbfeld", "a farbfeld file read by its specification shows the image's pixels", 1)

    for col in ("L8", "La8", "Rgb8", "Rgba8"):
        one(ck, "bmp", "BmpEncoder", col, {"writer": OUT}, list(plain(col)), read_bmp, alpha=False)
    for col in ("L8", "La8", "Rgb8", "Rgba8"):
        for rle in (0, 1):
            one(ck, "tga", "TgaEncoder", col, {"writer": OUT, "use_rle": T.c(rle)}, list(plain(col)) + (list(runs(col)) if rle else []), read_tga, tag=" packets" if rle else "")
    one(ck, "farbfeld", "FarbfeldEncoder", "Rgba16", {"w": OUT}, list(plain("Rgba16")), read_ff)

    def palette():
        it = [f for f in p.fns() if f["path"].endswith("::encode_with_palette") and "BmpEncoder" in f["path"]][0]
        st = start()
        st.mem[("arg", "enc")] = encoder(p, "BmpEncoder", {"writer": OUT})
        n = 3
        pal = [(10, 200, 30), (7, 6, 5), (0, 128, 255)]
        arr = ("agg", "array", 0, tuple(("agg", "array", 0, tuple(T.c(v) for v in q)) for q in pal))
        st.mem[("arg", "pal")] = arr
        some = ("agg", "std::option::Option", 1, (("sliceref", ("ref", ("arg", "pal"), (), False), T.c(0), T.c(n)),))
        it, S, E = engine(ck, p, it, [("ref", ("arg", "enc"), (), True), ("ref", ("arg", "buf"), (), False), W, H, colour(p, "L8"), some], st, "BmpEncoder")
        cases = [(w, h, [v % n for v in noise(w * h, i)]) for i, (w, h) in enumerate(SIZES)]
        judge(ck, "bmp", "BmpEncoder palette", it["path"], S, "L8", cases, read_bmp, False, pal)

    ck.each("bmp", "BmpEncoder palette", palette)
