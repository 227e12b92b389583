"""C36: Netpbm files hold exactly the image."""
from checks.c35 import Bad, OUT, W, H, file_of, noise, one, plain, summary, want
from vlib import terms as T

SPACE = b" \t\n\x0b\x0c\r"


def read_pnm(b, w, h):
    """Netpbm: P1 to P6, and PAM"""
    kind = b[:2]
    at = 2

    def token():
        nonlocal at
        while b[at:at + 1] and b[at:at + 1] in SPACE:
            at += 1
        s = at
        while b[at:at + 1] and b[at:at + 1] not in SPACE:
            at += 1
        t = b[s:at]
        if not t.isdigit():
            raise Bad("%r is not a number" % t)
        return int(t)

    if kind == b"P7":
        f = {}
        end = b.find(b"\nENDHDR\n")
        if end < 0 or b[2:3] != b"\n":
            raise Bad("the header has no end")
        for l in b[3:end].split(b"\n"):
            k, _, v = l.partition(b" ")
            if k in f:
                raise Bad("%s is given twice" % k.decode())
            f[k] = v
        want("WIDTH", f.get(b"WIDTH"), b"%d" % w)
        want("HEIGHT", f.get(b"HEIGHT"), b"%d" % h)
        want("MAXVAL", f.get(b"MAXVAL"), b"255")
        d = {b"GRAYSCALE": 1, b"GRAYSCALE_ALPHA": 2, b"RGB": 3, b"RGB_ALPHA": 4}.get(f.get(b"TUPLTYPE"))
        want("DEPTH", f.get(b"DEPTH"), b"%d" % d if d else None)
        v, top = list(b[end + 8:]), 255
    elif kind in (b"P1", b"P2", b"P3", b"P4", b"P5", b"P6"):
        want("the width", token(), w)
        want("the height", token(), h)
        top = 1 if kind in (b"P1", b"P4") else token()
        d = 3 if kind in (b"P3", b"P6") else 1
        if b[at:at + 1] not in SPACE or at >= len(b):
            raise Bad("no white space after the header")
        at += 1
        if kind in (b"P1", b"P2", b"P3"):
            if max((len(l) for l in b[at:].split(b"\n")), default=0) > 70:
                raise Bad("a line of more than 70 characters")
            v = []
            while len(v) < w * h * d:
                v.append(token())
            if b[at:].strip(SPACE):
                raise Bad("something follows the last sample")
        elif kind == b"P4":
            n = (w + 7) // 8
            want("the number of bytes", len(b) - at, n * h)
            v = [b[at + n * y + x // 8] >> 7 - x % 8 & 1 for y in range(h) for x in range(w)]
        else:
            v = list(b[at:])
    else:
        raise Bad("the signature is %r" % kind)
    want("the number of samples", len(v), w * h * d)
    if any(x > top for x in v):
        raise Bad("a sample is above the maximum %d" % top)
    if kind in (b"P1", b"P4"):
        v = [0 if x else 255 for x in v]
    def px(q):
        return (q[0],) * 3 + (q[1] if d == 2 else 255,) if d < 3 else tuple(q) + (255,) * (4 - d)
    return [[px(v[d * (y * w + x):d * (y * w + x) + d]) for x in range(w)] for y in range(h)]


def binary(cases):
    """images of black and white pixels"""
    for w, h, data in cases:
        yield w, h, [255 * (v & 1) for v in data]
        yield w, h, [0] * len(data)
    for w in (7, 8, 9, 15, 16, 17, 36, 80):
        yield w, 2, [255 * (v & 1) for v in noise(2 * w, w)]


def empty(cases):
    yield from cases
    yield 0, 2, []
    yield 2, 0, []


def run(ck):
    p = ck.p
    ck.rule("pnm", "a Netpbm file read by its specification shows the image's pixels, and samples beyond the header's maximum are refused", 12)

    HS, PS, SE = ([a for a in p.adts if a.endswith("::" + n)][0] for n in ("HeaderStrategy", "PnmSubtype", "SampleEncoding"))

    def variant(adt, name, args=()):
        return ("agg", adt, [v["n"] for v in p.adts[adt]["variants"]].index(name), tuple(args))

    for col in ("L8", "La8", "Rgb8", "Rgba8"):
        one(ck, "pnm", "PnmEncoder", col, {"writer": OUT, "header": variant(HS, "Dynamic")}, list(empty(plain(col))), read_pnm, tag=" any map")
    for enc in ("Binary", "Ascii"):
        for sub, col in (("Bitmap", "L8"), ("Graymap", "L8"), ("Pixmap", "Rgb8")):
            cases = list(empty(binary(plain(col)) if sub == "Bitmap" else plain(col)))
            one(ck, "pnm", "PnmEncoder", col, {"writer": OUT, "header": variant(HS, "Subtype", [variant(PS, sub, [variant(SE, enc)])])}, cases, read_pnm, tag=" %s %s" % (enc, sub))

    def chosen(enc):
        """a header with a maximum of its own: images within it are written, others are refused"""
        def adt(n):
            return [a for a in p.adts if a.endswith("::" + n)][0]
        vals = {"encoding": variant(SE, enc), "width": W, "height": H, "maxwhite": T.c(100)}
        gray = ("agg", adt("GraymapHeader"), 0, tuple(vals[f["n"]] for f in p.adts[adt("GraymapHeader")]["variants"][0]["f"]))
        hv = {"decoded": variant(adt("HeaderRecord"), "Graymap", [gray]), "encoded": ("agg", "std::option::Option", 0, ())}
        hdr = ("agg", adt("PnmHeader"), 0, tuple(hv[f["n"]] for f in p.adts[adt("PnmHeader")]["variants"][0]["f"]))
        it, S, E = summary(ck, p, "PnmEncoder", "L8", {"writer": OUT, "header": variant(HS, "Chosen", [hdr])})
        inst = "PnmEncoder L8 chosen %s header" % enc
        for data, fits in (([0, 100, 50], True), ([100] * 3, True), ([0] * 3, True), ([101, 0, 0], False), ([0, 1, 255], False), ([200] * 3, False)):
            b, why = file_of(S, 3, 1, data)
            if fits and why is None:
                try:
                    got = [[q[0] for q in r] for r in read_pnm(b, 3, 1)]
                    why = None if got == [data] else "the samples read back as %s" % got
                except Bad as e:
                    why = str(e)
            if fits and why is not None or not fits and why != "encoding is refused":
                return ck.bad("pnm", inst, "%s: samples %s under a header with maximum 100: %s" % (it["path"], data, why or "written to the file"))
        ck.ok("pnm", inst, "6 images")

    for enc in ("Binary", "Ascii"):
        ck.each("pnm", "PnmEncoder L8 chosen %s header" % enc, chosen, enc)
