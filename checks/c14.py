"""C14: orientation metadata is read, composed and applied correctly."""
import struct
from vlib import absint, spec, tables as tb, trace, terms as T
from vlib.absint import OPTION, RESULT, Out, State, Undecided
from checks import c13

c = T.c
EXIF = {1: "NoTransforms", 2: "FlipHorizontal", 3: "Rotate180", 4: "FlipVertical", 5: "Rotate90FlipH", 6: "Rotate90", 7: "Rotate270FlipH", 8: "Rotate270"}
SAME = (lambda w, h: (w, h))
TURN = (lambda w, h: (h, w))
# what the EXIF standard asks for: the size of the upright image and the stored pixel shown at (x, y)
APPLY = {
    "NoTransforms": (SAME, lambda w, h, x, y: (x, y)),
    "FlipHorizontal": (SAME, lambda w, h, x, y: (w - 1 - x, y)),
    "Rotate180": (SAME, lambda w, h, x, y: (w - 1 - x, h - 1 - y)),
    "FlipVertical": (SAME, lambda w, h, x, y: (x, h - 1 - y)),
    "Rotate90FlipH": (TURN, lambda w, h, x, y: (y, x)),
    "Rotate90": (TURN, lambda w, h, x, y: (y, h - 1 - x)),
    "Rotate270FlipH": (TURN, lambda w, h, x, y: (w - 1 - y, h - 1 - x)),
    "Rotate270": (TURN, lambda w, h, x, y: (w - 1 - y, x)),
}
SIZES = [(0, 0), (0, 2), (1, 1), (2, 3), (3, 2), (4, 1), (1, 5), (3, 5), (4, 4), (5, 3)]


def run(ck):
    ck.rule("table", "each EXIF orientation value means its documented orientation and back; every other value is refused", 2)
    ck.rule("apply", "applying an orientation turns and mirrors the image exactly as documented, for every pixel type", 8)
    ck.rule("chunk", "the orientation of an EXIF block is the value of its orientation entry, whatever the byte order and position; blocks without a valid one have none", 1)
    ck.rule("decoder", "a decoder reports the orientation found in its metadata, NoTransforms when there is none, and errors as errors", 4)
    p = ck.p
    O, D = tb.find_adt(p, "Orientation"), tb.find_adt(p, "DynamicImage")
    vs = [v["n"] for v in p.adts[O]["variants"]]

    def name(v):
        return vs[v[2]] if v[0] == "agg" and v[1] == O else None

    def opt(v):
        if v[0] != "agg" or v[1] != OPTION:
            return None
        return "None" if v[2] == 0 else name(v[3][0])

    def tables():
        f = tb.method(p, O, "from_exif")
        k = spec.Case(ck, f)
        x = k.args[0]
        spec.agree(ck, "table", "from_exif", k, [{x: n} for n in range(256)], lambda env: EXIF.get(env[x], "None"),
                   lambda o, env: opt(spec.settle(k.E.deep(o.st, k.E.strip(o.st, o.val)), env)) if o.kind == "ret" else o.kind)
        f = tb.method(p, O, "to_exif")
        bad = []
        for i, n in enumerate(vs):
            k = spec.Case(ck, f, self_val=("agg", O, i, ()), byref=False)
            got = {T.evalt(o.val, {}) if o.kind == "ret" else o.kind for o in k.outs}
            if None in got:
                raise Undecided("to_exif(%s)" % n)
            if {EXIF.get(g) for g in got} != {n}:
                bad.append("%s is written as %s" % (n, sorted(got, key=str)))
        ck.judge("table", "to_exif", not bad, "; ".join(bad) or "%d orientations" % len(vs))
    ck.each("table", "tables", tables)
    apply_(ck, p, O, D, vs)
    chunk(ck, p, O, vs, opt)
    decoders(ck, p, O, vs, name)


def apply_(ck, p, O, D, vs):
    f = tb.method(p, D, "apply_orientation")
    kinds = [v["n"] for v in p.adts[D]["variants"]]
    for i, o in enumerate(vs):
        def go():
            size, geo = APPLY[o]
            for k, kind in enumerate(kinds):
                E = trace.Tracer(p)
                st = State()
                st.mem[("arg", "image")] = ("agg", D, k, (E.image("image"),))
                outs = E.run(f, [("ref", ("arg", "image"), (), True), ("agg", O, i, ())], st=st)
                E.npaths = len(outs)
                ck.saw(E)
                S = trace.Summary(E, outs)
                for w, h in SIZES:
                    r = c13.point(S, {"image": (w, h)}, {"image": c13.pixels(w, h)})
                    dst = None
                    if not r.fault:
                        if r.out is None or r.out.kind != "ret":
                            return ck.bad("apply", o, "%s: panics for a %dx%d %s image" % (c13.where(p, f), w, h, kind))
                        v = E.deep(r.out.st, r.out.st.mem[("arg", "image")])
                        if v[0] != "agg" or len(v[3]) != 1 or v[3][0][0] != "img":
                            raise Undecided("result %s" % T.show(v)[:100])
                        if v[2] != k:
                            return ck.bad("apply", o, "%s: a %s image becomes %s" % (c13.where(p, f), kind, kinds[v[2]]))
                        dst = v[3][0][1]
                    e = c13.compare(r, dst, size(w, h), geo, w, h)
                    if e:
                        return ck.bad("apply", o, "%s: for %s and a %dx%d %s image %s" % (c13.where(p, f), o, w, h, kind, e))
            ck.ok("apply", o, "%d pixel types, %d sizes" % (len(kinds), len(SIZES)))
        ck.each("apply", o, go)


def blocks():
    """(what, EXIF block, orientation or "None")"""
    for e in "<>":
        head = b"II*\0" if e == "<" else b"MM\0*"
        other = [struct.pack(e + "HHIHH", 0x10f, 3, 1, 6, 0), struct.pack(e + "HHIHH", 0x111, 3, 1, 2, 0), struct.pack(e + "HHII", 0x113, 4, 1, 0x00060006)]
        for off in (8, 9, 14, 300):
            for before in (0, 1, 2, 3):
                for v in list(range(0, 10)) + [255, 256, 257, 258, 262, 0x0600, 65535]:
                    if v > 1 and (off, before) not in ((8, 0), (9, 2), (14, 1)):
                        v = 3 + (v + before + off) % 6
                    ent = other[:before] + [struct.pack(e + "HHIHH", 0x112, 3, 1, v, 0)] + other[before:2]
                    b = head + struct.pack(e + "I", off)
                    b += b"\x01" * (off - len(b)) + struct.pack(e + "H", len(ent)) + b"".join(ent) + b"\0\0\0\0"
                    yield "%s block, directory at %d, entry %d, value %d" % (head[:2].decode(), off, before, v), b, EXIF.get(v, "None")
        # wrong type or count, and no orientation at all
        for t, n in ((4, 1), (1, 1), (3, 2), (3, 0)):
            b = head + struct.pack(e + "IHHHIHH", 8, 1, 0x112, t, n, 6, 0) + b"\0" * 4
            yield "%s block, orientation entry of type %d count %d" % (head[:2].decode(), t, n), b, "None"
        for n in (0, 2):
            b = head + struct.pack(e + "IH", 8, n) + b"".join(other[:n]) + b"\0" * 4
            yield "%s block without orientation entry" % head[:2].decode(), b, "None"
        # the entry lies behind the directory's end
        b = head + struct.pack(e + "IH", 8, 1) + other[0] + struct.pack(e + "HHIHH", 0x112, 3, 1, 6, 0)
        yield "%s block, orientation behind the directory" % head[:2].decode(), b, "None"
        for off in (0x108, 0x10008, 0x80000008, 0xffffffff):
            b = head + struct.pack(e + "IH", off, 1) + struct.pack(e + "HHIHH", 0x112, 3, 1, 6, 0)
            yield "%s block, directory at %d, behind its end" % (head[:2].decode(), off), b, "None"
        for off, n in ((66000, 0), (8, 300)):
            b = head + struct.pack(e + "I", off)
            b += b"\x01" * (off - len(b)) + struct.pack(e + "H", n + 1) + other[0] * n + struct.pack(e + "HHIHH", 0x112, 3, 1, 6, 0) + b"\0" * 4
            yield "%s block, directory at %d, entry %d" % (head[:2].decode(), off, n), b, EXIF[6]
        full = head + struct.pack(e + "IH", 8, 1) + struct.pack(e + "HHIHH", 0x112, 3, 1, 6, 0)
        for n in range(len(full)):
            yield "%s block cut to %d bytes" % (head[:2].decode(), n), full[:n], "None"
    for m in (b"II\0*", b"MM*\0", b"IM*\0", b"\0\0\0\0"):
        for e in "<>":
            yield "block starting with %r" % m, m + struct.pack(e + "IHHHIHH", 8, 1, 0x112, 3, 1, 6, 0), "None"


def chunk(ck, p, O, vs, opt):
    f = tb.method(p, O, "from_exif_chunk")

    def go():
        E = trace.Tracer(p)
        st = State()
        st.mem[("arg", "chunk")] = ("bytes", "chunk")
        outs = E.run(f, [("ref", ("arg", "chunk"), (), False)], st=st)
        E.npaths = len(outs)
        ck.saw(E)
        S = trace.Summary(E, outs)
        n = 0
        for what, b, want in blocks():
            r = trace.Run(S, {}, {})
            r.bytes = {"chunk": b}
            r.go()
            if r.out is None or r.out.kind != "ret":
                return ck.bad("chunk", "scan", "%s: panics for %s" % (c13.where(p, f), what))
            v = E.deep(r.out.st, E.strip(r.out.st, r.out.val))
            g = opt(spec.settle(v, r.env))
            if g is None:
                raise Undecided("result %s" % T.show(v)[:100])
            if g != want:
                return ck.bad("chunk", "scan", "%s: %s gives %s instead of %s" % (c13.where(p, f), what, g, want))
            n += 1
        ck.ok("chunk", "scan", "%d blocks" % n)
    ck.each("chunk", "scan", go)


SOURCES = {"JpegDecoder::exif": False, "WebPDecoder::exif_metadata": True, "ImageDecoder::exif_metadata": True}
EXIFSYM, FOUND, CACHED = ("sym", "exif block"), ("sym", "orientation in the block"), ("sym", "orientation found before")


def some(v):
    return ("agg", OPTION, 1, (v,))


NONE = ("agg", OPTION, 0, ())


def decoders(ck, p, O, vs, name):
    def hook(E, st, fr, n, fi, fargs, args, site):
        k = ".".join(n.split("::")[-2:])
        if n == "Orientation::from_exif_chunk":
            a = E.strip(st, args[0])
            if a != EXIFSYM and T.show(a) != T.show(EXIFSYM):
                raise Undecided("orientation of %s" % T.show(a)[:80])
            s2 = st.fork()
            st.facts = st.facts + ((("exif", "valid"), True),)
            s2.facts = s2.facts + ((("exif", "valid"), False),)
            return [Out(st, "ret", some(FOUND)), Out(s2, "ret", NONE)]
        if n in SOURCES and not (fi.get("local") and n != "ImageDecoder::exif_metadata") and not (
                n == "ImageDecoder::exif_metadata" and fargs and fargs[0][0] != "param"):
            res = SOURCES[n]
            ref = not res
            s2, s3 = st.fork(), st.fork()
            st.facts = st.facts + ((("exif", "present"), True),)
            s2.facts = s2.facts + ((("exif", "present"), False),)
            st.mem[("exif",)] = EXIFSYM
            v = some(("ref", ("exif",), (), False) if ref else EXIFSYM)
            if not res:
                return [Out(st, "ret", v), Out(s2, "ret", NONE)]
            s3.facts = s3.facts + ((("exif", "error"), True),)
            return [Out(st, "ret", ("agg", RESULT, 0, (v,))), Out(s2, "ret", ("agg", RESULT, 0, (NONE,))),
                    Out(s3, "ret", ("agg", RESULT, 1, (("sym", "the metadata error"),)))]
        return None

    def judge(inst, f, self_val, cached):
        k = spec.Case(ck, f, self_val=self_val, hook=hook)
        seen = set()
        for o in k.outs:
            fx = {t[1]: v for t, v in o.st.facts if t[0] == "exif"}
            if o.kind != "ret":
                return ck.bad("decoder", inst, "%s: panics: %s" % (k.where(), o.why))
            v = k.E.deep(o.st, k.E.strip(o.st, o.val))
            if v[0] == "call" and v[1].endswith("exif_metadata"):
                raise Undecided("metadata source %s" % v[1])
            if v[0] != "agg" or v[1] != RESULT:
                raise Undecided("result %s" % T.show(v)[:100])
            if v[2] == 1:
                if fx.get("present") is not None:
                    return ck.bad("decoder", inst, "%s: fails although the metadata could be read" % k.where())
                seen.add("error")
                continue
            g = v[3][0]
            if cached:
                if g != CACHED:
                    return ck.bad("decoder", inst, "%s: an orientation found before is answered with %s" % (k.where(), T.show(g)[:80]))
                seen.add("cached")
                continue
            if "error" in fx:
                return ck.bad("decoder", inst, "%s: an error while reading the metadata is answered with %s" % (k.where(), T.show(g)[:80]))
            if "present" not in fx:
                raise Undecided("result %s without reading the metadata" % T.show(g)[:80])
            want = fx["present"] and fx.get("valid")
            if fx["present"] and "valid" not in fx:
                return ck.bad("decoder", inst, "%s: answers %s without looking at the metadata present" % (k.where(), T.show(g)[:80]))
            if want and g != FOUND or not want and name(g) != "NoTransforms":
                return ck.bad("decoder", inst, "%s: metadata %s, answered with %s" % (
                    k.where(), "with an orientation" if want else "present without an orientation" if fx["present"] else "absent", T.show(g)[:80]))
            seen.add((fx["present"], fx.get("valid")))
        need = {"cached"} if cached else {"error", (True, True), (True, False), (False, None)}
        ck.judge("decoder", inst, need <= seen or None, "%s: %s" % (k.where(), sorted(map(str, need - seen)) or "%d outcomes" % len(k.outs)))

    f = p.trait_default("image::ImageDecoder", "orientation")
    ck.each("decoder", "default", lambda: judge("default", f, None, False))
    for im, it in p.impl_method("image::ImageDecoder", "orientation"):
        if it is None or im["_self"][0] != "adt" or im["_self"][1] not in p.adts or not p.adts[im["_self"][1]].get("local"):
            continue
        adt = im["_self"][1]
        inst = adt.split("::")[-1]
        o = spec.obj(p, adt)
        fs = p.adts[adt]["variants"][0]["f"]
        idx = [i for i, x in enumerate(fs) if p.ty(x["ty"]) == ("adt", OPTION, (("adt", O, ()),))]
        if adt.endswith("TiffDecoder"):
            ck.each("decoder", inst, lambda: tiff(ck, p, it, o, fs, vs, name, inst))
        elif idx:
            for cached in (False, True):
                v = o[:3] + (tuple((some(CACHED) if cached else NONE) if i in idx else x for i, x in enumerate(o[3])),)
                ck.each("decoder", inst, lambda: judge(inst + (" again" if cached else ""), it, v, cached))
        else:
            ck.each("decoder", inst, lambda: judge(inst, it, o, False))


def tiff(ck, p, it, o, fs, vs, name, inst):
    """the orientation tag of the first directory, as an EXIF value"""
    V = ("sym", "tag value", (0, 65535))
    inner = [i for i, f in enumerate(fs) if p.ty(f["ty"])[0] == "adt" and p.ty(f["ty"])[1] == OPTION][0]
    tags = set()

    def hook(E, st, fr, n, fi, fargs, args, site):
        m = n.split("::")[-1]
        if n.startswith("Decoder::") and m in ("find_tag", "get_tag"):
            t = E.strip(st, args[1])
            if t[0] != "agg" or t[1] not in E.p.adts:
                raise Undecided("tag %s" % T.show(t)[:60])
            tags.add((t[1], t[2]))
            s2, s3 = st.fork(), st.fork()
            st.facts += ((("tag", "present"), True),)
            s2.facts += ((("tag", "present"), False),)
            s3.facts += ((("tag", "error"), True),)
            return [Out(st, "ret", ("agg", RESULT, 0, (some(("sym", "tag")),))), Out(s2, "ret", ("agg", RESULT, 0, (NONE,))),
                    Out(s3, "ret", ("agg", RESULT, 1, (("sym", "tiff error"),)))]
        if m in ("into_u16", "into_u32", "into_u64") and E.strip(st, args[0]) == ("sym", "tag"):
            s2 = st.fork()
            st.facts += ((("tag", "number"), True),)
            s2.facts += ((("tag", "number"), False),)
            return [Out(st, "ret", ("agg", RESULT, 0, (V,))), Out(s2, "ret", ("agg", RESULT, 1, (("sym", "tiff error"),)))]
        return None
    for open_ in (True, False):
        v = o[:3] + (tuple((some(("sym", "tiff")) if open_ else NONE) if i == inner else x for i, x in enumerate(o[3])),)
        k = spec.Case(ck, it, self_val=v, hook=hook)
        for n in list(range(0, 300)) + [512 + 6, 65535, 65536 - 250]:
            for out, u in k.at({V: n}):
                fx = {t[1]: x for t, x in out.st.facts if t[0] == "tag"}
                if out.kind != "ret":
                    return ck.bad("decoder", inst, "%s: panics: %s" % (k.where(), out.why))
                r = k.E.deep(out.st, k.E.strip(out.st, out.val))
                if r[0] != "agg":
                    raise Undecided("result %s" % T.show(r)[:100])
                if ("error" in fx) != (r[2] == 1):
                    return ck.bad("decoder", inst, "%s: %s" % (k.where(), "an error reading the tag is hidden" if "error" in fx else "fails without an error of the reader"))
                if r[2] == 1:
                    continue
                want = EXIF.get(n, "NoTransforms") if fx.get("number") else "NoTransforms"
                if open_ and "present" not in fx or name(spec.settle(r[3][0], {V: n})) is None:
                    raise Undecided("result %s" % T.show(r)[:100])
                if name(spec.settle(r[3][0], {V: n})) != want:
                    return ck.bad("decoder", inst, "%s: tag value %d is answered with %s instead of %s" % (k.where(), n, name(r[3][0]), want))
    names = {a: p.adts[a]["variants"][i]["n"] for a, i in tags}
    ck.judge("decoder", inst, set(names.values()) == {"Orientation"}, "tag read: %s" % ", ".join(names.values()))
