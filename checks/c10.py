"""C10: every entry point hands each format to that format's own codec, with the caller's data."""
from vlib import absint, terms as T, tables as tb

DEC = {"Avif": "AvifDecoder", "Png": "PngDecoder", "Gif": "GifDecoder", "Jpeg": "JpegDecoder", "WebP": "WebPDecoder",
       "Tiff": "TiffDecoder", "Tga": "TgaDecoder", "Dds": "DdsDecoder", "Bmp": "BmpDecoder", "Ico": "IcoDecoder",
       "Hdr": "HdrDecoder", "OpenExr": "OpenExrDecoder", "Pnm": "PnmDecoder", "Farbfeld": "FarbfeldDecoder", "Qoi": "QoiDecoder"}
ENC = {"Avif": "AvifEncoder", "Png": "PngEncoder", "Gif": "GifEncoder", "Jpeg": "JpegEncoder", "WebP": "WebPEncoder",
       "Tiff": "TiffEncoder", "Tga": "TgaEncoder", "Bmp": "BmpEncoder", "Ico": "IcoEncoder", "Hdr": "HdrEncoder",
       "OpenExr": "OpenExrEncoder", "Pnm": "PnmEncoder", "Farbfeld": "FarbfeldEncoder", "Qoi": "QoiEncoder"}
SOME = "std::option::Option"


def codec(fi, name):
    return "codecs::" in fi.get("res_path", fi["path"]) and name != "ImageDecoder::set_limits"


def boundary(*extra):
    ex = set(extra) | {"DynamicImage::from_decoder"}
    return lambda fi, name: codec(fi, name) or name in ex


def ctor_types(t, suffix):
    """codec types whose constructor result occurs in the term"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] == "call" and isinstance(x[1], str):
            ty = x[1].split("::")[0]
            if ty.endswith(suffix) and not ty.startswith("Image"):
                out.add((ty, x))
        st.extend(x)
    return out


def some(v):
    return ("agg", SOME, 1, (v,))


def run_entry(ck, it, args, st, ni):
    E = absint.Engine(ck.p, no_inline=ni)
    outs = E.run(it, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return E, outs


def eff_deep(E, o, e):
    return [E.deep(o.st, a) for a in e[2]]


def decoders(ck, F):
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    have = {}
    for fn in ("decode", "into_decoder"):
        it = tb.method(p, R, fn)
        if it is None:
            continue
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        flds = [f["n"] for f in p.adts[R]["variants"][0]["f"]]
        for i, v in enumerate(p.adts[F]["variants"]):
            def one():
                vals = []
                for k, f in enumerate(p.adts[R]["variants"][0]["f"]):
                    ty = p.tystr(p.ty(f["ty"]))
                    vals.append(some(("agg", F, i, ())) if "ImageFormat" in ty else ("sym", "limits" if "Limits" in ty else "inner"))
                E, outs = run_entry(ck, it, [("agg", R, 0, tuple(vals))], absint.State(), boundary())
                used, bad, und = set(), None, None
                for o in outs:
                    if o.kind != "ret":
                        continue
                    for e in o.st.eff:
                        for ty, c in ctor_types(e[3], "Decoder") if e[3] else ():
                            used.add(ty)
                            if c[2] and not T.contains(c[2], ("sym", "inner")):
                                bad = "%s built from %s instead of the reader's stream" % (ty, T.show(c[2][0]))
                want = DEC.get(v["n"])
                have.setdefault(v["n"], set()).update(used)
                if want is None:
                    ck.judge("decode", "%s:%s" % (fn, v["n"]), not used, "%s: %s has no decoder but %s is constructed" % (where, v["n"], sorted(used)))
                else:
                    ck.judge("decode", "%s:%s" % (fn, v["n"]), used == {want} and not bad,
                             "%s: format %s is decoded by %s%s" % (where, v["n"], sorted(used) or "nothing", "; " + bad if bad else ""), want)
                # the image returned comes from that decoder
                for o in outs:
                    if o.kind == "ret" and fn == "decode":
                        for e in o.st.eff:
                            if e[1] == "DynamicImage::from_decoder":
                                a = eff_deep(E, o, e)[0]
                                a = E.strip(o.st, a)
                                tys = {x for x, _ in ctor_types(a, "Decoder")}
                                ck.judge("result", "%s:%s" % (fn, v["n"]), None if not tys else tys == {want},
                                         "%s: image taken from %s" % (where, sorted(tys)))
            ck.each("decode", "%s:%s" % (fn, v["n"]), one)
    return have


def enc_sinks(E, o):
    """[(encoder type, constructor call, remaining args)] of the encode calls on the path"""
    out = []
    for e in o.st.eff:
        ty = None
        if e[1] == "ImageEncoder::write_image" and e[5] and e[5][0][0] == "adt":
            ty = e[5][0][1].split("::")[-1]
        elif e[1].split("::")[0].endswith("Encoder") and e[1].split("::")[-1].startswith("encode"):
            ty = e[1].split("::")[0]
        if ty:
            a0 = E.deep(o.st, e[2][0])
            out.append((ty, e[1], {c for t, c in ctor_types(a0, "Encoder") if t == ty}, list(e[2][1:]), e))
    return out


def encoders(ck, F, have):
    p = ck.p
    wb = {}
    fn = [x for x in p.items.values() if x["kind"] == "fn" and x["name"] == "write_buffer_with_format" and "impl_self" not in x]
    if len(fn) != 1:
        return wb
    it = fn[0]
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    W = [("sym", "w"), ("sym", "buf"), ("sym", "width"), ("sym", "height"), ("sym", "color")]
    for i, v in enumerate(p.adts[F]["variants"]):
        def one():
            E, outs = run_entry(ck, it, W + [("agg", F, i, ())], absint.State(), boundary())
            used, msg, okret = set(), None, False
            for o in outs:
                if o.kind != "ret":
                    continue
                s = enc_sinks(E, o)
                for ty, nm, cts, rest, e in s:
                    used.add(ty)
                    for c in cts:
                        if not T.contains(c[2], ("sym", "w")):
                            msg = "%s does not write to the caller's writer" % ty
                    d = [E.strip(o.st, x) for x in rest[-4:]]
                    if len(d) == 4:
                        want = ["buf", "width", "height", "color"]
                        for x, w in zip(d, want):
                            others = [q for q in want if q != w and T.contains(x, ("sym", q))]
                            if others or (x[0] == "c"):
                                msg = "%s is given %s where the %s belongs" % (nm, T.show(x), w)
                            if w in ("width", "height"):
                                for n in (0, 1, 2, 7, 300, 65536, 2 ** 32 - 1):
                                    try:
                                        g = T.evalt(E.deep(o.st, x), {("sym", w): n})
                                        ok = all(bool(T.evalt(t, {("sym", w): n})) == bool(b) for t, b in o.st.facts
                                                 if set(u for u in T.subterms(t) if u[0] == "sym") == {("sym", w)})
                                    except Exception:
                                        continue
                                    if ok and isinstance(g, int) and g != n:
                                        msg = "%s is given %s %d for a %s of %d" % (nm, w, g, w, n)
                if not s and o.val[0] == "agg" and o.val[2] == 0:
                    msg = "reports success without encoding"
            want = ENC.get(v["n"])
            wb[v["n"]] = used
            ck.judge("encode", "write_buffer:%s" % v["n"], used == ({want} if want else set()) and not msg,
                     "%s: format %s is encoded by %s%s" % (where, v["n"], sorted(used) or "nothing", "; " + msg if msg else ""), want)
        ck.each("encode", "write_buffer:%s" % v["n"], one)
    # DynamicImage::write_to
    D = tb.find_adt(p, "DynamicImage")
    wt = tb.method(p, D, "write_to")
    if wt:
        where = "%s (%s)" % (wt["path"], p.loc_of_item(wt))
        ni = lambda fi, name: codec(fi, name) or fi["path"].startswith("buffer_::") or name.split("::")[0] in ("DynamicImage", "ImageBuffer") \
            or "GenericImageView" in name
        for i, v in enumerate(p.adts[F]["variants"]):
            def one():
                st = absint.State()
                E, outs = run_entry(ck, wt, [tb.by_ref(st, ("sym", "img")), ("sym", "w"), ("agg", F, i, ())], st, ni)
                used, msg = set(), None
                for o in outs:
                    if o.kind != "ret":
                        continue
                    s = enc_sinks(E, o)
                    for ty, nm, cts, rest, e in s:
                        used.add(ty)
                        for c in cts:
                            if not T.contains(c[2], ("sym", "w")):
                                msg = "%s does not write to the caller's writer" % ty
                        for x in rest:
                            x = E.deep(o.st, x)
                            if x[0] == "agg" and x[1].endswith("ExtendedColorType"):
                                # selected by the image's own colour type?
                                nm2 = p.adts[x[1]]["variants"][x[2]]["n"]
                                sel = [p.adts[t[2]]["variants"][b]["n"] for t, b in o.st.facts
                                       if t[0] == "discr" and t[2].endswith("ColorType") and T.contains(t, ("sym", "img"))]
                                if nm2 not in sel:
                                    msg = "%s is given colour %s for an image of colour %s" % (nm, nm2, sel or "unknown")
                                continue
                            if not T.contains(x, ("sym", "img")):
                                msg = "%s is given %s, which is not taken from the image" % (nm, T.show(x))
                        if len(rest) == 4 and not msg:
                            d = [T.show(E.deep(o.st, x)) for x in rest]
                            if ("inner_bytes" not in d[0] and "as_bytes" not in d[0]) or "color" not in d[3]:
                                pass
                            w, h = rest[1], rest[2]
                            if w[0] == "fld" and h[0] == "fld" and w[1] == h[1] and (w[3], h[3]) == (1, 0):
                                msg = "%s is given width and height swapped" % nm
                    if not s and o.val[0] == "agg" and o.val[2] == 0:
                        msg = "reports success without encoding"
                want = ENC.get(v["n"])
                ck.judge("encode", "write_to:%s" % v["n"], used == ({want} if want else set()) and not msg,
                         "%s: format %s is encoded by %s%s" % (where, v["n"], sorted(used) or "nothing", "; " + msg if msg else ""), want)
            ck.each("encode", "write_to:%s" % v["n"], one)
    return wb


def flags(ck, F, have, wb):
    p = ck.p
    def val(m, i):
        it = tb.method(p, F, m)
        if it is None:
            return None, None
        E, outs = tb.eval_variant(ck, it, F, i)
        vs = {tb.plain(E, o.st, o.val) for o in outs}
        return (vs.pop() if len(vs) == 1 else None), it
    for i, v in enumerate(p.adts[F]["variants"]):
        n = v["n"]
        def one():
            for m, table, strict in (("reading_enabled", have, False), ("writing_enabled", wb, True)):
                x, it = val(m, i)
                if x is None or n not in table:
                    ck.und("flags", "%s:%s" % (m, n), "not constant")
                    continue
                has = bool(table[n])
                if strict:
                    good = bool(x) == has
                else:
                    good = has or not x          # Dds: decoder exists, not advertised
                ck.judge("flags", "%s:%s" % (m, n), good, "%s says %s for %s, but the %s is %s (%s)" % (
                    m, bool(x), n, "decoder" if table is have else "encoder", "constructed" if has else "not constructed", p.loc_of_item(it)))
                # implied capability without regard to features
                c, it2 = val("can_read" if table is have else "can_write", i)
                if c is not None:
                    ck.judge("flags", "can:%s:%s" % (m, n), bool(c) or not x, "%s is enabled for %s although the format cannot (%s)" % (m, n, p.loc_of_item(it2)))
                    if table is wb:
                        ck.judge("flags", "can_write=%s" % n, bool(c) == (n in ENC), "can_write is %s for %s (%s)" % (bool(c), n, p.loc_of_item(it2)))
        ck.each("flags", n, one)


def entries(ck, F):
    """Convenience entry points pass the caller's path/bytes/format on."""
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    ni = boundary("ImageFormat::from_path", "ImageReader::decode", "ImageReader::into_dimensions", "free_functions::guess_format",
                  "free_functions::guess_format_impl", "ImageReader::guess_format")
    def free(n):
        r = [x for x in p.items.values() if x["kind"] == "fn" and x["name"] == n and "impl_self" not in x and x["path"].split("::")[0] in ("dynimage", "image_reader")]
        return r[0] if len(r) == 1 else None
    def reader_of(E, o, sinkname):
        for e in o.st.eff:
            if e[1] == sinkname:
                return E.strip(o.st, e[2][0])
        return None
    fmtidx = [k for k, f in enumerate(p.adts[R]["variants"][0]["f"]) if "ImageFormat" in p.tystr(p.ty(f["ty"]))][0]
    inidx = [k for k, f in enumerate(p.adts[R]["variants"][0]["f"]) if "ImageFormat" not in p.tystr(p.ty(f["ty"])) and "Limits" not in p.tystr(p.ty(f["ty"]))][0]

    def reader_entry(n, sink, streamarg, check_fmt):
        it = free(n) if isinstance(n, str) else n[1]
        label = n if isinstance(n, str) else n[0]
        if it is None:
            return
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        E, outs = run_entry(ck, it, [("sym", "a%d" % k) for k in range(it["body"]["argc"])], absint.State(), ni)
        got = 0
        for o in outs:
            if o.kind != "ret":
                continue
            r = reader_of(E, o, sink) if sink else E.strip(o.st, o.val)
            if sink is None and r[0] == "agg" and r[1].endswith("Result"):
                if r[2] == 1:
                    continue
                r = E.strip(o.st, r[3][0])
            if r is None:
                continue
            if r[0] != "agg" or r[1] != R:
                ck.und("entry", label, "reader not constructed here: %s" % T.show(r))
                continue
            got += 1
            s, f = r[3][inidx], r[3][fmtidx]
            ck.judge("entry", label + ":stream", T.contains(E.deep(o.st, s), ("sym", streamarg)), "%s: reads from %s, not from the caller's argument" % (where, T.show(s)))
            good, why = check_fmt(E, o, f)
            ck.judge("entry", label + ":format", good, "%s: %s" % (where, why))
        if not got:
            ck.und("entry", label, "no reader reached")

    def from_path(E, o, f):
        if f[0] != "agg":
            return None, "format %s" % T.show(f)
        calls = [e for e in o.st.eff if e[1] == "ImageFormat::from_path"]
        if not calls:
            return None, "format not taken from the path"
        okc = any(T.contains(E.deep(o.st, e[2][0]), ("sym", "a0")) for e in calls)
        failed = any(t[0] == "discr" and T.contains(t[1], calls[0][3]) and b == 1 for t, b in o.st.facts)
        if f[2] == 0:
            return failed, "no format is set although the path names one"
        return okc and T.contains(f, calls[0][3]), "format %s is not the one named by the path" % T.show(f)

    def given(E, o, f):
        if f[0] == "agg" and f[2] == 1:
            x = E.strip(o.st, f[3][0])
            return x == ("sym", "a1"), "format %s instead of the caller's" % T.show(x)
        return (False if f[0] == "agg" else None), "no format set"

    def guessed(E, o, f):
        calls = [e for e in o.st.eff if e[1].endswith("guess_format") or e[1].endswith("guess_format_impl")]
        if not calls:
            return None, "format not guessed by the shared function"
        return T.contains(E.deep(o.st, calls[0][2][0]), ("sym", "a0")) and f[0] == "agg" and f[2] == 1 and T.contains(f, calls[0][3]), \
            "format %s is not the one guessed from the buffer" % T.show(f)
    ck.each("entry", "open", reader_entry, "open", "ImageReader::decode", "a0", from_path)
    ck.each("entry", "image_dimensions", reader_entry, "image_dimensions", "ImageReader::into_dimensions", "a0", from_path)
    ck.each("entry", "load", reader_entry, "load", "ImageReader::decode", "a0", given)
    ck.each("entry", "load_from_memory_with_format", reader_entry, "load_from_memory_with_format", "ImageReader::decode", "a0", given)
    ck.each("entry", "load_from_memory", reader_entry, "load_from_memory", "ImageReader::decode", "a0", guessed)
    for m, f in (("open", from_path), ("with_format", given)):
        it = tb.method(p, R, m)
        if it:
            ck.each("entry", "ImageReader::" + m, reader_entry, ("ImageReader::" + m, it), None, "a0", f)
    # setters / getter / guessing on the reader
    for m in ("set_format", "clear_format", "format", "with_guessed_format"):
        it = tb.method(p, R, m)
        if it is None:
            continue
        def one():
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            st = absint.State()
            vals = [("sym", "inner")] * 3
            fields = p.adts[R]["variants"][0]["f"]
            vals = [("sym", "f_" + f["n"]) for f in fields]
            vals[fmtidx] = ("sym", "oldfmt")
            self_ = ("agg", R, 0, tuple(vals))
            byref = tb.is_ref_arg(p, it, 0)
            if byref:
                st.mem[("arg", "self")] = self_
                a0 = ("ref", ("arg", "self"), (), True)
            else:
                a0 = self_
            E, outs = run_entry(ck, it, [a0, ("sym", "newfmt")][:it["body"]["argc"]], st,
                                lambda fi, name: name != "ImageReader::guess_format" and ni(fi, name))
            for o in outs:
                if o.kind != "ret":
                    continue
                after = o.st.mem.get(("arg", "self")) if byref else None
                if m == "format":
                    ck.judge("entry", m, E.strip(o.st, o.val) == ("sym", "oldfmt"), "%s returns %s" % (where, T.show(o.val)))
                elif m == "set_format":
                    x = E.proj(after, ("f", None, fmtidx))
                    ck.judge("entry", m, x == some(("sym", "newfmt")), "%s leaves format %s" % (where, T.show(x)))
                elif m == "clear_format":
                    x = E.proj(after, ("f", None, fmtidx))
                    ck.judge("entry", m, x[0] == "agg" and x[2] == 0, "%s leaves format %s" % (where, T.show(x)))
                else:
                    r = E.strip(o.st, o.val)
                    if r[0] != "agg" or r[2] == 1:
                        continue
                    rd = E.strip(o.st, r[3][0])
                    x = E.proj(rd, ("f", None, fmtidx))
                    g = [e for e in o.st.eff if "guess_format" in e[1]]
                    if not g:
                        ck.und("entry", m, "guessing not recognised")
                        continue
                    none = some_ = False
                    for t, b in o.st.facts:
                        if t[0] == "discr" and T.contains(t[1], g[0][3]) and t[2] == SOME:
                            none, some_ = b == 0, b == 1
                    if x[0] == "agg" and x[1] == SOME and x[2] == 1:
                        x = some(E.strip(o.st, x[3][0]))
                    if some_:
                        ck.judge("entry", m + ":found", T.contains(x, g[0][3]) and x != ("sym", "oldfmt"),
                                 "%s: a recognised signature leaves format %s" % (where, T.show(x)))
                    elif none:
                        ck.judge("entry", m + ":unknown", x == ("sym", "oldfmt"), "%s: an unrecognised signature leaves format %s instead of the previous one" % (where, T.show(x)))
        ck.each("entry", m, one)
    # writers: save_buffer / save_buffer_with_format create the caller's path
    for n, byext in (("save_buffer", True), ("save_buffer_with_format", False)):
        it = free(n)
        if it is None:
            continue
        def one():
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            args = [("sym", "path"), ("sym", "buf"), ("sym", "width"), ("sym", "height"), ("sym", "color"), ("sym", "fmt")][:it["body"]["argc"]]
            ni2 = boundary("ImageFormat::from_path", "free_functions::write_buffer_impl", "dynimage::write_buffer_with_format")
            E, outs = run_entry(ck, it, args, absint.State(), ni2)
            got = 0
            for o in outs:
                for e in o.st.eff:
                    if e[1].endswith("File::create"):
                        ck.judge("entry", n + ":path", T.contains(E.deep(o.st, e[2][0]), ("sym", "path")), "%s creates %s" % (where, T.show(e[2][0])))
                    if e[1] in ("free_functions::write_buffer_impl", "dynimage::write_buffer_with_format"):
                        got += 1
                        a = [E.strip(o.st, x) for x in e[2]]
                        for x, w in zip(a[1:5], ("buf", "width", "height", "color")):
                            ck.judge("entry", n + ":" + w, T.contains(x, ("sym", w)), "%s passes %s as %s" % (where, T.show(x), w))
                        f = a[5]
                        good = (T.contains(f, ("sym", "path")) and "from_path" in T.show(f)) if byext else f == ("sym", "fmt")
                        ck.judge("entry", n + ":format", good, "%s encodes as %s" % (where, T.show(f)))
            if not got:
                ck.und("entry", n, "shared writer not reached")
        ck.each("entry", n, one)


def run(ck):
    p = ck.p
    ck.rule("decode", "for every format, the reader's decode/into_decoder construct exactly that format's decoder, on the reader's stream", 16)
    ck.rule("result", "the decoded image is taken from that decoder", 8)
    ck.rule("encode", "for every format, the writers construct exactly that format's encoder on the caller's writer and pass buffer, width, height, colour in place", 16)
    ck.rule("flags", "reading/writing flags agree with the dispatch", 16)
    ck.rule("entry", "entry points pass the caller's path, bytes and format on unchanged", 10)
    F = tb.find_adt(p, "ImageFormat")
    if F is None:
        return
    have = decoders(ck, F)
    wb = encoders(ck, F, have)
    flags(ck, F, have, wb)
    entries(ck, F)
