"""C25: what an encoder is told about the image besides its pixels (colour profile, pixel density, animation repeat count and frame
delay) ends up in the file, or is refused."""
from vlib import absint, spec, trace, wire, terms as T
from vlib.absint import Out, State, Undecided
from vlib.errflow import is_failure
from . import encoders as N

c = T.c
ENC = ("sym", "enc")
PROF = ("sym", "profile")


def run(ck):
    ck.rule("accept", "an encoder that accepts a colour profile keeps it, and the default refuses it", 4)
    ck.rule("write", "every successful encoding by an encoder that keeps a profile hands it to the file writer", 5)
    ck.rule("chunks", "the JPEG encoder writes the whole profile as a valid sequence of ICC_PROFILE segments, or fails", 1)
    ck.rule("density", "the JPEG encoder writes the pixel density it was given", 0)
    ck.rule("repeat", "the GIF encoder writes the repeat count it was given, whenever it was given", 1)
    ck.rule("delay", "the GIF encoder writes each frame's delay in hundredths of a second", 1)
    ck.assumptions += ["png::Encoder::with_info, image_webp::WebPEncoder and gif::Encoder write what they are given (dependencies)"]
    p = ck.p
    kept = {}
    for it in p.fns():
        if it["name"] == "set_icc_profile" and it["kind"] != "closure":
            ck.each("accept", it["path"], accept, ck, p, it, kept)
    X, cols = N.colours(p)
    for e in N.entries(p):
        if e.adt in kept:
            ck.each("write", e.name, written, ck, p, e, kept[e.adt], X, cols)
    ck.each("chunks", "JpegEncoder", jpeg, ck, p)
    ck.each("repeat", "GifEncoder", repeat, ck, p)
    ck.each("delay", "GifEncoder", delay, ck, p)


def accept(ck, p, it, kept):
    inst = it["path"]
    cs = spec.Case(ck, it, self_val=ENC, args={1: PROF})
    ok = refused = 0
    for o in cs.outs:
        if o.kind == "panic":
            continue
        f = is_failure(cs.E, o.st, o.val) if o.kind == "ret" else None
        if f is True:
            refused += 1
            continue
        now = cs.E.deep(o.st, o.st.mem.get(("arg", "self"), ENC))
        fs = fields(now)
        if fs is None:
            return ck.und("accept", inst, "%s: state afterwards %s" % (cs.where(), T.show(now)[:150]))
        if not fs:
            # a profile known to be empty has nothing to keep
            if all(spec.feasible(o.st.facts, {("len", PROF): k})[0] is False for k in (1, 2, 3, 5, 100, 128, 129, 3144, 70000, 2**24)):
                continue
            return ck.bad("accept", inst, "%s accepts a profile without keeping it%s" % (cs.where(), " when " + cond(o) if o.st.facts else ""))
        if f is None:
            return ck.und("accept", inst, "%s: outcome %s" % (cs.where(), T.show(o.val)[:100]))
        adt = p.ty(it["body"]["locals"][1][0])
        adt = adt[1] if adt[0] == "ref" else adt
        if adt[0] == "adt":
            kept.setdefault(adt[1], fs)
        ok += 1
    ck.ok("accept", inst, "kept on %d paths, refused on %d" % (ok, refused))


def fields(now):
    """indices of the fields of the encoder that now hold the profile"""
    out = set()
    while now[0] == "over":
        for pr, v in now[2] if isinstance(now[2], tuple) and now[2] and isinstance(now[2][0], tuple) and len(now[2][0]) == 2 and isinstance(now[2][0][0], tuple) else ():
            if T.contains(v, PROF):
                out.add(pr[2] if pr[0] == "f" else pr[0][2])
        now = now[1]
    if now == ENC:
        return out
    return None


def cond(o):
    return ", ".join("%s is %s" % (T.show(t)[:60], v) for t, v in o.st.facts[:3])


def resolve(E, st, v, d=0):
    """the value with references into memory replaced by what they refer to"""
    if not isinstance(v, tuple) or d > 12:
        return v
    if v and v[0] == "ref" and len(v) == 4:
        try:
            return ("rf", resolve(E, st, E.read(st, v[1], v[2]), d + 1))
        except (KeyError, Undecided):
            return v
    return tuple(resolve(E, st, x, d + 1) if isinstance(x, tuple) else x for x in v)


def holds_profile(v, fs, d=0):
    """does the value contain one of the encoder's profile fields (other than as a length)?"""
    if not isinstance(v, tuple) or d > 40:
        return False
    if v == ENC:
        return True
    if v and v[0] == "over" and v[1] == ENC and len(v) > 2:
        # the encoder with other fields changed: the profile field must not be among them
        ch = v[2] if v[2] and isinstance(v[2][0], tuple) and isinstance(v[2][0][0], tuple) else ()
        return not any((pr[2] if pr[0] == "f" else pr[0][2]) in fs for pr, _ in ch)
    if v and v[0] == "fld" and v[1] == ENC:
        return v[3] in fs
    if v and v[0] == "len":
        return False
    return any(holds_profile(x, fs, d + 1) for x in v if isinstance(x, tuple))


def written(ck, p, e, fs, X, cols):
    inst = e.name
    own = jpeg_entry(p)
    n = 0
    und = None
    for cv, cn, bits in cols:
        if bits is None:
            continue

        def hook(E, st, fr, name, fi, fargs, args, site):
            if own is not None and fi.get("def") == own.get("key") or own is not None and name.split("::")[-1] == own["name"] and e.adt == owner(p, own) \
                    and e.it is not own:
                st.eff = st.eff + (("write", name, tuple(E.deep(st, a) for a in args), None, None, None),)
                return [Out(st, "ret", ("sym", "encoded"))]
            return N.hook(E, st, fr, name, fi, fargs, args, site)
        if e.it is own:
            return ck.ok("write", inst, "decided by rule chunks")
        E, outs, takes, unit = N.run(ck, e, cv, X, len(p.adts[X]["variants"][cv]["f"]), stop=False, hook=hook)
        env = {("len", ("fld", ENC, None, k)): 5 for k in fs}
        for o in outs:
            if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                continue
            f, u = spec.feasible(o.st.facts, env)
            if f is False:
                continue
            ws = [x for x in o.st.eff if x[0] == "write"]
            if any(holds_profile(resolve(E, o.st, tuple(x[2])), fs) for x in ws):
                n += 1
                continue
            if not ws:
                continue        # nothing written at all: not an encoding
            return ck.bad("write", inst, "%s (%s): encoding %s writes the file (%s) without the colour profile it was given" % (
                e.it["path"], p.loc_of_item(e.it), cn, ws[0][1]))
    ck.judge("write", inst, True if n else None, "no successful encoding found", "%d encoding paths" % n)


def owner(p, it):
    t = p.ty(it["body"]["locals"][1][0])
    t = t[1] if t[0] == "ref" else t
    return t[1] if t[0] == "adt" else None


def jpeg_entry(p):
    """the JPEG encoder's function that writes the whole file: generic over the image, with the scan's loops below it"""
    for it in p.fns():
        if it["name"] == "encode_image" and (owner(p, it) or "").endswith("JpegEncoder"):
            return it
    return None


# ---- JPEG: the bytes of the headers ------------------------------------------------------------------------------
def jpeg_summary(ck, p):
    it = jpeg_entry(p)
    if it is None:
        return None, None, None
    own = owner(p, it)
    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        # what is given both the encoder and the image writes the scan
        if m in ("pad_byte", "write_bits") or len(args) > 1 and not fi.get("trait") and E.img_of(st, args[1]) == "I" and spec_self(E, st, args[0]):
            E.put(st, "out", ("agg", "array", 0, (("sym", "SCAN"),)))
            return [Out(st, "ret", trace.ok_(wire.UNIT))]
        return None
    E = wire.Wire(p, extra_hook=hook)
    st = State()
    S = spec.obj(p, own)
    i = [f["n"] for f in p.adts[own]["variants"][0]["f"]].index("writer")
    S = S[:3] + (S[3][:i] + (dest(p, S[3][i]),) + S[3][i + 1:],)
    st.mem[("arg", "self")] = S
    st.mem[("arg", "I")] = E.image("I")
    outs = E.run(it, [("ref", ("arg", "self"), (), True), ("ref", ("arg", "I"), (), False)], st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return it, trace.Summary(E, outs), E


def spec_self(E, st, v):
    return v[0] == "ref" and v[1] == ("arg", "self")


def dest(p, v):
    """the writer field of the bit writer is the destination"""
    if v[0] == "agg":
        nm = [f["n"] for f in p.adts[v[1]]["variants"][0]["f"]]
        return v[:3] + (tuple(("stream", "out") if n == "w" else x for n, x in zip(nm, v[3])),)
    return ("stream", "out")


COLOURS = [(1, "L8"), (2, "La8"), (3, "Rgb8"), (4, "Rgba8")]


def jpeg_bytes(p, S, w, h, plen, chans, unit=0, dens=(1, 1)):
    """-> (bytes or None, result kind)"""
    X, cols = N.colours(p)
    idx = {cn: i for i, cn, _ in cols}
    env = {("sym", "I.w", (0, 2**32 - 1)): w, ("sym", "I.h", (0, 2**32 - 1)): h, ("len", ("sym", "icc_profile")): plen}
    name = dict((n, cn) for n, cn in COLOURS)[chans]
    for t in facts_of(S):
        for s in T.subterms(t):
            if s and s[0] == "cst" and "CHANNEL_COUNT" in repr(s):
                env[s] = chans
            if s and s[0] == "discr" and "COLOR_TYPE" in repr(s):
                env[s] = idx[name]
            if s and s[0] == "discr" and "pixel_density" in repr(s):
                env[s] = unit
            if s == ("len", ("sym", "tables")):
                env[s] = 2
            if s == ("len", ("sym", "components")):
                env[s] = 3
    r = wire.Emit(S, env, {("sym", "icc_profile"): ("icc", plen)})
    for k in (0, 1):
        r.env[("fld", ("sym", "pixel_density.density"), None, k)] = dens[k]
    r.go()
    return r


def facts_of(S):
    for t in S.traces:
        for f in t[1]:
            yield f[0]
        for seg in t[0]:
            if seg and seg[0] != "mark":
                for e in seg:
                    for x in e:
                        if isinstance(x, tuple):
                            yield x


def segments(rope):
    """[(marker, payload Rope)] up to the scan, or an error text"""
    r = rope.reader()
    if r.num(2) != 0xFFD8:
        return "does not begin with a start-of-image marker"
    out = []
    while r.left:
        mk, n = r.num(2), r.num(2)
        if mk is None or mk >> 8 != 0xFF:
            return "has no marker after %d segments" % len(out)
        if n is None:
            return "has a segment of unknown length"
        if n < 2 or n - 2 > r.left:
            return "has a segment %04X whose length field says %d while %d bytes follow" % (mk, n, r.left + 2)
        out.append((mk & 255, r.take(n - 2)))
        if mk == 0xFFDA:
            return out
    return "has no scan header"


MAXP = 65519 * 255


def jpeg(ck, p):
    it, S, E = jpeg_summary(ck, p)
    if it is None:
        return ck.und("chunks", "JpegEncoder", "the encoder was not found")
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    for k, name in COLOURS:
        ck.each("chunks", "JPEG %s" % name, chunks, ck, p, S, E, where, k, name)
    for u, code in ((0, 0), (1, 1), (2, 2)):
        ck.each("density", "unit %d" % u, density, ck, p, S, E, where, u)


def result(E, r):
    o = r.out
    if r.fault:
        return "fault"
    if o is None:
        return None
    if o.kind == "panic":
        return "panic"
    f = is_failure(E, o.st, o.val)
    return "err" if f is True else "ok"


def chunks(ck, p, S, E, where, chans, name):
    inst = "JPEG %s" % name
    sizes = [0, 1, 2, 100, 65517, 65518, 65519, 65520, 65521, 2 * 65519 - 1, 2 * 65519, 2 * 65519 + 1]
    if chans == 3:
        sizes += [MAXP, MAXP + 1]
    n = 0
    for plen in sizes:
        r = jpeg_bytes(p, S, 17, 5, plen, chans)
        res = result(E, r)
        if res == "err" and plen > MAXP:
            n += 1
            continue
        if res in ("err", "fault", "panic"):
            return ck.bad("chunks", inst, "%s: a profile of %d bytes makes the encoder fail (%s)" % (where, plen, r.fault or r.out.why or res))
        if res is None:
            return ck.und("chunks", inst, "%s: no result for a profile of %d bytes" % (where, plen))
        segs = segments(r.buf["out"])
        if isinstance(segs, str):
            return ck.bad("chunks", inst, "%s: with a profile of %d bytes the file %s" % (where, plen, segs))
        icc = [s for m, s in segs if m == 0xE2]
        got, msg = assemble(icc)
        if msg is None and got.items != ([("run", "icc", 0, plen)] if plen else []):
            msg = "%d bytes of profile are written%s" % (len(got), "" if len(got) != plen else ", not in order")
        if msg:
            return ck.bad("chunks", inst, "%s: for a profile of %d bytes %s" % (where, plen, msg))
        sof = [i for i, (m, s) in enumerate(segs) if m in (0xC0, 0xDA)]
        if any(m == 0xE2 and i > sof[0] for i, (m, s) in enumerate(segs)):
            return ck.bad("chunks", inst, "%s: the profile follows the frame header" % where)
        n += 1
    ck.ok("chunks", inst, "%d profile lengths" % n)


def assemble(icc):
    parts = {}
    total = None
    for s in icc:
        r = s.reader()
        if r.take(12).items != list(b"ICC_PROFILE\0"):
            return None, "an application segment does not carry the ICC_PROFILE signature"
        num, cnt = r.num(1), r.num(1)
        if total not in (None, cnt):
            return None, "the segments disagree on their number"
        total = cnt
        if num is None or cnt is None or num in parts or not 1 <= num <= cnt:
            return None, "segment number %s of %s is out of sequence" % (num, cnt)
        parts[num] = r.take(r.left)
    if icc and len(parts) != total:
        return None, "%d of %d segments are written" % (len(parts), total)
    out = wire.Rope()
    for k in sorted(parts):
        out.extend(parts[k])
    return out, None


def density(ck, p, S, E, where, u):
    inst = "unit %d" % u
    want = {"PixelAspectRatio": 0, "Inches": 1, "Centimeters": 2}
    ad = next(a for n, a in p.adts.items() if n.endswith("PixelDensityUnit"))
    v = ad["variants"][u]["n"]
    n = 0
    for dens, chans, plen, (w, h) in (((1, 1), 3, 0, (17, 5)), ((72, 72), 1, 0, (17, 5)), ((300, 600), 3, 9, (1, 1)), ((258, 65535), 4, 0, (300, 2)),
                                      ((0, 513), 2, 0, (2, 300)), ((96, 97), 1, 9, (65535, 1)), ((1, 2), 4, 70000, (1, 65535)), ((1, 2), 1, 0, (8, 8))):
        r = jpeg_bytes(p, S, w, h, plen, chans, unit=u, dens=dens)
        if result(E, r) != "ok":
            return ck.und("density", inst, "%s: no header for density %s" % (where, dens))
        segs = segments(r.buf["out"])
        if isinstance(segs, str):
            return ck.bad("density", inst, "%s: the file %s" % (where, segs))
        app0 = [s for m, s in segs if m == 0xE0]
        exp = [want[v], dens[0] >> 8, dens[0] & 255, dens[1] >> 8, dens[1] & 255]
        if not app0 or segs[0][0] != 0xE0 or app0[0].cut(0, 5).items != list(b"JFIF\0"):
            return ck.bad("density", inst, "%s: no JFIF header follows the start of the image" % where)
        got = app0[0].cut(7, 12).items
        if any(not isinstance(x, int) for x in got):
            return ck.und("density", inst, "%s: JFIF header %s" % (where, got))
        if got != exp:
            return ck.bad("density", inst, "%s: a density of %s %s is written as %s, not %s" % (where, dens, v, got, exp))
        n += 1
    ck.ok("density", inst, "%s, %d densities" % (v, n))


# ---- GIF ---------------------------------------------------------------------------------------------------------
def gif(p, name):
    for it in p.fns():
        if it["name"] == name and it["kind"] != "closure" and (owner(p, it) or "").split("::")[-1] == "GifEncoder":
            return it
    return None


def successes(E, outs):
    for o in outs:
        if o.kind == "ret" and is_failure(E, o.st, o.val) is not True:
            yield o


def calls(E, o, what):
    return [x for x in o.st.eff if x[0] == "call" and x[1] == what]


def as_repeat(p, E, o, v, want):
    """is v the gif crate's form of the repeat value `want`?  None: not recognised"""
    v = E.deep(o.st, v)
    if v[0] != "agg" or v[1].split("::")[-1] != "Repeat":
        return None
    nm = [x["n"] for n, a in p.adts.items() if n == v[1] for x in a["variants"]]
    kind = {"Finite": 1, "Infinite": 0}
    own = next((n for n in p.adts if n.endswith("gif::Repeat") and p.adts[n].get("local")), None)
    mine = [x["n"] for x in p.adts[own]["variants"]]
    here = nm[v[2]] if v[2] < len(nm) else mine[v[2]]
    if want[0] == "agg":
        d = mine[want[2]]
    else:
        d = None
        for t, k in o.st.facts:
            if t[0] == "discr" and t[1] == want and isinstance(k, int) and not isinstance(k, bool):
                d = mine[k]
    if d is None:
        return None
    if here != d:
        return False
    if not v[3]:
        return True
    n = ("fld", want, mine.index("Finite"), 0) if want[0] != "agg" else want[3][0]
    for k in (0, 1, 2, 7, 255, 256, 32768, 65535):
        x = T.evalt(v[3][0], {n: k})
        if x != k:
            return None if x is None else False
    return True


def discr_of(o, term):
    for t, k in o.st.facts:
        if t[0] == "discr" and t[1] == term:
            return k
    return None


def is_some(k):
    return k == 1 if not isinstance(k, tuple) else (True if 0 in k[1] and 1 not in k[1] else False if 1 in k[1] else None)


def repeat(ck, p):
    it = gif(p, "set_repeat")
    if it is None:
        return ck.und("repeat", "GifEncoder::set_repeat", "not found")
    cs = spec.Case(ck, it, self_val=ENC, args={1: ("sym", "profile")})
    E = cs.E
    own = owner(p, it)
    fn = [f["n"] for f in p.adts[own]["variants"][0]["f"]]
    enc_f = ("fld", ENC, None, fn.index("gif_encoder")) if "gif_encoder" in fn else None
    fs = None
    inst = "GifEncoder::set_repeat"
    for o in successes(E, cs.outs):
        now = E.deep(o.st, o.st.mem[("arg", "self")])
        got = {k for k in (fields(now) or ()) if k != (enc_f or (0, 0, 0, None))[3]}
        if not got:
            return ck.bad("repeat", inst, "%s: success is returned without keeping the repeat count" % cs.where())
        fs = got if fs is None else fs & got
        started = is_some(discr_of(o, enc_f)) if enc_f else None
        if started is None:
            return ck.und("repeat", inst, "%s: does not look whether the file was begun" % cs.where())
        cl = calls(E, o, "Encoder::set_repeat")
        if started:
            if not cl:
                return ck.bad("repeat", inst, "%s: with the file begun, success is returned without telling the file writer" % cs.where())
            g = as_repeat(p, E, o, cl[-1][2][1], PROF)
            if g is not True:
                return ck.judge("repeat", inst, g, "%s: the file writer is told %s" % (cs.where(), T.show(E.deep(o.st, cl[-1][2][1]))[:100]))
    ck.judge("repeat", inst, True if fs else None, "no successful path", "kept in field %s" % sorted(fs or ()))
    if not fs:
        return
    k = min(fs)
    rep = ("fld", ENC, None, k)
    for name in ("encode_frame", "encode"):
        f = gif(p, name)
        if f is None:
            ck.und("repeat", "GifEncoder::" + name, "not found")
            continue
        ck.each("repeat", "GifEncoder::" + name, begun, ck, p, f, name, rep, enc_f)


def begun(ck, p, f, name, rep, enc_f):
    inst = "GifEncoder::" + name
    cs = spec.Case(ck, f, self_val=ENC)
    E = cs.E
    n = 0
    for o in successes(E, cs.outs):
        new = calls(E, o, "Encoder::new")
        fr = calls(E, o, "Encoder::write_frame")
        st = calls(E, o, "Encoder::set_repeat")
        if not fr:
            return ck.und("repeat", inst, "%s: success without a frame" % cs.where())
        if not new:
            n += 1
            continue
        has = is_some(discr_of(o, rep))
        if has is False and not st:
            n += 1
            continue
        if not st:
            return ck.bad("repeat", inst, "%s: the file is begun without the repeat count that was set" % cs.where())
        if o.st.eff.index(st[0]) > o.st.eff.index(fr[0]):
            return ck.bad("repeat", inst, "%s: the repeat count is written after the first frame" % cs.where())
        g = as_repeat(p, E, o, st[0][2][1], ("fld", rep, 1, 0))
        if has is None or g is not True:
            return ck.judge("repeat", inst, g if has is not None else None, "%s: the file is begun with the repeat count %s" % (
                cs.where(), T.show(E.deep(o.st, st[0][2][1]))[:100]))
        n += 1
    ck.judge("repeat", inst, True if n else None, "no successful path", "%d paths" % n)


def delay(ck, p):
    f = gif(p, "encode_frame")
    if f is None:
        return ck.und("delay", "GifEncoder::encode_frame", "not found")
    inst = "GifEncoder::encode_frame"
    fa = next((n for n, a in p.adts.items() if n.endswith("animation::Frame") and a.get("local")), None)
    frame = spec.obj(p, fa, "frame")
    cs = spec.Case(ck, f, self_val=ENC, args={1: frame})
    E = cs.E
    gf = gif_fields(p)
    sy = spec.symbols(frame)
    ratio = [v for n, v in sorted(sy.items()) if "delay" in n]
    if len(ratio) != 2:
        return ck.und("delay", inst, "the frame's delay is not a ratio of two numbers: %s" % sorted(sy))
    numer, denom = sorted(ratio, key=lambda v: "numer" not in v[1])
    n = 0
    for num in (0, 1, 9, 10, 15, 100, 105, 1000, 12345, 655349, 655350, 655360, 700000, 2**32 - 1):
        for den in (1, 2, 3, 7, 1000):
            want = min(num // den // 10, 65535)
            for o, u in cs.at({numer: num, denom: den}):
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                fr = calls(E, o, "Encoder::write_frame")
                if not fr:
                    return ck.und("delay", inst, "%s: success without a frame" % cs.where())
                d = field(E.deep(o.st, fr[-1][2][1]), gf)
                x = None if d is None else T.evalt(d, {numer: num, denom: den})
                if d == "default":
                    x = "default"
                if x is None:
                    return ck.und("delay", inst, "%s: delay %s" % (cs.where(), T.show(d or fr[-1][2][1])[:120]))
                if x != want:
                    return ck.bad("delay", inst, "%s: a frame shown for %d/%d ms is written with a delay of %s hundredths, not %d" % (cs.where(), num, den, x, want))
                n += 1
    ck.judge("delay", inst, True if n else None, "nothing evaluated", "%d points" % n)


def gif_fields(p):
    for n, a in p.adts.items():
        if n.startswith("gif::") and n.split("::")[-1] == "Frame":
            return [f["n"] for f in a["variants"][0]["f"]].index("delay")
    return 0


def field(v, k):
    """field k of a struct value built by updates"""
    while v[0] in ("rf", "over", "agg"):
        if v[0] == "rf":
            v = v[1]
        elif v[0] == "agg":
            return v[3][k]
        else:
            for pr, x in v[2]:
                if pr == ("f", None, k):
                    return x
            v = v[1]
    return "default" if v[0] == "call" else None
