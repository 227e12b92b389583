"""C18: forwarding wrappers give exactly the wrapped object's answer."""
import re
from vlib import absint, terms as T, tables as tb
from vlib.absint import Out

SELF = ("sym", "self")


def short(p, t):
    return p.tystr(t).split("<")[0].split("::")[-1]


def run(ck):
    p = ck.p
    ck.rule("box", "every method of ImageDecoder on a boxed decoder is overridden and returns the boxed decoder's answer to the same arguments", 10)
    ck.rule("boxed", "read_image_boxed of a decoder is read_image of the same decoder into the same buffer", 12)
    ck.rule("reader", "wrapped readers forward reads unchanged", 3)
    ck.rule("buffer", "ImageBuffer's and the flat views' interface methods give the object's own answer", 7)
    ck.rule("dimensions", "decoders that take their dimensions from somewhere report width and height in that order", 10)
    ck.rule("defaults", "the defaulted interface methods follow from the required ones", 6)
    ck.rule("deref", "a sub-image dereferences to its own view", 2)
    ck.rule("frames", "boxed frame iterators return the wrapped iterator's frames", 1)
    box(ck)
    boxed(ck)
    readers(ck)
    buffer_(ck)
    dims(ck)
    defaults(ck)
    deref(ck)
    frames(ck)


def impls(p, trait, pred=None):
    for im in p.impls:
        if (im.get("trait") or "").split("::")[-1] == trait and (pred is None or pred(im)):
            yield im


def call(ck, it, hook=None, no_inline=None, byref=True, subst=None, self_val=None):
    E = absint.Engine(ck.p, hook=hook, no_inline=no_inline or (lambda fi, n: False), max_paths=3000, max_steps=60000)
    st = absint.State()
    st.mem[("arg", "self")] = SELF
    args = [("sym", "a%d" % k) for k in range(it["body"]["argc"])]
    if args:
        args[0] = self_val if self_val is not None else ("ref", ("arg", "self"), (), True) if byref else SELF
    outs = E.run(it, args, st=st)
    ck.saw(E)
    return E, outs


def loc(p, it):
    return "%s (%s)" % (it["path"], p.loc_of_item(it))


def box(ck):
    p = ck.p
    for im in impls(p, "ImageDecoder", lambda im: short(p, im["_self"]) == "Box"):
        for m, d in p.trait_items[im["trait"]].items():
            if d.get("kind", "fn") != "fn":
                continue
            inst = "Box::" + m
            e = im["_items"].get(m)
            if e is None:
                ck.bad("box", inst, "Box<T>: ImageDecoder does not override %s, so a boxed decoder gives the default answer instead of its own" % m)
                continue
            ck.each("box", inst, one_box, ck, p.items[e["key"]], m, inst)


def from_self(v):
    return T.contains(v, SELF) or T.contains(v, ("arg", "self")) or "self" in T.show(v)


def one_box(ck, it, m, inst):
    p = ck.p
    E, outs = call(ck, it, byref=m not in ("read_image", "read_image_boxed"), self_val=None)
    want = {"ImageDecoder::" + m} | ({"ImageDecoder::read_image_boxed"} if m == "read_image" else set())
    n = 0
    for o in outs:
        if o.kind != "ret":
            ck.bad("box", inst, "%s can stop with %s before asking the boxed decoder" % (loc(p, it), o.why))
            return
        cs = [x for x in o.st.eff if x[0] == "call" and not x[1].startswith("Drop")]
        own = [x for x in cs if x[1] in want]
        v = E.strip(o.st, o.val)
        if not own:
            return ck.bad("box", inst, "%s returns %s without asking the boxed decoder" % (loc(p, it), T.show(v)[:80]))
        if len(own) != 1 or v != E.strip(o.st, own[0][3]):
            return ck.bad("box", inst, "%s returns %s instead of the boxed decoder's answer" % (loc(p, it), T.show(v)[:80]))
        x = own[0]
        if [E.strip(o.st, a) for a in x[2][1:]] != [("sym", "a%d" % k) for k in range(1, it["body"]["argc"])]:
            return ck.bad("box", inst, "%s hands the boxed decoder other arguments: %s" % (loc(p, it), [T.show(a)[:60] for a in x[2][1:]]))
        ty = x[5][0] if x[5] else None
        if ty is not None and ty[0] != "param":
            return ck.bad("box", inst, "%s calls the method on %s" % (loc(p, it), p.tystr(ty)))
        if not from_self(E.deep(o.st, x[2][0])):
            return ck.und("box", inst, "receiver not recognised: %s" % T.show(x[2][0])[:100])
        n += 1
    ck.judge("box", inst, True if n else None, "%s: no path" % loc(p, it))


def boxed(ck):
    p = ck.p
    for im in impls(p, "ImageDecoder", lambda im: short(p, im["_self"]) != "Box"):
        nm = short(p, im["_self"])
        e = im["_items"].get("read_image_boxed")
        if e:
            ck.each("boxed", nm, one_boxed, ck, im, p.items[e["key"]], nm)


def one_boxed(ck, im, it, nm):
    p = ck.p
    E, outs = call(ck, it, no_inline=lambda fi, n: n == "ImageDecoder::read_image",
                   self_val=("box", ("ref", ("arg", "self"), (), True)))
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        own = [x for x in o.st.eff if x[0] == "call" and x[1] == "ImageDecoder::read_image"]
        v = E.strip(o.st, o.val)
        if not own:
            if not [x for x in o.st.eff if x[0] == "call"]:
                return ck.bad("boxed", nm, "%s returns %s without decoding" % (loc(p, it), T.show(v)[:80]))
            return ck.und("boxed", nm, "%s does not call read_image" % loc(p, it))
        x = own[-1]
        if E.strip(o.st, x[2][1]) != ("sym", "a1"):
            return ck.bad("boxed", nm, "%s decodes into %s instead of the caller's buffer" % (loc(p, it), T.show(x[2][1])[:80]))
        if v != E.strip(o.st, x[3]):
            return ck.bad("boxed", nm, "%s returns %s instead of read_image's result" % (loc(p, it), T.show(v)[:80]))
        if x[5] and p.tystr(x[5][0]) != p.tystr(im["_self"]):
            return ck.bad("boxed", nm, "%s decodes with %s" % (loc(p, it), p.tystr(x[5][0])))
        n += 1
    ck.judge("boxed", nm, True if n else None, "%s: no path" % loc(p, it))


def readers(ck):
    p = ck.p
    for im in impls(p, "Read", lambda im: short(p, im["_self"]) in ("TiffReader", "GifReader")):
        nm = short(p, im["_self"])
        for m, e in im["_items"].items():
            if m in ("read", "read_exact", "read_to_end", "read_to_string", "read_vectored"):
                ck.each("reader", "%s::%s" % (nm, m), one_reader, ck, p.items[e["key"]], m, "%s::%s" % (nm, m))


def one_reader(ck, it, m, inst):
    p = ck.p
    E, outs = call(ck, it)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        own = [x for x in o.st.eff if x[0] == "call" and x[1] == "Read::" + m]
        v = E.strip(o.st, o.val)
        if own:
            x = own[-1]
            if E.strip(o.st, x[2][1]) != ("sym", "a1") or v != E.strip(o.st, x[3]):
                return ck.bad("reader", inst, "%s does not forward the read unchanged: %s" % (loc(p, it), T.show(v)[:80]))
            n += 1
            continue
        # the shortcut of read_to_end: the wrapped buffer is handed over as a whole, right only at its start and into an empty buffer
        if m == "read_to_end":
            fs = [(T.show(t), val) for t, val in o.st.facts]
            start = any("position" in t and (val is True or val == 0) for t, val in fs)
            empty = any("len" in t and "a1" in t and (val is True or val == 0) for t, val in fs)
            if start and empty:
                n += 1
                continue
            return ck.bad("reader", inst, "%s hands over the whole buffer although %s" % (
                loc(p, it), "the position may not be its start" if not start else "the caller's buffer may not be empty"))
        return ck.bad("reader", inst, "%s returns %s without reading" % (loc(p, it), T.show(v)[:80]))
    ck.judge("reader", inst, True if n else None, "%s: no path" % loc(p, it))


def values(ck, it, **kw):
    """set of (returned value, value left in self, path condition) over the returning paths"""
    E, outs = call(ck, it, **kw)
    r = set()
    for o in outs:
        if o.kind == "ret":
            r.add((E.deep(o.st, o.val), E.deep(o.st, o.st.mem[("arg", "self")])))
    return r, {o.why[:2] if isinstance(o.why, tuple) else o.why for o in outs if o.kind == "panic"}


def buffer_(ck):
    p = ck.p
    inh = {}
    for im in p.impls:
        if "trait" not in im and short(p, im["_self"]) == "ImageBuffer":
            for m, e in im["_items"].items():
                inh.setdefault(m, p.items.get(e["key"]))
    for tr in ("GenericImageView", "GenericImage"):
        for im in impls(p, tr, lambda im: short(p, im["_self"]) == "ImageBuffer"):
            for m in ("dimensions", "get_pixel", "get_pixel_mut", "put_pixel", "width", "height"):
                e = im["_items"].get(m)
                it = p.items.get(e["key"]) if e else None
                own = inh.get(m)
                if it is None or "body" not in it or own is None:
                    continue
                ck.each("buffer", "ImageBuffer::" + m, same, ck, it, own, "ImageBuffer::" + m)
    for im in impls(p, "GenericImageView", lambda im: short(p, im["_self"]) in ("View", "ViewMut", "SubImageInner")):
        nm = short(p, im["_self"])
        ck.each("buffer", nm + "::dimensions", order, ck, im, p.items[im["_items"]["dimensions"]["key"]], "buffer", nm + "::dimensions")


def same(ck, it, own, inst):
    p = ck.p
    a, pa = values(ck, it)
    b, pb = values(ck, own)
    if not a or not b:
        return ck.und("buffer", inst, "no returning path")
    # by value instead of by reference
    norm = lambda s: {(re.sub(r"^(\*|\(rf )+", "", T.show(v)).rstrip(")"), T.show(m)) for v, m in s}
    if a == b or norm(a) == norm(b):
        return ck.ok("buffer", inst)
    ck.bad("buffer", inst, "%s differs from the inherent method: %s instead of %s" % (
        loc(p, it), sorted(x[0][:100] for x in norm(a))[:2], sorted(x[0][:100] for x in norm(b))[:2]))


def field_name(p, ty, v):
    """(name, type) of what a chain of field projections from self reads"""
    if v == SELF:
        return "self", ty
    if v[0] in ("cast", "as"):
        return field_name(p, ty, v[1])
    if v[0] == "deref":
        n, t = field_name(p, ty, v[1])
        while t is not None and t[0] in ("ref", "ptr"):
            t = t[1]
        return n, t
    if v[0] == "fld":
        n, t = field_name(p, ty, v[1])
        return fld(p, n, t, v)
    if v[0] == "call" and len(v[2]) >= 1:
        return v[1].split("::")[-1], None
    return None, None


def fld(p, n, t, v):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[1]
    if t is None:
        return n, None
    if t[0] == "tuple":
        i = v[3]
        return "%s.%s" % (n, i), t[1][i] if i < len(t[1]) else None
    if t[0] != "adt" or t[1] not in p.adts:
        return None, None
    try:
        f = p.adts[t[1]]["variants"][v[2] or 0]["f"][v[3]]
    except (IndexError, KeyError):
        return None, None
    return f["n"], p.ty(f["ty"]) if "ty" in f else None


def comps(p, ty, v):
    """names of the two components"""
    return [name_of(p, ty, c) for c in v[3]]


def name_of(p, ty, c):
    seen = [s for s in T.subterms(c) if s and s[0] in ("call", "fld")]
    out = set()
    for s in seen:
        if s[0] == "call":
            out.add(str(s[1]).split("::")[-1].lower())
        else:
            n, _ = field_name(p, ty, s)
            if n:
                out.add(n.lower())
    return out


def order(ck, im, it, rule, inst):
    p = ck.p
    E, outs = call(ck, it)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        v = E.deep(o.st, o.val)
        if v[0] == "call" and str(v[1]).split("::")[-1] in ("size", "dimensions"):
            n += 1
            continue
        if v[0] == "fld":
            nm = field_name(p, im["_self"], v)[0]
            if nm == "dimensions":
                n += 1
                continue
        if v[0] != "agg" or len(v[3]) != 2:
            return ck.und(rule, inst, "%s returns %s" % (loc(p, it), T.show(v)[:80]))
        a, b = comps(p, im["_self"], v)
        wide, high = (lambda x: "width" in x or x[:1] == "x"), (lambda x: "height" in x or x[:1] == "y")
        wa, ha, wb, hb = any(map(wide, a)), any(map(high, a)), any(map(wide, b)), any(map(high, b))
        if ha and not wa or wb and not hb:
            return ck.bad(rule, inst, "%s returns %s as width and %s as height" % (loc(p, it), sorted(a), sorted(b)))
        s0, s1 = T.show(v[3][0]), T.show(v[3][1])
        if wa and hb:
            n += 1
        elif s0[:-2] == s1[:-2] and s0[-2:] == ".0" and s1[-2:] == ".1":
            n += 1
        elif s0[:-2] == s1[:-2] and s0[-2:] == ".1" and s1[-2:] == ".0":
            return ck.bad(rule, inst, "%s returns %s as width and %s as height" % (loc(p, it), s0[:60], s1[:60]))
        else:
            return ck.und(rule, inst, "%s: components not recognised: %s, %s (%s, %s)" % (loc(p, it), s0[:80], s1[:80], a, b))
    ck.judge(rule, inst, True if n else None, "%s: no path" % loc(p, it))


def dims(ck):
    p = ck.p
    for im in impls(p, "ImageDecoder", lambda im: short(p, im["_self"]) != "Box"):
        nm = short(p, im["_self"])
        ck.each("dimensions", nm, order, ck, im, p.items[im["_items"]["dimensions"]["key"]], "dimensions", nm)


def trait_default(p, trait, m):
    for t, v in p.trait_items.items():
        if t.split("::")[-1] == trait and m in v and v[m].get("default"):
            return p.items.get(v[m]["key"])
    return None


def defaults(ck):
    p = ck.p
    w, h = ("sym", "w", (0, 2**32 - 1)), ("sym", "h", (0, 2**32 - 1))

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name in ("GenericImageView::width", "GenericImageView::height"):
            return [Out(st, "ret", w if name.endswith("width") else h)]
        if name in ("GenericImageView::dimensions", "ImageDecoder::dimensions"):
            return [Out(st, "ret", absint.tup(w, h))]
        return None

    def single(m, tr, f):
        it = trait_default(p, tr, m)
        inst = "%s::%s" % (tr, m)
        if it is None:
            return ck.und("defaults", inst, "no default body")
        E, outs = call(ck, it, hook=hook)
        n = 0
        for o in outs:
            if o.kind == "panic":
                return ck.bad("defaults", inst, "%s can panic: %s" % (loc(p, it), o.why))
            if o.kind != "ret":
                continue
            r = f(E, o)
            if r is not True:
                return ck.judge("defaults", inst, r if r is None else False, "%s returns %s" % (loc(p, it), T.show(E.deep(o.st, o.val))[:120]))
            n += 1
        ck.judge("defaults", inst, True if n else None, "no path")

    x, y = ("sym", "a1"), ("sym", "a2")

    def bounds(E, o):
        v = E.strip(o.st, o.val)
        for a, b, c, d in ((0, 0, 1, 1), (1, 0, 1, 2), (0, 1, 2, 1), (0, 1, 1, 2), (5, 5, 5, 6), (5, 5, 6, 5), (4, 5, 5, 6), (0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0), (9, 2, 10, 3), (2, 9, 3, 10), (2, 9, 10, 3)):
            env = {x: a, y: b, w: c, h: d}
            ok = True
            for t, val in o.st.facts:
                r = T.evalt(t, env)
                if r is None:
                    return None
                if (r not in val[1]) if isinstance(val, tuple) and val[0] == "not" else r == val:
                    continue
                ok = False
                break
            if ok and bool(T.evalt(v, env)) != (a < c and b < d):
                return False
        return True
    ck.each("defaults", "GenericImageView::in_bounds", single, "in_bounds", "GenericImageView", bounds)
    ck.each("defaults", "GenericImageView::width", single, "width", "GenericImageView", lambda E, o: E.strip(o.st, o.val) == w)
    ck.each("defaults", "GenericImageView::height", single, "height", "GenericImageView", lambda E, o: E.strip(o.st, o.val) == h)

    def forwards(m, n):
        def f(E, o):
            own = [c for c in o.st.eff if c[0] == "call" and c[1].split("::")[-1] == n]
            if not own:
                return False
            c = own[-1]
            if [E.strip(o.st, a) for a in c[2][1:]] != [("sym", "a%d" % k) for k in range(1, len(c[2]))]:
                return False
            v = E.strip(o.st, o.val)
            return v == E.strip(o.st, c[3]) or v == ("agg", "tuple", 0, ()) or v[0] in ("unit",)
        return f
    ck.each("defaults", "GenericImageView::unsafe_get_pixel", single, "unsafe_get_pixel", "GenericImageView", forwards("unsafe_get_pixel", "get_pixel"))
    ck.each("defaults", "GenericImage::unsafe_put_pixel", single, "unsafe_put_pixel", "GenericImage", forwards("unsafe_put_pixel", "put_pixel"))

    C, X = tb.find_adt(p, "ColorType"), tb.find_adt(p, "ExtendedColorType")
    xn = [v["n"] for v in p.adts[X]["variants"]]
    it = trait_default(p, "ImageDecoder", "original_color_type")

    def orig():
        for cv, var in enumerate(p.adts[C]["variants"]):
            E, outs = call(ck, it, hook=lambda E, st, fr, name, fi, fargs, args, site:
                           [Out(st, "ret", ("agg", C, cv, ()))] if name == "ImageDecoder::color_type" else None)
            for o in outs:
                v = E.strip(o.st, o.val) if o.kind == "ret" else None
                if v is None or v[0] != "agg":
                    return ck.und("defaults", "ImageDecoder::original_color_type", "value not determined for %s" % var["n"])
                if xn[v[2]] != var["n"]:
                    return ck.bad("defaults", "ImageDecoder::original_color_type", "%s gives %s for %s" % (loc(p, it), xn[v[2]], var["n"]))
        ck.ok("defaults", "ImageDecoder::original_color_type")
    if it is not None:
        ck.each("defaults", "ImageDecoder::original_color_type", orig)


def deref(ck):
    p = ck.p
    for tr, m in (("Deref", "deref"), ("DerefMut", "deref_mut")):
        for im in impls(p, tr, lambda im: short(p, im["_self"]) == "SubImage"):
            it = p.items[im["_items"][m]["key"]]

            def f():
                E, outs = call(ck, it)
                vs = {E.deep(o.st, o.val) for o in outs if o.kind == "ret"}
                names = {field_name(p, im["_self"], v[1] if v[0] in ("rf", "ref") and isinstance(v[1], tuple) else v)[0] for v in vs}
                s = {T.show(v) for v in vs}
                ck.judge("deref", "SubImage::" + m, (s == {"(rf self.0)"}) if vs else None, "%s returns %s" % (loc(p, it), s))
            ck.each("deref", "SubImage::" + m, f)


def frames(ck):
    p = ck.p
    for im in impls(p, "Iterator", lambda im: short(p, im["_self"]) == "Frames"):
        it = p.items[im["_items"]["next"]["key"]]

        def f():
            E, outs = call(ck, it)
            r = True
            for o in outs:
                if o.kind != "ret":
                    r = False
                    continue
                own = [c for c in o.st.eff if c[0] == "call" and c[1] == "Iterator::next"]
                r = r and len(own) == 1 and E.strip(o.st, o.val) == E.strip(o.st, own[0][3])
            if "webp" in it["path"] or "codecs" in it["path"]:
                return
            ck.judge("frames", "Frames::next", r if outs else None, "%s does not return the wrapped iterator's next frame" % loc(p, it))
        ck.each("frames", "Frames::next", f)
