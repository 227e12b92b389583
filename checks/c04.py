"""C04: width and height limits are enforced by every decoder and by the reader."""
from vlib import absint, terms as T, tables as tb
from vlib.absint import OPTION, RESULT
from vlib.errflow import is_failure, err_facts
from . import limits as L

LIM = [None, 0, 1, 3, 2**32 - 1]
PTS = [0, 1, 3, 4, 2**32 - 1]


def what(d):
    g = lambda k: [v for kk, v in d.items() if kk in k][0]
    return ", ".join("%s=%s" % (NAMES.get(k, T.show(k)), v) for k, v in d.items())


NAMES = {}


def over(w, h, a, b):
    def f(d):
        return (d[a] is not None and d[w] > d[a]) or (d[b] is not None and d[h] > d[b])
    return f


def lim_value(p, adt):
    """a symbolic Limits value; -> (value, {field: term})"""
    fs = L.fields(p, adt)
    v = ("agg", adt, 0, tuple(("sym", "limits." + n) for n in fs))
    return v, dict(zip(fs, v[3]))


def case_check(E, outs, w, h, lim):
    a, b = lim["max_image_width"], lim["max_image_height"]
    NAMES.clear()
    NAMES.update({w: "width", h: "height", a: "max_image_width", b: "max_image_height"})
    if w == h:
        return False, "the width and the height given to the check are the same value"
    keys = [w, h, a, b]
    k = L.constants(outs)
    return L.decide(E, outs, L.grid({w: PTS + k, h: PTS + k}, {a: LIM + k, b: LIM + k}), keys, over(w, h, a, b), what)


def run(ck):
    p = ck.p
    ck.rule("exact", "Limits::check_dimensions fails exactly when a configured maximum is exceeded (case split over every order of the four values)", 1)
    ck.rule("decoder", "set_limits of every decoder succeeds on no path on which its own width or height exceeds the limits, and is not failed by the dimensions otherwise", 17)
    ck.rule("constructor", "a constructor taking limits accepts no image exceeding them", 1)
    ck.rule("reader", "the reader applies its limits to the decoder, successfully, before the decoder is used or returned", 2)
    ck.rule("configured", "the reader's limits are the documented default until the caller changes them, and no other call changes them", 8)
    LA = L.limits_adt(p)
    # --- exact
    it = tb.method(p, LA, "check_dimensions")
    def exact():
        E = absint.Engine(p)
        st = absint.State()
        v, lim = lim_value(p, LA)
        w, h = ("sym", "width", L.U32), ("sym", "height", L.U32)
        outs = E.run(it, [tb.by_ref(st, v), w, h], st=st)
        E.npaths = len(outs)
        ck.saw(E)
        r, t = case_check(E, outs, w, h, lim)
        ck.judge("exact", it["path"], r, "%s %s (%s)" % (it["path"], t, p.loc_of_item(it)), t)
    if it:
        ck.each("exact", it["path"], exact)
    # --- decoders
    dflt = p.trait_default("image::ImageDecoder", "set_limits") if hasattr(p, "trait_default") else None
    ndec = 0
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "ImageDecoder":
            continue
        own = im["_items"].get("set_limits")
        body = p.items.get(own["key"]) if own else None
        it = body or default_of(p, "ImageDecoder", "set_limits")
        nm = p.tystr(im["_self"]).split("<")[0].split("::")[-1]
        ck.each("decoder", nm, decoder, ck, LA, im, it, nm, own is None)
    # --- constructors taking limits
    for it in p.fns():
        if it["kind"] != "fn" or not it["body"]["argc"]:
            continue
        tys = [p.ty(l[0]) for l in it["body"]["locals"][1:1 + it["body"]["argc"]]]
        k = [i for i, t in enumerate(tys) if t[0] == "adt" and t[1] == LA]
        ret = p.ty(it["body"]["locals"][0][0])
        if not k or "impl_self" not in it or ret[0] != "adt" or ret[1] != RESULT:
            continue
        me = p.ty(it["impl_self"])
        if me[0] != "adt" or me[1] == LA or not ret[2] or ret[2][0] != me:
            continue
        ck.each("constructor", it["path"], constructor, ck, LA, it, k[0], me)
    reader(ck, LA)
    configured(ck, LA)


def default_of(p, trait, name):
    r = [i for i in p.fns() if i["name"] == name and i["path"].split("::")[-2] == trait and "impl_self" not in i]
    return r[0] if len(r) == 1 else None


def subst_self(p, it, ty):
    """type substitution of a trait default body for a given Self"""
    return {0: ty}


def pair(E, o):
    v = E.strip(o.st, o.val)
    return tuple(E.proj(v, ("f", None, i)) for i in (0, 1))


def decoder(ck, LA, im, it, nm, is_default):
    p = ck.p
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    selfty = im["_self"]
    sub = {0: selfty} if is_default else {}
    dm = p.items[im["_items"]["dimensions"]["key"]]
    st0 = absint.State()
    me = ("sym", "decoder")
    if is_default:
        # the default body sees the decoder only through its interface
        def opaque_dims(E, st, fr, name, fi, fargs, args, site):
            if name.endswith("::dimensions"):
                return [absint.Out(st, "ret", absint.tup(("sym", "w", L.U32), ("sym", "h", L.U32)))]
        hook = opaque_dims
        w, h = ("sym", "w", L.U32), ("sym", "h", L.U32)
    else:
        hook = L.pure_getters
        E0 = absint.Engine(p, hook=hook)
        st0.mem[("arg", "self")] = me
        douts = [o for o in E0.run(dm, [("ref", ("arg", "self"), (), False)], st=st0.fork()) if o.kind == "ret"]
        ck.saw(E0)
        if len(douts) == 1:
            w, h = pair(E0, douts[0])
        else:
            w, h = ("sym", "w", L.U32), ("sym", "h", L.U32)
            def hook(E, st, fr, name, fi, fargs, args, site):
                if name.endswith("::dimensions") and args and E.strip(st, args[0]) == me:
                    return [absint.Out(st, "ret", absint.tup(w, h))]
                return L.pure_getters(E, st, fr, name, fi, fargs, args, site)
    E = absint.Engine(p, hook=hook, no_inline=lambda fi, n: "total_bytes" in n or n.startswith("Limits::reserve"))
    st = absint.State()
    st.mem[("arg", "self")] = me
    lv, lim = lim_value(p, LA)
    outs = E.run(it, [("ref", ("arg", "self"), (), True), lv], subst=sub, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    # forwarding to an inner decoder's set_limits with the same limits
    fwd = [e for o in outs for e in o.st.eff if e[1] == "ImageDecoder::set_limits"]
    if fwd:
        for o in outs:
            if o.kind != "ret":
                continue
            es = [e for e in o.st.eff if e[1] == "ImageDecoder::set_limits" and E.deep(o.st, e[2][1]) == lv]
            good = any(E.strip(o.st, o.val) == e[3] or err_facts(o.st).get(e[3]) == 0 for e in es)
            if is_failure(E, o.st, o.val) is not True and not good:
                return ck.bad("decoder", nm, "%s succeeds without handing the limits to the wrapped decoder" % where)
        return ck.ok("decoder", nm, "forwards")
    if nm == "Box":
        return ck.bad("decoder", nm, "%s does not hand the limits to the wrapped decoder" % where)
    r, t = case_check(E, outs, w, h, lim)
    ck.judge("decoder", nm, r, "%s: set_limits %s (%s)" % (nm, t, where), t)


def constructor(ck, LA, it, k, me):
    p = ck.p
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    dims = [im for im in p.impls if im.get("trait", "").split("::")[-1] == "ImageDecoder" and im["_self"][0] == "adt" and im["_self"][1] == me[1]]
    if not dims:
        return
    dm = p.items[dims[0]["_items"]["dimensions"]["key"]]
    E = absint.Engine(p, hook=L.pure_getters)
    lv, lim = lim_value(p, LA)
    args = [("sym", "a%d" % i) for i in range(it["body"]["argc"])]
    args[k] = lv
    outs = E.run(it, args)
    E.npaths = len(outs)
    ck.saw(E)
    n = 0
    for o in outs:
        if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
            continue
        v = E.strip(o.st, o.val)
        if is_failure(E, o.st, o.val) is None or v[0] != "agg":
            ck.und("constructor", it["path"], "%s returns %s" % (where, T.show(v)))
            return
        st = o.st.fork()
        st.mem[("arg", "self")] = v[3][0]
        E2 = absint.Engine(p, hook=L.pure_getters)
        for d in E2.run(dm, [("ref", ("arg", "self"), (), False)], st=st):
            if d.kind != "ret":
                continue
            w, h = pair(E2, d)
            o2 = absint.Out(d.st, "ret", o.val)
            a, b = lim["max_image_width"], lim["max_image_height"]
            ov = over(w, h, a, b)
            NAMES.clear()
            NAMES.update({w: "width", h: "height", a: "max_image_width", b: "max_image_height"})
            r, t = L.decide(E2, [o2], [c for c in L.grid({w: PTS, h: PTS}, {a: LIM, b: LIM}) if ov(c[1])], [w, h, a, b], ov, what)
            n += 1
            # infeasible everywhere is what we want: decide() calls that undecided
            if r is False:
                return ck.bad("constructor", it["path"], "%s %s" % (where, t))
            if t.startswith("cannot"):
                return ck.und("constructor", it["path"], "%s: %s" % (where, t))
    ck.judge("constructor", it["path"], True if n else None, "no successful path found", "%d successful paths" % n)


def same_caps(E, st, v, lim):
    v = E.strip(st, v)
    fs = [E.proj(v, ("f", None, i)) for i in range(len(L.fields(E.p, L.limits_adt(E.p))))]
    n = L.fields(E.p, L.limits_adt(E.p))
    return all(fs[n.index(x)] == lim[x] for x in ("max_image_width", "max_image_height"))


def root(E, st, v):
    v = E.deep(st, v)
    while v[0] in ("rf", "post", "box", "over"):
        v = v[2] if v[0] == "post" else v[1]
    return v


def reader(ck, LA):
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    flds = p.adts[R]["variants"][0]["f"]
    for fn in ("decode", "into_decoder"):
        it = tb.method(p, R, fn)
        if it is None:
            ck.und("reader", fn, "not found")
            continue
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        def one():
            lv, lim = lim_value(p, LA)
            vals = []
            for f in flds:
                ty = p.ty(f["ty"])
                vals.append(lv if ty[0] == "adt" and ty[1] == LA else ("sym", "reader." + f["n"]))
            boundary = ("DynamicImage::from_decoder", "ImageReader::make_decoder", "ImageDecoder::set_limits", "ImageDecoder::total_bytes",
                        "ImageDecoder::dimensions")
            E = absint.Engine(p, no_inline=lambda fi, n: n in boundary or "codecs::" in fi.get("res_path", fi["path"]))
            outs = E.run(it, [("agg", R, 0, tuple(vals))])
            E.npaths = len(outs)
            ck.saw(E)
            n = 0
            for o in outs:
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                ef = err_facts(o.st)
                used = [e for e in o.st.eff if e[1] == "DynamicImage::from_decoder"]
                subject = used[0][2][0] if used else None
                if subject is None:
                    v = E.strip(o.st, o.val)
                    subject = v[3][0] if v[0] == "agg" and v[1] == RESULT else v
                dec = root(E, o.st, subject)
                ok = False
                for e in o.st.eff:
                    if used and e is used[0]:
                        break
                    if e[1] == "ImageDecoder::set_limits" and ef.get(e[3]) == 0:
                        if not same_caps(E, o.st, e[2][1], lim):
                            return ck.bad("reader", fn, "%s: the decoder is given limits other than the reader's" % where)
                        # the very decoder that is used later
                        if e[3] == dec or T.contains(E.deep(o.st, subject), e[3]) or T.contains(dec, root(E, o.st, e[2][0])) :
                            ok = True
                if not ok:
                    return ck.bad("reader", fn, "%s: a path uses the decoder without having applied the limits to it" % where)
                n += 1
            ck.judge("reader", fn, True if n else None, "%s: no successful path" % where, "%d paths" % n)
        ck.each("reader", fn, one)


def configured(ck, LA):
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    names = L.fields(p, R)
    k = [i for i, f in enumerate(p.adts[R]["variants"][0]["f"]) if p.ty(f["ty"])[0] == "adt" and p.ty(f["ty"])[1] == LA][0]
    lf = L.fields(p, LA)
    # documented defaults
    for nm, want in (("default", [None, None, 512 * 1024 * 1024]), ("no_limits", [None, None, None])):
        def one():
            if nm == "default":
                im, it = tb.trait_method(p, "Default", lambda t: t[0] == "adt" and t[1] == LA, "default")[0]
            else:
                it = tb.method(p, LA, nm)
            E = absint.Engine(p)
            outs = [o for o in E.run(it, []) if o.kind == "ret"]
            ck.saw(E)
            for o in outs:
                v = E.strip(o.st, o.val)
                got = {n: tb.plain(E, o.st, E.proj(v, ("f", None, i))) for i, n in enumerate(lf)}
                for n, x in zip(("max_image_width", "max_image_height", "max_alloc"), want):
                    g = got[n]
                    if g is None:
                        return ck.und("configured", "Limits::" + nm, "field %s not determined" % n)
                    if g != ("None" if x is None else ("Some", x)):
                        return ck.bad("configured", "Limits::" + nm, "%s: %s is %s (%s)" % (it["path"], n, g, p.loc_of_item(it)))
            ck.ok("configured", "Limits::" + nm)
        ck.each("configured", "Limits::" + nm, one)
    # reader methods
    opaque = lambda fi, n: "Default" in n or n == "Limits::no_limits"
    for it in p.fns():
        if it["kind"] != "fn" or "impl_self" not in it or "impl_trait" in it:
            continue
        t = p.ty(it["impl_self"])
        if t[0] != "adt" or t[1] != R:
            continue
        tys = [p.ty(l[0]) for l in it["body"]["locals"][1:1 + it["body"]["argc"]]]
        ret = p.ty(it["body"]["locals"][0][0])
        takes = bool(tys) and (tys[0] == t or tys[0][0] == "ref" and tys[0][1] == t)
        gives = has(ret, R)
        mut = takes and tys[0][0] == "ref" and tys[0][2]
        if not gives and not mut:
            continue
        def one():
            E = absint.Engine(p, hook=L.pure_getters)
            st = absint.State()
            me = ("agg", R, 0, tuple(("sym", "limits0") if i == k else ("sym", "reader." + n) for i, n in enumerate(names)))
            args = []
            for i, ty in enumerate(tys):
                if i == 0 and takes:
                    if tys[0][0] == "ref":
                        st.mem[("arg", "self")] = me
                        args.append(("ref", ("arg", "self"), (), True))
                    else:
                        args.append(me)
                else:
                    args.append(("sym", "arg%d" % i))
            outs = E.run(it, args, st=st)
            E.npaths = len(outs)
            ck.saw(E)
            n = 0
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            for o in outs:
                if o.kind != "ret":
                    continue
                if mut:
                    v = E.read(o.st, ("arg", "self"), ())
                else:
                    v = E.strip(o.st, o.val)
                    while v[0] == "agg" and v[1] in (RESULT, OPTION):
                        if not v[3] or v[1] == RESULT and v[2] == 1:
                            v = None
                            break
                        v = E.strip(o.st, v[3][0])
                    if v is None:
                        continue
                if v[0] != "agg" or v[1] != R:
                    if v[0] == "call":
                        n += 1
                        continue
                    return ck.und("configured", it["path"], "%s returns %s" % (where, T.show(v)[:80]))
                x = E.strip(o.st, v[3][k])
                n += 1
                limarg = [a for a, ty in zip(args, tys) if ty[0] == "adt" and ty[1] == LA]
                if limarg:
                    good = x == limarg[0]
                    want = "the limits given"
                elif x[0] == "agg" and x[1] == LA:
                    g = [tb.plain(E, o.st, y) for y in x[3]]
                    if takes:
                        good = it["name"] == "no_limits" and g == ["None"] * len(lf)
                        want = "what they were" if it["name"] != "no_limits" else "no limits"
                    else:
                        good = g[lf.index("max_image_width")] == "None" and g[lf.index("max_image_height")] == "None" and g[lf.index("max_alloc")] == ("Some", 512 << 20)
                        want = "the documented default"
                else:
                    good = takes and x == ("sym", "limits0") and it["name"] != "no_limits"
                    want = "what they were"
                if not good:
                    return ck.bad("configured", it["path"], "%s: the reader's limits become %s instead of %s" % (where, T.show(x)[:120], want))
            ck.judge("configured", it["path"], True if n else None, "%s: no path returns a reader" % where, "%d paths" % n)
        ck.each("configured", it["path"], one)


def has(ty, adt):
    if ty[0] == "adt":
        return ty[1] == adt or any(has(a, adt) for a in ty[2])
    return False
