"""C05: the allocation limit is accounted exactly and charged before memory is allocated."""
import re
from vlib import absint, graph, terms as T, tables as tb
from vlib.absint import OPTION, RESULT
from vlib.errflow import is_failure, err_facts
from . import limits as L
from .c04 import lim_value, root, default_of

U64 = (0, 2**64 - 1)
MAX = 2**64 - 1
M = [None, 0, 1, 5, 6, 2**32, MAX - 1, MAX]
N = [0, 1, 5, 6, 2**32, MAX - 1, MAX]
BPP = {"L8": 1, "La8": 2, "Rgb8": 3, "Rgba8": 4, "L16": 2, "La16": 4, "Rgb16": 6, "Rgba16": 8, "Rgb32F": 12, "Rgba32F": 16}
ALLOC = re.compile(r"^(vec::from_elem|Vec::with_capacity|Vec::resize|Vec::reserve|Vec::reserve_exact|ImageBuffer::(new|from_pixel|from_fn))$")


def run(ck):
    p = ck.p
    ck.rule("account", "Limits::reserve*, free*: outcome and remaining budget for every order and overflow case of budget and request", 5)
    ck.rule("total", "the number of bytes charged for an image is width x height x bytes per pixel, saturating, for every decoder", 2)
    ck.rule("charge", "loading through the reader fails when the decoded size exceeds the budget and hands exactly the rest to the decoder before decoding", 1)
    ck.rule("kept", "a decoder that keeps limits keeps the ones it was given", 3)
    ck.rule("split", "the TIFF decoder's buffer budgets never exceed the budget given", 1)
    ck.rule("frames", "decoders that keep limits reserve budget before every variable-size allocation", 3)
    ck.rule("pass-on", "limits handed to a third-party decoder are the configured ones, unlimited only where none is configured", 2)
    LA = L.limits_adt(p)
    account(ck, LA)
    total(ck)
    charge(ck, LA)
    kept(ck, LA)
    split(ck, LA)
    frames(ck, LA)
    pass_on(ck, LA)


def final_budget(E, st, cell, k):
    return E.proj(E.read(st, cell, ()), ("f", None, k))


def budget_of(E, st, v, env):
    """value of an Option<u64> term under env: None / int / 'unknown'"""
    v = E.strip(st, v)
    if v[0] == "agg" and v[1] == OPTION:
        if v[2] == 0:
            return None
        x = T.evalt(E.strip(st, v[3][0]), env)
        return "unknown" if x is None else x
    if v[0] == "over":
        d = T.evalt(("discr", v[1], OPTION), env)
        if d == 0:
            return None
        x = T.evalt(E.proj(v, ("f", 1, 0)), env)
        return "unknown" if x is None else x
    d = T.evalt(("discr", v, OPTION), env)
    if d == 0:
        return None
    x = T.evalt(("fld", v, 1, 0), env)
    return "unknown" if d is None or x is None else x


def account(ck, LA):
    p = ck.p
    fs = L.fields(p, LA)
    k = fs.index("max_alloc")
    C = [a for a in p.adts if a.endswith("::ColorType") or a == "ColorType"]
    C = tb.find_adt(p, "ColorType")

    def cases(it, mk, spec, what):
        """run with a symbolic budget; spec(m, d) -> (fails, budget after)"""
        inst = it["path"] + what
        def one():
            E = absint.Engine(p)
            st = absint.State()
            lv, lim = lim_value(p, LA)
            st.mem[("arg", "self")] = lv
            args, vals, opts = mk()
            m = lim["max_alloc"]
            outs = E.run(it, [("ref", ("arg", "self"), (), True)] + args, st=st)
            E.npaths = len(outs)
            ck.saw(E)
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            n, und = 0, None
            opts = dict(opts)
            if "max_image_width" in opts:
                opts[lim["max_image_width"]] = opts.pop("max_image_width")
                opts[lim["max_image_height"]] = opts.pop("max_image_height")
            opts[m] = M
            kk = [c for c in L.constants(outs, 7, MAX - 2)]
            opts[m] = M + kk
            for env, d in L.grid(vals, opts):
                fails, after = spec(d.get(m), d, lim)
                hit = False
                for o in outs:
                    f, u = L.feasible(o, env)
                    if f is False:
                        continue
                    hit = True
                    show = "budget %s, request %s" % (d[m], ", ".join(str(d[x]) for x in vals))
                    if f is None:
                        und = "condition not determined for " + show
                        continue
                    if o.kind != "ret":
                        return ck.bad("account", inst, "%s panics for %s" % (where, show))
                    got = is_failure(E, o.st, o.val)
                    if got is None:
                        und = "outcome not determined for " + show
                        continue
                    if got != fails:
                        return ck.bad("account", inst, "%s %s for %s" % (where, "fails" if got else "succeeds", show))
                    b = budget_of(E, o.st, final_budget(E, o.st, ("arg", "self"), k), env)
                    if b == "unknown":
                        und = "remaining budget not determined for " + show
                    elif b != after:
                        return ck.bad("account", inst, "%s leaves %s instead of %s for %s" % (where, b, after, show))
                    other = E.read(o.st, ("arg", "self"), ())
                    for i, nme in enumerate(fs):
                        if i != k and E.proj(other, ("f", None, i)) != lim[nme]:
                            return ck.bad("account", inst, "%s changes %s" % (where, nme))
                    n += 1
                if not hit:
                    und = "no path for a case"
            if und:
                ck.und("account", inst, "%s: %s" % (where, und))
            else:
                ck.ok("account", inst, "%d cases" % n)
        ck.each("account", inst, one)

    amt = ("sym", "amount", U64)
    one_arg = lambda: ([amt], {amt: N}, {})
    def reserve(m, d, lim):
        if m is None:
            return False, None
        return (True, m) if m < d[amt] else (False, m - d[amt])
    def free(m, d, lim):
        return False, None if m is None else min(m + d[amt], MAX)
    for nm, spec in (("reserve", reserve), ("reserve_usize", reserve), ("free", free), ("free_usize", free)):
        it = tb.method(p, LA, nm)
        if it is None:
            ck.und("account", nm, "not found")
            continue
        cases(it, one_arg, spec, "")
    it = tb.method(p, LA, "reserve_buffer")
    if it:
        for i, v in enumerate(p.adts[C]["variants"]):
            w, h = ("sym", "w", L.U32), ("sym", "h", L.U32)
            def spec(m, d, lim, bpp=BPP.get(v["n"])):
                a, b = d[lim["max_image_width"]], d[lim["max_image_height"]]
                if (a is not None and d[w] > a) or (b is not None and d[h] > b):
                    return True, m
                if m is None:
                    return False, None
                n = min(min(d[w] * d[h], MAX) * bpp, MAX)
                return (True, m) if m < n else (False, m - n)
            if v["n"] not in BPP:
                continue
            u = [0, 1, 3, 2**32 - 1]
            cases(it, lambda: ([w, h, ("agg", C, i, ())], {w: u, h: u}, {"max_image_width": [None, 2], "max_image_height": [None, 2]}), spec, ":" + v["n"])


def total(ck):
    p = ck.p
    C = tb.find_adt(p, "ColorType")
    bodies = []
    d = default_of(p, "ImageDecoder", "total_bytes")
    bodies.append(("ImageDecoder::total_bytes (default)", d))
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] == "ImageDecoder" and im["_items"].get("total_bytes"):
            bodies.append((p.tystr(im["_self"]), p.items.get(im["_items"]["total_bytes"]["key"])))
    for nm, it in bodies:
        def one():
            for i, v in enumerate(p.adts[C]["variants"]):
                if v["n"] not in BPP:
                    continue
                w, h = ("sym", "w", L.U32), ("sym", "h", L.U32)
                inner = []
                def hook(E, st, fr, name, fi, fargs, args, site):
                    if name == "ImageDecoder::dimensions":
                        return [absint.Out(st, "ret", absint.tup(w, h))]
                    if name == "ImageDecoder::color_type":
                        return [absint.Out(st, "ret", ("agg", C, i, ()))]
                    if name == "ImageDecoder::total_bytes":
                        inner.append(1)
                        return [absint.Out(st, "ret", ("sym", "inner total", U64))]
                E = absint.Engine(p, hook=hook)
                st = absint.State()
                st.mem[("arg", "self")] = ("sym", "decoder")
                outs = E.run(it, [("ref", ("arg", "self"), (), False)], st=st)
                ck.saw(E)
                where = "%s (%s)" % (it["path"], p.loc_of_item(it))
                for o in outs:
                    if o.kind != "ret":
                        continue
                    if E.strip(o.st, o.val) == ("sym", "inner total", U64):
                        continue
                    for a in (0, 1, 3, 65536, 2**32 - 1):
                        for b in (0, 1, 5, 2**32 - 1):
                            env = {w: a, h: b}
                            f, u = L.feasible(o, env)
                            if f is False:
                                continue
                            g = T.evalt(E.strip(o.st, o.val), env)
                            want = min(min(a * b, MAX) * BPP[v["n"]], MAX)
                            if g is None or f is None:
                                return ck.und("total", nm, "%s: size of a %dx%d %s image not determined" % (where, a, b, v["n"]))
                            if g != want:
                                return ck.bad("total", nm, "%s: a %dx%d %s image is charged %d instead of %d bytes" % (where, a, b, v["n"], g, want))
            ck.ok("total", nm)
        ck.each("total", nm, one)


def charge(ck, LA):
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    flds = p.adts[R]["variants"][0]["f"]
    it = tb.method(p, R, "decode")
    fs = L.fields(p, LA)
    k = fs.index("max_alloc")
    def one():
        lv, lim = lim_value(p, LA)
        m = lim["max_alloc"]
        n = ("sym", "total bytes", U64)
        vals = [lv if p.ty(f["ty"])[0] == "adt" and p.ty(f["ty"])[1] == LA else ("sym", "reader." + f["n"]) for f in flds]
        asked = {}
        def hook(E, st, fr, name, fi, fargs, args, site):
            if name == "ImageDecoder::total_bytes":
                st.eff = st.eff + (("call", name, tuple(args), n, site, fargs),)
                return [absint.Out(st, "ret", n)]
        boundary = ("DynamicImage::from_decoder", "ImageReader::make_decoder", "ImageDecoder::set_limits", "ImageDecoder::dimensions")
        E = absint.Engine(p, hook=hook, no_inline=lambda fi, nm: nm in boundary or "codecs::" in fi.get("res_path", fi["path"]))
        outs = E.run(it, [("agg", R, 0, tuple(vals))])
        E.npaths = len(outs)
        ck.saw(E)
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        seen = 0
        for o in outs:
            if o.kind != "ret":
                continue
            dec = [e for e in o.st.eff if e[1] == "DynamicImage::from_decoder"]
            if not dec:
                continue
            before = o.st.eff[:[i for i, e in enumerate(o.st.eff) if e is dec[0]][0]]
            made = [e[3] for e in before if e[1].endswith("make_decoder") or "Decoder" in e[1] and e[1].split("::")[-1] in ("new", "with_limits")]
            sl = [e for e in before if e[1] == "ImageDecoder::set_limits"]
            tbs = [e for e in before if e[1] == "ImageDecoder::total_bytes"]
            if not tbs:
                return ck.bad("charge", "decode", "%s: decodes without asking for the size of the image" % where)
            for e in tbs:
                if made and not any(T.contains(E.deep(o.st, e[2][0]), x) or T.contains(root(E, o.st, e[2][0]), x) for x in made):
                    return ck.und("charge", "decode", "%s: size asked of %s" % (where, T.show(E.deep(o.st, e[2][0]))[:80]))
            seen += 1
            for env, d in L.grid({n: N}, {m: M}):
                f, u = L.feasible(o, env)
                if f is False:
                    continue
                if d[m] is not None and d[n] > d[m]:
                    if f is None and any(L.mentions(t, [m, n]) for t in u):
                        return ck.und("charge", "decode", "condition not determined")
                    return ck.bad("charge", "decode", "%s: decodes an image of %d bytes with a budget of %d" % (where, d[n], d[m]))
                for e in sl:
                    b = budget_of(E, o.st, E.proj(E.strip(o.st, e[2][1]), ("f", None, k)), env)
                    want = None if d[m] is None else d[m] - d[n]
                    if b == "unknown":
                        return ck.und("charge", "decode", "budget handed on not determined")
                    if b != want:
                        return ck.bad("charge", "decode", "%s: hands a budget of %s on to the decoder after charging %d of %s" % (where, b, d[n], d[m]))
        # a request within the budget is not refused by the accounting
        for o in outs:
            if o.kind == "ret" and is_failure(E, o.st, o.val) is True:
                for env, d in L.grid({n: N}, {m: M}):
                    if d[m] is None or d[n] <= d[m]:
                        f, u = L.feasible(o, env)
                        rel = [t for t, v in o.st.facts if L.mentions(t, [n])]
                        if f is not False and rel and o.st.facts[-1][0] in rel and T.evalt(o.st.facts[-1][0], env) is not None:
                            return ck.bad("charge", "decode", "%s: refuses an image of %d bytes with a budget of %s" % (where, d[n], d[m]))
        ck.judge("charge", "decode", True if seen else None, "%s: no path reaches the decoder" % where, "%d paths" % seen)
    ck.each("charge", "decode", one)


def kept(ck, LA):
    p = ck.p
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "ImageDecoder" or im["_self"][0] != "adt":
            continue
        ad = p.adts.get(im["_self"][1])
        if not ad or not ad["local"]:
            continue
        ks = [i for i, f in enumerate(ad["variants"][0]["f"]) if p.ty(f["ty"])[0] == "adt" and p.ty(f["ty"])[1] == LA]
        if not ks:
            continue
        nm = p.tystr(im["_self"]).split("<")[0].split("::")[-1]
        own = im["_items"].get("set_limits")
        if not own:
            ck.bad("kept", nm, "%s has a limits field but no set_limits of its own" % nm)
            continue
        it = p.items[own["key"]]
        def one():
            E = absint.Engine(p, hook=L.pure_getters, no_inline=lambda fi, n: n.startswith("Limits::check") or "total_bytes" in n)
            st = absint.State()
            lv, lim = lim_value(p, LA)
            st.mem[("arg", "self")] = ("sym", "decoder")
            outs = E.run(it, [("ref", ("arg", "self"), (), True), lv], st=st)
            ck.saw(E)
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            n = 0
            for o in outs:
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                for kf in ks:
                    got = E.strip(o.st, E.proj(E.read(o.st, ("arg", "self"), ()), ("f", None, kf)))
                    for i, f in enumerate(L.fields(p, LA)):
                        if E.proj(got, ("f", None, i)) != lim[f]:
                            return ck.bad("kept", nm, "%s: succeeds keeping %s = %s" % (where, f, T.show(E.proj(got, ("f", None, i)))[:100]))
                n += 1
            ck.judge("kept", nm, True if n else None, "no successful path", "%d paths" % n)
        ck.each("kept", nm, one)


def split(ck, LA):
    p = ck.p
    for it in p.fns():
        if it["name"] != "set_limits" or "tiff" not in it["path"]:
            continue
        def one():
            tot = ("sym", "own buffer bytes", U64)
            def hook(E, st, fr, name, fi, fargs, args, site):
                if "total_bytes" in name:
                    return [absint.Out(st, "ret", tot)]
                return L.pure_getters(E, st, fr, name, fi, fargs, args, site)
            E = absint.Engine(p, hook=hook, no_inline=lambda fi, n: n.startswith("Limits::check"))
            st = absint.State()
            lv, lim = lim_value(p, LA)
            m = lim["max_alloc"]
            st.mem[("arg", "self")] = ("sym", "decoder")
            outs = E.run(it, [("ref", ("arg", "self"), (), True), lv], st=st)
            E.npaths = len(outs)
            ck.saw(E)
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            ta = [a for a in p.adts if a.endswith("tiff::decoder::Limits")]
            fs = [f["n"] for f in p.adts[ta[0]]["variants"][0]["f"]]
            n = 0
            for o in outs:
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                ap = [e for e in o.st.eff if e[1].endswith("Decoder::with_limits")]
                if not ap:
                    return ck.bad("split", it["path"], "%s: succeeds without limiting the TIFF decoder" % where)
                tl = E.strip(o.st, ap[-1][2][1])
                for env, d in L.grid({tot: [0, 1, 5, 2**32, MAX]}, {m: M}):
                    if L.feasible(o, env)[0] is False:
                        continue
                    got = {f: T.evalt(E.strip(o.st, E.proj(tl, ("f", None, i))), env) for i, f in enumerate(fs)}
                    if any(got[f] is None for f in ("decoding_buffer_size", "intermediate_buffer_size")):
                        return ck.und("split", it["path"], "%s: budgets not determined: %s" % (where, T.show(tl)[:200]))
                    b = MAX if d[m] is None else d[m]
                    s = "budget %s, image %d bytes" % (d[m], d[tot])
                    if got["decoding_buffer_size"] + got["intermediate_buffer_size"] > b:
                        return ck.bad("split", it["path"], "%s: buffers of %d and %d bytes allowed with %s" % (where, got["decoding_buffer_size"], got["intermediate_buffer_size"], s))
                    if got.get("ifd_value_size") is not None and got["ifd_value_size"] > b:
                        return ck.bad("split", it["path"], "%s: tag values of %d bytes allowed with %s" % (where, got["ifd_value_size"], s))
                    if got["decoding_buffer_size"] < min(b, d[tot]):
                        return ck.bad("split", it["path"], "%s: only %d bytes for the image with %s" % (where, got["decoding_buffer_size"], s))
                    n += 1
            ck.judge("split", it["path"], True if n else None, "no successful path", "%d cases" % n)
        ck.each("split", it["path"], one)


def owns(p, LA, t, d=0):
    if d > 5:
        return False
    if t[0] == "ref":
        return owns(p, LA, t[1], d + 1)
    if t[0] != "adt":
        return False
    if t[1] == LA:
        return True
    ad = p.adts.get(t[1])
    return bool(ad and ad["local"] and any(owns(p, LA, p.ty(f["ty"]), d + 1) for v in ad["variants"] for f in v["f"])) \
        or any(owns(p, LA, a, d + 1) for a in t[2])


def frames(ck, LA):
    p = ck.p
    g = graph.load(p)
    for it in p.fns():
        b = it["body"]
        if "codecs::" not in it["path"] or not any(owns(p, LA, p.ty(b["locals"][1 + i][0])) for i in range(b["argc"])):
            continue
        if not any(ALLOC.match(absint.canon(p, s.fi)) for s in g.sites[it["key"]]):
            continue
        where = "%s (%s)" % (it["path"], p.loc_of_item(it))
        def one():
            E = absint.Engine(p, hook=None, no_inline=lambda fi, n: True)
            outs = E.run(it, [("sym", "arg%d" % i) for i in range(b["argc"])])
            E.npaths = len(outs)
            ck.saw(E)
            n = 0
            for o in outs:
                ef = err_facts(o.st)
                have = used = 0
                for e in o.st.eff:
                    if e[0] != "call":
                        continue
                    if e[1].startswith("Limits::reserve"):
                        have += ef.get(e[3]) == 0
                    elif e[1].startswith("Limits::free"):
                        pass
                    elif ALLOC.match(e[1]) and not all(a[0] == "c" for a in sizes(e)):
                        used += 1
                        n += 1
                        if used > have:
                            return ck.bad("frames", it["path"], "%s: %s at %s is not preceded by a successful reservation of its own" % (where, e[1], e[4][2]))
            ck.judge("frames", it["path"], True if n else None, "no allocation reached", "%d allocations" % n)
        ck.each("frames", it["path"], one)


def sizes(e):
    if e[1] == "vec::from_elem":
        return e[2][1:2]
    if e[1].startswith("ImageBuffer::"):
        return e[2][:2]
    return e[2][-1:]


def pass_on(ck, LA):
    """local functions that take Limits and build a third-party decoder"""
    p = ck.p
    # JPEG: width/height maxima of the decoder options
    for it in p.fns():
        b = it["body"]
        tys = [p.ty(b["locals"][1 + i][0]) for i in range(b["argc"])]
        k = [i for i, t in enumerate(tys) if t[0] == "adt" and t[1] == LA]
        if not k or "codecs::" not in it["path"] or it["name"] == "set_limits":
            continue
        def one():
            E = absint.Engine(p, hook=L.pure_getters)
            lv, lim = lim_value(p, LA)
            args = [("sym", "a%d" % i) for i in range(b["argc"])]
            args[k[0]] = lv
            outs = E.run(it, args)
            E.npaths = len(outs)
            ck.saw(E)
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            n = 0
            for o in outs:
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                want = []
                for e in list(o.st.eff):
                    if e[1].endswith("set_max_width"):
                        want.append(("max_image_width", e[2][-1]))
                    elif e[1].endswith("set_max_height"):
                        want.append(("max_image_height", e[2][-1]))
                    elif e[1].endswith("Decoder::new_with_limits"):
                        v = E.strip(o.st, e[2][1])
                        want.append(("max_alloc", E.strip(o.st, E.proj(v, ("f", None, 0)))))
                for f, v in want:
                    for x in [None, 0, 1, 7, 2**32 - 1]:
                        env = {}
                        for f2, y in zip(L.fields(p, LA), (11, 12, 2**33)):
                            env.update(L.opt_env(lim[f2], y))
                        env.update({("discr", lim[f], OPTION): 0})
                        env.pop(("fld", lim[f], 1, 0))
                        env.update(L.opt_env(lim[f], x))
                        if L.feasible(o, env)[0] is False:
                            continue
                        got = T.evalt(E.strip(o.st, v), env)
                        n += 1
                        if got is None:
                            return ck.und("pass-on", it["path"], "%s: %s" % (where, T.show(v)[:100]))
                        if x is not None and got != x or x is None and got < 2**32 - 1:
                            return ck.bad("pass-on", it["path"], "%s: %s = %s is handed on as %s" % (where, f, x, got))
            if n:
                ck.ok("pass-on", it["path"], "%d cases" % n)
        ck.each("pass-on", it["path"], one)
