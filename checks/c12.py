"""C12: pixel access is bounds-checked on both axes and addresses exactly the pixel's samples."""
import itertools
from vlib import absint, spec, terms as T
from vlib.absint import Undecided

U32 = 2**32 - 1
A = lambda k, hi=U32: ("sym", "a%d" % k, (0, hi))
XY = {"a": (A(1), A(2))}


def short(p, t):
    return p.tystr(t).split("<")[0].split("::")[-1]


def methods(p, selfname, names, trait=None):
    for im in p.impls:
        tr = (im.get("trait") or "").split("::")[-1]
        if short(p, im["_self"]) != selfname or (trait is not None and tr != trait):
            continue
        for n, e in im["_items"].items():
            it = p.items.get(e["key"])
            if n in names and it is not None and "body" in it and (tr or n):
                yield im, tr, n, it


def run(ck):
    ck.rule("buffer", "an ImageBuffer accessor reaches samples [C*(y*w+x), C*(y*w+x)+C) of its container when x < w and y < h, and "
                      "panics or returns None when not, whatever the container's length", 13)
    ck.rule("subimage", "a sub-image accessor asks the image behind it for (x+xoffset, y+yoffset) when x, y are inside the view and panics when not", 4)
    ck.rule("view", "a flat view accessor reaches sample y*hs+x*ws+c*cs when x, y are inside the layout and panics when not", 4)
    ck.rule("layout", "SampleLayout index functions compute c*cs+x*ws+y*hs exactly when the coordinate is in bounds and the index representable", 8)
    ck.rule("flat", "FlatSamples and view sample accessors return the sample at the layout's index, None or a panic out of bounds", 8)
    ck.rule("construct", "an ImageBuffer is only built with a container of at least w*h*C samples", 2)
    ck.rule("shrink", "shrinking a layout or view never enlarges an extent and leaves the strides alone", 3)
    ck.rule("made", "a flat view is only made over samples its layout fits, of the pixel's channel count and, for pixel references, packed unaliased pixels", 4)
    ck.rule("normal", "the normal forms of a layout are decided by its strides and extents as documented", 2)
    p = ck.p
    made(ck, p)
    normal(ck, p)
    buffer_(ck, p)
    subimage(ck, p)
    views(ck, p)
    layout(ck, p)
    flat(ck, p)
    construct(ck, p)
    shrink(ck, p)


# --- ImageBuffer -----------------------------------------------------------------------------------------------------

def image_self(p):
    o = spec.obj(p, "buffer_::ImageBuffer")
    return o, spec.symbols(o)


CST = ("cst",)


def consts(case):
    """the channel count constants occurring in the outcomes"""
    r = set()
    def walk(t):
        for s in T.subterms(t):
            if s and s[0] == "cst":
                r.add(s)
    for o in case.outs:
        for f, _ in o.st.facts:
            walk(f)
        if o.val is not None:
            walk(case.E.deep(o.st, o.val))
        for x in o.st.eff:
            if x[0] == "call":
                for a in x[2]:
                    walk(a)
    return r


def lens(case, base):
    r = set()
    for o in case.outs:
        for f, _ in o.st.facts:
            for s in T.subterms(f):
                if s and s[0] == "len":
                    r.add(s)
    return r


def buf_grid(case, s, x, y, extra=(0, 5)):
    cs, ls = consts(case), lens(case, None)
    dims = [0, 1, 2, 3, 7, 70000, U32]
    for w, h in itertools.product(dims, dims):
        for cc in (1, 3, 4):
            if w * h * cc > 2**63:
                continue
            for ex in extra:
                for px in sorted({0, 1, w - 1, w, U32}):
                    for py in sorted({0, 1, h - 1, h, U32}):
                        if not 0 <= px <= U32 or not 0 <= py <= U32:
                            continue
                        env = {s["width"]: w, s["height"]: h, x: px, y: py}
                        for c in cs:
                            env[c] = cc
                        n = w * h * cc + ex * cc * (w + 1)
                        for l in ls:
                            env[l] = n
                        yield env


UNSAFE = {"unsafe_get_pixel", "unsafe_put_pixel"}


def buffer_(ck, p):
    names = {"get_pixel", "get_pixel_mut", "get_pixel_checked", "get_pixel_mut_checked", "put_pixel", "blend_pixel", "index", "index_mut",
             "unsafe_get_pixel", "unsafe_put_pixel"}
    for im, tr, n, it in methods(p, "ImageBuffer", names):
        if tr in ("", "GenericImageView", "GenericImage", "Index", "IndexMut"):
            inst = "%sImageBuffer::%s" % (tr + " for " if tr else "", n)
            ck.each("buffer", inst, one_buffer, ck, p, n, it, inst)


def slices(case, o):
    """the pixel reinterpretations of parts of the container an outcome performs: [(offset, count)]"""
    r = []
    for x in o.st.eff:
        if x[0] == "call" and x[1] in ("Pixel::from_slice", "Pixel::from_slice_mut"):
            a = x[2][0]
            if a[0] != "sliceref":
                a = case.E.strip(o.st, a)
            r.append((a, x))
    return r


def one_buffer(ck, p, n, it, inst):
    o_, s = image_self(p)
    case = spec.Case(ck, it, self_val=o_)
    x, y = (case.args[1][3] if case.args[1][0] == "agg" else case.args[1:3])[:2]
    checked = n.endswith("_checked")

    def want(env):
        inside = env[x] < env[s["width"]] and env[y] < env[s["height"]]
        if not inside:
            return None if n in UNSAFE else "return None" if checked else "panic"
        c = next((env[k] for k in env if k[0] == "cst"), None)
        return ("reach samples", c * (env[y] * env[s["width"]] + env[x]), c)

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        if o.kind != "ret":
            return None
        sl = slices(case, o)
        if not sl:
            v = case.E.strip(o.st, o.val)
            return "return None" if checked and v[0] == "agg" and v[2] == 0 and not v[3] else None
        if len(sl) != 1:
            return None
        a, eff = sl[0]
        if a[0] != "sliceref" or not same_place(a[1], s["data"], case, o):
            return None
        off, cnt = T.evalt(a[2], env), T.evalt(a[3], env)
        if off is None or cnt is None:
            return None
        r = result_of(case, o, eff, n)
        if r is not None:
            return r
        return ("reach samples", off, cnt)

    spec.agree(ck, "buffer", inst, case, buf_grid(case, s, x, y), want, seen)


def same_place(ref, data, case, o):
    """does the reference point at the container field of self"""
    if ref[0] == "ref" and ref[1] == ("arg", "self"):
        return ref[2] and ref[2][-1][0] == "f" and ref[2][-1][2] == 3
    return T.contains(case.E.deep(o.st, ref), data)


def result_of(case, o, eff, n):
    """None when the outcome hands the reached pixel on as the method must"""
    v = case.E.strip(o.st, o.val)
    px = case.E.strip(o.st, eff[3])
    if n in ("put_pixel", "unsafe_put_pixel"):
        w = written(case, o, eff)
        if w is None or case.E.strip(o.st, w) != case.args[-1]:
            return ("store", "something other than the given pixel: %s" % (T.show(w)[:80] if w else "nothing"))
        return None
    if n == "blend_pixel":
        c = [x for x in o.st.eff if x[0] == "call" and x[1].endswith("::blend")]
        if len(c) != 1 or not T.contains(case.E.deep(o.st, c[0][2][1]), case.args[-1]):
            return ("blend", "something other than the given pixel")
        return None
    if n.endswith("_checked"):
        if v[0] == "agg" and v[2] == 1 and len(v[3]) == 1:
            v = case.E.strip(o.st, v[3][0])
        else:
            return ("return", T.show(v)[:80])
    for k in range(4):
        if v == px or v == eff[3]:
            return None
        if v[0] in ("deref", "rf", "clone", "copy", "*") and isinstance(v[1], tuple):
            v = v[1]
        else:
            break
    return None if T.contains(v, px) else ("return", T.show(v)[:80])


def written(case, o, eff):
    m = o.st.mem.get(("obj", eff[3]))
    if m is None:
        for k, v in o.st.mem.items():
            if isinstance(k, tuple) and T.contains(k, eff[3]):
                m = v
    return m


# --- sub-images ------------------------------------------------------------------------------------------------------

def subimage(ck, p):
    for tr, names in (("GenericImageView", {"get_pixel", "unsafe_get_pixel"}),
                      ("GenericImage", {"get_pixel_mut", "put_pixel", "blend_pixel", "unsafe_put_pixel"})):
        for im, _, n, it in methods(p, "SubImageInner", names, tr):
            ck.each("subimage", "SubImageInner::" + n, one_subimage, ck, p, n, it, "SubImageInner::" + n)


def one_subimage(ck, p, n, it, inst):
    o_ = spec.obj(p, "image::SubImageInner")
    s = spec.symbols(o_)
    case = spec.Case(ck, it, self_val=o_)
    x, y = case.args[1], case.args[2]
    dims = [0, 1, 2, 5]

    def grid():
        for xo, yo, w, h in itertools.product([0, 3, 11], [0, 4, 17], dims, dims):
            for px in {0, 1, w - 1, w, w + 1, U32 - 40} - {-1}:
                for py in {0, 1, h - 1, h, h + 1, U32 - 40} - {-1}:
                    yield {s["xoffset"]: xo, s["yoffset"]: yo, s["xstride"]: w, s["ystride"]: h, x: px, y: py}

    def want(env):
        if env[x] >= env[s["xstride"]] or env[y] >= env[s["ystride"]]:
            return None if n.startswith("unsafe_") else "panic"
        return ("reach", env[x] + env[s["xoffset"]], env[y] + env[s["yoffset"]])

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        c = [e for e in o.st.eff if e[0] == "call" and e[1].split("::")[-1].replace("unsafe_", "") == n.replace("unsafe_", "")]
        if len(c) != 1 or not T.contains(case.E.deep(o.st, c[0][2][0]), s["image"]):
            return None
        a, b = T.evalt(c[0][2][1], env), T.evalt(c[0][2][2], env)
        if len(c[0][2]) > 3 and case.E.strip(o.st, c[0][2][3]) != case.args[3]:
            return ("hand on", T.show(c[0][2][3])[:80])
        if n.startswith("get") and case.E.strip(o.st, o.val) != case.E.strip(o.st, c[0][3]):
            return ("return", T.show(o.val)[:80])
        return None if a is None or b is None else ("reach", a, b)

    spec.agree(ck, "subimage", inst, case, grid(), want, seen)


# --- flat views ------------------------------------------------------------------------------------------------------

LAYOUTS = [(1, 2, 3, 1, 1, 2), (3, 4, 2, 1, 3, 12), (3, 4, 2, 8, 1, 4), (4, 3, 3, 2, 9, 31), (3, 0, 2, 1, 3, 0), (3, 2, 0, 1, 3, 6), (0, 2, 2, 1, 1, 2),
           (4, 1, 70000, 1, 4, 4), (2, 70000, 70000, 1, 2, 140000), (4, 5, 3, 1, 12, 4)]


def layout_env(s, pre, L):
    return {s[pre + "channels"]: L[0], s[pre + "width"]: L[1], s[pre + "height"]: L[2], s[pre + "channel_stride"]: L[3],
            s[pre + "width_stride"]: L[4], s[pre + "height_stride"]: L[5]}


def minlen(L):
    return 0 if 0 in L[:3] else (L[0] - 1) * L[3] + (L[1] - 1) * L[4] + (L[2] - 1) * L[5] + 1


def view_grid(case, s, x, y, packed=False):
    cs, ls = consts(case), lens(case, None)
    pre = "inner.layout."
    for L in LAYOUTS:
        if L[0] == 0 or packed and L[3] != 1:
            continue
        for ex in (0, 40):
            for px in {0, 1, L[1] - 1, L[1], U32} - {-1}:
                for py in {0, 1, L[2] - 1, L[2], U32} - {-1}:
                    env = layout_env(s, pre, L)
                    env.update({x: px, y: py})
                    for c in cs:
                        env[c] = L[0]
                    for l in ls:
                        env[l] = minlen(L) + ex
                    yield env


def views(ck, p):
    for nm in ("View", "ViewMut"):
        for tr, names in (("GenericImageView", {"get_pixel", "unsafe_get_pixel"}),
                          ("GenericImage", {"get_pixel_mut", "put_pixel", "blend_pixel", "unsafe_put_pixel"})):
            for im, _, n, it in methods(p, nm, names, tr):
                ck.each("view", "%s::%s" % (nm, n), one_view, ck, p, nm, n, it, "%s::%s" % (nm, n))


def one_view(ck, p, nm, n, it, inst):
    o_ = spec.obj(p, "flat::" + nm)
    s = spec.symbols(o_)
    case = spec.Case(ck, it, self_val=o_)
    x, y = case.args[1], case.args[2]
    pre = "inner.layout."
    L = lambda env, f: env[s[pre + f]]
    read = n == "get_pixel"
    # a generic iteration of the channel loop: the index it reads must be the specified one for every channel
    inds = set()
    for o in case.outs:
        for f, v in o.st.facts:
            for t in T.subterms(f):
                if t and t[0] == "ind":
                    inds.add(t)

    def grid():
        for env in view_grid(case, s, x, y, packed=not read):
            if inds:
                for c in range(L(env, "channels")):
                    e = dict(env)
                    for i in inds:
                        e[i] = c
                    yield e
            else:
                yield env

    def want(env):
        if env[x] >= L(env, "width") or env[y] >= L(env, "height"):
            return "panic"
        base = env[x] * L(env, "width_stride") + env[y] * L(env, "height_stride")
        if read:
            c = next((env[i] for i in inds), 0)
            return ("reach sample", base + c * L(env, "channel_stride"))
        return ("reach samples", base, L(env, "channels"))

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        if read:
            ix = set()
            for f, v in o.st.facts:
                if f[0] == "op" and f[1] == "Lt" and f[3][0] == "len" and v:
                    ix.add(T.evalt(f[2], env))
            if len(ix) != 1:
                return None
            i = ix.pop()
            return None if i is None else ("reach sample", i)
        sl = slices(case, o)
        if len(sl) != 1:
            return None
        a, eff = sl[0]
        if a[0] != "sliceref":
            return None
        off, cnt = T.evalt(a[2], env), T.evalt(a[3], env)
        if off is None or cnt is None:
            return None
        return result_of(case, o, eff, n) or ("reach samples", off, cnt)

    case.drop = ("iter",)
    spec.agree(ck, "view", inst, case, grid(), want, seen)


# --- layouts ---------------------------------------------------------------------------------------------------------

BIG = [(3, 3, 2, 2**63, 1, 1), (3, 3, 2, 1, 2**63, 1), (3, 3, 3, 1, 1, 2**63), (255, 2, 2, 2**62, 1, 1), (2, 2, 2, 2**63 - 1, 2**63, 1),
       (2, 2, 2, 2**62, 2**62, 2**63), (1, U32, 1, 1, 2**32 + 5, 1), (2, 1, 1, 2**64 - 1, 1, 1)]


def layout(ck, p):
    for sn, pre in (("SampleLayout", ""), ("FlatSamples", "layout.")):
        for im, tr, n, it in methods(p, sn, {"in_bounds", "index", "index_ignoring_bounds", "in_bounds_index", "min_length", "fits", "strides_cwh",
                                             "extents", "bounds", "row_major_packed", "column_major_packed"}, ""):
            inst = "%s::%s" % (sn, n)
            ck.each("layout", inst, one_layout, ck, p, sn, pre, n, it, inst)


def one_layout(ck, p, sn, pre, n, it, inst):
    if n in ("row_major_packed", "column_major_packed"):
        return packed(ck, p, n, it, inst)
    o_ = spec.obj(p, "flat::" + sn)
    s = spec.symbols(o_)
    case = spec.Case(ck, it, self_val=o_)
    xs = case.args[1:]

    def grid():
        for L in LAYOUTS + BIG:
            env = layout_env(s, pre, L)
            if n in ("min_length", "strides_cwh", "extents", "bounds"):
                yield env
            elif n == "fits":
                for d in (-1, 0, 1):
                    if 0 <= minlen(L) + d < 2**64:
                        yield dict(env, **{}) | {xs[0]: minlen(L) + d}
                yield env | {xs[0]: 0}
            else:
                for c in {0, 1, L[0] - 1, L[0], 255} - {-1}:
                    if c > 255:
                        continue
                    for px in {0, 1, L[1] - 1, L[1], U32} - {-1}:
                        for py in {0, 1, L[2] - 1, L[2], U32} - {-1}:
                            yield env | {xs[0]: c, xs[1]: px, xs[2]: py}

    def vals(env):
        return tuple(env[s[pre + f]] for f in ("channels", "width", "height", "channel_stride", "width_stride", "height_stride"))

    def want(env):
        L = vals(env)
        m = minlen(L)
        fit = m < 2**64 and 0 not in L[:3]
        if n == "min_length":
            return ("return", m if m < 2**64 else "None")
        if n == "fits":
            return ("return", m < 2**64 and env[xs[0]] >= m)
        if n == "strides_cwh":
            return ("return",) + L[3:]
        if n == "bounds":
            return ("return",) + L[:3]
        if n == "extents":
            return ("return",) + L[:3]
        c, px, py = (env[q] for q in xs[:3])
        i = c * L[3] + px * L[4] + py * L[5]
        inb = c < L[0] and px < L[1] and py < L[2]
        if n == "in_bounds":
            return ("return", inb)
        if n == "in_bounds_index":
            return ("return", i) if inb and m < 2**63 else None
        if n == "index":
            return ("return", i if inb and i < 2**64 else "None")
        return ("return", i if i < 2**64 else "None")

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        v = case.E.strip(o.st, case.E.deep(o.st, o.val))
        if v[0] == "agg" and v[1] == "tuple":
            r = tuple(T.evalt(q, env) for q in v[3])
            return None if None in r else ("return",) + r
        if v[0] == "agg":
            if v[2] == 0 and not v[3]:
                return ("return", "None")
            v = v[3][0]
        r = T.evalt(v, env)
        return None if r is None else ("return", r)

    spec.agree(ck, "layout", inst, case, grid(), want, seen)


def packed(ck, p, n, it, inst):
    case = spec.Case(ck, it)
    c, w, h = case.args
    fs = [f["n"] for f in p.adts["flat::SampleLayout"]["variants"][0]["f"]]

    def grid():
        for cc, ww, hh in itertools.product((0, 1, 3, 4, 255), (0, 1, 7, 70000, U32), (0, 1, 5, 70000, U32)):
            yield {c: cc, w: ww, h: hh}

    def want(env):
        C, W, H = env[c], env[w], env[h]
        d = dict(channels=C, width=W, height=H, channel_stride=1,
                 width_stride=C if n.startswith("row") else C * H, height_stride=C * W if n.startswith("row") else C)
        return ("return",) + tuple(d[f] for f in fs)

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        v = case.E.strip(o.st, case.E.deep(o.st, o.val))
        r = tuple(T.evalt(q, env) for q in v[3])
        return None if None in r else ("return",) + r

    spec.agree(ck, "layout", inst, case, grid(), want, seen)


# --- sample access ---------------------------------------------------------------------------------------------------

def flat(ck, p):
    for sn, pre in (("FlatSamples", "layout."), ("View", "inner.layout."), ("ViewMut", "inner.layout.")):
        for im, tr, n, it in methods(p, sn, {"get_sample", "get_mut_sample", "index", "index_mut"}):
            if n in ("index", "index_mut") and tr not in ("Index", "IndexMut"):
                continue
            inst = "%s::%s" % (sn, n)
            ck.each("flat", inst, one_sample, ck, p, sn, pre, n, it, inst)


def one_sample(ck, p, sn, pre, n, it, inst):
    o_ = spec.obj(p, "flat::" + sn)
    s = spec.symbols(o_)
    case = spec.Case(ck, it, self_val=o_)
    c, x, y = case.args[1][3] if case.args[1][0] == "agg" else case.args[1:4]
    ls = lens(case, None)
    vals = lambda env: tuple(env[s[pre + f]] for f in ("channels", "width", "height", "channel_stride", "width_stride", "height_stride"))

    def grid():
        for L in LAYOUTS + BIG:
            env = layout_env(s, pre, L)
            for cc in {0, 1, L[0] - 1, L[0]} - {-1}:
                for px in {0, 1, L[1] - 1, L[1]} - {-1}:
                    for py in {0, 1, L[2] - 1, L[2]} - {-1}:
                        for n_ in {0, 1, minlen(L) - 1, minlen(L), minlen(L) + 9}:
                            if sn != "FlatSamples" and n_ < minlen(L):
                                continue    # a view is only made over a buffer its layout fits
                            if 0 <= n_ < 2**63:
                                yield env | {c: cc, x: px, y: py} | {l: n_ for l in ls}

    def want(env):
        L = vals(env)
        i = env[c] * L[3] + env[x] * L[4] + env[y] * L[5]
        good = env[c] < L[0] and env[x] < L[1] and env[y] < L[2] and i < 2**64 and (not ls or i < env[next(iter(ls))])
        return ("reach sample", i) if good else "return None" if n.startswith("get") else "panic"

    def seen(o, env):
        if o.kind == "panic":
            return "panic"
        v = o.val
        if n.startswith("get"):
            v = case.E.strip(o.st, v)
            if v[0] != "agg":
                return None
            if v[2] == 0:
                return "return None"
            v = v[3][0]
        i = index_of(case, o, v)
        i = T.evalt(i, env) if i is not None else None
        return None if i is None else ("reach sample", i)

    if len(ls) > 1:
        raise Undecided("several lengths")
    spec.agree(ck, "flat", inst, case, grid(), want, seen)


def index_of(case, o, v):
    if v[0] == "ref" and v[2] and v[2][-1][0] in ("i", "idx", "ix"):
        return v[2][-1][1]
    v = case.E.deep(o.st, v)
    while v[0] in ("rf", "mrf") and isinstance(v[1], tuple):
        v = v[1]
    if v[0] == "idx":
        return v[2]
    if v[0] == "call" and v[1] in ("Index::index", "IndexMut::index_mut"):
        return v[2][1]
    return None


# --- construction ----------------------------------------------------------------------------------------------------

IMG = "buffer_::ImageBuffer"


def construct(ck, p):
    """every ImageBuffer literal: the container is at least w*h*C long on every path that builds one"""
    for f in p.fns():
        sts = [s for b in f["body"]["blocks"] for s in b["s"] if s and s[0] == "="]
        if any(s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == IMG for s in sts):
            ck.each("construct", f["path"], built, ck, p, f)
        elif f["path"].endswith("ImageBuffer<P, Container> as std::clone::Clone>::clone_from"):
            ck.each("construct", f["path"], cloned, ck, p, f)


def images(v):
    return list({s for s in list(T.subterms(v)) + [v] if s and s[0] == "agg" and s[1] == IMG})


def built(ck, p, f):
    inst = f["path"]
    case = spec.Case(ck, f)
    n = 0
    for o in case.outs:
        if o.kind != "ret":
            continue
        imgs = images(case.E.deep(o.st, o.val))
        if len(imgs) > 1:
            return ck.und("construct", inst, "several images built")
        for im in imgs:
            w, h, _, d = im[3]
            if w == T.c(0) and h == T.c(0):
                n += 1
                continue
            parts = parts_of(w), parts_of(h), parts_of(d)
            if None not in parts and [x[1] for x in parts] == [0, 1, 3] and len({x[0] for x in parts}) == 1:
                n += 1
                continue
            if None not in parts and len({x[0] for x in parts}) == 1:
                return ck.bad("construct", inst, "%s builds an image of %s x %s over the container of an image of other dimensions" % (
                    case.where(), T.show(w)[:60], T.show(h)[:60]))
            cs, ls = consts(case), lens(case, None)
            L = d[2][1] if d[0] == "call" and d[1] == "vec::from_elem" else next((l for l in ls if l[1] == d), ("len", d))
            syms = {x for t in (w, h) for x in [t] if x[0] == "sym"}
            if len(syms) != 2:
                return ck.und("construct", inst, "dimensions %s, %s not recognised" % (T.show(w)[:60], T.show(h)[:60]))
            for ww, hh, cc in itertools.product((0, 1, 2, 3, 70000, U32), (0, 1, 2, 3, 70000, U32), (1, 3, 4)):
                need = ww * hh * cc
                for ln in {0, max(need - 1, 0), need, need + cc, ww * hh, ww * cc, hh * cc, need % 2**64}:
                    if ln >= 2**63:
                        continue
                    env = {w: ww, h: hh} | {k: cc for k in cs} | {l: ln for l in ls}
                    fs, u = spec.feasible(o.st.facts, env)
                    if fs is False:
                        continue
                    v = T.evalt(L, env)
                    if v is None or u:
                        if L in ls or L[0] == "len" and not ls:
                            v = ln
                        else:
                            return ck.und("construct", inst, "length %s not determined" % T.show(L)[:100])
                    if v < need:
                        return ck.bad("construct", inst, "%s builds a %dx%d image of %d channels over a container of %d samples" % (
                            case.where(), ww, hh, cc, v))
                    n += 1
    ck.judge("construct", inst, True if n else None, "%s: no image recognised" % case.where())


def parts_of(v):
    """(object, field index) of a copied or cloned field"""
    for k in range(4):
        if v[0] == "fld":
            return v[1], v[3]
        if v[0] == "deref" and isinstance(v[1], tuple):
            v = v[1]
        elif v[0] == "call" and v[1].endswith("::clone"):
            v = v[2][0]
        elif v[0] in ("rf", "clone") and isinstance(v[1], tuple):
            v = v[1]
        else:
            return None
    return None


def cloned(ck, p, f):
    inst = f["path"]
    o_, s = image_self(p)
    case = spec.Case(ck, f, self_val=o_)
    for o in case.outs:
        if o.kind != "ret":
            return ck.bad("construct", inst, "%s can panic" % case.where())
        v = case.E.deep(o.st, o.st.mem[("arg", "self")])
        ok = v[0] == "agg" and v[1] == IMG
        if ok:
            a, b = parts_of(v[3][0]), parts_of(v[3][1])
            ok = a is not None and b is not None and a[0] == b[0] and (a[1], b[1]) == (0, 1)
            if not ok and (v[3][0] == s["width"]) != (v[3][1] == s["height"]):
                return ck.bad("construct", inst, "%s leaves dimensions %s x %s" % (case.where(), T.show(v[3][0])[:60], T.show(v[3][1])[:60]))
        c = [e for e in o.st.eff if e[0] == "call" and e[1].endswith("clone_from")]
        if not ok or len(c) != 1:
            return ck.und("construct", inst, "result not recognised: %s" % T.show(v)[:150])
    ck.ok("construct", inst)


# --- shrinking -------------------------------------------------------------------------------------------------------

def shrink(ck, p):
    for sn, pre in (("SampleLayout", ""), ("FlatSamples", "layout."), ("View", "inner.layout."), ("ViewMut", "inner.layout.")):
        for im, tr, n, it in methods(p, sn, {"shrink_to"}, ""):
            ck.each("shrink", "%s::%s" % (sn, n), shrunk, ck, p, sn, pre, it, "%s::%s" % (sn, n))


def shrunk(ck, p, sn, pre, it, inst):
    o_ = spec.obj(p, "flat::" + sn)
    s = spec.symbols(o_)
    case = spec.Case(ck, it, self_val=o_)
    fs = ("channels", "width", "height", "channel_stride", "width_stride", "height_stride")
    ar = case.args[1:] if len(case.args) == 4 else [None] + case.args[1:]

    def grid():
        for L in LAYOUTS:
            for c, w, h in itertools.product((0, 2, 9), (0, 1, 80000), (0, 2, 90000)):
                yield layout_env(s, pre, L) | {k: v for k, v in zip(ar, (c, w, h)) if k is not None}

    def want(env):
        L = tuple(env[s[pre + f]] for f in fs)
        return ("leave",) + tuple(min(l, env[a]) if a is not None else l for l, a in zip(L[:3], ar)) + L[3:]

    def seen(o, env):
        if o.kind != "ret":
            return o.kind
        v = case.E.deep(o.st, o.st.mem[("arg", "self")])
        names = []
        adt = "flat::" + sn
        for part in [x for x in pre.split(".") if x]:
            i = [f["n"] for f in p.adts[adt]["variants"][0]["f"]].index(part)
            adt = "flat::FlatSamples" if part == "inner" else "flat::SampleLayout"
            v = v[3][i]
        names = [f["n"] for f in p.adts[adt]["variants"][0]["f"]]
        r = tuple(T.evalt(v[3][names.index(f)], env) for f in fs)
        return None if None in r else ("leave",) + r

    spec.agree(ck, "shrink", inst, case, grid(), want, seen)


# --- how views come about --------------------------------------------------------------------------------------------

def aliased(L):
    d = sorted(((L[3], L[0]), (L[4], L[1]), (L[5], L[2])))
    if any(a * b >= 2**64 for a, b in d):
        return True
    return d[0][0] * d[0][1] > d[1][0] or d[1][0] * d[1][1] > d[2][0]


FORMS = ["Unaliased", "PixelPacked", "ImagePacked", "RowMajorPacked", "ColumnMajorPacked"]


def is_normal(L, form):
    C, W, H, cs, ws, hs = L
    if aliased(L):
        return False
    pix = cs == 1
    d = sorted(((cs, C), (ws, W), (hs, H)))
    img = d[0][0] == 1 and d[0][0] * d[0][1] == d[1][0] and d[1][0] * d[1][1] == d[2][0]
    return {"Unaliased": True, "PixelPacked": pix, "ImagePacked": img, "RowMajorPacked": pix and img and ws == C and hs == W * ws,
            "ColumnMajorPacked": pix and img and hs == C and ws == H * hs}[form]


SHAPES = LAYOUTS + BIG + [(3, 4, 2, 1, 3, 13), (3, 4, 2, 1, 2, 12), (3, 4, 2, 1, 3, 11), (3, 4, 2, 2, 6, 24), (3, 4, 2, 2, 1, 8), (3, 4, 5, 1, 15, 3), (3, 4, 5, 20, 1, 4),
                          (3, 4, 5, 20, 5, 1), (3, 4, 5, 1, 3, 9), (1, 4, 5, 0, 1, 4), (3, 4, 5, 0, 0, 0), (4, 1, 1, 1, 4, 4), (3, 5, 4, 1, 12, 3), (1, 5, 4, 1, 1, 5),
                          (1, 5, 4, 1, 4, 1), (1, 5, 4, 2, 2, 10), (3, 5, 4, 1, 4, 20)]


def normal(ck, p):
    for sn, pre in (("SampleLayout", ""), ("FlatSamples", "layout.")):
        for im, tr, n, it in methods(p, sn, {"is_normal", "has_aliased_samples"}, ""):
            inst = "%s::%s" % (sn, n)
            ck.each("normal", inst, one_normal, ck, p, sn, pre, n, it, inst)


def one_normal(ck, p, sn, pre, n, it, inst):
    o_ = spec.obj(p, "flat::" + sn)
    s = spec.symbols(o_)
    fs = ("channels", "width", "height", "channel_stride", "width_stride", "height_stride")
    for form in FORMS if n == "is_normal" else [None]:
        vs = [v["n"] for v in p.adts["flat::NormalForm"]["variants"]]
        case = spec.Case(ck, it, self_val=o_, args={1: ("agg", "flat::NormalForm", vs.index(form), ())} if form else None)

        def want(env):
            L = tuple(env[s[pre + f]] for f in fs)
            return ("return", is_normal(L, form) if form else aliased(L))

        def seen(o, env):
            if o.kind != "ret":
                return o.kind
            r = T.evalt(case.E.strip(o.st, o.val), env)
            return None if r is None else ("return", bool(r))

        r = spec.agree(ck, "normal", inst + (" " + form if form else ""), case, (layout_env(s, pre, L) for L in SHAPES), want, seen)


def made(ck, p):
    for f in p.fns():
        sts = [s for b in f["body"]["blocks"] for s in b["s"] if s and s[0] == "="]
        for v in ("flat::View", "flat::ViewMut"):
            if f["path"].split("::")[-1] != "clone" and any(s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == v for s in sts):
                ck.each("made", f["path"], one_made, ck, p, f, v)


def one_made(ck, p, f, v):
    inst = f["path"]
    pre = "inner.layout." if "View" in inst.split("::")[-2] or "View::" in inst else "layout."
    sn = "flat::View" if pre.startswith("inner") else "flat::FlatSamples"
    o_ = spec.obj(p, sn)
    s = spec.symbols(o_)
    byref = p.ty(f["body"]["locals"][1][0])[0] == "ref"
    case = spec.Case(ck, f, self_val=o_, byref=byref)
    cs, ls = consts(case), lens(case, None)
    n = 0
    for L in SHAPES:
        for cc in {L[0], 3, 4} - {0}:
            for ln in {0, minlen(L) - 1, minlen(L), minlen(L) + 7, L[0] * L[1] * L[2]}:
                if not 0 <= ln < 2**63:
                    continue
                env = layout_env(s, pre, L) | {c: cc for c in cs} | {l: ln for l in ls}
                for o, u in case.at(env):
                    if u:
                        return ck.und("made", inst, "%s: %s not determined" % (case.where(), T.show(u[0])[:150]))
                    val = case.E.deep(o.st, o.val) if o.kind == "ret" else None
                    if val is None or val[0] != "agg" or val[2] != 0:
                        continue
                    why = ("the samples are too few (%d)" % ln if sn != "flat::View" and ln < minlen(L) else
                           "pixels have %d channels" % cc if sn != "flat::View" and cc != L[0] else
                           "pixels are not packed without aliasing" if v == "flat::ViewMut" and not is_normal(L, "PixelPacked") else None)
                    if why:
                        return ck.bad("made", inst, "%s makes a view of layout c=%d w=%d h=%d cs=%d ws=%d hs=%d although %s" % ((case.where(),) + L + (why,)))
                    n += 1
    ck.judge("made", inst, True if n else None, "%s: no view made" % case.where())
