"""C23: iterators visit every pixel exactly once, in row-major order, with its own coordinates.

Every iterator is reduced to a transition system extracted from its `next` (abstract interpretation of the body on a
symbolic state), its initial state to the term its constructor builds.  The transition terms are then followed from the
initial state for a set of image sizes, and single steps are judged at extreme states."""
from vlib import absint, spec, terms as T
from vlib.absint import Out, Undecided

U32 = 2**32 - 1
OPT = "std::option::Option"
SIZES = [(0, 0), (0, 1), (0, 3), (1, 0), (3, 0), (1, 1), (1, 4), (4, 1), (2, 2), (3, 2), (2, 5), (300, 2)]
NEXT = {"next": "Iterator::next", "next_back": "DoubleEndedIterator::next_back"}


def run(ck):
    ck.rule("start", "the iterators over an image start on exactly its w*h pixels (rows: its h rows), split pixel by pixel (row by row), for every size", 8)
    ck.rule("step", "each step hands on exactly one element of the iterator inside, from the right end, and ends when that ends", 10)
    ck.rule("length", "the reported lengths are those of the iterator inside", 12)
    ck.rule("coord", "enumerating iterators pair the k-th pixel with (k mod w, k div w), rows with their number, and end after the last", 5)
    ck.rule("parallel", "parallel iterators pair the i-th pixel with (i mod w, i div w)", 8)
    ck.rule("clone", "a cloned iterator continues where the original is", 3)
    p = ck.p
    starts(ck, p)
    steps(ck, p)
    coords(ck, p)
    parallel(ck, p)


def image_self(p):
    o = spec.obj(p, "buffer_::ImageBuffer")
    return o, spec.symbols(o)


def method(p, name, adt="ImageBuffer"):
    for im in p.impls:
        if "trait" in im or im["_self"][0] != "adt" or im["_self"][1].split("::")[-1] != adt:
            continue
        e = im["_items"].get(name)
        if e and e["key"] in p.items and "body" in p.items[e["key"]]:
            return p.items[e["key"]]
    return None


def sub(v, pred):
    for s in T.subterms(v):
        if s and pred(s):
            yield s


# ---- where iteration starts -------------------------------------------------------------------------------------
def starts(ck, p):
    for name, row in (("pixels", 0), ("pixels_mut", 0), ("rows", 1), ("rows_mut", 1),
                      ("enumerate_pixels", 0), ("enumerate_pixels_mut", 0), ("enumerate_rows", 1), ("enumerate_rows_mut", 1)):
        it = method(p, name)
        if it is None:
            ck.und("start", name, "not found")
            continue
        ck.each("start", name, start, ck, p, it, name, row)


def size_grid(case, s):
    cs, ls = set(), set()
    for o in case.outs:
        ts = [f for f, _ in o.st.facts] + ([case.E.deep(o.st, o.val)] if o.val is not None else [])
        for t in ts:
            for x in T.subterms(t):
                if x and x[0] == "cst":
                    cs.add(x)
                if x and x[0] == "len":
                    ls.add(x)
    for w in (0, 1, 2, 3, 7, 70000, U32):
        for h in (0, 1, 2, 5, 70000, U32):
            for cc in (1, 2, 3, 4):
                n = w * h * cc
                if n >= 2**63:
                    continue
                for extra in (0, 1, cc, w * cc + 3):
                    env = {s["width"]: w, s["height"]: h}
                    env.update({c: cc for c in cs})
                    env.update({l: n + extra for l in ls})
                    yield env, w, h, cc


def chunk_state(E, st, v):
    """(base, chunk size) of the chunk iterator inside a value"""
    for x in sub(v, lambda x: x[0] == "it" and len(x) > 3 and x[1] == "chunks"):
        return x
    return None


def extent(E, st, b, env, whole=None, rest=None):
    """(offset, length) of the part of the container a slice value stands for"""
    if b[0] == "sliceref":
        off, n = T.evalt(b[2], env), T.evalt(b[3], env)
        if off is None or n is None:
            return None
        if b[1][0] == "sliceref":
            inner = extent(E, st, b[1], env, whole, rest)
            return None if inner is None else (inner[0] + off, n)
        return off, n
    x = E.strip(st, b)
    if x[0] == "agg" and x[1] == "array":
        return 0, len(x[3])
    if b == whole or x == whole:
        return 0, rest                   # the container may be longer than the image
    return None


def start(ck, p, it, name, row):
    o_, s = image_self(p)
    case = spec.Case(ck, it, self_val=o_)
    n = 0
    for env, w, h, cc in size_grid(case, s):
        for o, u in case.at(env):
            if u:
                return ck.und("start", name, "%s: not determined: %s" % (case.where(), T.show(u[0])[:120]))
            at = "a %dx%d image of %d channels" % (w, h, cc)
            if o.kind == "panic":
                return ck.bad("start", name, "%s: panics for %s (%s)" % (case.where(), at, o.why))
            v = case.E.deep(o.st, o.val)
            x = chunk_state(case.E, o.st, v)
            if x is None:
                return ck.und("start", name, "%s: the elements are not taken from chunks of the container" % case.where())
            ext, size = extent(case.E, o.st, x[2], env, s["data"], w * h * cc + 5), T.evalt(x[3], env)
            if ext is None or size is None:
                return ck.und("start", name, "%s: %s not evaluated" % (case.where(), T.show(x)[:120]))
            if row:
                want = (0, w * h * cc if w else 0, w * cc)
            else:
                want = (0, w * h * cc, cc)
            got = (ext[0] if ext[1] else 0, ext[1], size)
            if got[1] == 0 == want[1]:
                continue
            n += 1
            if got != want:
                return ck.bad("start", name, "%s: for %s it runs over %d samples from %d in steps of %d, not over %d from 0 in steps of %d" % (
                    case.where(), at, got[1], got[0], got[2], want[1], want[2]))
    ck.judge("start", name, True if n else None, "%s: nothing evaluated" % case.where(), "%d points" % n)


# ---- one step ---------------------------------------------------------------------------------------------------
ITERS = ("Pixels", "PixelsMut", "Rows", "RowsMut", "EnumeratePixels", "EnumeratePixelsMut", "EnumerateRows", "EnumerateRowsMut")


def iter_impls(p):
    for im in p.impls:
        t = im["_self"]
        if t[0] == "adt" and t[1].startswith("buffer_::") and t[1].split("::")[-1] in ITERS:
            yield im, t[1], (im.get("trait") or "").split("::")[-1]


def steps(ck, p):
    for im, adt, tr in iter_impls(p):
        nm = adt.split("::")[-1]
        for m, e in im["_items"].items():
            it = p.items.get(e["key"])
            if it is None or "body" not in it:
                continue
            inst = "%s::%s" % (nm, m)
            if tr in ("Iterator", "DoubleEndedIterator") and m in NEXT:
                ck.each("step", inst, step, ck, p, it, adt, m, inst)
            elif m in ("len", "size_hint"):
                ck.each("length", inst, length, ck, p, it, adt, m, inst)
            elif tr == "Clone" and m == "clone":
                ck.each("clone", inst, clone, ck, p, it, adt, inst)
            elif tr in ("Iterator", "DoubleEndedIterator") and m not in NEXT:
                ck.und("step", inst, "%s overrides %s, which is not modelled" % (nm, m))


def self_obj(p, adt):
    """the iterator with symbolic fields; nested iterators of the crate stay whole"""
    fs = []
    for f in p.adts[adt]["variants"][0]["f"]:
        fs.append(spec.symbol(p, f["n"], p.ty(f["ty"])))
    return ("agg", adt, 0, tuple(fs))


def keep_inner(p, adt, it):
    o = self_obj(p, adt)

    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m in ("next", "next_back", "len", "size_hint", "clone") and args and args[0][0] == "ref":
            v = E.strip(st, args[0])
            if v in o[3]:
                return [Out(st, "ret", mark(E, st, m, v))]
        return None
    return o, hook


def mark(E, st, m, field):
    t = ("call", "inner " + m, (field,), ())
    st.eff = st.eff + (("inner", m, field),)
    return t


def case_of(ck, p, it, adt):
    o, hook = keep_inner(p, adt, it)
    return spec.Case(ck, it, self_val=o, hook=hook), o


def disc(o):
    for f, v in o.st.facts:
        if f[0] == "discr" and f[1][0] == "call" and f[1][1].startswith("inner "):
            return v
    return None


def step(ck, p, it, adt, m, inst):
    case, o_ = case_of(ck, p, it, adt)
    seen = set()
    for o in case.outs:
        ev = [e for e in o.st.eff if e[0] == "inner"]
        if o.kind == "panic":
            if not ev or "ovf" in str(o.why):
                continue      # judged by following the states
            return ck.und("step", inst, "%s: a step can panic: %s" % (case.where(), o.why))
        if o.kind != "ret":
            return ck.und("step", inst, "%s: a path ends in %s" % (case.where(), o.kind))
        calls = [e for e in ev if e[1] in ("next", "next_back")]
        v = case.E.deep(o.st, o.val)
        if len(calls) != 1:
            return ck.bad("step", inst, "%s: a step takes %d elements from the iterator inside" % (case.where(), len(calls)))
        if calls[0][1] != m:
            return ck.bad("step", inst, "%s: takes the element from the other end" % case.where())
        d = disc(o)
        some = v[0] == "agg" and v[1] == OPT and v[2] == 1
        if v[0] == "call" and v[1] == "inner " + m:
            seen |= {0, 1}
            continue
        if v[0] != "agg" or d is None:
            return ck.und("step", inst, "%s: %s" % (case.where(), T.show(v)[:120]))
        if some != (d == 1):
            return ck.bad("step", inst, "%s: yields %s although the iterator inside %s" % (
                case.where(), "an element" if some else "nothing", "is at its end" if not d == 1 else "has one"))
        if some and not T.contains(v, ("call", "inner " + m, (calls[0][2],), ())):
            return ck.bad("step", inst, "%s: yields something other than the element" % case.where())
        if some:
            for x in sub(v, lambda x: x[0] == "it" and x[1] == "chunks"):
                if x[3][0] != "cst":
                    return ck.bad("step", inst, "%s: a row is split in steps of %s" % (case.where(), T.show(x[3])[:60]))
        seen.add(d)
    ck.judge("step", inst, True if {0, 1} <= seen else None, "%s: outcomes missing" % case.where())


def length(ck, p, it, adt, m, inst):
    case, o_ = case_of(ck, p, it, adt)
    for o in case.outs:
        v = case.E.deep(o.st, o.val) if o.val is not None else None
        if o.kind != "ret":
            return ck.und("length", inst, "%s: ends in %s" % (case.where(), o.kind))
        r = islen(v, m)
        if r is None:
            return ck.und("length", inst, "%s: %s" % (case.where(), T.show(v)[:120]))
        if not r:
            return ck.bad("length", inst, "%s: reports %s" % (case.where(), T.show(v)[:120]))
    ck.ok("length", inst)


def islen(v, m):
    if v[0] == "call" and v[1] == "inner " + m:
        return True
    if m == "len":
        if v[0] == "call" and v[1].startswith("inner "):
            return None
        return False if any(True for _ in sub(v, lambda x: x[0] == "call" and x[1] == "inner len")) else None
    if v[0] == "agg" and v[1] == "tuple":
        a, b = v[3]
        L = lambda t: t[0] == "call" and t[1] == "inner len"
        if not L(a):
            return False if a[0] in ("op", "c", "add", "lin", "sum") or any(True for _ in sub(a, L)) else None
        if b[0] == "agg" and b[1] == OPT:
            return b[2] == 1 and b[3][0] == a
    return None


def clone(ck, p, it, adt, inst):
    case, o_ = case_of(ck, p, it, adt)
    fields = [f["n"] for f in p.adts[adt]["variants"][0]["f"]]
    nums = [n for n in ("x", "y", "width") if n in fields]
    at = dict(zip(fields, o_[3]))
    for w in (1, 3, 70000):
        for x in (0, 1, w):
            for y in (0, 2, 80000):
                env = {at[n]: v for n, v in zip(("x", "y", "width"), (x, y, w)) if n in nums}
                for o, u in case.at(env):
                    if u:
                        return ck.und("clone", inst, "not determined: %s" % T.show(u[0])[:100])
                    v = case.E.deep(o.st, o.val) if o.val else None
                    if not v or v[0] != "agg" or v[1] != adt:
                        return ck.und("clone", inst, T.show(v)[:100])
                    for n, a, b in zip(fields, v[3], o_[3]):
                        if a == b or a == ("call", "inner clone", (b,), ()):
                            continue
                        if n in nums:
                            g = T.evalt(a, env)
                            if g == env[b]:
                                continue
                            if g is None:
                                return ck.und("clone", inst, "field %s: %s" % (n, T.show(a)[:80]))
                        return ck.bad("clone", inst, "%s: field %s of the clone is %s%s" % (
                            case.where(), n, T.show(a)[:80], " where the original has %s" % env[b] if n in nums else ""))
    ck.ok("clone", inst)


# ---- coordinates ------------------------------------------------------------------------------------------------
class Auto:
    """the transition system of an iterator's next"""

    def __init__(self, ck, p, it, adt, hook=None):
        self.p, self.adt = p, adt
        if hook:
            self.obj = self_obj(p, adt)
            self.case = spec.Case(ck, it, self_val=self.obj, hook=hook)
        else:
            self.case, self.obj = case_of(ck, p, it, adt)
        self.scalars = [x for x in self.obj[3] if x[0] == "sym" and len(x) > 2]
        self.discs = {f for o in self.case.outs for f, _ in o.st.facts if f[0] == "discr" and f[1][0] == "call" and f[1][1].startswith("inner ")}

    def state(self, vals):
        """{symbol: value} from the field values of an aggregate under no further unknowns"""
        return dict(zip(self.scalars, vals))

    def step(self, state, more):
        """(output term evaluated by caller, env, outcome, next state) of the one feasible outcome"""
        env = dict(state)
        for d in self.discs:
            env[d] = 1 if more else 0
        got = self.case.at(env)
        if len(got) != 1 or got[0][1]:
            raise Undecided("%d outcomes at %s" % (len(got), spec.names(state)))
        o = got[0][0]
        if o.kind != "ret":
            return o.kind, None, env, o, None
        v = self.case.E.deep(o.st, o.val)
        new = self.case.E.deep(o.st, o.st.mem[("arg", "self")])
        if new[0] == "agg":
            new = new[3]
        else:
            raise Undecided("state %s" % T.show(new)[:80])
        ns = {}
        for s, t in zip(self.obj[3], new):
            if s in self.scalars:
                ns[s] = T.evalt(t, env)
                if ns[s] is None:
                    raise Undecided("next state %s" % T.show(t)[:80])
        return "ret", v, env, o, ns


def initial(auto, case, v, env):
    """state of the automaton an aggregate built elsewhere stands for"""
    if v[0] != "agg" or v[1] != auto.adt:
        raise Undecided("initial state %s" % T.show(v)[:80])
    ns = {}
    for s, t in zip(auto.obj[3], v[3]):
        if s in auto.scalars:
            ns[s] = T.evalt(t, env)
            if ns[s] is None:
                raise Undecided("initial state %s" % T.show(t)[:80])
    return ns


def item(v, env):
    """('none',) or the evaluated integer components of Some(tuple)"""
    if v[0] == "agg" and v[1] == OPT:
        if v[2] == 0:
            return None
        x = v[3][0]
        return x
    raise Undecided("yields %s" % T.show(v)[:80])


def coords(ck, p):
    nexts = {}
    for im, adt, tr in iter_impls(p):
        if tr == "Iterator" and "next" in im["_items"]:
            nexts[adt.split("::")[-1]] = (adt, p.items[im["_items"]["next"]["key"]])
    for ctor, en in (("enumerate_pixels", "EnumeratePixels"), ("enumerate_pixels_mut", "EnumeratePixelsMut")):
        if en in nexts and method(p, ctor):
            ck.each("coord", en, pixel_coords, ck, p, nexts[en], method(p, ctor), en)
    for ctor, en, pe in (("enumerate_rows", "EnumerateRows", "EnumeratePixels"), ("enumerate_rows_mut", "EnumerateRowsMut", "EnumeratePixelsMut")):
        if en in nexts and method(p, ctor) and pe in nexts:
            ck.each("coord", en, row_coords, ck, p, nexts[en], method(p, ctor), en, nexts[pe])
    ck.each("coord", "GenericImageView::pixels", view_coords, ck, p)


def start_states(case, s, auto):
    """(w, h, initial state) for every size, from the constructor's outcome"""
    for w, h in SIZES + [(U32, 1)]:
        env = {s["width"]: w, s["height"]: h}
        for e, w_, h_, cc in size_grid_at(case, s, w, h):
            got = [(o, u) for o, u in case.at(e) if o.kind == "ret"]
            if len(got) != 1 or got[0][1]:
                raise Undecided("constructor: %d outcomes" % len(got))
            o = got[0][0]
            yield w, h, initial(auto, case, case.E.deep(o.st, o.val), e)


def size_grid_at(case, s, w, h):
    cs, ls = set(), set()
    for o in case.outs:
        ts = [f for f, _ in o.st.facts] + ([case.E.deep(o.st, o.val)] if o.val is not None else [])
        for t in ts:
            for x in T.subterms(t):
                if x and x[0] == "cst":
                    cs.add(x)
                if x and x[0] == "len":
                    ls.add(x)
    env = {s["width"]: w, s["height"]: h}
    env.update({c: 3 for c in cs})
    env.update({l: w * h * 3 + 2 for l in ls})
    yield env, w, h, 3


def xy(v, env):
    x = item(v, env)
    if x is None:
        return None
    if x[0] != "agg" or len(x[3]) < 2:
        raise Undecided("yields %s" % T.show(x)[:80])
    r = tuple(T.evalt(t, env) for t in x[3][:2])
    if None in r:
        raise Undecided("coordinates %s" % T.show(x)[:80])
    return r


def follow(ck, auto, w, n, init, first=0):
    """reason why the n elements from init do not carry the coordinates of a row-major walk of width w (None: they do)"""
    st = init
    for k in range(n):
        kind, v, env, o, ns = auto.step(st, True)
        if kind != "ret":
            return "at pixel %d of an image %d wide it panics (%s)" % (k, w, o.why)
        got, want = xy(v, env), (k % w, first + k // w)
        if got != want:
            return "pixel %d of an image %d wide is given %s instead of %s" % (k, w, got, want)
        st = ns
    kind, v, env, o, ns = auto.step(st, False)
    if kind != "ret":
        return "after the last pixel of an image %d wide it panics (%s)" % (w, o.why)
    return None


def extremes(auto):
    """single steps from extreme states, when the state is a coordinate and a width"""
    f = {x[1]: x for x in auto.scalars}
    if not {"x", "y", "width"} <= set(f):
        return None
    for w in (1, 2, 255, 256, 65536, 70001, U32):
        for x in {0, 1, 254, 255, 65535, 69999, w - 2, w - 1}:
            for y in (0, 1, 255, 65535, 65536, U32 - 1):
                if not 0 <= x < w:
                    continue
                st = {f["x"]: x, f["y"]: y, f["width"]: w}
                for n in set(f) - {"x", "y", "width"}:
                    st[f[n]] = U32 if n == "height" else 0
                for want in ((x, y), (x + 1, y) if x + 1 < w else (0, y + 1)):
                    if want[1] >= st.get(f.get("height"), U32):
                        break
                    kind, v, env, o, st = auto.step(st, True)
                    if kind != "ret":
                        return "at (%d, %d) of an image %d wide it panics (%s)" % (want + (w, o.why))
                    got = xy(v, env)
                    if got != want:
                        return "at (%d, %d) of an image %d wide it yields %s" % (want + (w, got))
    return None


def pixel_coords(ck, p, nx, ctor, inst):
    auto = Auto(ck, p, nx[1], nx[0])
    o_, s = image_self(p)
    case = spec.Case(ck, ctor, self_val=o_)
    n = 0
    for w, h, init in start_states(case, s, auto):
        r = follow(ck, auto, w, w * h if w < 1000 else 3, init)
        n += 1
        if r:
            return ck.bad("coord", inst, "%s: %s" % (auto.case.where(), r))
    r = extremes(auto)
    if r:
        return ck.bad("coord", inst, "%s: %s" % (auto.case.where(), r))
    ck.ok("coord", inst, "%d sizes" % n)


def row_coords(ck, p, nx, ctor, inst, px):
    auto = Auto(ck, p, nx[1], nx[0])
    pauto = Auto(ck, p, px[1], px[0])
    o_, s = image_self(p)
    case = spec.Case(ck, ctor, self_val=o_)
    n = 0
    for w, h, st in start_states(case, s, auto):
        if w == 0:
            continue
        for k in range(min(h, 6)):
            kind, v, env, o, ns = auto.step(st, True)
            if kind != "ret":
                return ck.bad("coord", inst, "%s: row %d of a %dx%d image: panics" % (auto.case.where(), k, w, h))
            x = item(v, env)
            if x is None:
                return ck.und("coord", inst, "no row")
            y = T.evalt(x[3][0], env)
            if y != k:
                return ck.bad("coord", inst, "%s: row %d is given number %s" % (auto.case.where(), k, y))
            init = initial(pauto, auto.case, x[3][1], env)
            r = follow(ck, pauto, w, min(w, 40), init, first=k)
            if r:
                return ck.bad("coord", inst, "%s: in row %d, %s" % (auto.case.where(), k, r))
            st = ns
            n += 1
    ck.judge("coord", inst, True if n else None, "nothing evaluated", "%d rows" % n)


def view_coords(ck, p):
    """GenericImageView::pixels: the iterator asks the image for each pixel"""
    inst = "GenericImageView::pixels"
    it = p.trait_default("image::GenericImageView", "pixels")
    im = next(im for im in p.impls if im["_self"][0] == "adt" and im["_self"][1] == "image::Pixels" and (im.get("trait") or "").endswith("Iterator"))
    nx = p.items[im["_items"]["next"]["key"]]
    W, H = ("sym", "w", (0, U32)), ("sym", "h", (0, U32))

    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if name.startswith("GenericImageView::") and m == "dimensions":
            return [Out(st, "ret", ("agg", "tuple", 0, (W, H)))]
        if name.startswith("GenericImageView::") and m in ("width", "height"):
            return [Out(st, "ret", W if m == "width" else H)]
        if name.startswith("GenericImageView::") and m in ("get_pixel", "unsafe_get_pixel"):
            st.eff = st.eff + (("get", args[1], args[2]),)
            return [Out(st, "ret", ("call", "get_pixel", (args[1], args[2]), ()))]
        return None
    ctor = spec.Case(ck, it, hook=hook)
    auto = Auto(ck, p, nx, "image::Pixels", hook=hook)
    n = 0
    for w, h in SIZES + [(0, U32), (U32, 0)]:
        e = {W: w, H: h}
        got = [(o, u) for o, u in ctor.at(e) if o.kind == "ret"]
        if len(got) != 1 or got[0][1]:
            raise Undecided("constructor")
        st = initial(auto, ctor, ctor.E.deep(got[0][0].st, got[0][0].val), e)
        N = w * h
        for k in range(N + 3 if h else N + 1):
            kind, v, env, o, ns = auto.step(st, True)
            at = "%s: %dx%d image, step %d: " % (auto.case.where(), w, h, k)
            if kind != "ret":
                return ck.bad("coord", inst, at + "panics (%s)" % (o.why,))
            for ev in o.st.eff:
                if ev[0] == "get":
                    q = tuple(T.evalt(case_deep(auto, o, t), env) for t in ev[1:])
                    if None in q:
                        raise Undecided("pixel asked for")
                    if not (q[0] < w and q[1] < h):
                        return ck.bad("coord", inst, at + "asks for pixel %s, which is outside" % (q,))
            got = xy(v, env)
            want = (k % w, k // w) if k < N else None
            if got != want:
                return ck.bad("coord", inst, at + "yields %s instead of %s" % (got, want))
            if got is not None:
                px = item(v, env)[3][2]
                q = tuple(T.evalt(t, env) for t in px[2]) if px[0] == "call" and px[1] == "get_pixel" else None
                if q is None:
                    raise Undecided("pixel %s" % T.show(px)[:60])
                if q != got:
                    return ck.bad("coord", inst, at + "pixel %s is given coordinates %s" % (q, got))
            st = ns
            n += 1
    r = extremes(auto)
    if r:
        return ck.bad("coord", inst, "%s: %s" % (auto.case.where(), r))
    ck.ok("coord", inst, "%d steps" % n)


def case_deep(auto, o, t):
    return auto.case.E.deep(o.st, t)


# ---- parallel ---------------------------------------------------------------------------------------------------
def parallel(ck, p):
    for im in p.impls:
        t = im["_self"]
        if t[0] != "adt" or not t[1].startswith("buffer_par::"):
            continue
        tr = (im.get("trait") or "").split("::")[-1]
        if tr not in ("ParallelIterator", "IndexedParallelIterator"):
            continue
        nm = t[1].split("::")[-1]
        for m, e in im["_items"].items():
            it = p.items.get(e["key"])
            if it is None or "body" not in it:
                continue
            inst = "%s::%s" % (nm, m)
            if m in ("drive", "drive_unindexed", "with_producer"):
                ck.each("parallel", inst, par_drive, ck, p, it, t[1], m, inst)
            elif m in ("len", "opt_len"):
                ck.each("parallel", inst, par_len, ck, p, it, t[1], m, inst)
    for name in ("par_pixels", "par_pixels_mut", "par_enumerate_pixels", "par_enumerate_pixels_mut"):
        it = method(p, name)
        if it:
            ck.each("parallel", name, par_start, ck, p, it, name)


PAR = ("ParallelIterator", "IndexedParallelIterator", "ParallelSlice", "ParallelSliceMut")


def par_hook(E, st, fr, name, fi, fargs, args, site):
    m = name.split("::")[-1]
    if name.split("::")[0] in PAR:
        a = tuple(E.strip(st, x) if x[0] == "ref" and x[1][0] != "arg" else x for x in args)
        return [Out(st, "ret", ("call", "par " + m, a, ()))]
    return None


def par_drive(ck, p, it, adt, m, inst):
    o_ = self_obj(p, adt)
    case = spec.Case(ck, it, self_val=o_, byref=False, hook=par_hook)
    enum = any(x[0] == "sym" and x[1] == "width" for x in o_[3])
    for o in case.outs:
        if o.kind != "ret":
            return ck.und("parallel", inst, "%s: ends in %s" % (case.where(), o.kind))
        v = case.E.deep(o.st, o.val)
        if v[0] != "call" or not v[1].startswith("par "):
            return ck.und("parallel", inst, "%s: %s" % (case.where(), T.show(v)[:100]))
        src = v[2][0]
        if src[0] != "call" or src[1] != "par map":
            return ck.und("parallel", inst, "%s: drives %s" % (case.where(), T.show(src)[:100]))
        base, clo = src[2][0], src[2][1]
        if enum:
            if base[0] != "call" or base[1] != "par enumerate":
                return ck.und("parallel", inst, "%s: drives %s" % (case.where(), T.show(base)[:100]))
            base = base[2][0]
        if base not in o_[3]:
            return ck.bad("parallel", inst, "%s: runs over %s instead of the pixels it holds" % (case.where(), T.show(base)[:100]))
        r = closure(ck, p, case, o, clo, enum, o_)
        if r:
            return ck.bad("parallel", inst, "%s: %s" % (case.where(), r))
    ck.ok("parallel", inst)


def closure(ck, p, case, o, clo, enum, o_):
    if clo[0] != "clo":
        raise Undecided("closure %s" % T.show(clo)[:60])
    I, P = ("sym", "i", (0, 2**64 - 1)), ("sym", "px")
    arg = ("agg", "tuple", 0, (I, P)) if enum else P
    E = case.E
    fr = type("Frame", (), {"depth": 1, "site": ()})()
    outs = E.call_value(o.st.fork(), fr, clo, [arg], 0, None)
    W = next((x for x in o_[3] if x[0] == "sym" and x[1] == "width"), None)
    for w in (1, 2, 7, 65536, U32):
        for i in (0, 1, 6, 7, 8, 65535, 65536, U32 - 1, U32, 2**33 + 5):
            if enum and i // w > U32:
                continue
            env = {I: i}
            if W:
                env[W] = w
            got = [x for x in outs if spec.feasible(x.st.facts, env)[0] is not False]
            if len(got) != 1 or got[0].kind != "ret":
                if any(x.kind == "panic" for x in got) and len(got) == 1:
                    return "pixel %d of an image %d wide: panics" % (i, w)
                raise Undecided("closure: %d outcomes" % len(got))
            v = E.deep(got[0].st, got[0].val)
            if not T.contains(v, P):
                return "an element is replaced by %s" % T.show(v)[:60]
            if enum:
                q = tuple(T.evalt(t, env) for t in v[3][:2]) if v[0] == "agg" else (None,)
                if None in q:
                    raise Undecided("coordinates %s" % T.show(v)[:80])
                if q != (i % w, i // w):
                    return "pixel %d of an image %d wide is given %s" % (i, w, q)
    return None


def par_len(ck, p, it, adt, m, inst):
    o_ = self_obj(p, adt)
    case = spec.Case(ck, it, self_val=o_, hook=par_hook)
    for o in case.outs:
        v = case.E.deep(o.st, o.val)
        if m == "opt_len" and v[0] == "agg" and v[1] == OPT and v[2] == 1:
            v = v[3][0]
        t = v
        if t[0] == "call" and t[1] == "par len":
            a = t[2][0]
            while a[0] in ("rf", "ref"):
                a = a[1] if a[0] == "rf" else case.E.deep(o.st, case.E.read(o.st, a[1], a[2]))
            if a in o_[3] or m == "opt_len" and a == o_:
                continue
        if any(True for _ in sub(v, lambda x: x[0] == "call" and x[1] == "par len")) and v[0] != "call":
            return ck.bad("parallel", inst, "%s: reports %s" % (case.where(), T.show(v)[:100]))
        return ck.und("parallel", inst, "%s: %s" % (case.where(), T.show(v)[:100]))
    ck.ok("parallel", inst)


def par_start(ck, p, it, name):
    o_, s = image_self(p)
    case = spec.Case(ck, it, self_val=o_, hook=par_hook)
    n = 0
    for env, w, h, cc in size_grid(case, s):
        for o, u in case.at(env):
            if u:
                return ck.und("parallel", name, "%s: %s" % (case.where(), T.show(u[0])[:100]))
            if o.kind == "panic":
                return ck.bad("parallel", name, "%s: panics for a %dx%d image" % (case.where(), w, h))
            v = case.E.deep(o.st, o.val)
            x = next(sub(v, lambda x: x[0] == "call" and x[1].startswith("par par_chunks_exact")), None)
            if x is None:
                return ck.und("parallel", name, "%s: %s" % (case.where(), T.show(v)[:100]))
            ext, size = extent(case.E, o.st, x[2][0], env), T.evalt(x[2][1], env)
            if ext is None or size is None:
                return ck.und("parallel", name, "%s: %s" % (case.where(), T.show(x)[:100]))
            if (ext[1] and ext[0]) or ext[1] != w * h * cc or size != cc:
                return ck.bad("parallel", name, "%s: for a %dx%d image of %d channels it runs over %d samples from %d in steps of %d" % (
                    case.where(), w, h, cc, ext[1], ext[0], size))
            if v[0] == "agg" and "Enumerate" in v[1]:
                k = [f["n"] for f in p.adts[v[1]]["variants"][0]["f"]].index("width")
                if T.evalt(v[3][k], env) != w:
                    return ck.bad("parallel", name, "%s: takes %s for the width" % (case.where(), T.show(v[3][k])[:60]))
            n += 1
    ck.judge("parallel", name, True if n else None, "nothing evaluated", "%d points" % n)
