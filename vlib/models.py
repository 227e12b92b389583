"""Models of the std operations the analysed code is built from."""
from . import terms as T
from .terms import c, TRUE, FALSE, UNIT, INT_TYPES

OPTION, RESULT, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
MODELS = {}


def agg(k, v, *f):
    return ("agg", k, v, tuple(f))


def some(v):
    return agg(OPTION, 1, v)


NONE = agg(OPTION, 0)


def ok(v):
    return agg(RESULT, 0, v)


def err(v):
    return agg(RESULT, 1, v)


def tup(*f):
    return agg("tuple", 0, *f)


def Out(st, kind, val=None, why=None):
    from .absint import Out as O
    return O(st, kind, val, why)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def adt_of(E, fargs, i=0):
    t = fargs[i]
    while t[0] == "ref":
        t = t[1]
    return t[1] if t[0] == "adt" else None


def opt(E, st, v):
    return E.split_enum(st, v, OPTION)


def res(E, st, v):
    return E.split_enum(st, v, RESULT)


def pay(E, v, variant):
    return E.field(v, variant, 0)


# ---------------------------------------------------------------- ? operator
@model("Try::branch")
def _try(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    adt = adt_of(E, fargs)
    if adt == RESULT:
        out = []
        for s, i, x in res(E, st, v):
            if i == 0:
                out.append(Out(s, "ret", agg(CF, 0, pay(E, x, 0))))
            else:
                out.append(Out(s, "ret", agg(CF, 1, err(pay(E, x, 1)))))
        return out
    if adt == OPTION:
        return [Out(s, "ret", agg(CF, 0, pay(E, x, 1)) if i == 1 else agg(CF, 1, NONE)) for s, i, x in opt(E, st, v)]
    if adt == CF:
        return [v]


@model("FromResidual::from_residual")
def _resid(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    adt = adt_of(E, fargs)
    if adt == RESULT:
        e = E.field(v, 1, 0)
        if v[0] == "agg" and v[1] == OPTION:
            return None
        to, frm = fargs[0][2][1], fargs[1][2][1]
        if to != frm:
            r = E.p.find_impl("std::convert::From", (to, frm))
            if r:
                im, s = r
                it = E.p.items.get(im["_items"]["from"]["key"])
                outs = E.exec_body(st, it, it["body"], s, [e], fr.depth + 1, (fr.site, bb))
                return [Out(o.st, "ret", err(o.val)) if o.kind == "ret" else o for o in outs]
            e = ("conv", E.p.tystr(to), e)
        return [err(e)]
    if adt == OPTION:
        return [NONE]


# ---------------------------------------------------------------- conversions
def intty(t):
    return t[1] if t[0] == "prim" and t[1] in INT_TYPES else None


@model("From::from")
def _from(E, st, fr, fi, fargs, args, bb, t):
    to, frm = fargs[0], fargs[1]
    return conv(E, st, fr, to, frm, args[0], bb)


@model("Into::into")
def _into(E, st, fr, fi, fargs, args, bb, t):
    frm, to = fargs[0], fargs[1]
    return conv(E, st, fr, to, frm, args[0], bb)


def conv(E, st, fr, to, frm, v, bb):
    if to == frm:
        return [v]
    a, b = intty(frm), intty(to)
    if b and a:
        return [T.cast_int(v, a, b)]
    if b and frm[0] == "prim":
        return [("cast", b, frm[1], v)] if v[0] != "c" else [T.cast_int(v, "u8", b)]
    if to[0] == "prim" and frm[0] == "prim":
        if v[0] == "f":
            return [v]
        if v[0] == "c" and to[1] in ("f32", "f64"):
            return [("f", repr(float(v[1])))]
        return [("cast", to[1], frm[1], v)]
    r = E.p.find_impl("std::convert::From", (to, frm))
    if r:
        im, s = r
        it = E.p.items.get(im["_items"]["from"]["key"])
        return E.exec_body(st, it, it["body"], s, [v], fr.depth + 1, (fr.site, bb))
    r = E.p.find_impl("std::convert::Into", (frm, to))
    if r and r[0]["_items"].get("into"):
        im, s = r
        it = E.p.items.get(im["_items"]["into"]["key"])
        return E.exec_body(st, it, it["body"], s, [v], fr.depth + 1, (fr.site, bb))
    if to[0] == "adt" and to[1] == OPTION and frm == to[2][0]:
        return [some(v)]
    return [("conv", E.p.tystr(to), v)]


@model("TryFrom::try_from")
def _tryfrom(E, st, fr, fi, fargs, args, bb, t):
    return tryconv(E, st, fr, fargs[0], fargs[1], args[0], bb)


@model("TryInto::try_into")
def _tryinto(E, st, fr, fi, fargs, args, bb, t):
    return tryconv(E, st, fr, fargs[1], fargs[0], args[0], bb)


def tryconv(E, st, fr, to, frm, v, bb):
    a, b = intty(frm), intty(to)
    if a and b:
        (l1, h1), (l2, h2) = INT_TYPES[a], INT_TYPES[b]
        if v[0] == "c":
            return [ok(v)] if l2 <= v[1] <= h2 else [err(("sym", "TryFromIntError"))]
        if l2 <= l1 and h1 <= h2:
            return [ok(v)]
        cond = ("fits", b, v)
        out = []
        s2 = st.fork()
        if E.assume(s2, cond, False):
            out.append(Out(s2, "ret", err(("sym", "TryFromIntError"))))
        if E.assume(st, cond, True):
            out.append(Out(st, "ret", ok(v)))
        return out
    if to[0] == "ref" and frm[0] == "ref" and to[1][0] == "array" and frm[1][0] == "slice" and isinstance(to[1][2], int):
        cond = T.eq(E.len_of_ref(st, v), c(to[1][2]))
        out = []
        s2 = st.fork()
        if E.assume(s2, cond, False):
            out.append(Out(s2, "ret", err(("sym", "TryFromSliceError"))))
        if E.assume(st, cond, True):
            out.append(Out(st, "ret", ok(v)))
        return out
    if to[0] == "array" and isinstance(to[2], int) and to[2] <= 16 and frm[0] == "ref" and frm[1][0] == "slice" and intty(to[1]):
        cond = T.eq(E.len_of_ref(st, v), c(to[2]))
        out = []
        s2 = st.fork()
        if E.assume(s2, cond, False):
            out.append(Out(s2, "ret", err(("sym", "TryFromSliceError"))))
        if E.assume(st, cond, True):
            xs = tuple(E.strip(st, elem_ref(E, st, v, c(i))) for i in range(to[2]))
            out.append(Out(st, "ret", ok(("agg", "array", 0, xs))))
        return out
    r = E.p.find_impl("std::convert::TryFrom", (to, frm))
    if r:
        im, s = r
        it = E.p.items.get(im["_items"]["try_from"]["key"])
        return E.exec_body(st, it, it["body"], s, [v], fr.depth + 1, (fr.site, bb))
    return None


@model("Default::default")
def _default(E, st, fr, fi, fargs, args, bb, t):
    if fargs and fargs[0][0] == "prim" and fargs[0][1] in INT_TYPES:
        return [c(0)]
    if fargs and fargs[0] == ("prim", "bool"):
        return [c(False)]
    return None


@model("slice::to_vec")
def _to_vec(E, st, fr, fi, fargs, args, bb, t):
    cell, pr = E.target(args[0])
    return [E.read(st, cell, pr)]


@model("Clone::clone", "Option::cloned", "Option::copied", "ToOwned::to_owned")
def _clone(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    nm = fi["name"]
    if nm in ("cloned", "copied"):
        out = []
        for s, i, x in opt(E, st, v):
            if i == 0:
                out.append(Out(s, "ret", NONE))
            else:
                cell, pr = E.target(pay(E, x, 1))
                out.append(Out(s, "ret", some(E.read(s, cell, pr))))
        return out
    if nm == "to_owned":
        if v[0] == "s":
            return [v]
        if fargs and fargs[0] == ("prim", "str"):
            return [v]
    if nm == "to_owned" and fargs[0][0] == "slice":
        cell, pr = E.target(v)
        return [E.read(st, cell, pr)]
    if fargs[0][0] in ("prim", "adt", "param", "proj", "tuple", "array", "ref", "closure"):
        # local hand-written Clone impls are analysed, derived/std ones copy the value
        r = E.p.find_impl("std::clone::Clone", (fargs[0],))
        if r and not r[0].get("derived"):
            return None
        cell, pr = E.target(v)
        return [E.read(st, cell, pr)]
    return None


@model("Borrow::borrow", "AsRef::as_ref", "Deref::deref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut",
       "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "String::as_bytes", "str::as_bytes",
       "Vec::as_mut_ptr", "slice::as_mut_ptr", "slice::as_ptr", "str::as_str", "Vec::as_ptr", "Vec::into_boxed_slice",
       "Read::by_ref", "Write::by_ref", "Iterator::by_ref", "ptr::cast", "ptr::cast_mut", "ptr::cast_const")
def _deref(E, st, fr, fi, fargs, args, bb, t):
    if fi.get("trait") and fargs and fargs[0][0] in ("adt",) and fargs[0][1].split("::")[0] not in (
            "std", "alloc", "core"):
        r = E.p.find_impl(fi["trait"], fargs[:E.trait_arity(fi)])
        if r:
            return None
    if fargs and fargs[0][0] == "adt" and fargs[0][1] == "std::boxed::Box":
        v = E.read(st, *E.target(args[0]))
        if v[0] == "box":
            return [v[1]]
        return [("fld", ("fld", v, None, 0), None, 0)]
    v = args[0]
    return [v]


@model("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "rayon::iter")
def _into_iter(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    if fi["name"] == "into_iter":
        ty = fargs[0]
        if E.iter_like(v):
            return [v]
        if ty[0] == "adt" and ty[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
            return [("it", "range", v)]
        if ty[0] == "ref" and ty[1][0] in ("slice", "array"):
            return [("it", "slice", v)]
        if ty[0] == "ref" and ty[1][0] == "adt" and ty[1][1] == "std::vec::Vec":
            return [("it", "slice", v)]
        if ty[0] == "array" or ty[0] == "adt" and ty[1] == "std::vec::Vec":
            return [("it", "owned", v)]
        if ty[0] == "adt" and ty[1] == OPTION:
            return None
        r = E.p.find_impl("std::iter::IntoIterator", (ty,))
        if r and r[0]["_targs"][0][0] != "param":
            return None
        return [v]
    return [("it", "slice", v)]


# ---------------------------------------------------------------- iterators
def as_iter(v):
    if v[0] == "agg" and v[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        return ("it", "range", v)
    return v


def iter_adaptor(name):
    def f(E, st, fr, fi, fargs, args, bb, t):
        v = as_iter(args[0])
        rest = tuple(as_iter(a) for a in args[1:])
        if name in ("zip", "chain") and len(fargs) > 1 and not E.iter_like(rest[0]):
            ty = fargs[1]
            if ty[0] == "ref" and (ty[1][0] in ("slice", "array") or ty[1][0] == "adt" and ty[1][1] == "std::vec::Vec"):
                rest = (("it", "slice", rest[0]),)
            elif ty[0] == "array" or ty[0] == "adt" and ty[1] == "std::vec::Vec":
                rest = (("it", "owned", rest[0]),)
        if v[0] != "it":
            v = ("it", "opaque", v)
        return [("it", name) + (v,) + rest]
    return f


for _n in ("rev", "enumerate", "zip", "map", "take", "skip", "step_by", "chain", "cloned", "copied", "filter", "inspect",
           "take_while", "skip_while", "fuse", "peekable", "cycle", "flat_map", "flatten", "filter_map", "scan"):
    MODELS["Iterator::" + _n] = iter_adaptor(_n)
    MODELS["ParallelIterator::" + _n] = iter_adaptor(_n)
    MODELS["IndexedParallelIterator::" + _n] = iter_adaptor(_n)


def chunker(kind):
    def f(E, st, fr, fi, fargs, args, bb, t):
        return [("it", "chunks", args[0], args[1], kind)]
    return f


for _n in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "rchunks", "windows"):
    MODELS["slice::" + _n] = chunker(_n)


_step_by = MODELS["Iterator::step_by"]


def step_by(E, st, fr, fi, fargs, args, bb, t):
    r = E.rng(args[1])
    if r is not None and r[0] > 0:
        return _step_by(E, st, fr, fi, fargs, args, bb, t)
    out, s2 = [], st.fork()
    zero = T.eq(args[1], c(0))
    if E.assume(s2, zero, True):
        out.append(Out(s2, "panic", None, ("call", "step_by(0)", E.p.loc(t[6]) if len(t) > 6 else "", fr.it["path"])))
    if E.assume(st, zero, False):
        out.append(Out(st, "ret", _step_by(E, st, fr, fi, fargs, args, bb, t)[0]))
    return out


MODELS["Iterator::step_by"] = step_by
MODELS["ParallelSlice::par_chunks_exact"] = chunker("chunks_exact")
MODELS["ParallelSliceMut::par_chunks_exact_mut"] = chunker("chunks_exact_mut")


def min_(a, b):
    return c(min(a[1], b[1])) if a[0] == "c" and b[0] == "c" else ("op", "Min", a, b)


def it_count(E, st, it):
    k = it[1]
    if k == "img":
        return E.it_img_count(it)
    if k == "range":
        r = it[2]
        if r[0] == "agg":
            lo, hi = r[3][0], r[3][1]
            n = T.sub(hi, lo)
            return T.add(n, c(1)) if r[1].endswith("RangeInclusive") else n
        return ("count", r)
    if k == "slice":
        return E.len_of_ref(st, it[2])
    if k == "owned":
        return E.length(it[2])
    if k == "chunks":
        return ("op", "ChunkCount", E.len_of_ref(st, it[2]), it[3], it[4].replace("_mut", ""))
    if k in ("rev", "enumerate", "map", "cloned", "copied", "inspect"):
        return it_count(E, st, it[2])
    if k == "zip":
        a, b = it_count(E, st, it[2]), it_count(E, st, it[3])
        return a if a == b else min_(a, b)
    if k == "step_by":
        return ("op", "StepCount", it_count(E, st, it[2]), it[3])
    if k == "take":
        return min_(it_count(E, st, it[2]), it[3])
    if k == "skip":
        return T.sub(it_count(E, st, it[2]), it[3])
    return ("count", it)


def it_elem(E, st, fr, it, k, bb, t):
    """generic element number k of a recognised iterator -> list[(state, value)] or None"""
    kd = it[1]
    if kd == "img":
        return [(st, E.it_img_elem(st, it, k))]
    if kd == "range":
        r = it[2]
        if r[0] == "agg":
            return [(st, T.add(r[3][0], k))]
        return None
    if kd == "slice":
        v = it[2]
        return [(st, elem_ref(E, st, v, k))]
    if kd == "owned":
        return [(st, E.index(it[2], k))]
    if kd == "chunks":
        v, n, kind = it[2], it[3], it[4]
        if kind in ("rchunks",):
            return None
        if kind == "windows":
            return [(st, E.mk_sliceref(v, k, n))]
        ln = n if "exact" in kind else ("op", "ChunkLen", k, n, E.len_of_ref(st, v))
        return [(st, E.mk_sliceref(v, T.mul(k, n), ln))]
    if kd == "rev":
        n = it_count(E, st, it[2])
        return it_elem(E, st, fr, it[2], T.sub(T.sub(n, c(1)), k), bb, t)
    if kd == "enumerate":
        r = it_elem(E, st, fr, it[2], k, bb, t)
        return None if r is None else [(s, tup(k, x)) for s, x in r]
    if kd == "zip":
        r = it_elem(E, st, fr, it[2], k, bb, t)
        if r is None:
            return None
        out = []
        for s, x in r:
            r2 = it_elem(E, s, fr, it[3], k, bb, t)
            if r2 is None:
                return None
            out += [(s2, tup(x, y)) for s2, y in r2]
        return out
    if kd == "step_by":
        return it_elem(E, st, fr, it[2], T.mul(k, it[3]), bb, t)
    if kd == "skip":
        return it_elem(E, st, fr, it[2], T.add(k, it[3]), bb, t)
    if kd == "take":
        return it_elem(E, st, fr, it[2], k, bb, t)
    if kd in ("cloned", "copied"):
        r = it_elem(E, st, fr, it[2], k, bb, t)
        return None if r is None else [(s, E.read(s, *E.target(x))) for s, x in r]
    if kd == "map":
        r = it_elem(E, st, fr, it[2], k, bb, t)
        if r is None:
            return None
        out = []
        for s, x in r:
            for o in E.call_value(s, fr, it[3], [x], bb, t):
                if o.kind == "ret":
                    out.append((o.st, o.val))
        return out
    return None


def elem_ref(E, st, v, k):
    if v[0] == "sliceref":
        b = v[1]
        cell, pr = E.target(b)
        return ("ref", cell, pr + (("i", T.add(v[2], k)),), True)
    cell, pr = E.target(v)
    return ("ref", cell, pr + (("i", k),), True)


@model("Iterator::sum", "Iterator::product")
def _sum(E, st, fr, fi, fargs, args, bb, t):
    v = as_iter(args[0])
    if v[0] != "it":
        return None
    n = it_count(E, st, v)
    if n[0] != "c" or not 0 <= n[1] <= 64:
        return None
    ty = E.place_ty(fr, t[3])
    if ty[0] != "prim" or ty[1] not in T.BITS:
        return None
    op = "Add" if fi["name"] == "sum" else "Mul"
    acc = c(0 if op == "Add" else 1)
    for k in range(n[1]):
        r = it_elem(E, st, fr, v, c(k), bb, t)
        if r is None or len(r) != 1:
            return None
        st, x = r[0]
        x = E.strip(st, x)
        if x[0] == "ref":
            x = E.read(st, x[1], x[2])
        acc = T.binop(op, acc, x, ty[1])
    return [Out(st, "ret", acc)]


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _next(E, st, fr, fi, fargs, args, bb, t):
    cell, pr = E.target(args[0])
    v = E.read(st, cell, pr)
    v0 = v
    v = as_iter(v)
    back = fi["name"] == "next_back"
    if v[0] != "it":
        # local iterator types are analysed; anything else is opaque
        return None
    h = fr.cfg.loop_of(bb)
    step = h is not None and E.unrolled(fr, h)
    if step and it_count(E, st, v)[0] != "c":
        E.no_bound(fr, h)
    if h is None or step:
        # a single step outside a loop, or in a loop of known length
        k = c(0)
        if back:
            k = T.sub(it_count(E, st, v), c(1))
        n = it_count(E, st, v)
        if n[0] == "c" and n[1] <= 0:
            return [NONE]
        r = it_elem(E, st, fr, v, k, bb, t)
        if r is None:
            return None
        out = []
        cond = T.lt(c(0), n)
        s2 = st.fork()
        if E.assume(s2, cond, False):
            out.append(Out(s2, "ret", NONE))
        for s, x in r:
            if E.assume(s, cond, True):
                E.write(s, cell, pr, advance(E, v, back))
                out.append(Out(s, "ret", some(x)))
        return out
    k = ("ind", (fr.it["path"], h, fr.site, fr.depth), bb)
    n = it_count(E, st, v)
    E.inds[k] = (n, v, back)
    kk = k if not back else T.sub(T.sub(n, c(1)), k)
    s2 = st.fork()
    out = [Out(s2, "ret", NONE)]
    s2.facts = s2.facts + ((("exhausted", k), True),)
    s1 = st.fork()
    if E.trace:
        E.mark(s2, "exh", k, n)
        E.mark(s1, "iter", k, n)
    lt = T.lt(k, n)
    if lt == FALSE:
        return out
    if n == c(0):
        return out
    if lt[0] != "c":
        s1.known[lt] = True
    s1.facts = s1.facts + ((("iter", k, n), True),)
    r = it_elem(E, s1, fr, v, kk, bb, t)
    if r is None:
        x = ("elem", v, k)
        return out + [Out(s1, "ret", some(x))]
    return out + [Out(s, "ret", some(x)) for s, x in r]


def advance(E, v, back):
    if v[1] == "range" and v[2][0] == "agg":
        r = v[2]
        if back:
            return ("it", "range", ("agg", r[1], r[2], (r[3][0], T.sub(r[3][1], c(1))) + r[3][2:]))
        return ("it", "range", ("agg", r[1], r[2], (T.add(r[3][0], c(1)),) + r[3][1:]))
    if back:
        return ("it", "dropback", v)
    return ("it", "skip", v, c(1))


@model("Iterator::for_each", "ParallelIterator::for_each")
def _for_each(E, st, fr, fi, fargs, args, bb, t):
    v = as_iter(args[0])
    if v[0] != "it":
        v = ("it", "opaque", v)
    k = ("ind", (fr.it["path"], "for_each", fr.site, fr.depth), bb)
    n = it_count(E, st, v)
    if E.unroll and n[0] == "c" and n[1] <= E.unroll:
        states, out = [st], []
        for i in range(n[1]):
            nxt = []
            for s in states:
                for s, x in it_elem(E, s, fr, v, c(i), bb, t) or [(s, ("elem", v, c(i)))]:
                    for o in E.call_value(s, fr, args[1], [x], bb, t):
                        (nxt if o.kind == "ret" else out).append(o.st if o.kind == "ret" else o)
            states = nxt
        return out + [Out(s, "ret", UNIT) for s in states]
    E.inds[k] = (n, v, False)
    out = []
    s1 = st.fork()
    if E.trace:
        s2 = st.fork()
        E.mark(s2, "exh", k, n)
        E.mark(s1, "iter", k, n)
        out.append(Out(s2, "ret", UNIT))
    lt = T.lt(k, n)
    if lt[0] != "c":
        s1.known[lt] = True
    s1.facts = s1.facts + ((("iter", k, n), True),)
    r = it_elem(E, s1, fr, v, k, bb, t)
    if r is None:
        r = [(s1, ("elem", v, k))]
    for s, x in r:
        for o in E.call_value(s, fr, args[1], [x], bb, t):
            if o.kind == "ret" and E.trace:
                E.body_done(o.st, k)
            elif o.kind == "ret":
                out.append(Out(o.st, "ret", UNIT))
            else:
                out.append(o)
    return out


@model("RangeInclusive::new")
def _ri(E, st, fr, fi, fargs, args, bb, t):
    return [agg("std::ops::RangeInclusive", 0, args[0], args[1])]


@model("RangeInclusive::contains", "Range::contains")
def _contains(E, st, fr, fi, fargs, args, bb, t):
    r = E.strip(st, args[0])
    x = E.strip(st, args[1])
    if r[0] != "agg":
        return None
    lo, hi = r[3][0], r[3][1]
    a = T.not_(T.lt(x, lo))
    b = T.not_(T.lt(hi, x)) if r[1].endswith("Inclusive") else T.lt(x, hi)
    return [T.binop("BitAnd", a, b, "bool")]


# ---------------------------------------------------------------- comparisons
def cmp_args(E, st, args):
    return E.strip(st, args[0]), E.strip(st, args[1])


@model("PartialEq::eq", "PartialEq::ne")
def _eq(E, st, fr, fi, fargs, args, bb, t):
    a, b = cmp_args(E, st, args)
    ty = fargs[0]
    while ty[0] == "ref":
        ty = ty[1]
    ne = fi["name"] == "ne"
    if ty[0] == "adt":
        r = E.p.find_impl("std::cmp::PartialEq", (ty, ty))
        if r and not r[0].get("derived"):
            return None
        if a[0] == "agg" and b[0] == "agg":
            e = eq_agg(E, st, a, b)
            return [T.not_(e) if ne else e]
        ad = E.p.adts.get(ty[1])
        if ad and ad["kind"] == "enum" and all(not v["f"] for v in ad["variants"]):
            da, db = E.discr_of(st, a, ty[1]), E.discr_of(st, b, ty[1])
            e = T.eq(da, db)
            tr = E.truth(st, e)
            e = c(tr) if tr is not None else e
            return [T.not_(e) if ne else e]
        if ad and ad["kind"] == "enum" and b[0] == "agg":
            # compare variant first, then payloads
            out = []
            for s, i, x in E.split_enum(st, a, ty[1]):
                if i != b[2]:
                    out.append(Out(s, "ret", c(ne)))
                else:
                    e = TRUE
                    for j, y in enumerate(b[3]):
                        e = T.binop("BitAnd", e, T.eq(E.field(a, i, j), y), "bool")
                    out.append(Out(s, "ret", T.not_(e) if ne else e))
            return out
    e = T.eq(a, b)
    return [T.not_(e) if ne else e]


def eq_agg(E, st, a, b):
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        if len(a[3]) == len(b[3]):
            e = TRUE
            for x, y in zip(a[3], b[3]):
                e = T.binop("BitAnd", e, eq_agg(E, st, x, y), "bool")
                if e == FALSE:
                    return e
            return e
    return T.eq(a, b)


def order(E, st, a, b, ty):
    return a, b


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def _ord(E, st, fr, fi, fargs, args, bb, t):
    a, b = cmp_args(E, st, args)
    n = fi["name"]
    ty = fargs[0]
    while ty[0] == "ref":
        ty = ty[1]
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[n]
    if ty[0] == "prim":
        return [T.binop(op, a, b, ty[1])]
    if a[0] == b[0] == "agg" and not a[3] and not b[3]:
        r = E.p.find_impl("std::cmp::PartialOrd", (ty, ty))
        it = E.p.items.get(r[0]["_items"].get("partial_cmp", {}).get("key")) if r else None
        if it is not None and "body" in it:
            st.mem[("cmp", 0)], st.mem[("cmp", 1)] = a, b
            outs = E.exec_body(st, it, it["body"], r[1], [("ref", ("cmp", 0), (), False), ("ref", ("cmp", 1), (), False)], fr.depth + 1, (fr.site, bb))
            if len(outs) == 1 and outs[0].kind == "ret" and outs[0].val[0] == "agg":
                v = outs[0].val
                o = v[3][0] if v[2] == 1 else None
                if o is None or o[0] == "agg":
                    d = {"lt": (0,), "gt": (2,), "le": (0, 1), "ge": (1, 2)}[n]
                    return [TRUE if o is not None and o[2] in d else FALSE]
    return [("op", "g" + op, a, b)]


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def _minmax(E, st, fr, fi, fargs, args, bb, t):
    a, b = args
    n = fi["name"]
    ty = fargs[0]
    if ty[0] != "prim" or ty[1] not in INT_TYPES:
        return None
    l = T.lt(a, b)
    tr = E.truth(st, l)
    if tr is True:
        return [a if n == "min" else b]
    if tr is False:
        return [b if n == "min" else a]
    x, y = sorted((a, b), key=T.skey)
    return [("op", "Min" if n == "min" else "Max", x, y)]


# ---------------------------------------------------------------- Option / Result
def both(names, adt):
    def d(f):
        for n in names:
            MODELS[("Option::" if adt == OPTION else "Result::") + n] = f
        return f
    return d


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _is(E, st, fr, fi, fargs, args, bb, t):
    v = E.strip(st, args[0])
    n = fi["name"]
    adt = OPTION if n in ("is_some", "is_none") else RESULT
    want = 1 if n in ("is_some", "is_err") else 0
    return [Out(s, "ret", c(i == want)) for s, i, x in E.split_enum(st, v, adt)]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _unwrap(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    isopt = "option" in fi["key"]
    adt = OPTION if isopt else RESULT
    good = 1 if isopt else 0
    out = []
    for s, i, x in E.split_enum(st, v, adt):
        if i == good:
            out.append(Out(s, "ret", pay(E, x, good)))
        else:
            out.append(Out(s, "panic", None, ("unwrap", "", E.p.loc(t[6]), fr.it["path"])))
    return out


@model("Result::ok")
def _ok(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", some(pay(E, x, 0)) if i == 0 else NONE) for s, i, x in res(E, st, args[0])]


@model("Result::err")
def _err(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", some(pay(E, x, 1)) if i == 1 else NONE) for s, i, x in res(E, st, args[0])]


@model("Option::ok_or")
def _ok_or(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", ok(pay(E, x, 1)) if i == 1 else err(args[1])) for s, i, x in opt(E, st, args[0])]


@model("Option::ok_or_else")
def _ok_or_else(E, st, fr, fi, fargs, args, bb, t):
    out = []
    for s, i, x in opt(E, st, args[0]):
        if i == 1:
            out.append(Out(s, "ret", ok(pay(E, x, 1))))
        else:
            for o in E.call_value(s, fr, args[1], [], bb, t):
                out.append(Out(o.st, "ret", err(o.val)) if o.kind == "ret" else o)
    return out


@model("Option::unwrap_or", "Result::unwrap_or")
def _unwrap_or(E, st, fr, fi, fargs, args, bb, t):
    isopt = "option" in fi["key"]
    adt, good = (OPTION, 1) if isopt else (RESULT, 0)
    return [Out(s, "ret", pay(E, x, good) if i == good else args[1]) for s, i, x in E.split_enum(st, args[0], adt)]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _unwrap_or_else(E, st, fr, fi, fargs, args, bb, t):
    isopt = "option" in fi["key"]
    adt, good = (OPTION, 1) if isopt else (RESULT, 0)
    out = []
    for s, i, x in E.split_enum(st, args[0], adt):
        if i == good:
            out.append(Out(s, "ret", pay(E, x, good)))
        else:
            out += E.call_value(s, fr, args[1], [] if isopt else [pay(E, x, 1)], bb, t)
    return out


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::is_some_and",
       "Result::is_ok_and", "Option::or_else", "Result::or_else", "Option::map_or", "Option::filter", "Option::map_or_else",
       "Result::map_or", "Result::map_or_else")
def _map(E, st, fr, fi, fargs, args, bb, t):
    isopt = "option" in fi["key"]
    adt, good = (OPTION, 1) if isopt else (RESULT, 0)
    n = fi["name"]
    out = []
    for s, i, x in E.split_enum(st, args[0], adt):
        f = args[1] if n not in ("map_or", "map_or_else") else args[2]
        if i == good:
            p = pay(E, x, good)
            if n in ("map_err", "or_else"):
                out.append(Out(s, "ret", agg(adt, good, p)))
                continue
            if n == "filter":
                E.uid += 1
                s = s.fork()
                s.mem[("tmp", E.uid)] = p
                for o in E.call_value(s, fr, f, [("ref", ("tmp", E.uid), (), False)], bb, t):
                    if o.kind != "ret":
                        out.append(o)
                        continue
                    s3 = o.st.fork()
                    if E.assume(s3, o.val, False):
                        out.append(Out(s3, "ret", NONE))
                    if E.assume(o.st, o.val, True):
                        out.append(Out(o.st, "ret", some(p)))
                continue
            for o in E.call_value(s, fr, f, [p], bb, t):
                if o.kind != "ret":
                    out.append(o)
                elif n == "map":
                    out.append(Out(o.st, "ret", agg(adt, good, o.val)))
                else:
                    out.append(o)
        else:
            if n in ("is_some_and", "is_ok_and"):
                out.append(Out(s, "ret", FALSE))
            elif n == "map_or":
                out.append(Out(s, "ret", args[1]))
            elif n == "map_or_else":
                out += E.call_value(s, fr, args[1], [] if isopt else [pay(E, x, 1)], bb, t)
            elif n == "map_err":
                for o in E.call_value(s, fr, f, [pay(E, x, 1)], bb, t):
                    out.append(Out(o.st, "ret", err(o.val)) if o.kind == "ret" else o)
            elif n == "or_else":
                out += E.call_value(s, fr, f, [] if isopt else [pay(E, x, 1)], bb, t)
            else:
                out.append(Out(s, "ret", NONE if isopt else err(pay(E, x, 1))))
    return out


@model("Result::unwrap_or_default")
def _ruod(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", pay(E, x, 0) if i == 0 else ("call", "Default::default", (E.p.tystr(fargs[0]) if fargs else "",)))
            for s, i, x in res(E, st, args[0])]


@model("Result::is_err_and")
def _iea(E, st, fr, fi, fargs, args, bb, t):
    out = []
    for s, i, x in res(E, st, args[0]):
        if i == 0:
            out.append(Out(s, "ret", FALSE))
        else:
            out += E.call_value(s, fr, args[1], [pay(E, x, 1)], bb, t)
    return out


@model("Result::or")
def _ror(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", ok(pay(E, x, 0)) if i == 0 else args[1]) for s, i, x in res(E, st, args[0])]


@model("Result::and")
def _rand(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", args[1] if i == 0 else err(pay(E, x, 1))) for s, i, x in res(E, st, args[0])]


@model("Option::or")
def _oor(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", some(pay(E, x, 1)) if i == 1 else args[1]) for s, i, x in opt(E, st, args[0])]


@model("Option::is_none_or")
def _ino(E, st, fr, fi, fargs, args, bb, t):
    out = []
    for s, i, x in opt(E, st, args[0]):
        if i == 0:
            out.append(Out(s, "ret", c(1)))
        else:
            out += E.call_value(s, fr, args[1], [pay(E, x, 1)], bb, t)
    return out


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Result::as_ref")
def _as_ref(E, st, fr, fi, fargs, args, bb, t):
    if fi["name"] == "as_deref":
        return None
    isopt = "option" in fi["key"]
    adt, good = (OPTION, 1) if isopt else (RESULT, 0)
    cell, pr = E.target(args[0])
    v = E.read(st, cell, pr)
    out = []
    for s, i, x in E.split_enum(st, v, adt):
        if i == 0 and isopt:
            out.append(Out(s, "ret", NONE))
        else:
            out.append(Out(s, "ret", agg(adt, i, ("ref", cell, pr + (("f", i, 0),), fi["name"] == "as_mut"))))
    return out


@model("Option::take")
def _take(E, st, fr, fi, fargs, args, bb, t):
    cell, pr = E.target(args[0])
    v = E.read(st, cell, pr)
    E.write(st, cell, pr, NONE)
    return [v]


@model("mem::replace")
def _replace(E, st, fr, fi, fargs, args, bb, t):
    cell, pr = E.target(args[0])
    v = E.read(st, cell, pr)
    E.write(st, cell, pr, args[1])
    return [v]


@model("mem::swap")
def _swap(E, st, fr, fi, fargs, args, bb, t):
    c1, p1 = E.target(args[0])
    c2, p2 = E.target(args[1])
    a, b = E.read(st, c1, p1), E.read(st, c2, p2)
    E.write(st, c1, p1, b)
    E.write(st, c2, p2, a)
    return [UNIT]


@model("Option::unwrap_or_default")
def _uod(E, st, fr, fi, fargs, args, bb, t):
    return [Out(s, "ret", pay(E, x, 1) if i == 1 else ("default",)) for s, i, x in opt(E, st, args[0])]


# ---------------------------------------------------------------- integer helpers
def ints(op):
    def f(E, st, fr, fi, fargs, args, bb, t):
        ty = E.p.ty(fi["impl_self"])[1]
        a, b = args[0], args[1]
        n = fi["name"]
        o = {"add": "Add", "sub": "Sub", "mul": "Mul"}[n.split("_")[1]]
        v = T.binop(o, a, b, ty)
        lo, hi = INT_TYPES[ty]
        if n.startswith("checked"):
            if v[0] == "c" and T.isc(a) and T.isc(b):
                return [some(v)] if lo <= v[1] <= hi else [NONE]
            cond = ("ovf", o, ty, v)
            out = []
            s2 = st.fork()
            if E.assume(s2, cond, True):
                out.append(Out(s2, "ret", NONE))
            if E.assume(st, cond, False):
                out.append(Out(st, "ret", some(v)))
            return out
        if n.startswith("saturating"):
            if v[0] == "c":
                return [c(max(lo, min(hi, v[1])))]
            if o == "Sub" and lo == 0:
                tr = E.truth(st, T.lt(a, b))
                if tr is False:
                    return [v]
                if tr is True:
                    return [c(0)]
            return [("sat", o, ty, a, b)]
        if n.startswith("wrapping"):
            return [("wrap", o, ty, a, b)]
    return f


def _div_ceil(E, st, fr, fi, fargs, args, bb, t):
    ty = E.p.ty(fi["impl_self"])[1]
    a, b = args
    if not (ty.startswith("u") and T.isc(b) and b[1] > 0):
        return None
    return [T.binop("Div", T.add(a, c(b[1] - 1)), b, ty)]


for _t in INT_TYPES:
    MODELS["%s::div_ceil" % _t] = _div_ceil
    for _m in ("checked_add", "checked_sub", "checked_mul", "saturating_add", "saturating_sub", "saturating_mul",
               "wrapping_add", "wrapping_sub", "wrapping_mul"):
        MODELS["%s::%s" % (_t, _m)] = ints(_m)


@model("slice::len", "Vec::len", "ExactSizeIterator::len", "str::len", "String::len")
def _len(E, st, fr, fi, fargs, args, bb, t):
    v = args[0]
    if fi["name"] == "len" and "trait" in fi:
        x = E.strip(st, v)
        x = as_iter(x)
        if x[0] == "it":
            return [it_count(E, st, x)]
        return None
    return [E.len_of_ref(st, v)]


@model("slice::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty")
def _is_empty(E, st, fr, fi, fargs, args, bb, t):
    return [T.eq(E.len_of_ref(st, args[0]), c(0))]


@model("Index::index", "IndexMut::index_mut")
def _index(E, st, fr, fi, fargs, args, bb, t):
    base, ix = args
    ity = fargs[1]
    sty = fargs[0]
    if sty[0] == "adt" and sty[1] not in ("std::vec::Vec", "std::boxed::Box"):
        return None
    if sty[0] == "param":
        return None
    if sty[0] == "prim":
        return None
    if ity == ("prim", "usize"):
        return [elem_ref(E, st, base, ix)]
    if ity[0] == "adt":
        k = ity[1].split("::")[-1]
        ln = E.len_of_ref(st, base)
        if ix[0] == "agg":
            f = ix[3]
            if k == "Range":
                return [E.mk_sliceref(base, f[0], T.sub(f[1], f[0]))]
            if k == "RangeFrom":
                return [E.mk_sliceref(base, f[0], T.sub(ln, f[0]))]
            if k == "RangeTo":
                return [E.mk_sliceref(base, c(0), f[0])]
            if k == "RangeInclusive":
                return [E.mk_sliceref(base, f[0], T.add(T.sub(f[1], f[0]), c(1)))]
            if k == "RangeToInclusive":
                return [E.mk_sliceref(base, c(0), T.add(f[0], c(1)))]
        if k == "RangeFull":
            return [base]
    return None


@model("slice::get", "slice::get_mut")
def _get(E, st, fr, fi, fargs, args, bb, t):
    base, ix = args
    ity = fargs[1] if len(fargs) > 1 else None
    ln = E.len_of_ref(st, base)
    if ity == ("prim", "usize"):
        cond = T.lt(ix, ln)
        val = elem_ref(E, st, base, ix)
    elif ity and ity[0] == "adt" and ix[0] == "agg" and ity[1].endswith("::Range"):
        cond = T.not_(T.lt(ln, ix[3][1]))
        val = E.mk_sliceref(base, ix[3][0], T.sub(ix[3][1], ix[3][0]))
    elif ity and ity[0] == "adt" and ix[0] == "agg" and ity[1].endswith("::RangeTo"):
        cond = T.not_(T.lt(ln, ix[3][0]))
        val = E.mk_sliceref(base, c(0), ix[3][0])
    elif ity and ity[0] == "adt" and ix[0] == "agg" and ity[1].endswith("::RangeFrom"):
        cond = T.not_(T.lt(ln, ix[3][0]))
        val = E.mk_sliceref(base, ix[3][0], T.sub(ln, ix[3][0]))
    elif ity and ity[0] == "adt" and ity[1].endswith("::RangeFull"):
        return [some(base)]
    else:
        return None
    out = []
    s2 = st.fork()
    if E.assume(s2, cond, False):
        out.append(Out(s2, "ret", NONE))
    if E.assume(st, cond, True):
        out.append(Out(st, "ret", some(val)))
    return out


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def _getu(E, st, fr, fi, fargs, args, bb, t):
    base, ix = args
    ity = fargs[1] if len(fargs) > 1 else None
    if ity == ("prim", "usize"):
        return [elem_ref(E, st, base, ix)]
    if ity and ity[0] == "adt" and ix[0] == "agg" and ity[1].endswith("::Range"):
        return [E.mk_sliceref(base, ix[3][0], T.sub(ix[3][1], ix[3][0]))]
    return None


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _cfs(E, st, fr, fi, fargs, args, bb, t):
    src = E.strip_slice(st, args[1]) if hasattr(E, "strip_slice") else slice_val(E, st, args[1])
    cell, pr = E.target(args[0])
    E.write(st, cell, pr, src)
    st.eff = st.eff + (("call", "slice::copy_from_slice", tuple(args), None, (fr.it["path"], bb, E.p.loc(t[6])), fargs),)
    return [UNIT]


def slice_val(E, st, v):
    cell, pr = E.target(v)
    return E.read(st, cell, pr)


@model("slice::swap")
def _sswap(E, st, fr, fi, fargs, args, bb, t):
    a, b = elem_ref(E, st, args[0], args[1]), elem_ref(E, st, args[0], args[2])
    x, y = E.read(st, a[1], a[2]), E.read(st, b[1], b[2])
    E.write(st, a[1], a[2], y)
    E.write(st, b[1], b[2], x)
    return [UNIT]


@model("Box::new")
def _boxnew(E, st, fr, fi, fargs, args, bb, t):
    E.uid += 1
    cell = ("box", E.uid)
    st.mem[cell] = args[0]
    return [("box", ("ref", cell, (), True))]


@model("hint::must_use")
def _mu(E, st, fr, fi, fargs, args, bb, t):
    return [args[0]]


@model("mem::size_of")
def _so(E, st, fr, fi, fargs, args, bb, t):
    sz = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "f64": 8, "usize": 8, "i64": 8,
          "bool": 1}.get(fargs[0][1] if fargs[0][0] == "prim" else "")
    if sz:
        return [c(sz)]
    return [("call", "size_of", (E.p.tystr(fargs[0]),))]


@model("AsPrimitive::as_")
def _as(E, st, fr, fi, fargs, args, bb, t):
    a, b = intty(fargs[0]), intty(fargs[1])
    if a and b:
        return [T.cast_int(args[0], a, b)]
    if fargs[0] == fargs[1]:
        return [args[0]]
    return [("cast", E.p.tystr(fargs[1]), E.p.tystr(fargs[0]), args[0])]


@model("Ord::clamp")
def _clamp(E, st, fr, fi, fargs, args, bb, t):
    return [("op", "Clamp", args[0], args[1], args[2])]


@model("str::eq_ignore_ascii_case")
def _eic(E, st, fr, fi, fargs, args, bb, t):
    a, b = E.strip(st, args[0]), E.strip(st, args[1])
    if a[0] == "s" and b[0] == "s":
        return [c(a[1].lower() == b[1].lower())]
    return [("op", "EqIgnoreCase", a, b)]


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _call(E, st, fr, fi, fargs, args, bb, t):
    if args[1][0] == "agg" and args[1][1] == "tuple":
        f = args[0]
        n = 0
        while f[0] == "ref" and n < 4:
            f = E.read(st, f[1], f[2])
            n += 1
        if f[0] in ("clo", "fn", "box"):
            return E.call_value(st, fr, f, list(args[1][3]), bb, t)
    return None
