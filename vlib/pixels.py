"""Arithmetic of the pixel component types, made visible to the term evaluator.

Generic pixel code computes through traits (`Mul::mul`, `Zero::zero`, `Bounded::max_value`, ...). Analysed with its
type parameters instantiated, `numeric` turns those calls into ordinary terms, so that an outcome of the analysis is a
formula of the channel values that can be evaluated and compared with the specification."""
import math
from vlib import spec, tables as tb, terms as T
from vlib.absint import Out, Undecided

ROLES = {"Luma": "l", "LumaA": "la", "Rgb": "rgb", "Rgba": "rgba"}
MAX = {"u8": 255, "u16": 65535, "f32": 1.0}
TYPES = ("u8", "u16", "f32")
BIN = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div", "Rem::rem": "Rem"}
CMP = {"PartialOrd::lt": "Lt", "PartialOrd::le": "Le", "PartialOrd::gt": "Gt", "PartialOrd::ge": "Ge", "PartialEq::eq": "Eq", "PartialEq::ne": "Ne"}
FLOATS = ("f32", "f64")
FMAX = {"f32": float.fromhex("0x1.fffffep+127"), "f64": float.fromhex("0x1.fffffffffffffp+1023")}


def num(ty, x):
    return ("f", float(x)) if ty in FLOATS else ("c", int(x))


def bare(E, st, v):
    v = E.deep(st, E.strip(st, v))
    while v[0] in ("rf", "deref"):
        v = v[1]
    return v


def numeric(E, st, fr, name, fi, fargs, args, site):
    ty = None
    if name == "Pixel::from_slice" and fargs and fargs[0][0] == "adt":
        return from_slice(E, st, fargs[0][1], args[0])
    if fargs:
        a = fargs[0]
        ty = a[1] if a[0] == "prim" else None
    if ty is None:
        return None
    val = lambda v: [Out(st, "ret", v)]
    if name == "Zero::zero" or name == "One::one":
        return val(num(ty, name == "One::one"))
    if name in ("Bounded::max_value", "Bounded::min_value"):
        up = name.endswith("max_value")
        if ty in FLOATS:
            return val(("f", FMAX[ty] if up else -FMAX[ty]))
        if ty in T.INT_TYPES:
            return val(("c", T.INT_TYPES[ty][1 if up else 0]))
    if name in BIN and len(args) == 2:
        a, b = bare(E, st, args[0]), bare(E, st, args[1])
        if ty in FLOATS:
            return val(("op", "f" + BIN[name], a, b))
        if ty in T.INT_TYPES:
            return int_op(E, st, fr, ty, BIN[name], a, b, site)
    if name.endswith("_assign") and name.split("::")[0] in ("AddAssign", "SubAssign", "MulAssign", "DivAssign") and args[0][0] == "ref":
        op = name.split("::")[0][:3]
        r = numeric(E, st, fr, "%s::%s" % (op, op.lower()), fi, fargs, args, site)
        if r is None:
            return None
        for o in r:
            if o.kind == "ret":
                E.write(o.st, args[0][1], args[0][2], o.val)
        return [Out(o.st, "ret", ("agg", "tuple", 0, ())) if o.kind == "ret" else o for o in r]
    if name.startswith("ToPrimitive::to_") and len(args) == 1:
        a = bare(E, st, args[0])
        to = name[len("ToPrimitive::to_"):]
        if to in FLOATS or to in T.INT_TYPES:
            # never fails for a wider or equal range
            if to in FLOATS or (ty in T.INT_TYPES and T.INT_TYPES[to][0] <= T.INT_TYPES[ty][0] and T.INT_TYPES[ty][1] <= T.INT_TYPES[to][1]):
                return val(some(cast(to, ty, a)))
            return val(("call", name, (a,)))
    if name == "NumCast::from" and len(fargs) == 2 and fargs[1][0] == "prim" and len(args) == 1:
        a, src = bare(E, st, args[0]), fargs[1][1]
        if ty in FLOATS or src in T.INT_TYPES and T.INT_TYPES[ty][0] <= T.INT_TYPES[src][0] and T.INT_TYPES[src][1] <= T.INT_TYPES[ty][1]:
            return val(some(cast(ty, src, a)))
        return val(("call", name, (a,), (ty, src)))
    return None


def formula(E, st, fr, name, fi, fargs, args, site):
    """like numeric, but follows only the paths on which no conversion fails, and keeps clamping in one term"""
    if name.endswith("::clamp") and not fi.get("trait") and len(args) == 3:
        a = [bare(E, st, x) for x in args]
        return [Out(st, "ret", ("call", "min", (("call", "max", (a[0], a[1])), a[2])))]
    if name == "Option::unwrap":
        a = E.strip(st, args[0])
        if a[0] == "call" and a[1].split("::")[0] in ("NumCast", "ToPrimitive"):
            return [Out(st, "ret", ("fld", a, 1, 0))]
    r = numeric(E, st, fr, name, fi, fargs, args, site)
    return r if r is None or len(r) == 1 else [o for o in r if o.kind == "ret"]


def from_slice(E, st, adt, v):
    """the reinterpreting cast from samples to a pixel (its own body is judged by C26)"""
    roles = ROLES.get(adt.split("::")[-1])
    lo, n = ("c", 0), None
    if v[0] == "sliceref":
        v, lo, n = v[1], v[2], v[3]
    if v[0] == "ref":
        v = E.read(st, v[1], v[2])
    if roles is None or v[0] != "agg" or v[1] != "array":
        return None
    lo, n = T.evalt(lo, {}), len(v[3]) if n is None else T.evalt(n, {})
    if lo is None or n is None:
        return None
    if n != len(roles):
        return [Out(st, "panic", None, ("from_slice of %d samples for %s" % (n, adt),))]
    base, have = v, n
    cell = ("px", len(st.mem))
    st.mem[cell] = ("agg", adt, 0, (("agg", "array", 0, base[3][lo:lo + have]),))
    return [Out(st, "ret", ("ref", cell, (), False))]


def cast(to, frm, a):
    if to in FLOATS:
        return num(to, a[1]) if a[0] in "cf" else a if frm == to else ("cast", to, frm, a)
    return T.cast_int(a, frm, to)


def some(v):
    from vlib.absint import OPTION
    return ("agg", OPTION, 1, (v,))


def int_op(E, st, fr, ty, op, a, b, site):
    """exact result where it fits; where it does not, the operation panics (or wraps: a defect either way)"""
    if op in ("Div", "Rem"):
        return [Out(st, "ret", ("op", op, a, b))] if b[0] == "c" and b[1] else None
    v = T.binop(op, a, b, ty)
    r = E.rng(v)
    if r is not None and T.INT_TYPES[ty][0] <= r[0] and r[1] <= T.INT_TYPES[ty][1]:
        return [Out(st, "ret", v)]
    t = ("fits", ty, v)
    s, s2 = st.fork(), st.fork()
    s.facts = s.facts + ((t, True),)
    s2.facts = s2.facts + ((t, False),)
    return [Out(s, "ret", v), Out(s2, "panic", None, ("overflow", op, site[2], fr.it["path"]))]


def pixel(p, kind, names=None, prefix="", ty=None):
    """an aggregate pixel whose channels are symbols named after their roles"""
    roles = ROLES[kind]
    return ("agg", tb.find_adt(p, kind), 0, (("agg", "array", 0, tuple(sym(prefix + r, ty) for r in (names or roles))),))


def sym(name, ty=None):
    return ("sym", name, T.INT_TYPES[ty]) if ty in T.INT_TYPES else ("sym", name)


def channels(v):
    while v[0] in ("rf", "deref"):
        v = v[1]
    if v[0] == "agg" and len(v[3]) == 1 and v[3][0][0] == "agg" and v[3][0][1] == "array":
        return v[3][0][3]
    return None


def component(x, s, t):
    """the value of a channel in another component type"""
    if s == t:
        return x
    if s == "f32":
        x = 1.0 if x > 1 else x if x > 0 else 0.0
        return int(math.floor(x * MAX[t] + 0.5))
    if t == "f32":
        return x / MAX[s]
    return x * 257 if t == "u16" else (x + 128) // 257


def luma(r, g, b, s):
    v = (2126 * r + 7152 * g + 722 * b) / 10000
    return v if s == "f32" else int(v + 1e-9)


def converted(src, dst, s, t, v):
    """channel values of the converted pixel; v: {role: value}"""
    if "l" in dst:
        l = v["l"] if "l" in v else luma(v["r"], v["g"], v["b"], s)
        out = [component(l, s, t)]
    else:
        out = [component(v["l"] if "l" in v else v[c], s, t) for c in "rgb"]
    if "a" in dst:
        out.append(component(v["a"], s, t) if "a" in v else MAX[t])
    return out


def near(x, y, t):
    if t == "f32":
        return abs(x - y) <= 1e-5 * max(1.0, abs(y))
    return x == y


VALS = {"u8": (0, 1, 97, 127, 128, 200, 254, 255), "u16": (0, 1, 127, 128, 129, 300, 385, 386, 32767, 40000, 65407, 65535),
        "f32": (0.0, 0.001, 0.25, 0.3, 0.7, 1.0, -0.5, 1.75)}



def values(s, roles):
    """channel values, no two roles alike"""
    v = VALS[s]
    n = len(v)
    for k in range(n):
        yield {r: v[(k + 3 * i + (i > 1)) % n] for i, r in enumerate(roles)}
    for r in roles:
        yield {x: v[-3] if x == r else v[0] for x in roles}
        yield {x: v[0] if x == r else v[-3] for x in roles}


def compare(ck, rule, inst, c, final, grid, want, t, names, what=""):
    """final(o) -> channel terms; want(vs) -> expected channels"""
    n = 0
    for vs in grid:
        env = {names[r]: x for r, x in vs.items()}
        w = want(vs)
        got = c.at(env)
        if not got:
            raise Undecided("no outcome covers %s" % spec.names(env))
        for o, u in got:
            if o.kind != "ret":
                if u:
                    raise Undecided("panic not excluded at %s: %s" % (spec.names(env), o.why))
                ck.bad(rule, inst, "%s: %spanics for %s (%s)" % (c.where(), what, spec.names(env), o.why))
                return False
            ch = final(o)
            if ch is None or len(ch) != len(w):
                raise Undecided("result %s" % T.show(o.val)[:150])
            for k, (x, y) in enumerate(zip(ch, w)):
                g = T.evalt(x, env)
                if g is None or isinstance(g, tuple):
                    raise Undecided("channel %d is %s" % (k, T.show(x)[:200]))
                if u:
                    raise Undecided("not determined: %s" % T.show(u[0])[:150])
                if not close(g, y, t):
                    ck.bad(rule, inst, "%s: %sfor %s channel %d becomes %s, where it must be %s" % (
                    c.where(), what, spec.names(env), k, g, " or ".join(map(str, sorted(y))) if isinstance(y, set) else y))
                    return False
            n += 1
    if not n:
        raise Undecided("nothing evaluated")
    return n


def expected(sn, dn, s, t, v):
    """luma is rounded or truncated: both neighbours are admitted, in the source's component type"""
    src, dst = ROLES[sn], ROLES[dn]
    w = converted(src, dst, s, t, v)
    if "l" in dst and "l" not in src and s != "f32":
        x = (2126 * v["r"] + 7152 * v["g"] + 722 * v["b"]) / 10000
        w[0] = {component(int(x + 1e-9), s, t), component(-int(-x // 1), s, t)}
    return w


def close(g, y, t):
    if isinstance(y, set):
        return any(near(g, z, t) for z in y)
    return near(g, y, t)
