"""Term domain: hash-consable tuples with light normalisation.

Integers are kept as polynomials over atoms (exact arithmetic: the overflow-checked paths are the
ones followed), so that x*w+y and y+w*x are one value; everything else is syntactic."""
import math
import struct

INT_TYPES = {"u8": (0, 2**8-1), "u16": (0, 2**16-1), "u32": (0, 2**32-1), "u64": (0, 2**64-1),
             "usize": (0, 2**64-1), "u128": (0, 2**128-1),
             "i8": (-2**7, 2**7-1), "i16": (-2**15, 2**15-1), "i32": (-2**31, 2**31-1),
             "i64": (-2**63, 2**63-1), "isize": (-2**63, 2**63-1), "i128": (-2**127, 2**127-1)}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32,
        "i64": 64, "isize": 64, "i128": 128}


def c(v):
    return ("c", v)


TRUE, FALSE = ("c", True), ("c", False)
UNIT = ("agg", "tuple", 0, ())


def isc(t):
    return t[0] == "c"


def key(t):
    return repr(t)


_keys = {}


def skey(t):
    k = _keys.get(t)
    if k is None:
        k = _keys[t] = repr(t)
    return k


def to_poly(t):
    """-> dict monomial(tuple of atoms sorted)->coeff"""
    if t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return {(): t[1]} if t[1] else {}
    if t[0] == "poly":
        return dict(t[1])
    return {(t,): 1}


def from_poly(p):
    p = {m: k for m, k in p.items() if k}
    if not p:
        return ("c", 0)
    if len(p) == 1:
        (m, k), = p.items()
        if m == ():
            return ("c", k)
        if k == 1 and len(m) == 1:
            return m[0]
    return ("poly", tuple(sorted(p.items(), key=lambda x: (len(x[0]), [skey(a) for a in x[0]]))))


def add(a, b):
    p = to_poly(a)
    for m, k in to_poly(b).items():
        p[m] = p.get(m, 0) + k
    return from_poly(p)


def neg(a):
    return from_poly({m: -k for m, k in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 64:
        return ("op", "Mul", a, b)
    p = {}
    for m1, k1 in pa.items():
        for m2, k2 in pb.items():
            m = tuple(sorted(m1 + m2, key=skey))
            p[m] = p.get(m, 0) + k1 * k2
    return from_poly(p)


def not_(t):
    if t[0] == "c":
        return c(not t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def eq(a, b):
    if a == b:
        return TRUE
    if isc(a) and isc(b):
        return c(a[1] == b[1])
    if a[0] == "s" and b[0] == "s":
        return c(a[1] == b[1])
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        if len(a[3]) == len(b[3]):
            r = TRUE
            for x, y in zip(a[3], b[3]):
                e = eq(x, y)
                if e == FALSE:
                    return FALSE
                if e != TRUE:
                    r = ("op", "Eq") + tuple(sorted((a, b), key=skey))
            return r
    if a[0] == "agg" and b[0] == "agg" and a[1] != b[1] and "array" in (a[1], b[1]):
        pass
    # linear: constant difference decides
    d = sub(a, b) if _arith(a) or _arith(b) else None
    if d is not None and isc(d):
        return c(d[1] == 0)
    x, y = sorted((a, b), key=skey)
    return ("op", "Eq", x, y)


def _arith(t):
    return t[0] == "poly" or (t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool))


def lt(a, b):
    if isc(a) and isc(b):
        return c(a[1] < b[1])
    if a == b:
        return FALSE
    if _arith(a) or _arith(b):
        d = sub(a, b)
        if isc(d):
            return c(d[1] < 0)
    return ("op", "Lt", a, b)


def binop(op, a, b, ty):
    """ty: primitive type name of the operands (or None)."""
    isint = ty in INT_TYPES
    if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
        o = op.replace("Unchecked", "")
        if isint:
            return {"Add": add, "Sub": sub, "Mul": mul}[o](a, b)
        if o in ("Add", "Mul"):
            a, b = sorted((a, b), key=skey)
        return ("op", "f" + o, a, b)
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return not_(eq(a, b))
    if op in ("Lt", "Gt", "Le", "Ge"):
        if isint or ty in ("char", "bool") or ty is None:
            if op == "Lt":
                return lt(a, b)
            if op == "Gt":
                return lt(b, a)
            if op == "Ge":
                return not_(lt(a, b))
            return not_(lt(b, a))
        return ("op", "f" + op, a, b)
    if isc(a) and isc(b) and isinstance(a[1], int) and isinstance(b[1], int):
        x, y = a[1], b[1]
        try:
            if op == "Div":
                q = abs(x) // abs(y)
                return c(q if (x < 0) == (y < 0) else -q)
            if op == "Rem":
                r = abs(x) % abs(y)
                return c(r if x >= 0 else -r)
            if op == "BitAnd":
                return c(x & y)
            if op == "BitOr":
                return c(x | y)
            if op == "BitXor":
                return c(x ^ y)
            if op in ("Shl", "ShlUnchecked") and isint:
                v = (x << y) & (2**BITS[ty] - 1)
                if INT_TYPES[ty][0] < 0 and v > INT_TYPES[ty][1]:
                    v -= 2**BITS[ty]
                return c(v)
            if op in ("Shr", "ShrUnchecked"):
                return c(x >> y)
        except ZeroDivisionError:
            pass
    if op == "Div" and isint:
        if b == ("c", 1):
            return a
        # exact division of polynomials by a constant or an atom
        p = to_poly(a)
        if isc(b) and b[1] and p and all(k % b[1] == 0 for k in p.values()):
            return from_poly({m: k // b[1] for m, k in p.items()})
        if not isc(b) and b[0] != "poly" and p and all(b in m for m in p):
            r = {}
            for m, k in p.items():
                l = list(m)
                l.remove(b)
                r[tuple(l)] = k
            return from_poly(r)
    if op == "Rem" and isint:
        p = to_poly(a)
        if isc(b) and b[1] and all(k % b[1] == 0 for k in p.values()):
            return c(0)
        if not isc(b) and b[0] != "poly" and p and all(b in m for m in p):
            return c(0)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if op == "BitAnd" and (a == FALSE or b == FALSE):
            return FALSE
        if op == "BitOr" and (a == TRUE or b == TRUE):
            return TRUE
        if op == "BitAnd" and a == TRUE or op == "BitOr" and a == FALSE:
            return b
        if op == "BitAnd" and b == TRUE or op == "BitOr" and b == FALSE:
            return a
        a, b = sorted((a, b), key=skey)
    return ("op", op, a, b)


def cast_int(t, frm, to):
    """Widening is transparent; narrowing of non-constants is explicit."""
    if isc(t):
        v = t[1]
        if isinstance(v, bool):
            v = int(v)
        lo, hi = INT_TYPES[to]
        if lo <= v <= hi:
            return c(v)
        v &= 2**BITS[to] - 1
        if lo < 0 and v > hi:
            v -= 2**BITS[to]
        return c(v)
    if frm in INT_TYPES and to in INT_TYPES:
        a, b = INT_TYPES[frm], INT_TYPES[to]
        if b[0] <= a[0] and a[1] <= b[1]:
            return t
    return ("cast", to, frm, t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x)
    return seen


def contains(t, s):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x == s:
            return True
        if isinstance(x, tuple):
            i = id(x)
            if i in seen:
                continue
            seen.add(i)
            st.extend(x)
    return False


def show(t, depth=0):
    try:
        return _show(t, depth)
    except (TypeError, IndexError):
        return repr(t)[:200]


def _show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 9:
        return "…"
    d = depth + 1
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "sym":
        return str(t[1])
    if k == "poly":
        out = []
        for m, co in t[1]:
            f = [show(a, d) for a in m]
            if co != 1 or not f:
                f = [str(co)] + f
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")"
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x, d) for x in t[2:]))
    if k == "not":
        return "!" + show(t[1], d)
    if k == "fld":
        return "%s.%s%s" % (show(t[1], d), ("v%s." % t[2]) if t[2] is not None else "", t[3])
    if k == "deref":
        return "*" + show(t[1], d)
    if k == "agg" and len(t[3]) > 12:
        return "%s#[%d]" % (str(t[1]).split("::")[-1], len(t[3]))
    if k == "agg":
        return "%s#%s(%s)" % (str(t[1]).split("::")[-1], t[2], ", ".join(show(x, d) for x in t[3]))
    if k == "ref":
        return "&%s%s" % (show(t[1], d), "".join("." + show(p, d) for p in t[2]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x, d) for x in t[2]))
    if k == "cast":
        return "(%s as %s)" % (show(t[3], d), t[1])
    if k == "obj":
        return "@" + show(t[1], d)
    return "(" + " ".join(show(x, d) for x in t) + ")"


def evalt(t, env, memo=None):
    """Value of an integer/boolean term under an assignment of (sub)terms; None if not determined."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t in env:
        return env[t]
    r = _evalt(t, env, memo)
    memo[t] = r
    return r


def _tr(q, a, b):
    r = abs(a) // abs(b)
    r = r if (a < 0) == (b < 0) else -r
    return r if q else a - b * r


class F32(float):
    """a single-precision value: what is computed with it is rounded to single precision again"""


def f32(x):
    try:
        return F32(struct.unpack("f", struct.pack("f", x))[0])
    except OverflowError:
        return F32(math.copysign(float("inf"), x))


def _float_op(o, a, b):
    """IEEE arithmetic, in single precision where an operand is known to be of it"""
    v = _float_op64(o, a, b)
    return f32(v) if isinstance(v, float) and (isinstance(a, F32) or isinstance(b, F32)) else v


def _float_op64(o, a, b):
    o = o[1:] if o[0] == "f" else o
    if o in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne"):
        return {"Eq": a == b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Ne": a != b}[o]
    a, b = float(a), float(b)
    if o == "Div":
        return a / b if b else float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * math.copysign(1, b)
    if o == "Rem":
        return math.fmod(a, b) if b else float("nan")
    f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}.get(o)
    return f() if f else None


def _round(x):
    return math.copysign(math.floor(abs(x) + 0.5), x)


_FLOAT = {"round": _round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs, "sqrt": math.sqrt, "sin": math.sin,
          "cos": math.cos, "exp": math.exp, "to_radians": math.radians, "ln": math.log}


def _int_call(n, a, lo, hi):
    """an integer helper of the standard library at given arguments; None where it panics or is not known"""
    x, y = a[0], a[1] if len(a) > 1 else None
    r = None
    if n == "abs_diff":
        return abs(x - y)
    if n in ("abs", "unsigned_abs"):
        r = abs(x)
        return r if n != "abs" or r <= hi else None
    if n in ("rem_euclid", "checked_rem_euclid") and y:
        r = x % abs(y)
    elif n in ("div_euclid", "checked_div_euclid") and y:
        r = (x - x % abs(y)) // y
    elif n == "next_multiple_of" and y and y > 0:
        r = -(-x // y) * y
    elif n == "div_ceil" and y:
        r = -(-x // y)
    elif n == "is_multiple_of":
        return x == 0 if y == 0 else x % y == 0
    elif n in ("pow", "saturating_pow", "checked_pow") and y is not None and 0 <= y <= 128:
        r = x ** y
        if n == "saturating_pow":
            r = max(lo, min(hi, r))
    elif n == "is_power_of_two":
        return x > 0 and x & (x - 1) == 0
    elif n == "signum":
        return (x > 0) - (x < 0)
    elif n == "count_ones" and x >= 0:
        return bin(x).count("1")
    elif n == "leading_zeros" and x >= 0 and lo == 0:
        return hi.bit_length() - x.bit_length()
    elif n == "trailing_zeros" and lo == 0:
        return hi.bit_length() if x == 0 else (x & -x).bit_length() - 1
    elif n in ("ilog2",) and x > 0:
        return x.bit_length() - 1
    elif n == "isqrt" and x >= 0:
        return math.isqrt(x)
    elif n in ("checked_div", "checked_rem"):
        if y == 0:
            return ("None",)
        r = _tr(n == "checked_div", x, y)
    if n.startswith("checked_"):
        return None if r is None else ("Some", r) if lo <= r <= hi else ("None",)
    return r if r is not None and lo <= r <= hi else None


# samples in memory are those of a little-endian machine
_FROM_BYTES = {"from_ne_bytes": "little", "from_le_bytes": "little", "from_be_bytes": "big"}


def _num_call(t, a):
    """conversions between number types and functions of floats; an Option is ("Some", x) or ("None",)"""
    n = t[1].split("::")[-1]
    if None in a or not a or any(isinstance(x, tuple) for x in a):
        return None
    x = a[0]
    to = None
    if t[1] == "NumCast::from" and len(t) > 3 and t[3]:
        to = t[3][0]
    elif n.startswith("to_") and t[1].startswith("ToPrimitive::"):
        to = n[3:]
    elif n.startswith("from_") and t[1].startswith("FromPrimitive::") and len(t) > 3 and t[3]:
        to = t[3][0]
    if to in ("f32", "f64"):
        return ("Some", f32(x) if to == "f32" else float(x))
    if to in INT_TYPES:
        if isinstance(x, float):
            if x != x or math.isinf(x):
                return ("None",)
            x = int(x)
        lo, hi = INT_TYPES[to]
        return ("Some", x) if lo <= x <= hi else ("None",)
    ty = t[1].split("::")[0]
    if ty in INT_TYPES and all(isinstance(y, int) and not isinstance(y, bool) for y in a):
        return _int_call(n, a, *INT_TYPES[ty])
    if not isinstance(x, float):
        return None
    if n == "mul_add" and len(a) == 3:
        return (f32 if isinstance(x, F32) else float)(x * a[1] + a[2])
    if n in _FLOAT and len(a) == 1:
        try:
            return x if x != x or math.isinf(x) else (f32 if isinstance(x, F32) else float)(_FLOAT[n](x))
        except ValueError:
            return float("nan")
    if n in ("max", "min") and len(a) == 2:
        if x != x or a[1] != a[1]:
            return a[1] if x != x else x
        return max(a) if n == "max" else min(a)
    if n == "clamp" and len(a) == 3:
        return x if x != x else a[1] if x < a[1] else a[2] if x > a[2] else x
    if n in ("powi", "powf") and len(a) == 2:
        try:
            return float(x ** a[1])
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
    if n == "is_nan":
        return x != x
    return None


def _evalt(t, env, memo):
    k = t[0]
    ev = lambda x: evalt(x, env, memo)
    if k == "c":
        return t[1]
    if k == "f":
        return float(t[1])
    if k == "poly":
        s = 0
        for m, co in t[1]:
            v = co
            for a in m:
                x = ev(a)
                if x is None or isinstance(x, tuple):
                    return None
                v *= x
            s += v
        return s
    if k == "not":
        v = ev(t[1])
        return None if v is None else not v
    if k == "agg":
        v = tuple(ev(x) for x in t[3])
        return None if None in v else v
    if k in ("over", "upd"):
        v = ev(t[1])
        if not isinstance(v, tuple) or v and isinstance(v[0], str):
            return None
        for i, x in t[2] if k == "over" else (((None, None, ev(t[2])), t[3]),):
            x, i = ev(x), i[2] if isinstance(i, tuple) and len(i) == 3 else None
            if x is None or not isinstance(i, int) or not 0 <= i < len(v):
                return None
            v = v[:i] + (x,) + v[i + 1:]
        return v
    if k == "fld" and len(t) == 4 and t[2] == 1 and t[1][0] in ("call", "phi"):
        v = ev(t[1])
        return v[1] if isinstance(v, tuple) and v[:1] == ("Some",) else None
    if k == "discr":
        v = ev(t[1])
        if isinstance(v, tuple) and v and v[0] == "enum":
            return v[1]
        return {"Some": 1, "None": 0}.get(v[0]) if isinstance(v, tuple) and v and isinstance(v[0], str) else None
    if k == "fld" and len(t) == 4 and t[2] is None:
        v = ev(t[1])
        return v[t[3]] if isinstance(v, tuple) and t[3] < len(v) else None
    if k == "sliceref" and len(t) == 4:
        # the samples of a slice whose content is known
        v, a, n = ev(t[1]), ev(t[2]), ev(t[3])
        if not isinstance(v, tuple) or a is None or n is None or not 0 <= a <= a + n <= len(v):
            return None
        return v[a:a + n]
    if k == "call" and t[1].split("::")[-1] in _FROM_BYTES and t[1].split("::")[0] in INT_TYPES and len(t[2]) == 1:
        v = ev(t[2][0])
        if not isinstance(v, tuple) or not all(isinstance(x, int) and 0 <= x < 256 for x in v):
            return None
        return int.from_bytes(bytes(v), _FROM_BYTES[t[1].split("::")[-1]], signed=t[1][0] == "i")
    if k == "idx" and t[1][0] == "upds":
        # an array part of which was overwritten
        u, i = t[1], ev(t[2])
        lo, n = ev(u[2]), ev(u[3])
        if i is None or lo is None or n is None:
            return None
        return ev(("idx", u[4], c(i - lo)) if lo <= i < lo + n else ("idx", u[1], t[2]))
    if k == "idx" and t[1][0] == "agg":
        i = ev(t[2])
        return ev(t[1][3][i]) if isinstance(i, int) and 0 <= i < len(t[1][3]) else None
    if k == "idx":
        v, i = ev(t[1]), ev(t[2])
        return v[i] if isinstance(v, tuple) and isinstance(i, int) and i < len(v) else None
    if k == "post" and t[1][0] == "call" and t[1][1] in ("slice::sort", "slice::sort_unstable"):
        v = ev(t[1][2][0])
        return tuple(sorted(v)) if isinstance(v, tuple) else None
    if k == "rf" and len(t) == 2:
        return ev(t[1])
    if k == "iter":
        a, b = ev(t[1]), ev(t[2])
        return None if a is None or b is None else a < b
    if k == "cast":
        v = ev(t[3])
        if v is None or isinstance(v, tuple):
            return None
        if t[1] in ("f32", "f64"):
            return f32(v) if t[1] == "f32" else float(v)
        if t[1] not in INT_TYPES:
            return None
        if isinstance(v, float):
            lo, hi = INT_TYPES[t[1]]
            return 0 if v != v else hi if v >= hi else lo if v <= lo else int(v)
        return cast_int(("c", v), None, t[1])[1]
    if k == "fits":
        v = ev(t[2])
        return None if v is None or isinstance(v, float) else INT_TYPES[t[1]][0] <= v <= INT_TYPES[t[1]][1]
    if k == "ovf":
        v = ev(t[3])
        if v is None or isinstance(v, float):
            return None
        lo, hi = INT_TYPES[t[2]]
        return not lo <= v <= hi
    if k in ("sat", "wrap"):
        a, b = ev(t[3]), ev(t[4])
        if a is None or b is None:
            return None
        v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}.get(t[1], lambda: None)()
        if v is None:
            return None
        lo, hi = INT_TYPES[t[2]]
        if k == "sat":
            return min(max(v, lo), hi)
        return cast_int(("c", v), None, t[2])[1]
    if k == "op" and t[1] == "Clamp" and len(t) == 5:
        a, lo, hi = ev(t[2]), ev(t[3]), ev(t[4])
        return None if a is None or lo is None or hi is None else min(max(a, lo), hi)
    if k == "op" and len(t) == 4:
        a, b = ev(t[2]), ev(t[3])
        if t[1] == "BitAnd" and (a is False or b is False):
            return False
        if t[1] == "BitOr" and (a is True or b is True):
            return True
        if a is None or b is None:
            return None
        try:
            if isinstance(a, float) or isinstance(b, float):
                return _float_op(t[1], a, b)
            f = {"Div": lambda: _tr(True, a, b), "Rem": lambda: _tr(False, a, b), "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                 "BitXor": lambda: a ^ b, "Shr": lambda: a >> b, "Shl": lambda: a << b, "ShrUnchecked": lambda: a >> b,
                 "ShlUnchecked": lambda: a << b, "Eq": lambda: a == b, "Lt": lambda: a < b, "Le": lambda: a <= b,
                 "Min": lambda: min(a, b), "Max": lambda: max(a, b), "StepCount": lambda: -(-a // b) if b > 0 else None}.get(t[1])
            return f() if f else None
        except (ZeroDivisionError, TypeError, ValueError):
            return None
    if k == "op" and t[1] == "ChunkCount":
        a, b = ev(t[2]), ev(t[3])
        return None if a is None or not b else (a // b if t[4] == "chunks_exact" else -(-a // b))
    if k == "op" and t[1] == "ChunkLen":
        a, b, n = ev(t[2]), ev(t[3]), ev(t[4])
        return None if a is None or not b or n is None else min(b, n - a * b)
    if k == "op" and t[1] == "fNeg" or k == "neg":
        v = ev(t[2] if k == "op" else t[1])
        return None if v is None or isinstance(v, tuple) else -v
    if k == "call" and (t[1].startswith(("f32::", "f64::", "Float::", "NumCast::", "ToPrimitive::", "FromPrimitive::"))
                        or t[1].split("::")[0] in INT_TYPES):
        r = _num_call(t, [ev(x) for x in t[2]])
        if r is not None:
            return r
    if k == "call" and t[1].split("::")[-1] in ("min", "max") and len(t[2]) == 2:
        a, b = ev(t[2][0]), ev(t[2][1])
        return None if a is None or b is None else (min if t[1].endswith("min") else max)(a, b)
    return None


def differs(t, want, grid):
    """A point of the grid (list of assignments) at which term t does not have the value want(env);
    None if they agree wherever t is determined, 'unknown' if t is determined nowhere."""
    det = 0
    for env in grid:
        v = evalt(t, env)
        if v is None:
            continue
        det += 1
        if v != want(env):
            return env
    return None if det else "unknown"
