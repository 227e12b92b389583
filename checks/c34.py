"""C34: colour adjustments compute what they document, within the range of the samples."""
import math
from checks import c17
from vlib import pixels as px, tables as tb, trace, terms as T
from vlib.absint import State, Undecided

SIZES = [(3, 4), (5, 1)]
AMOUNTS = {"invert": (None,), "brighten": (-2**31, -300, -7, 0, 1, 60, 700, 70000, 2**31 - 1),
           "contrast": (-100.0, -60.0, -1.0, 0.0, 35.0, 400.0), "huerotate": (0, 360, -360, 720, 90, 120, 200, -30, 7)}
RULES = {"invert": "inverting replaces every colour sample of every pixel by maximum minus value",
         "brighten": "brightening adds the amount to every colour sample and saturates at the range of the sample type, for every amount",
         "contrast": "contrast keeps samples within range, moves them away from the middle for positive and towards it for negative amounts, never reorders them",
         "huerotate": "hue rotation is the CSS hue-rotate matrix clamped to the range of the sample type; multiples of a full turn change nothing"}


def run(ck):
    for op, t in RULES.items():
        ck.rule(op, t + "; the allocating and the in-place variant alike", 3 if op == "invert" else 6)
    ck.rule("place", "every pixel of the result is computed from the pixel at the same place", 4)
    C = c17.Ctx(ck)
    for op in AMOUNTS:
        for f in ck.p.fns():
            if f["path"] in ("imageops::colorops::" + op, "imageops::colorops::" + op + "_in_place"):
                placed = []
                for t in px.TYPES:
                    ck.each(op, "%s %s" % (f["name"], t), lambda: adjust(C, f, op, t, placed))
                if placed:
                    ck.ok("place", f["name"], "%d pixels" % sum(placed))


def values(t):
    if t == "f32":
        return (0.0, 0.25, 0.3, 0.7, 1.0, 0.5, 0.001, 0.999)
    return px.VALS[t]


def adjust(C, f, op, t, placed):
    n = 0
    for kind in px.ROLES:
        P = ("adt", C.adts[kind], (("prim", t),))
        I = ("adt", C.buf, (P, ("adt", "std::vec::Vec", (("prim", t), ("adt", "std::alloc::Global", ())))))
        by = {"I": I, "P": P, "S": ("prim", t)}
        if any(g[1] not in by for g in f["generics"]):
            raise Undecided("type parameters %s" % f["generics"])
        E = trace.Tracer(C.p, unroll=8)
        E.extra_hook = px.formula
        E.shapes = {k: (C.adts[kind], len(px.ROLES[kind])) for k in ("src", "new1")}
        st = State()
        st.mem[("arg", "src")] = E.image("src")
        amount = ("sym", "amount")
        vals = [("ref", ("arg", "src"), (), True), amount][:f["body"]["argc"]]
        outs = E.run(f, vals, st=st, subst={g[0]: by[g[1]] for g in f["generics"]})
        E.npaths = len(outs)
        C.ck.saw(E)
        S = trace.Summary(E, outs)
        roles = px.ROLES[kind]
        V = values(t)
        where = "%s (%s)" % (f["path"], C.p.loc_of_item(f))
        for w, h in SIZES:
            for a in AMOUNTS[op]:
                src = {(x, y): (tuple(V[(3 * x + 5 * y + 2 * i + 1 + (r == "a")) % len(V)] for i, r in enumerate(roles)),)
                       for x in range(w) for y in range(h)}
                env = {("sym", "src.w", (0, 2**32 - 1)): w, ("sym", "src.h", (0, 2**32 - 1)): h, amount: a}
                r = trace.Run(S, env, {"src": src}).go()
                e = result(r, f, op, src, roles, t, a)
                if e:
                    what, rule = e
                    return C.ck.bad(rule, "%s %s" % (f["name"], t) if rule == op else f["name"], "%s: on a %s<%s> image%s: %s" % (
                        where, kind, t, "" if a is None else " by %s" % a, what))
                n += len(src)
    placed.append(n)
    C.ck.ok(op, "%s %s" % (f["name"], t), "%d pixels" % n)


def result(r, f, op, src, roles, t, a):
    if r.fault:
        return "%s of %s at (%s, %s) of %s" % r.fault, "place"
    if r.out is None:
        raise Undecided("no end reached")
    if r.out.kind != "ret":
        return "panics: %s" % (r.out.why,), op
    dst = r.out.val[1] if r.out.val and r.out.val[0] == "img" else "src"
    if (dst == "src") != f["name"].endswith("in_place") and f["name"] != "invert":
        raise Undecided("result %s" % (r.out.val,))
    if dst != "src" and r.size.get(dst) != r.size.get("src"):
        return "the result is %s instead of %s" % (r.size.get(dst), r.size.get("src")), "place"
    got = {}
    for q in src:
        g = r.img[dst].get(q)
        if g == "zero":
            return "pixel (%d, %d) of the result is left blank" % q, "place"
        if not isinstance(g, tuple) or not g or isinstance(g[0], str):
            raise Undecided("pixel becomes %s" % (T.show(g)[:150] if isinstance(g, tuple) else g))
        got[q] = g[0]
    wrong = {q: e for q, e in ((q, pixel(op, src[q][0], got[q], roles, t, a)) for q in src) if e}
    if wrong:
        # computed from another pixel of the image?
        if len(wrong) > 1 and op == "invert" and all(any(not pixel(op, s[0], got[q], roles, t, a) for s in src.values()) for q in wrong):
            q = min(wrong)
            return "pixel (%d, %d) is not computed from the pixel at its place" % q, "place"
        q = min(wrong)
        return "pixel (%d, %d) %s" % (q + (wrong[q],)), op
    if op == "contrast":
        seen = sorted((s, g) for q in src for s, g, c in zip(src[q][0], got[q], roles) if c != "a")
        for (s0, g0), (s1, g1) in zip(seen, seen[1:]):
            if g1 < g0 and not near(g1, g0, t) or s0 == s1 and not near(g0, g1, t):
                return "samples %s and %s become %s and %s" % (s0, s1, g0, g1), op
    return None


def near(x, y, t, slack=0):
    return abs(x - y) <= (1e-4 * max(1.0, abs(y)) if t == "f32" else slack)


def pixel(op, s, g, roles, t, a):
    """None, or what is wrong with pixel g computed from s"""
    M = px.MAX[t]
    if len(g) != len(s):
        raise Undecided("pixel of %d channels" % len(g))
    for i, c in enumerate(roles):
        if c == "a":
            continue        # C17
        x = g[i]
        if not isinstance(x, (int, float)) or isinstance(x, bool):
            raise Undecided("sample %s" % (x,))
        # hue rotation documents no upper limit for floating-point samples
        if not (0 <= x <= M or op == "huerotate" and t == "f32" and x > 0 or near(x, min(max(x, 0), M), t)):
            return "sample %s becomes %s, outside the range of the samples" % (s[i], x)
        if op in ("invert", "brighten"):
            w = M - s[i] if op == "invert" else min(max(s[i] + a, 0), M)
            if not near(x, w, t):
                return "sample %s becomes %s instead of %s" % (s[i], x, w)
        elif op == "contrast":
            d0, d1 = s[i] - M / 2, x - M / 2
            one = 1e-4 if t == "f32" else 1
            if a == 0 and abs(x - s[i]) > one:
                return "sample %s becomes %s" % (s[i], x)
            if a == -100.0 and abs(d1) > one:
                return "sample %s becomes %s, not the middle" % (s[i], x)
            if a > 0 and abs(d1) < abs(d0) - one or a < 0 and abs(d1) > abs(d0) + one or d0 * d1 < 0 and abs(d1) > one:
                return "sample %s becomes %s" % (s[i], x)
    if op == "huerotate":
        rgb = s[:3]
        if len(roles) < 3 or a % 360 == 0:
            want, slack = s, 0
        else:
            m = css(a)
            want, slack = [max(sum(k * v for k, v in zip(row, rgb)), 0) for row in m], 1
            if t != "f32":
                want = [min(v, M) for v in want]
        for i, c in enumerate(roles):
            if c != "a" and not (near(g[i], want[i], t, slack) or t == "f32" and near(g[i], min(want[i], M), t)):
                return "%s becomes %s instead of %s" % (tuple(rgb[:len(roles)]), tuple(g[:3]), tuple(round(v, 3) for v in want[:3]))
    return None


def css(deg):
    """the hueRotate colour matrix of CSS filter effects"""
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    L = (0.213, 0.715, 0.072)
    A = ((0.787, -0.715, -0.072), (-0.213, 0.285, -0.072), (-0.213, -0.715, 0.928))
    B = ((-0.213, -0.715, 0.928), (0.143, 0.140, -0.283), (-0.787, 0.715, 0.072))
    return [[L[j] + c * A[i][j] + s * B[i][j] for j in range(3)] for i in range(3)]
