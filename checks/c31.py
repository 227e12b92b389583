"""C31: blending a pixel over another is source-over compositing.

The blend function of every pixel type is executed symbolically for every component type; its outcomes, formulas of the channel
values, are evaluated for combinations of channel values that include transparent, opaque and nearly opaque ones."""
from checks import c17
from vlib import pixels as px, spec, terms as T
from vlib.absint import Out, Undecided

ALPHA = {"u8": (0, 1, 11, 43, 128, 132, 144, 200, 254, 255), "u16": (0, 1, 255, 300, 385, 20000, 32768, 40001, 65534, 65535),
         "f32": (0.0, 0.001, 0.25, 0.3, 0.5, 0.7, 1.0)}
COLOUR = {"u8": ((0, 3), (3, 255), (255, 77), (128, 254)), "u16": ((0, 3), (3, 65535), (65535, 19789), (32768, 65534)),
          "f32": ((0.0, 0.01), (0.3, 1.0), (1.0, 0.25))}


def run(ck):
    ck.rule("over", "blending leaves the background alone under a transparent pixel, replaces it by an opaque one and mixes them by source-over otherwise", 4)
    C = c17.Ctx(ck)
    for kind in px.ROLES:
        ck.each("over", kind, over, ck, C, kind)


def hook(E, st, fr, name, fi, fargs, args, site):
    if name == "Zero::is_zero" and fargs and fargs[0][0] == "prim":
        return [Out(st, "ret", T.eq(px.bare(E, st, args[0]), px.num(fargs[0][1], 0)))]
    return px.formula(E, st, fr, name, fi, fargs, args, site)


def over(ck, C, kind):
    it, s = C.method(kind, "blend")
    roles = px.ROLES[kind]
    n = 0
    for t in px.TYPES:
        mem = {("o",): px.pixel(C.p, kind, prefix="over ", ty=t)}
        cs = spec.Case(ck, it, self_val=px.pixel(C.p, kind, ty=t), subst=C.subst(it, s, kind, t), hook=hook, unroll=8, mem=mem,
                       args={1: ("ref", ("o",), (), False)})
        for ca, cb in COLOUR[t]:
            for a in ALPHA[t] if "a" in roles else (px.MAX[t],):
                for b in ALPHA[t] if "a" in roles else (px.MAX[t],):
                    bg = [a if r == "a" else (ca, cb, (3 * ca + cb) / 4 if t == "f32" else (3 * ca + cb) // 4, ca)["lrbg".index(r)] for r in roles]
                    fg = [b if r == "a" else (cb, ca, ca, cb)["lrbg".index(r)] for r in roles]
                    if t == "f32":
                        bg, fg = [T.f32(x) for x in bg], [T.f32(x) for x in fg]
                    env = {}
                    for r, x, y in zip(roles, bg, fg):
                        env[px.sym(r, t)] = x
                        env[px.sym("over " + r, t)] = y
                    e = wrong(cs, roles, bg, fg, env, t)
                    if e:
                        return ck.bad("over", kind, "%s: %s<%s> %s over %s %s" % (cs.where(), kind, t, fg, bg, e))
                    n += 1
    ck.ok("over", kind, "%d evaluations" % n)


def wrong(cs, roles, bg, fg, env, t):
    ends = cs.at(env)
    if not ends or any(u for o, u in ends):
        raise Undecided("outcome for %s over %s: %s" % (fg, bg, T.show(ends[0][1][0][0])[:150] if ends and ends[0][1] else len(ends)))
    for o, u in ends:
        if o.kind != "ret":
            return "panics (%s)" % (o.why,)
        ch = px.channels(cs.E.deep(o.st, o.st.mem[("arg", "self")]))
        if ch is None or len(ch) != len(roles):
            raise Undecided("result %s" % (ch,))
        got = []
        for x in ch:
            v = T.evalt(x, env)
            for q in T.subterms(x) if v is None else ():
                if q and q[0] == "call" and q[1].split("::")[0] in ("NumCast", "ToPrimitive") and T.evalt(q, env) == ("None",):
                    return "panics: %s has no value as %s" % (T.evalt(q[2][0], env), t)
            if v is None:
                raise Undecided("channel %s" % T.show(x)[:200])
            got.append(v)
        want, slack = source_over(roles, bg, fg, t)
        if any(v != v or abs(v - w) > slack for v, w in zip(got, want)):
            return "gives %s, not %s%s" % (got, "about " if slack else "", [w if not slack else round(w, 3) for w in want])
    return None


def source_over(roles, bg, fg, t):
    """(channels, tolerance): exact where nothing is mixed, within one step otherwise"""
    if "a" not in roles:
        return fg, 0 if t != "f32" else 1e-6
    m = px.MAX[t]
    a, b = bg[-1] / m, fg[-1] / m
    if b == 0:
        return bg, 0 if t != "f32" else 1e-6
    if b == 1:
        return fg, 0 if t != "f32" else 1e-6
    e = a + b - a * b
    # the result of few alpha steps is a quotient of two rounded numbers
    return [(y * b + x * a * (1 - b)) / e for x, y in zip(bg[:-1], fg[:-1])] + [e * m], 1e-4 if t == "f32" else 1.05
