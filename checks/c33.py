"""C33: the time a frame is shown survives reading, conversion and writing.

The conversions are small arithmetic functions, one of them a search loop: each is executed symbolically and its result, a term over the
stored numbers (through loops: a summary, vlib.trace), is evaluated against the format's definition on a grid of delays."""
import itertools
from fractions import Fraction
from checks.c32 import fields, some, ok_, variants, enum
from vlib import trace, spec, pixels as px, terms as T
from vlib.absint import Out, State, Undecided

c = T.c
MS = 10**6
U16 = (0, 1, 9, 10, 11, 25, 255, 256, 999, 6553, 6554, 32767, 65534, 65535)
U32S = (0, 1, 7, 9, 10, 19, 20, 333, 999, 1000, 1001, 65535, 655349, 655350, 655359, 655360, 2**31 - 1, 2**32 - 2, 2**32 - 1)
DENS = (1, 2, 3, 7, 10, 30, 100, 999, 1000, 1001, 65535, 10**6, 2**31, 2**32 - 1)


class Times(trace.Tracer):
    """durations are numbers of nanoseconds"""

    def split_in_loop(self, st, v):
        return super().split_in_loop(st, v) or v[0] == "agg" and v[1] == "tuple" and v[3] != ()

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if name == "Ord::cmp" and fargs and fargs[0][0] == "prim":
            a, b = (E.strip(st, x) for x in args)
            r = []
            for k, t in enumerate((T.binop("Lt", a, b, fargs[0][1]), T.eq(a, b), T.binop("Lt", b, a, fargs[0][1]))):
                s = st.fork()
                if E.assume(s, t, True):
                    r.append(Out(s, "ret", ("agg", "std::cmp::Ordering", k, ())))
            return r
        if name.startswith("Duration::") or "Duration" in repr(fargs[:1]) and m in ("add", "add_assign", "saturating_add"):
            a = [E.strip(st, x) for x in args]
            d = [x[3][0] if x[0] == "agg" and x[1] == "dur" else None for x in a]
            r = None
            if m in AS and d[0] is not None:
                k, rem = AS[m]
                r = T.binop("Div", d[0], c(k), "u128") if rem is None else T.binop("Div", T.binop("Rem", d[0], c(rem), "u128"), c(k), "u128")
                return [Out(st, "ret", r)]
            if m in OF and len(a) == 1:
                return [Out(st, "ret", dur(T.mul(a[0], c(OF[m]))))]
            if m == "new" and len(a) == 2:
                return [Out(st, "ret", dur(T.add(T.mul(a[0], c(10**9)), a[1])))]
            if m in ("add", "saturating_add") and d[0] is not None and d[1] is not None:
                return [Out(st, "ret", dur(T.add(*d)))]
            return None
        r = super().on_call(E, st, fr, name, fi, fargs, args, site)
        return r if r is not None else px.numeric(E, st, fr, name, fi, fargs, args, site)


AS = {"as_millis": (MS, None), "as_nanos": (1, None), "as_secs": (10**9, None), "as_micros": (1000, None),
      "subsec_nanos": (1, 10**9), "subsec_micros": (1000, 10**9), "subsec_millis": (MS, 10**9)}
OF = {"from_millis": MS, "from_nanos": 1, "from_secs": 10**9, "from_micros": 1000}


def dur(t):
    return ("agg", "dur", 0, (t,))


def execute(ck, f, args, mem=None, hook=None):
    E = Times(ck.p, unroll=4)
    E.extra_hook = hook
    E.kind, E.shapes = None, {}
    st = State()
    st.mem.update(mem or {})
    outs = E.run(f, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return E, trace.Summary(E, outs)


def at(E, S, env):
    """the outcome at a point: (outcome value, None) or (None, what happens instead)"""
    r = trace.Run(S, env, {}, limit=120)
    r.go()
    if r.out is None:
        raise Undecided("no end reached")
    if r.out.kind != "ret":
        return None, "panics (%s)" % (r.out.why,), r
    return E.deep(r.out.st, r.out.val), None, r


def ratio(p, v, env):
    """numerator and denominator of a Delay"""
    while v[0] == "agg" and len(v[3]) == 1:
        v = v[3][0]
    if v[0] != "agg" or len(v[3]) != 2:
        raise Undecided("delay %s" % T.show(v)[:120])
    names = [x["n"] for x in p.adts[v[1]]["variants"][0]["f"]]
    n, d = (T.evalt(v[3][names.index(q)], env) for q in ("numer", "denom"))
    if n is None or d is None:
        raise Undecided("delay %s" % T.show(v)[:200])
    return n, d


def delay(p, n, d):
    r = fields(p, "animation::Ratio", numer=n, denom=d)
    return fields(p, "animation::Delay", ratio=r)


def find(p, pred):
    r = [f for f in p.fns() if pred(f)]
    return r[0] if len(r) == 1 else None


def run(ck):
    p = ck.p
    ck.rule("read", "the delay of a frame read from a file is the one the file states, in the format's unit", 3)
    ck.rule("written", "the delay written to a GIF is the frame's in hundredths of a second, at most 65535", 1)
    ck.rule("duration", "durations and delays convert into each other: exactly where representable, closely elsewhere, and never beyond the maximum", 3)
    for f in p.fns():
        path = f["path"]
        if path.endswith("FrameInfo::new_from_frame"):
            ck.each("read", path, gif, ck, p, f)
        elif "ApngDecoder" in path and path.endswith("::next"):
            ck.each("read", path, apng, ck, p, f)
        elif "WebPDecoder" in path and path.endswith("::next"):
            ck.each("read", path, webp, ck, p, f)
        elif path.endswith("::convert_frame"):
            ck.each("written", path, written, ck, p, f)
        elif path.endswith("Delay::from_saturating_duration"):
            ck.each("duration", path, saturating, ck, p, f)
        elif path.endswith("Delay::from_numer_denom_ms"):
            ck.each("duration", path, exact, ck, p, f)
        elif path.endswith("::from") and f["body"]["argc"] == 1 and p.ty(f["body"]["locals"][1][0])[:2] == ("adt", "animation::Delay"):
            ck.each("duration", path, duration, ck, p, f)


def where(p, f):
    return "%s (%s)" % (f["path"], p.loc_of_item(f))


def frame_of(p, v):
    """the Frame inside Some(Ok(..))"""
    while v[0] == "agg" and v[1].split("::")[-1] in ("Option", "Result") and v[3]:
        v = v[3][0]
    if v[0] != "agg" or v[1] != "animation::Frame":
        raise Undecided("frame %s" % T.show(v)[:100])
    return {x["n"]: y for x, y in zip(p.adts[v[1]]["variants"][0]["f"], v[3])}


def judge_delay(ck, rule, p, f, v, env, want, what):
    n, d = ratio(p, v, env)
    if not d or Fraction(n, d) != want or not (0 <= n < 2**32 and 0 < d < 2**32):
        ck.bad(rule, f["path"], "%s: %s becomes a delay of %s/%s ms, not %s ms" % (where(p, f), what, n, d, want))
        return False
    return True


def gif(ck, p, f):
    d = ("sym", "delay", (0, 65535))
    E, S = execute(ck, f, [("ref", ("frame",), (), False)], {("frame",): fields(p, "gif::Frame", delay=d)})
    for x in U16:
        v, e, r = at(E, S, {d: x})
        if e:
            return ck.bad("read", f["path"], "%s: %s for a delay of %d" % (where(p, f), e, x))
        info = dict(zip([q["n"] for q in p.adts[v[1]]["variants"][0]["f"]], v[3]))
        if not judge_delay(ck, "read", p, f, info["delay"], r.env, 10 * x, "%d hundredths of a second" % x):
            return
    ck.ok("read", f["path"], "%d delays" % len(U16))


def apng(ck, p, f):
    n, d = ("sym", "num", (0, 65535)), ("sym", "den", (0, 65535))
    img = ("sym", "frame image")

    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m == "mix_next_frame":
            return [Out(st, "ret", ok_(some(("ref", ("shown",), (), False))))]
        if m == "info" and len(args) == 1:
            return [Out(st, "ret", ("ref", ("info",), (), False))]
        if m == "frame_control":
            return [Out(st, "ret", some(("ref", ("fc",), (), False)))]
        if m == "clone" and args and args[0] == ("ref", ("shown",), (), False):
            return [Out(st, "ret", img)]
    fc = fields(p, "png::FrameControl", delay_num=n, delay_den=d)
    E, S = execute(ck, f, [("ref", ("self",), (), True)],
                   {("fc",): fc, ("info",): fields(p, "png::Info", frame_control=some(fc)), ("self",): ("sym", "it"), ("shown",): img}, hook)
    k = 0
    for x, y in itertools.product(U16, U16):
        v, e, r = at(E, S, {n: x, d: y})
        if e:
            return ck.bad("read", f["path"], "%s: %s for a delay of %d/%d s" % (where(p, f), e, x, y))
        fr = frame_of(p, v)
        if not judge_delay(ck, "read", p, f, fr["delay"], r.env, Fraction(1000 * x, y or 100), "%d/%d s" % (x, y)):
            return
        if fr["left"] != c(0) or fr["top"] != c(0) or fr["buffer"] != img:
            return ck.bad("read", f["path"], "%s: the frame is not the canvas at (0, 0)" % where(p, f))
        k += 1
    ck.ok("read", f["path"], "%d delays" % k)


def webp(ck, p, f):
    d = ("sym", "delay", (0, 2**24 - 1))
    ended = ("sym", "alpha", (0, 1))
    count, cur = ("sym", "count", (0, 2**32 - 1)), ("sym", "current", (0, 2**32 - 1))

    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m == "read_frame":
            return [Out(st, "ret", ok_(d))]
        if m == "has_alpha":
            return [Out(st, "ret", ("op", "Eq", ended, c(1)))]
        if m == "num_frames":
            return [Out(st, "ret", count)]
        if m == "dimensions":
            return [Out(st, "ret", ("agg", "tuple", 0, (c(3), c(2))))]
        if m in ("convert",):
            return [Out(st, "ret", ("call", "convert", (args[0],)))]
    own = p.ty(f["body"]["locals"][1][0])[1][1]
    E, S = execute(ck, f, [("ref", ("self",), (), True)], {("self",): fields(p, own, current=cur)}, hook)
    k = 0
    for x, a in itertools.product((0, 1, 10, 999, 65535, 65536, 2**24 - 1), (0, 1)):
        for i in range(4):
            v, e, r = at(E, S, {d: x, ended: a, count: 3, cur: i})
            if e:
                return ck.bad("read", f["path"], "%s: %s for a delay of %d ms" % (where(p, f), e, x))
            if (v[2] == 0) != (i >= 3):
                return ck.bad("read", f["path"], "%s: %s after %d of 3 frames" % (where(p, f), "ends" if v[2] == 0 else "goes on", i))
            if i >= 3:
                continue
            if not judge_delay(ck, "read", p, f, frame_of(p, v)["delay"], r.env, x, "%d ms" % x):
                return
            me = E.read(r.out.st, ("self",), ())
            nxt = dict(zip([q["n"] for q in p.adts[own]["variants"][0]["f"]], me[3]))["current"]
            if T.evalt(nxt, r.env) != i + 1:
                return ck.bad("read", f["path"], "%s: after frame %d comes frame %s" % (where(p, f), i, T.evalt(nxt, r.env)))
            k += 1
    ck.ok("read", f["path"], "%d delays" % k)


def written(ck, p, f):
    n, d = ("sym", "n", (0, 2**32 - 1)), ("sym", "d", (1, 2**32 - 1))
    got = {}

    def hook(E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if m in ("from_rgba_speed", "from_rgba"):
            return [Out(st, "ret", fields(p, "gif::Frame", delay=c(0)))]
        if m == "gif_dimensions":
            return [Out(st, "ret", ok_(("agg", "tuple", 0, (("sym", "gw"), ("sym", "gh")))))]
    fr = fields(p, "animation::Frame", delay=delay(p, n, d))
    E, S = execute(ck, f, [("sym", "self"), fr], {}, hook)
    k = 0
    for x, y in itertools.product(U32S, DENS):
        v, e, r = at(E, S, {n: x, d: y})
        if e:
            return ck.bad("written", f["path"], "%s: %s for a delay of %d/%d ms" % (where(p, f), e, x, y))
        if v[2] != 0 or v[3][0][0] != "agg":
            raise Undecided("result %s" % T.show(v)[:120])
        g = T.evalt(dict(zip([q["n"] for q in p.adts["gif::Frame"]["variants"][0]["f"]], v[3][0][3]))["delay"], r.env)
        if g is None:
            raise Undecided("delay %s" % T.show(v)[:200])
        # rounding is the encoder's choice
        lo, hi = x // (10 * y), -(-x // (10 * y))
        if not min(lo, 65535) <= g <= min(hi, 65535):
            return ck.bad("written", f["path"], "%s: a delay of %d/%d ms is written as %d hundredths of a second" % (where(p, f), x, y, g))
        k += 1
    ck.ok("written", f["path"], "%d delays" % k)


def exact(ck, p, f):
    n, d = ("sym", "n", (0, 2**32 - 1)), ("sym", "d", (0, 2**32 - 1))
    E, S = execute(ck, f, [n, d])
    k = 0
    for x, y in itertools.product(U32S, DENS):
        v, e, r = at(E, S, {n: x, d: y})
        if e:
            return ck.bad("duration", f["path"], "%s: %s for %d/%d ms" % (where(p, f), e, x, y))
        if not judge_delay(ck, "duration", p, f, v, r.env, Fraction(x, y), "%d/%d ms" % (x, y)):
            return
        k += 1
    ck.ok("duration", f["path"], "%d delays" % k)


def duration(ck, p, f):
    n, d = ("sym", "n", (0, 2**32 - 1)), ("sym", "d", (1, 2**32 - 1))
    E, S = execute(ck, f, [delay(p, n, d)])
    k = 0
    for x, y in itertools.product(U32S, DENS):
        v, e, r = at(E, S, {n: x, d: y})
        if e:
            return ck.bad("duration", f["path"], "%s: %s for %d/%d ms" % (where(p, f), e, x, y))
        g = T.evalt(v[3][0], r.env) if v[0] == "agg" and v[1] == "dur" else None
        if g is None:
            raise Undecided("duration %s" % T.show(v)[:200])
        if abs(g - Fraction(x * MS, y)) >= 1:
            return ck.bad("duration", f["path"], "%s: a delay of %d/%d ms is a duration of %d ns" % (where(p, f), x, y, g))
        k += 1
    ck.ok("duration", f["path"], "%d delays" % k)


def saturating(ck, p, f):
    ns = ("sym", "ns", (0, 2**94))
    E, S = execute(ck, f, [dur(ns)])
    k = 0
    top = (2**32 - 1) * MS
    grid = {m * MS + s for m in (0, 1, 999, 10**6, (2**32 - 1) // 51, 2**32 // 17, (2**32 - 1) // 5, (2**32 - 1) // 3, 2**31 - 1, 2**31, 2**32 - 2,
                                 2**32 - 1, 2**32, 2**40)
            for s in (0, 250000, 333333, 500000, 666667, 800000, 999999)}
    for x in sorted(grid | {(2**64 - 1) * 10**9 + 999999999, (2**64 - 1) * 10**9}):
        try:
            v, e, r = at(E, S, {ns: x})
        except Undecided as u:
            if "budget" in str(u):
                continue        # a long search
            raise
        if e:
            return ck.bad("duration", f["path"], "%s: %s for %d ns" % (where(p, f), e, x))
        n, d = ratio(p, v, r.env)
        ms = Fraction(min(x, top), MS)
        bound = 2**32 // (int(ms) + 1)
        ok = d and 0 <= n < 2**32 and 0 < d < 2**32 and abs(Fraction(n, d) - ms) <= (0 if ms.denominator <= min(bound, 2**32 - 1) else Fraction(1, 2 * bound))
        if not ok:
            return ck.bad("duration", f["path"], "%s: a duration of %d ns becomes a delay of %d/%d ms%s" % (
                where(p, f), x, n, d, "" if n < 2**32 else ", which overflows u32"))
        k += 1
    ck.ok("duration", f["path"], "%d durations" % k)
