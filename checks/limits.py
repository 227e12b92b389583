"""Shared machinery for the limits properties: exact case evaluation of a fallible function's outcomes."""
import itertools
from vlib import absint, terms as T, tables as tb
from vlib.absint import OPTION, RESULT
from vlib.errflow import is_failure

U32 = (0, 2**32 - 1)


PNG_INFO = ("sym", "&png::Info")       # one header per stream: the decoder's and the reader's view of it agree


def pure_getters(E, st, fr, name, fi, fargs, args, site):
    """external getters (no mutable argument) answer the same for the same receiver"""
    if name == "Decoder::read_header_info":
        outs = []
        for k, v in ((0, PNG_INFO), (1, ("sym", "png error"))):
            s = st.fork()
            outs.append(absint.Out(s, "ret", absint.agg(RESULT, k, v)))
        return outs
    if fi.get("local") or "res" in fi or name in E.models or name in E.extra:
        return None
    if name.split("::")[-1].startswith(("with_", "set_", "new", "into_")):
        return None
    muts = []
    for a in args:
        E.collect_muts(st, a, muts, 0)
    if muts or not args:
        return None
    if E.resolve(fi, fargs) is not None:
        return None
    if name == "Info::size":
        v = E.deep(st, args[0])
        v = v[1] if v[0] == "rf" else ("deref", v)
        ad = [a for a in E.p.adts if a.endswith("png::Info") or a.endswith("::Info") and a.startswith("png")]
        if ad:
            fs = [f["n"] for f in E.p.adts[ad[0]]["variants"][0]["f"]]
            return [absint.Out(st, "ret", absint.tup(*[E.proj(v, ("f", None, fs.index(n))) for n in ("width", "height")]))]
    if name == "Reader::info":
        return [absint.Out(st, "ret", PNG_INFO)]
    vargs = tuple(E.deep(st, a) for a in args)
    v = ("call", name, vargs)
    return [absint.Out(st, "ret", v)]


def feasible(o, env):
    """False: contradicted; True: all facts determined and hold; None: some facts undetermined"""
    und = []
    for t, v in o.st.facts:
        x = T.evalt(t, env)
        if x is None:
            und.append(t)
        elif isinstance(v, tuple) and v and v[0] == "not":
            if x in v[1]:
                return False, ()
        elif isinstance(v, bool) and bool(x) != v or not isinstance(v, bool) and x != v:
            return False, ()
    return (None if und else True), und


def mentions(t, keys):
    return any(T.contains(t, k) for k in keys)


def opt_env(opt, val):
    """environment entries for an Option<int> term being None / Some(val)"""
    e = {("discr", opt, OPTION): 0 if val is None else 1}
    if val is not None:
        e[("fld", opt, 1, 0)] = val
    return e


def grid(vals, opts):
    """cross product of {term: value} over integer terms and Option terms"""
    keys = list(vals) + list(opts)
    for combo in itertools.product(*[vals[k] if k in vals else opts[k] for k in keys]):
        env = {}
        d = {}
        for k, v in zip(keys, combo):
            d[k] = v
            if k in vals:
                env[k] = v
            else:
                env.update(opt_env(k, v))
        yield env, d


def decide(E, outs, cases, keys, must_fail, what):
    """cases: iterable of (env, d). must_fail(d) -> True/False.  -> (verdict, text)"""
    n = 0
    und = None
    for env, d in cases:
        bad = must_fail(d)
        live = False
        for o in outs:
            f, u = feasible(o, env)
            if f is False:
                continue
            live = True
            if o.kind != "ret":
                fail = True
                if not bad and f:
                    return False, "panics for %s" % what(d)
                continue
            fail = is_failure(E, o.st, o.val)
            if bad and fail is not True:
                if fail is None or any(mentions(t, keys) for t in u):
                    und = "cannot tell whether the call fails for %s" % what(d)
                else:
                    return False, "succeeds for %s" % what(d)
            if not bad and fail is True and f:
                return False, "fails for %s" % what(d)
        if not live:
            und = "no path for %s" % what(d)
        n += 1
    return (None, und) if und else (True, "%d cases" % n)


def limits_adt(p):
    return tb.find_adt(p, "Limits", "image_reader") or tb.find_adt(p, "Limits")


def fields(p, adt):
    return [f["n"] for f in p.adts[adt]["variants"][0]["f"]]


def constants(outs, lo=5, hi=2**32 - 2, most=3):
    """integer constants the outcomes' conditions mention, for the boundary cases around them"""
    out = set()
    for o in outs:
        for t, v in o.st.facts:
            for x in T.subterms(t):
                if x and x[0] == "c" and type(x[1]) is int and lo <= x[1] <= hi:
                    out.add(x[1])
    r = []
    for k in sorted(out)[:most]:
        r += [k, k + 1]
    return r
