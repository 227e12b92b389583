"""Deciding small functions against a specification: every outcome of the abstract interpretation that is feasible at a
point of a grid of inputs must have the specified result there."""
from . import absint, terms as T

INT = {"u8": (0, 255), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
       "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def symbol(p, name, ty):
    if ty and ty[0] == "prim" and ty[1] in INT:
        return ("sym", name, INT[ty[1]])
    return ("sym", name)


def obj(p, adt, name="", keep=()):
    """a struct value whose integer fields are symbols named by their path; nested local structs are expanded"""
    fs = []
    for f in p.adts[adt]["variants"][0]["f"]:
        ty = p.ty(f["ty"])
        n = (name + "." if name else "") + f["n"]
        if ty[0] == "adt" and ty[1] in p.adts and p.adts[ty[1]].get("local") and p.adts[ty[1]]["kind"] == "struct" and f["n"] not in keep \
                and not ty[1].endswith("PhantomData"):
            fs.append(obj(p, ty[1], n, keep))
        else:
            fs.append(symbol(p, n, ty))
    return ("agg", adt, 0, tuple(fs))


def symbols(v, out=None):
    """{name: symbol} of an obj"""
    out = {} if out is None else out
    for s in T.subterms(v):
        if s and s[0] == "sym":
            out[s[1]] = s
    if v[0] == "agg":
        for x in v[3]:
            symbols(x, out)
    elif v[0] == "sym":
        out[v[1]] = v
    return out


def arg_types(p, it):
    return [p.ty(x) if isinstance(x, int) else None for x in it.get("sig", {}).get("inputs", [])] if isinstance(it.get("sig"), dict) else []


class Case:
    """one function analysed on symbolic arguments"""

    def __init__(self, ck, it, self_val=None, args=None, byref=True, hook=None, no_inline=None, subst=None, mem=None, **kw):
        p = ck.p
        self.p, self.it = p, it
        kw.setdefault("max_paths", 4000)
        kw.setdefault("max_steps", 120000)
        cls = kw.pop("engine", absint.Engine)
        self.E = cls(p, hook=hook, no_inline=no_inline or (lambda fi, n: False), **kw)
        st = absint.State()
        st.mem.update(mem or {})
        n = it["body"]["argc"]
        vals = []
        for k in range(n):
            ty = p.ty(it["body"]["locals"][k + 1][0])
            vals.append(self.sym("a%d" % k, ty))
        if self_val is not None:
            if byref:
                st.mem[("arg", "self")] = self_val
                vals[0] = ("ref", ("arg", "self"), (), True)
            else:
                vals[0] = self_val
        if args:
            for k, v in args.items():
                vals[k] = v
        self.args = vals
        self.outs = self.E.run(it, vals, st=st, subst=subst) if subst else self.E.run(it, vals, st=st)
        self.E.npaths = len(self.outs)
        ck.saw(self.E)

    def sym(self, name, ty):
        if ty[0] == "tuple":
            return ("agg", "tuple", 0, tuple(self.sym("%s.%d" % (name, i), t) for i, t in enumerate(ty[1])))
        return symbol(self.p, name, ty)

    def where(self):
        return "%s (%s)" % (self.it["path"], self.p.loc_of_item(self.it))

    def at(self, env):
        """[(outcome, undetermined facts)] possible under env"""
        r = []
        for o in self.outs:
            f, u = feasible(o.st.facts, env)
            if f is not False:
                r.append((o, u))
        return r


def holds(t, v, env):
    x = T.evalt(t, env)
    if x is None:
        return None
    if isinstance(v, tuple) and v and v[0] == "not":
        return x not in v[1]
    if isinstance(v, bool):
        return bool(x) == v
    return x == v


def feasible(facts, env):
    und = []
    for t, v in facts:
        h = holds(t, v, env)
        if h is False:
            return False, ()
        if h is None:
            und.append(t)
    return (None if und else True), und


def agree(ck, rule, inst, case, grid, want, seen, undecided_ok=()):
    """At every point of the grid every feasible outcome must be the specified one.
    want(env) -> specified observation, or a set of admissible ones;  seen(o, env) -> observation of an outcome (None: not recognised)."""
    n = 0
    for env in grid:
        w = want(env)
        if w is None:
            continue
        ok = w if isinstance(w, (set, list)) else [w]
        got = case.at(env)
        if not got:
            return ck.und(rule, inst, "%s: no outcome covers %s" % (case.where(), names(env)))
        for o, u in got:
            x = seen(o, env)
            if x is None or u:
                return ck.und(rule, inst, "%s: outcome not determined at %s: %s %s" % (
                    case.where(), names(env), o.kind, T.show(u[0] if u else o.val)[:150] if (u or o.val) else o.why))
            if x not in ok:
                return ck.bad(rule, inst, "%s: for %s it %s, where it must %s" % (case.where(), names(env), say(x), " or ".join(say(y) for y in ok)))
            n += 1
    return ck.judge(rule, inst, True if n else None, "%s: nothing evaluated" % case.where(), "%d points" % n)


def settle(v, env):
    """the value with table look-ups at known indices resolved"""
    if v[0] == "idx" and v[1][0] == "agg":
        i = T.evalt(v[2], env)
        if i is not None and 0 <= i < len(v[1][3]):
            return settle(v[1][3][i], env)
    if v[0] == "agg":
        return v[:3] + (tuple(settle(x, env) for x in v[3]),)
    return v


def say(x):
    if isinstance(x, tuple):
        return " ".join(str(y) for y in x)
    return str(x)


def names(env):
    return ", ".join("%s=%s" % (T.show(k), v) for k, v in env.items())
