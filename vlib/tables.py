"""Conditional constant propagation helpers: evaluate a function per enum variant / enumerate the
(input constant -> result) pairs of a classification function over all of its paths."""
from . import absint, terms as T
from .terms import c
from .absint import OPTION, RESULT


def find_adt(p, name, pref=""):
    r = [a for a in p.adts if a.split("::")[-1] == name and p.adts[a]["local"] and pref in a]
    return r[0] if len(r) == 1 else None


def method(p, adt, name):
    """inherent method `name` of a local type"""
    r = []
    for it in p.items.values():
        if it["kind"] == "fn" and it["name"] == name and "impl_self" in it and "impl_trait" not in it:
            t = p.ty(it["impl_self"])
            if t[0] == "adt" and t[1] == adt:
                r.append(it)
    return r[0] if len(r) == 1 else None


def trait_method(p, trait_suffix, selfty_pred, name):
    r = []
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] == trait_suffix and selfty_pred(im["_self"]):
            it = im["_items"].get(name)
            if it and it["key"] in p.items:
                r.append((im, p.items[it["key"]]))
    return r


def variant_val(p, adt, i, E=None, st=None):
    """A value of the given enum variant with opaque payload."""
    fs = p.adts[adt]["variants"][i]["f"]
    return ("agg", adt, i, tuple(("sym", "payload%d" % j) for j in range(len(fs))))


def by_ref(st, v, name="self"):
    st.mem[("arg", name)] = v
    return ("ref", ("arg", name), (), False)


def is_ref_arg(p, it, k):
    return p.ty(it["body"]["locals"][k + 1][0])[0] == "ref"


def eval_variant(ck, it, adt, i, extra=(), hook=None, subst=None, **kw):
    """Outcomes of it(self = variant i, extra...)."""
    p = ck.p
    E = absint.Engine(p, hook=hook, **kw)
    st = absint.State()
    v = variant_val(p, adt, i)
    if is_ref_arg(p, it, 0):
        v = by_ref(st, v)
    outs = E.run(it, [v] + list(extra), subst=subst, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return E, outs


def plain(E, st, v):
    """Constant value as Python data, or None."""
    v = E.strip(st, v)
    if v[0] in ("c",):
        return v[1]
    if v[0] == "s":
        return v[1]
    if v[0] == "f":
        return float(v[1])
    if v[0] == "sliceref":
        base = E.strip(st, v[1])
        if base[0] == "agg" and v[2][0] == "c" and v[3][0] == "c":
            return plain(E, st, ("agg", "array", 0, base[3][v[2][1]:v[2][1] + v[3][1]]))
        return None
    if v[0] == "agg":
        if v[1] == "array":
            return [plain(E, st, x) for x in v[3]]
        if v[1] == "tuple":
            return tuple(plain(E, st, x) for x in v[3])
        ad = E.p.adts.get(v[1])
        if ad and ad["kind"] == "enum":
            n = ad["variants"][v[2]]["n"]
            if v[3]:
                return (n,) + tuple(plain(E, st, x) for x in v[3])
            return n
        return (v[1].split("::")[-1],) + tuple(plain(E, st, x) for x in v[3])
    return None
