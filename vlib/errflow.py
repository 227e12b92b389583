"""Error-value discipline, one function at a time.

Every call (other than to a combinator the interpreter models) whose Result error type can carry an I/O error is an
obligation: on every abstract path through the calling function where that result is Err, the function must itself
report failure; where its outcome is never examined, the value must leave the function (returned, stored or passed on)."""
import re
from . import absint, terms as T
from .absint import RESULT, OPTION


class Carrier:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def __call__(self, ty):
        if ty not in self.memo:
            self.memo[ty] = self._c(ty, set())
        return self.memo[ty]

    def _c(self, ty, seen):
        if ty in seen:
            return False
        seen.add(ty)
        if ty[0] == "adt":
            if ty[1] == "std::io::Error":
                return True
            if any(self._c(a, seen) for a in ty[2]):
                return True
            ad = self.p.adts.get(ty[1])
            if ad:
                for v in ad["variants"]:
                    for f in v["f"]:
                        if self._c(self.p.subst(self.p.ty(f["ty"]), dict(enumerate(ty[2]))), seen):
                            return True
            return False
        if ty[0] == "ref":
            return self._c(ty[1], seen)
        if ty[0] in ("tuple", "array", "slice"):
            for x in ty[1:]:
                if isinstance(x, tuple) and x:
                    if isinstance(x[0], str):
                        if self._c(x, seen):
                            return True
                    else:
                        if any(self._c(y, seen) for y in x):
                            return True
            return False
        if ty[0] == "dyn":
            return "Error" in str(ty)
        return False

    def result(self, ty):
        """ty is Result<_, E> with E carrying I/O errors (also inside Option)"""
        if ty[0] == "adt" and ty[1] == RESULT:
            return self(ty[2][1])
        return False


# Calls that only look at an error or a result: handing the value to them does not report it.
OBSERVERS = re.compile(r"(^|::)(kind|fmt|to_string|source|description|raw_os_error|get_ref|clone|borrow|drop|forget|type_id|"
                       r"is|needs_drop|eq|ne|debug_assert.*)$|^Result::|^Option::|^mem::")


class ErrEngine(absint.Engine):
    """Intraprocedural: local callees stay opaque, closures passed to modelled combinators are entered."""

    def __init__(self, p, carrier, **kw):
        super().__init__(p, no_inline=lambda fi, n: True, **kw)
        self.carrier = carrier
        self.sites = {}       # value -> (name, site)
        self.types = {}
        self.fis = {}
        self.back = []

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        pl = t[3]
        ty = self.place_ty(fr, pl)
        if fi is not None and t[1] is not None and not self.same_callee(t, fi):
            # called from inside a modelled combinator: the destination type is the combinator's
            it = self.p.items.get(fi.get("key"))
            ty = self.p.ty(it["body"]["locals"][0][0]) if it and "body" in it else ("unknown",)
        for o in outs:
            if o.kind == "ret":
                self.types[o.val] = ty
                if self.carrier.result(ty):
                    self.sites[o.val] = (name, (fr.it["path"], bb, self.p.loc(t[6])))
                    self.fis[o.val] = (fi, fargs)
                elif self.carrier(ty) and ty[0] == "adt" and ty[1] == OPTION and self.carrier.result(ty[2][0]):
                    self.sites[("fld", o.val, 1, 0)] = (name, (fr.it["path"], bb, self.p.loc(t[6])))
                    self.fis[("fld", o.val, 1, 0)] = (fi, fargs)
        return outs

    def call(self, st, fr, fi, fargs, args, bb, t):
        outs = super().call(st, fr, fi, fargs, args, bb, t)
        if fi.get("name") in ("next", "next_back") and self.same_callee(t, fi):
            ty = self.place_ty(fr, t[3])
            if ty[0] == "adt" and ty[1] == OPTION and self.carrier(ty):
                for o in outs:
                    if o.kind == "ret" and o.val and o.val[0] == "agg" and o.val[1] == OPTION and o.val[2] == 1:
                        self.types.setdefault(o.val[3][0], ty[2][0])
        return outs

    def same_callee(self, t, fi):
        fop = t[1]
        if fop[0] == "k" and fop[1].get("fn"):
            return fop[1]["fn"].get("key") == fi.get("key")
        return True

    def on_back_edge(self, st, fr, h):
        self.back.append((st, h, fr.it["path"]))

    def ty_of(self, t):
        if t in self.types:
            return self.types[t]
        if t[0] == "fld":
            b = self.ty_of(t[1])
            if b is None:
                return None
            if b[0] == "tuple":
                xs = b[1] if b[1] and isinstance(b[1][0], tuple) else b[1:]
                return xs[t[3]] if t[3] < len(xs) else None
            if b[0] == "adt":
                if b[1] == RESULT:
                    return b[2][t[2]]
                if b[1] == OPTION:
                    return b[2][0]
                ad = self.p.adts.get(b[1])
                if ad and t[2] < len(ad["variants"]) and t[3] < len(ad["variants"][t[2]]["f"]):
                    return self.p.subst(self.p.ty(ad["variants"][t[2]]["f"][t[3]]["ty"]), dict(enumerate(b[2])))
        if t[0] in ("deref", "rf"):
            b = self.ty_of(t[1])
            return b[1] if b and b[0] == "ref" else None
        return None


def err_facts(st):
    """values known to be Err / Ok on the path"""
    out = {}
    for t, b in st.facts:
        if t[0] == "discr" and t[2] == RESULT:
            if isinstance(b, tuple) and b and b[0] == "not":
                b = 1 - b[1][0] if len(b[1]) == 1 else None
            if b is not None:
                out[t[1]] = b
    return out


def is_failure(E, st, v):
    """True: reports failure, False: reports success, None: unknown"""
    v = E.strip(st, v)
    if v[0] == "agg" and v[1] == RESULT:
        return v[2] == 1
    if v[0] == "agg" and v[1] == OPTION:
        return v[2] == 1 and is_failure(E, st, v[3][0])
    if v[0] == "agg" and v[1].endswith("ControlFlow"):
        return v[2] == 1
    if v[0] == "agg" and v[1] == "tuple":
        rs = [is_failure(E, st, x) for x in v[3]]
        return True if True in rs else (None if None in rs else False)
    if v[0] in ("c", "agg", "s"):
        return False
    return None


def flows(E, st, v, x):
    """x (a result or its error) is part of v, ignoring what calls only observed"""
    v = E.deep(st, v)
    return _flows(v, x)


def _flows(v, x):
    if v == x:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if not isinstance(v[0], str):
        return any(_flows(a, x) for a in v if isinstance(a, tuple))
    if v[0] == "call":
        if OBSERVERS.search(v[1]):
            return False
        return any(_flows(a, x) for a in v[2] if isinstance(a, tuple))
    if v[0] == "fld":
        return v[2] == 1 and _flows(v[1], x)      # the error payload, not the success payload
    if v[0] in ("discr", "post"):
        return False
    return any(_flows(a, x) for a in v[1:] if isinstance(a, tuple))


def leaves(E, st, e, x):
    """the result (or its error) is stored behind a caller's reference or passed to a call that is not a mere observer"""
    for e2 in st.eff:
        if e2 is e or OBSERVERS.search(e2[1]):
            continue
        for a in e2[2]:
            if flows(E, st, a, x):
                return True
    for cell, val in st.mem.items():
        if cell[0] in ("obj", "arg") and _flows(val, x):
            return True
    return False


def not_io(E, st, x):
    """the path established an error variant that cannot carry an I/O error"""
    pay = ("fld", x, 1, 0)
    for t, b in st.facts:
        if t[0] == "discr" and t[1] == pay:
            ad = E.p.adts.get(t[2])
            if not ad:
                continue
            n = len(ad["variants"])
            vs = [b] if isinstance(b, int) else [i for i in range(n) if i not in b[1]] if b and b[0] == "not" else []
            ty = E.ty_of(pay)
            targs = dict(enumerate(ty[2])) if ty and ty[0] == "adt" else {}
            if vs and all(i < n and not any("std::io::Error'" in str(E.p.subst(E.p.ty(f["ty"]), targs)) for f in ad["variants"][i]["f"]) for i in vs):
                return True
    return False


def interrupted(E, st, x):
    """the path established that the error's kind is ErrorKind::Interrupted"""
    ad = E.p.adts.get("std::io::ErrorKind")
    n = 35
    for v in (ad["variants"] if ad else ()):
        if v["n"] == "Interrupted" and "d" in v:
            n = int(v["d"])
    pay = ("fld", x, 1, 0)
    for t, b in st.facts:
        if not T.contains(t, pay):
            continue
        if t[0] == "discr" and t[1][0] == "call" and t[1][1].endswith("::kind") and b == n:
            return True
        if t[0] == "op" and t[1] == "Eq" and b is True and ("c", n) in t[2:] and "::kind" in T.skey(t):
            return True
    return False


def analyse(p, it, carrier, ck=None, **kw):
    """-> (list of (kind, callee, site) problems, number of obligations, engine); raises Undecided"""
    E = ErrEngine(p, carrier, **kw)
    body = it["body"]
    args = []
    argres = {}
    for k in range(body["argc"]):
        a = ("sym", "arg%d" % k)
        args.append(a)
        ty = p.ty(body["locals"][k + 1][0])
        E.types[a] = ty
        if it["kind"] == "closure" and k > 0:
            # closure parameters that are I/O results: the closure decides their fate
            x, t = a, ty
            while t[0] == "ref":
                x, t = ("deref", x), t[1]
            E.types[x] = t
            if carrier.result(t):
                argres[x] = ("parameter %d" % k, (it["path"], 0, p.loc_of_item(it)))
                E.sites[x] = argres[x]
    retbool = p.ty(body["locals"][0][0]) == ("prim", "bool")
    st = absint.State()
    if retbool:
        for x in argres:            # what does the predicate answer for a failed operation?
            E.assume(st, T.eq(("discr", x, RESULT), T.c(1)), True)
            st.known[("discr", x, RESULT)] = 1
            st.facts += ((("discr", x, RESULT), 1),)
    outs = E.run(it, args, st=st)
    E.npaths = len(outs)
    if ck:
        ck.saw(E)
    probs = {}
    for o in outs:
        if o.kind != "ret":
            continue
        ef = err_facts(o.st)
        done = set()
        # results whose failure was observed on this path
        for x, d in ef.items():
            if d != 1:
                continue
            info = E.sites.get(x)
            if info is None:
                ty = E.ty_of(x)
                if ty is None or not carrier.result(ty):
                    continue
                root = x
                while root[0] in ("fld", "deref", "rf"):
                    root = root[1]
                info = (T.show(root)[:40] if root[0] != "call" else root[1], (it["path"], 0, p.loc_of_item(it)))
            done.add(x)
            if x in argres and retbool:
                probs.setdefault((info[0], "pred"), ("predicate", info[0], info[1], o.val))
                continue
            if is_failure(E, o.st, o.val) is True:
                continue
            if ef.get(o.val) == 1 or flows(E, o.st, o.val, x):
                continue
            if leaves(E, o.st, None, x):
                continue
            if interrupted(E, o.st, x) or not_io(E, o.st, x):
                continue
            probs.setdefault((info[0], info[1][0]), ("lost", info[0], info[1], None, E.fis.get(x)))
        for e in o.st.eff:
            x = e[3]
            if x in E.sites and x not in ef:
                if is_failure(E, o.st, o.val) is True or flows(E, o.st, o.val, x) or leaves(E, o.st, e, x):
                    continue
                probs.setdefault((E.sites[x][0], E.sites[x][1][0]), ("ignored",) + E.sites[x] + (None, E.fis.get(x)))
    for st, h, path in E.back:
        ef = err_facts(st)
        for e in st.eff:
            x = e[3]
            for y in (x, ("fld", x, 1, 0)):
                if y in E.sites and ef.get(y, 0) == 1 and not leaves(E, st, e, y) and not interrupted(E, st, y):
                    name, site = E.sites[y]
                    probs.setdefault((name, site[0]), ("retried", name, site, None, E.fis.get(y)))
    return list(probs.values()), len({s for s in E.sites.values()}), E


def item_carries(p, carrier, ty, d=0):
    """the iterator type yields I/O results"""
    if d > 8:
        return False
    if ty[0] == "ref":
        return item_carries(p, carrier, ty[1], d + 1)
    if ty[0] != "adt":
        return False
    if ty[1].startswith("std::io::") and ty[1].split("::")[-1] in ("Bytes", "Lines", "Split"):
        return True
    if not ty[2]:
        return False
    if ty[1].endswith("::Map") or ty[1].endswith("::Scan") or ty[1].endswith("::FilterMap"):
        for a in ty[2]:
            if a[0] == "closure":
                clo = p.items.get(a[1])
                if clo and "body" in clo:
                    r = p.ty(clo["body"]["locals"][0][0])
                    return carrier(r)
        return False
    return item_carries(p, carrier, ty[2][0], d + 1)
