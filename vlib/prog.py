"""Program model over the driver's dump: types, impl resolution, bodies, CFG helpers."""
import functools, re, sys
from . import build

sys.setrecursionlimit(20000)


class Prog:
    def __init__(self, d, h):
        self.hash = h
        self.raw = d
        self.rawtypes = d["types"]
        self.files = d["files"]
        self.adts = d["adts"]
        self.traits = d["traits"]
        self.items = {i["key"]: i for i in d["items"]}
        self._ty = {}
        self.by_path = {}
        for i in d["items"]:
            self.by_path.setdefault(i["path"], []).append(i)
        self.impls = d["impls"]
        self.impl_by_key = {i["key"]: i for i in self.impls}
        self.impls_of_trait = {}
        for im in self.impls:
            im["_self"] = self.ty(im["self"])
            if "trait" in im:
                im["_targs"] = tuple(self.arg(a) for a in im["trait_args"])
                self.impls_of_trait.setdefault(im["trait"], []).append(im)
            im["_items"] = {x["n"]: x for x in im["items"]}
        self.trait_items = {t: {x["n"]: x for x in v["items"]} for t, v in self.traits.items()}
        self.trait_by_path = self.traits
        self.reach_types = {p: (r, e) for p, r, e in d["reach"]}

    # ---- types as structural tuples -------------------------------------------------
    def arg(self, a):
        if isinstance(a, dict):
            return ("const", a["const"])
        return self.ty(a)

    def ty(self, i):
        t = self._ty.get(i)
        if t is not None:
            return t
        r = self.rawtypes[i]
        k = r["k"]
        if k == "prim":
            t = ("prim", r["s"])
        elif k == "adt":
            t = ("adt", r["def"], tuple(self.arg(a) for a in r["args"]))
        elif k == "array":
            t = ("array", self.ty(r["e"]), r["n"]["const"])
        elif k == "slice":
            t = ("slice", self.ty(r["e"]))
        elif k == "ptr":
            t = ("ptr", self.ty(r["e"]), r["mut"])
        elif k == "ref":
            t = ("ref", self.ty(r["e"]), r["mut"])
        elif k == "fndef":
            t = ("fndef", r["fn"]["key"], tuple(self.arg(a) for a in r["fn"]["args"]), i)
        elif k == "fnptr":
            t = ("fnptr", tuple(self.ty(x) for x in r["sig"]))
        elif k == "dyn":
            t = ("dyn", r.get("trait", ""))
        elif k == "closure":
            t = ("closure", r["def"], tuple(self.arg(a) for a in r["args"]))
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(x) for x in r["e"]))
        elif k == "alias":
            if r["ak"] == "proj":
                t = ("proj", r["trait"], r["item"], tuple(self.arg(a) for a in r["args"]))
            elif r["ak"] == "opaque":
                t = ("opaque", r["def"], self.ty(r["hidden"]), tuple(self.arg(a) for a in r["args"]))
            else:
                t = ("other", r["s"])
        elif k == "param":
            t = ("param", r["i"], r["name"])
        else:
            t = ("other", r["s"])
        self._ty[i] = t
        return t

    def subst(self, t, s):
        """Substitute generic parameters (by index map s: {index: type})."""
        if not s:
            return self.norm(t)
        return self.norm(self._subst(t, s))

    def _subst(self, t, s):
        k = t[0]
        if k == "param":
            return s.get(t[1], t)
        if k in ("prim", "dyn", "other", "const"):
            if k == "const" and isinstance(t[1], str):
                for i, v in s.items():
                    pass
                return s.get(("c", t[1]), t)
            return t
        if k == "adt":
            return ("adt", t[1], tuple(self._subst(a, s) for a in t[2]))
        if k == "array":
            n = t[2]
            if isinstance(n, str):
                v = s.get(("c", n))
                if v is not None:
                    n = v[1]
            return ("array", self._subst(t[1], s), n)
        if k == "slice":
            return ("slice", self._subst(t[1], s))
        if k in ("ptr", "ref"):
            return (k, self._subst(t[1], s), t[2])
        if k == "fndef":
            return ("fndef", t[1], tuple(self._subst(a, s) for a in t[2]), t[3])
        if k == "closure":
            return ("closure", t[1], tuple(self._subst(a, s) for a in t[2]))
        if k in ("tuple", "fnptr"):
            return (k, tuple(self._subst(a, s) for a in t[1]))
        if k == "proj":
            return ("proj", t[1], t[2], tuple(self._subst(a, s) for a in t[3]))
        if k == "opaque":
            return ("opaque", t[1], self._subst(t[2], s), tuple(self._subst(a, s) for a in t[3]))
        return t

    def norm(self, t):
        k = t[0]
        if k == "proj":
            args = tuple(self.norm(a) for a in t[3])
            r = self.find_impl(t[1], args)
            if r is not None:
                im, s = r
                it = im["_items"].get(t[2])
                if it and it.get("kind") == "type":
                    return self.subst(self.ty(it["ty"]), s)
            # closures / std projections that matter
            if t[1] == "std::ops::FnOnce":
                return ("proj", t[1], t[2], args)
            if t[1] == "std::iter::IntoIterator" and args[0][0] == "adt" and t[2] == "IntoIter":
                return ("proj", t[1], t[2], args)
            return ("proj", t[1], t[2], args)
        if k == "adt":
            return ("adt", t[1], tuple(self.norm(a) for a in t[2]))
        if k == "array":
            return ("array", self.norm(t[1]), t[2])
        if k == "slice":
            return ("slice", self.norm(t[1]))
        if k in ("ptr", "ref"):
            return (k, self.norm(t[1]), t[2])
        if k == "tuple":
            return ("tuple", tuple(self.norm(a) for a in t[1]))
        if k == "opaque":
            return self.norm(t[2])
        return t

    def match(self, pat, t, s):
        """One-way matching of an impl header pattern against a type."""
        if pat[0] == "param":
            if pat[1] in s:
                return s[pat[1]] == t
            s[pat[1]] = t
            return True
        if pat[0] == "const" and isinstance(pat[1], str):
            s[("c", pat[1])] = t
            return True
        if pat[0] == "proj":
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("prim", "dyn", "other", "const"):
            return pat[1] == t[1]
        if k == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
                self.match(a, b, s) for a, b in zip(pat[2], t[2]))
        if k == "array":
            if not self.match(pat[1], t[1], s):
                return False
            if isinstance(pat[2], str):
                s[("c", pat[2])] = ("const", t[2])
                return True
            return pat[2] == t[2]
        if k == "slice":
            return self.match(pat[1], t[1], s)
        if k in ("ptr", "ref"):
            return pat[2] == t[2] and self.match(pat[1], t[1], s)
        if k in ("tuple", "fnptr"):
            return len(pat[1]) == len(t[1]) and all(self.match(a, b, s) for a, b in zip(pat[1], t[1]))
        if k == "closure":
            return pat[1] == t[1]
        if k == "fndef":
            return pat[1] == t[1]
        return False

    def find_impl(self, trait, args):
        """Local impl of `trait` for args (Self, ...). Only when Self is concrete enough."""
        if not args or args[0][0] in ("param", "proj", "dyn"):
            # blanket impls only
            cands = []
            for im in self.impls_of_trait.get(trait, ()):
                if im["_targs"] and im["_targs"][0][0] == args[0][0] == "dyn":
                    s = {}
                    if all(self.match(p, a, s) for p, a in zip(im["_targs"], args)):
                        return im, s
            return None
        best = None
        for im in self.impls_of_trait.get(trait, ()):
            if im.get("negative"):
                continue
            s = {}
            if len(im["_targs"]) == len(args) and all(self.match(p, a, s) for p, a in zip(im["_targs"], args)):
                if im["_targs"][0][0] == "param":
                    # blanket impl: needs a bound check we do not do; accept only if sole
                    if best is None:
                        best = (im, s)
                    continue
                return im, s
        return best

    def tystr(self, t):
        k = t[0]
        if k in ("prim", "other"):
            return t[1]
        if k == "adt":
            n = t[1].split("::")[-1]
            return n + ("<" + ", ".join(self.tystr(a) for a in t[2]) + ">" if t[2] else "")
        if k == "array":
            return "[%s; %s]" % (self.tystr(t[1]), t[2])
        if k == "slice":
            return "[%s]" % self.tystr(t[1])
        if k == "ref":
            return "&%s%s" % ("mut " if t[2] else "", self.tystr(t[1]))
        if k == "ptr":
            return "*%s%s" % ("mut " if t[2] else "const ", self.tystr(t[1]))
        if k == "tuple":
            return "(%s)" % ", ".join(self.tystr(a) for a in t[1])
        if k == "param":
            return t[2]
        if k == "proj":
            return "<%s>::%s" % (self.tystr(t[3][0]), t[2])
        if k == "const":
            return str(t[1])
        if k == "dyn":
            return "dyn " + t[1]
        if k == "closure":
            return "closure"
        if k == "fndef":
            return "fn " + t[1]
        if k == "opaque":
            return "impl(" + self.tystr(t[2]) + ")"
        return str(t)

    # ---- lookups ------------------------------------------------------------------------
    def loc(self, sp):
        if not sp:
            return "?"
        return "%s:%d" % (self.files[sp[0]], sp[1])

    def fns(self):
        return [i for i in self.items.values() if i["kind"] in ("fn", "closure") and "body" in i]

    def find_fn(self, path):
        c = self.by_path.get(path, [])
        return c[0] if len(c) == 1 else None

    def impl_method(self, trait, name, pred=None):
        """All (impl, item) providing method `name` of `trait`; item None when defaulted."""
        out = []
        for im in self.impls_of_trait.get(trait, ()):
            if pred and not pred(im):
                continue
            it = im["_items"].get(name)
            out.append((im, self.items.get(it["key"]) if it else None))
        return out

    def trait_default(self, trait, name):
        it = self.trait_items.get(trait, {}).get(name)
        if it and it.get("default"):
            return self.items.get(it["key"])
        return None

    def variant_name(self, adt, idx):
        return self.adts[adt]["variants"][idx]["n"]

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]["variants"]):
            if v["n"] == name:
                return i
        return None

    def loc_of_item(self, it):
        return self.loc(it["span"])


def succs(t, unwind=False):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]] + ([t[3]] if unwind and t[3] is not None else [])
    if k == "call":
        return ([t[4]] if t[4] is not None else []) + ([t[5]] if unwind and t[5] is not None else [])
    if k == "assert":
        return [t[4]] + ([t[5]] if unwind and t[5] is not None else [])
    return []


class Cfg:
    """Dominators and natural loops of a body (normal edges only)."""

    def __init__(self, body):
        self.body = body
        n = len(body["blocks"])
        self.succ = [succs(b["t"]) for b in body["blocks"]]
        self.pred = [[] for _ in range(n)]
        order, seen = [], [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stack.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        self.rpo = order[::-1]
        self.reach = set(order)
        for u in self.rpo:
            for v in self.succ[u]:
                self.pred[v].append(u)
        num = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    body_ = self.loops.setdefault(v, {v})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x not in body_:
                            body_.add(x)
                            work.extend(self.pred[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def loop_of(self, b):
        """innermost loop header containing b, or None"""
        best = None
        for h, s in self.loops.items():
            if b in s and (best is None or len(s) < len(self.loops[best])):
                best = h
        return best


_cfgs = {}


def cfg_of(item_key, body):
    k = (item_key, id(body))
    c = _cfgs.get(k)
    if c is None:
        c = _cfgs[k] = Cfg(body)
    return c


_prog = None


def load():
    global _prog
    if _prog is None:
        d, h = build.load()
        _prog = Prog(d, h)
    return _prog
