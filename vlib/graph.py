"""Call graph over the type-checked program: direct calls, resolved and unresolved trait calls, closures and
functions used as values."""
from . import absint


class Site:
    __slots__ = ("item", "bb", "fi", "fargs", "name", "t", "value")

    def __repr__(self):
        return "%s@%s:%s" % (self.name, self.item["path"], self.bb)


def _fn_consts(x, out):
    """function items mentioned as constants inside an operand / rvalue"""
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict):
            out.append(x["fn"])
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            _fn_consts(y, out)


class Graph:
    def __init__(self, p):
        self.p = p
        self.sites = {}      # item key -> [Site]
        self.uses = {}       # item key -> [fi] functions used as values
        self.clos = {}       # item key -> [closure item key]
        for it in p.fns():
            self.sites[it["key"]] = s = []
            self.uses[it["key"]] = u = []
            for bb, b in enumerate(it["body"]["blocks"]):
                t = b["t"]
                if t[0] == "call":
                    x = Site()
                    x.item, x.bb, x.t, x.value = it, bb, t, None
                    fop = t[1]
                    if fop[0] == "k" and fop[1].get("fn"):
                        x.fi = fop[1]["fn"]
                        x.fargs = tuple(p.arg(a) for a in x.fi["args"])
                        x.name = absint.canon(p, x.fi)
                    else:
                        x.fi, x.fargs, x.name = None, (), "indirect"
                    s.append(x)
                    _fn_consts(t[2], u)
                    # a function item given as a type argument
                    for a in x.fargs:
                        self._fndefs(a, u)
                for stt in b.get("s", ()):
                    _fn_consts(stt, u)
        for it in p.fns():
            if it["kind"] == "closure":
                par = it.get("root") or it.get("parent")
                self.clos.setdefault(it.get("parent") or par, []).append(it["key"])

    def _fndefs(self, ty, out):
        if isinstance(ty, tuple) and ty and ty[0] == "fndef":
            it = self.p.items.get(ty[1])
            out.append({"key": ty[1], "name": ty[1].split("::")[-1], "local": it is not None})

    def targets(self, fi, fargs=()):
        """local items this call may execute"""
        p = self.p
        out = []
        if fi is None:
            return out
        if "trait" in fi:
            tr = fi["trait"]
            r = None
            try:
                n = None
                for im in p.impls_of_trait.get(tr, ()):
                    n = len(im["_targs"])
                    break
                if n:
                    r = p.find_impl(tr, tuple(fargs[:n]))
            except Exception:
                r = None
            if not r and (not fi.get("local") or (fargs and fargs[0][0] in ("prim", "slice", "array", "tuple"))):
                return out           # a foreign trait on a type without a local implementation, or a generic one
            ims = [r[0]] if r else p.impls_of_trait.get(tr, ())
            default = False
            for im in ims:
                m = im["_items"].get(fi["name"])
                if m and m["key"] in p.items:
                    out.append(p.items[m["key"]])
                else:
                    default = True
            if default or not ims:
                d = p.trait_items.get(tr, {}).get(fi["name"])
                if d and d.get("default") and d["key"] in p.items:
                    out.append(p.items[d["key"]])
            return out
        it = p.items.get(fi["key"])
        if it is not None and "body" in it:
            out.append(it)
        return out

    def succ(self, key):
        """local item keys reachable in one step (calls, closures, functions used as values)"""
        out = set(self.clos.get(key, ()))
        for s in self.sites.get(key, ()):
            for it in self.targets(s.fi, s.fargs):
                out.add(it["key"])
        for fi in self.uses.get(key, ()):
            it = self.p.items.get(fi["key"])
            if it is not None and "body" in it:
                out.add(it["key"])
        return out

    def closure_of(self, roots):
        seen, work = set(), list(roots)
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            work += [x for x in self.succ(k) if x not in seen]
        return seen


_g = None


def load(p):
    global _g
    if _g is None:
        _g = Graph(p)
    return _g
