"""C03: buffering writers are finished, and the outcome checked, before success is reported."""
import re
from vlib import absint, errflow, graph, terms as T
from vlib.errflow import is_failure, err_facts, flows
from . import c01

# Types whose destructor writes remaining data and swallows the error -> the calls that do so and report it.
FLUSHING = {
    "std::io::BufWriter": ("flush", "into_inner"), "std::io::LineWriter": ("flush", "into_inner"),
    "png::Writer": ("finish",), "png::StreamWriter": ("finish",), "gif::Encoder": ("into_inner",),
    "tiff::encoder::DirectoryEncoder": ("finish", "finish_with_offsets"),
    "tiff::encoder::ImageEncoder": ("finish", "write_data"),
}
SHORT = {(k.split("::")[0], k.split("::")[-1]): v for k, v in FLUSHING.items()}


class Owned:
    """does a value of this type own a flushing writer? -> set of finisher names"""

    def __init__(self, p, extra):
        self.p, self.extra, self.memo = p, extra, {}

    def __call__(self, ty):
        if ty not in self.memo:
            self.memo[ty] = frozenset()
            self.memo[ty] = frozenset(self._f(ty, 0))
        return self.memo[ty]

    def _f(self, ty, d):
        if d > 8:
            return set()
        if ty[0] == "adt":
            out = set()
            if ty[1].endswith("Error"):
                return out          # an error value that hands the writer back
            h = FLUSHING.get(ty[1]) or SHORT.get((ty[1].split("::")[0], ty[1].split("::")[-1])) or self.extra.get(ty[1])
            if ty[1].startswith("std::io::") and ty[1].split("::")[-1] in ("BufWriter", "LineWriter"):
                h = FLUSHING["std::io::BufWriter"]
            if h:
                out.add((ty[1], h))
                return out
            for a in ty[2]:
                if a[0] != "ref":
                    out |= self._f(a, d + 1)
            ad = self.p.adts.get(ty[1])
            if ad and ad["local"]:
                for v in ad["variants"]:
                    for f in v["f"]:
                        t = self.p.subst(self.p.ty(f["ty"]), dict(enumerate(ty[2])))
                        if t[0] in ("adt", "tuple", "array"):
                            out |= self._f(t, d + 1)
            return out
        if ty[0] == "tuple":
            return set().union(*[self._f(x, d + 1) for x in ty[1]]) if ty[1] else set()
        if ty[0] == "array":
            return self._f(ty[1], d + 1)
        return set()


class DropEngine(absint.Engine):
    def __init__(self, p, owned, inl, **kw):
        super().__init__(p, no_inline=lambda fi, n: fi["key"] not in inl, **kw)
        self.owned = owned
        self.moved = {}

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        if fr.depth == 0 and fi is not None:
            tys = [self.place_ty(fr, a[1]) for a in t[2] if a[0] == "m"]
            tys = [x for x in tys if self.owned(x)]
            if tys:
                back = self.owned(self.place_ty(fr, t[3])) if t[3] else None
                for o in outs:
                    if o.kind == "ret":
                        self.moved[o.val] = (tys[0], bool(back), fi, fargs)
        return outs

    def on_drop(self, st, fr, t):
        ty = self.place_ty(fr, t[1])
        fin = self.owned(ty)
        if fin and fr.depth == 0:
            cell, pr = self.place(st, fr, t[1])
            v = self.read(st, cell, pr)
            if v[0] == "uninit" or (v[0] == "agg" and v[1] == absint.OPTION and v[2] == 0):
                return
            if ty[0] == "adt" and ty[1] == absint.OPTION:
                d = ("discr", v, absint.OPTION)
                if st.known.get(d) == 0 or 1 in st.excl.get(d, ()) or self.truth(st, T.eq(d, T.c(1))) is False:
                    return
            st.eff = st.eff + (("drop", "@drop", (("ref", cell, pr, True),), ("sym", "@drop"), (fr.it["path"], 0, self.p.loc(t[-1]) if isinstance(t[-1], list) else "?"), (ty,)),)


def touches(E, st, a, cell, d=0):
    """the argument reaches the given cell by reference"""
    if d > 6 or not isinstance(a, tuple):
        return False
    if a[0] == "ref":
        return a[1] == cell or (a[1][0] not in ("obj",) and touches(E, st, st.mem.get(a[1], ("none",)), cell, d + 1)) \
            or (a[1][0] == "obj" and touches(E, st, a[1][1], cell, d + 1))
    if a[0] in ("agg", "clo"):
        return any(touches(E, st, x, cell, d + 1) for x in a[3])
    if a[0] == "call":
        return any(touches(E, st, x, cell, d + 1) for x in a[2])
    if a[0] in ("post",):
        return any(touches(E, st, x, cell, d + 1) for x in a[1:])
    if a[0] in ("sliceref", "box", "fld", "over"):
        return touches(E, st, a[1], cell, d + 1)
    return False


def run(ck):
    p = ck.p
    g = graph.load(p)
    ck.rule("finished", "a value whose destructor writes pending data is dropped on a path to success only after a checked flush or finish that follows its last use", 5)
    ck.rule("own-flush", "flushing a buffering writer of the crate performs, and reports, every write its destructor would perform", 1)
    ck.rule("reported", "errors of writing and flushing are reported by every function they pass through", 120)
    ck.assumptions += ["destructors of BufWriter, LineWriter and of the png, gif and tiff writers swallow errors (documented)",
                       "flush hands all buffered bytes to the operating system; durability beyond that is not claimed"]
    car = errflow.Carrier(p)
    io = c01.IoFns(p, car)
    # local types whose destructor performs I/O
    extra = {}
    for im in p.impls:
        if im.get("trait") == "std::ops::Drop" and im["_self"][0] == "adt":
            it = p.items.get(im["_items"]["drop"]["key"])
            if it and it["key"] in io.io:
                extra[im["_self"][1]] = ("flush", "finish", "into_inner")
                ck.each("own-flush", im["_self"][1], own_flush, ck, g, io, im, it)
    owned = Owned(p, extra)
    finishers = {n for h in list(FLUSHING.values()) + list(extra.values()) for n in h}
    for it in p.fns():
        body = it["body"]
        if it["path"].endswith("::drop"):
            continue
        if not any(b["t"][0] == "drop" and owned(place_type(p, body, b["t"][1])) for b in body["blocks"]) and \
                not any(b["t"][0] == "call" and b["t"][1][0] == "k" and moved_in(p, owned, body, b["t"]) for b in body["blocks"]):
            continue
        inst = it["path"]
        def one():
            inl = {t["key"] for s in g.sites[it["key"]] for t in g.targets(s.fi, s.fargs)
                   if any(x.fi and x.fi["name"] in finishers for x in g.sites.get(t["key"], ()))}
            E = DropEngine(p, owned, inl, max_paths=3000, max_steps=100000)
            args = [("sym", "arg%d" % k) for k in range(body["argc"])]
            outs = E.run(it, args)
            E.npaths = len(outs)
            ck.saw(E)
            bad = None
            n = 0
            for o in outs:
                if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                    continue
                effs = o.st.eff
                for i, e in enumerate(effs):
                    isdrop = e[1] == "@drop"
                    if not isdrop:
                        # moved into something that will drop it
                        mv = E.moved.get(e[3])
                        if not mv:
                            continue
                        ty, back, fi, fargs = mv
                        if e[1].split("::")[-1] in finishers:
                            if not checked(E, o, e[3]):
                                bad = bad or (e, "the outcome of %s is not checked" % e[1])
                            n += 1
                            continue
                        if back or g.targets(fi, fargs) or e[1].split("::")[0] in ("Option", "Result", "Try", "FromResidual", "Box"):
                            continue        # handed on inside the result, or analysed in the callee
                        bad = bad or (e, "%s takes it by value and drops it" % e[1])
                        n += 1
                        continue
                    n += 1
                    cell = e[2][0][1]
                    last = None
                    for f in effs[:i]:
                        if f[1] == "@drop" or not any(touches(E, o.st, a, cell) for a in f[2]):
                            continue
                        last = f
                    ty = e[5][0]
                    names = {x for _, h in owned(ty) for x in h}
                    if last is None or last[1].split("::")[-1] not in names:
                        bad = bad or (e, "a %s is dropped without being flushed or finished%s" % (p.tystr(ty), " after " + last[1] if last else ""))
                    elif not checked(E, o, last[3]):
                        bad = bad or (e, "the outcome of %s is not checked" % last[1])
            if bad:
                ck.bad("finished", inst, "%s (%s): success is returned although %s" % (it["path"], p.loc_of_item(it), bad[1]))
            else:
                ck.ok("finished", inst, n)
        ck.each("finished", inst, one)
    c01.consumed(ck, "reported", car, io)


def place_type(p, body, pl):
    t = p.ty(body["locals"][pl[0]][0])
    for e in pl[1:]:
        if e == "*":
            t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else ("other", "?"))
        elif e[0] == "f":
            t = p.ty(e[2])
        elif e[0] in ("i", "ci"):
            t = t[1] if t[0] in ("array", "slice") else ("other", "?")
    return t


def moved_in(p, owned, body, t):
    return any(a[0] == "m" and owned(place_type(p, body, a[1])) for a in t[2])


def checked(E, o, v):
    ef = err_facts(o.st)
    return ef.get(v) == 0 or flows(E, o.st, o.val, v) or any(x[0] == "fld" and x[1] == v and d == 0 for x, d in ef.items())


def own_flush(ck, g, io, im, drop):
    p = ck.p
    inst = im["_self"][1]
    need = {s.name for s in g.sites[drop["key"]] if s.fi and any(t["key"] in io.io for t in g.targets(s.fi, s.fargs)) or (s.fi and s.name.startswith("Write::"))}
    ws = [m for m in p.impls if m.get("trait", "").endswith("io::Write") and m["_self"][0] == "adt" and m["_self"][1] == inst]
    if not ws:
        ck.und("own-flush", inst, "no Write implementation")
        return
    fl = p.items.get(ws[0]["_items"]["flush"]["key"])
    E = errflow.ErrEngine(p, errflow.Carrier(p))
    outs = E.run(fl, [("sym", "self")])
    ck.saw(E)
    for o in outs:
        if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
            continue
        got = {e[1] for e in o.st.eff if checked(E, o, e[3])}
        if not need <= got:
            ck.bad("own-flush", inst, "%s (%s): flush succeeds without %s, which the destructor performs unchecked" % (
                fl["path"], p.loc_of_item(fl), ", ".join(sorted(need - got))))
            return
        if not any(n.endswith("::flush") for n in got):
            ck.bad("own-flush", inst, "%s (%s): flush succeeds without flushing the wrapped writer" % (fl["path"], p.loc_of_item(fl)))
            return
    ck.ok("own-flush", inst, sorted(need))
