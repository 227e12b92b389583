"""C06: every decoder refuses a buffer of the wrong length before it writes to it."""
import re
from vlib import absint, terms as T, tables as tb
from vlib.absint import Out
from vlib.errflow import is_failure
from . import limits as L
from .c04 import default_of
from .c05 import BPP

BUF = ("sym", "buf")
LEN = ("len", ("deref", BUF))
MAX = 2**64 - 1
# reborrowing part of a slice is not writing to it
REBORROW = re.compile(r"^(slice::(split_at_mut|split_at_mut_checked|chunks_mut|chunks_exact_mut|rchunks_mut|iter_mut|get_mut|as_mut_ptr|"
                      r"as_mut|first_mut|last_mut|split_first_mut|len|is_empty|iter|as_ptr)|IndexMut::index_mut|Index::index|DerefMut::deref_mut|"
                      r"AsMut::as_mut|BorrowMut::borrow_mut|IntoIterator::into_iter|bytemuck::\w+|Iterator::\w+|mem::take|"
                      r"ImageBuffer::from_raw)$")


class StopEngine(absint.Engine):
    """stops a path at the first write through the caller's buffer"""

    judge = None

    def safe(self, st):
        """the facts on the path already rule out every wrong length"""
        fs = tuple(f for f in st.facts if T.contains(f[0], LEN))
        if not fs or not self.judge:
            return False
        k = tuple(st.facts)
        if k not in self.memo:
            self.memo[k] = self.judge(Out(st, "ret"))[0] is True
        return self.memo[k]

    def is_buf(self, cell):
        return cell[0] in ("obj", "sl") and T.contains(cell, BUF)

    def mark(self, st, what, site):
        if not any(e[0] == "bufwrite" for e in st.eff):
            st.eff = st.eff + (("bufwrite", what, (), None, site, ()),)

    def store(self, st, fr, cell, pr, v, s):
        if self.is_buf(cell):
            self.mark(st, "store", (fr.it["path"], 0, self.p.loc(s[-1]) if s and isinstance(s[-1], list) else "?"))
        super().store(st, fr, cell, pr, v, s)

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        if not REBORROW.match(name) and any(self.holds(st, a) for a in args):
            for o in outs:
                self.mark(o.st, name, (fr.it["path"], bb, self.p.loc(t[6])))
        return outs

    def holds(self, st, a, d=0):
        """the argument gives mutable access to the buffer"""
        if not isinstance(a, tuple) or d > 5:
            return False
        if a == BUF:
            return True
        if a[0] == "ref":
            if self.is_buf(a[1]):
                return bool(a[3])
            return bool(a[3]) and self.holds(st, self.read(st, a[1], a[2]), d + 1)
        if a[0] in ("agg", "clo"):
            return any(self.holds(st, x, d + 1) for x in a[3])
        if a[0] == "sliceref":
            return self.holds(st, a[1], d + 1)
        return False

    def block(self, st, fr, bb):
        r = super().block(st, fr, bb)
        out = []
        for x in r:
            s = x.st if isinstance(x, Out) else x[0]
            if self.safe(s):
                out.append(Out(s, "safe"))
            elif any(e[0] == "bufwrite" for e in s.eff) and (not isinstance(x, Out) or x.kind != "panic"):
                out.append(Out(s, "stop"))
            else:
                out.append(x)
        return out


def run(ck):
    p = ck.p
    ck.rule("length", "no write through the buffer handed to read_image / read_image_boxed, and no success, is reachable unless its length equals width x height x bytes per pixel", 30)
    ck.rule("own-call", "the library's own calls hand decoders a buffer of total_bytes", 1)
    C = tb.find_adt(p, "ColorType")
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "ImageDecoder":
            continue
        nm = p.tystr(im["_self"]).split("<")[0].split("::")[-1]
        for m in ("read_image", "read_image_boxed"):
            e = im["_items"].get(m)
            it = p.items.get(e["key"]) if e else None
            if it is None or "body" not in it:
                ck.und("length", nm + "::" + m, "no body")
                continue
            ck.each("length", nm + "::" + m, one, ck, C, im, it, nm, nm + "::" + m)
    own_call(ck)


def colours(ck, C, im):
    """colour types the decoder can report"""
    p = ck.p
    it = p.items[im["_items"]["color_type"]["key"]]
    E = absint.Engine(p)
    st = absint.State()
    st.mem[("arg", "self")] = ("sym", "decoder")
    try:
        outs = E.run(it, [("ref", ("arg", "self"), (), False)], st=st)
    except absint.Undecided:
        return None
    r = set()
    for o in outs:
        if o.kind == "ret":
            v = E.strip(o.st, o.val)
            if v[0] != "agg" or v[1] != C:
                return None
            r.add(v[2])
    return r


def one(ck, C, im, it, nm, inst):
    p = ck.p
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    vs = colours(ck, C, im)
    names = [v["n"] for v in p.adts[C]["variants"]]
    if vs is None:
        vs = {i for i, n in enumerate(names) if n in ("L8", "Rgb8", "Rgba16", "Rgb32F")}
    w, h = ("sym", "w", L.U32), ("sym", "h", L.U32)
    n = 0
    und = None
    for cv in sorted(vs):
        bpp = BPP.get(names[cv])
        if bpp is None:
            continue

        def hook(E, st, fr, name, fi, fargs, args, site):
            # the decoder's own answers (not those of a decoder nested inside it)
            if name in ("ImageDecoder::dimensions", "ImageDecoder::color_type") and fargs and p.tystr(fargs[0]) == p.tystr(im["_self"]):
                return [Out(st, "ret", absint.tup(w, h) if name.endswith("dimensions") else ("agg", C, cv, ()))]
            if name == "ImageDecoder::total_bytes" and nm == "Box" or name in ("ImageDecoder::read_image", "ImageDecoder::read_image_boxed") and nm == "Box":
                if name.endswith("total_bytes"):
                    return None
                if len(args) == 2 and args[1] == BUF:
                    return [Out(st, "ret", ("sym", "forwarded"))]
            return None
        def judge(o):
            if by_total(ck, im, o):
                return True, ""
            und = None
            for a in (0, 1, 3, 70000, 2**32 - 1):
                for b in (0, 1, 5, 2**32 - 1):
                    tot = min(min(a * b, MAX) * bpp, MAX)
                    for l in sorted({0, 1, tot - 1, tot + 1, tot * 2, tot // 2, tot + bpp * a}):
                        if l == tot or l < 0 or l > 2**63:
                            continue
                        env = {w: a, h: b, LEN: l}
                        f, u = L.feasible(o, env)
                        if f is False:
                            continue
                        if any(L.mentions(t, [LEN]) for t in u):
                            und = [T.show(t)[:120] for t in u if L.mentions(t, [LEN])][0]
                            continue
                        return False, "a buffer of %d bytes for a %dx%d %s image (%d bytes)" % (l, a, b, names[cv], tot)
            return (None, und) if und else (True, "")
        E = StopEngine(p, hook=hook, max_paths=6000, max_steps=120000)
        E.judge, E.memo = judge, {}
        st = absint.State()
        st.mem[("arg", "self")] = ("sym", "decoder")
        me = ("sym", "decoder")
        if it["name"] == "read_image_boxed" and nm != "Box":
            me = ("box", ("ref", ("arg", "self"), (), True))
        outs = E.run(it, [me, BUF], st=st)
        E.npaths = len(outs)
        ck.saw(E)
        for o in outs:
            if o.kind == "panic":
                continue
            if o.kind == "safe" or o.kind == "ret" and o.val == ("sym", "forwarded"):
                n += 1
                continue
            wr = [e for e in o.st.eff if e[0] == "bufwrite"]
            if o.kind == "ret" and is_failure(E, o.st, o.val) is True:
                continue
            r, t = judge(o)
            if r is None:
                und = "%s: length condition not determined: %s" % (where, t)
            elif r is False:
                what = "%s at %s" % (wr[0][1], wr[0][4][2]) if wr else "success"
                return ck.bad("length", inst, "%s: %s is reached with %s" % (where, what, t))
            else:
                n += 1
    if und:
        ck.und("length", inst, und)
    else:
        ck.judge("length", inst, True if n else None, "%s: no write or success found" % where, "%d paths" % n)


def by_total(ck, im, o):
    """the path has established that the length equals the decoder's own total_bytes"""
    p = ck.p
    e = im["_items"].get("total_bytes")
    it = p.items.get(e["key"]) if e else default_of(p, "ImageDecoder", "total_bytes")
    st = o.st.fork()
    st.eff = ()
    st.mem[("arg", "self")] = ("sym", "decoder")
    E2 = absint.Engine(p)
    try:
        outs = E2.run(it, [("ref", ("arg", "self"), (), False)], subst={} if e else {0: im["_self"]}, st=st)
    except absint.Undecided:
        return False
    outs = [x for x in outs if x.kind == "ret"]
    return bool(outs) and all(E2.truth(x.st, T.eq(LEN, E2.strip(x.st, x.val))) is True for x in outs)


def own_call(ck):
    """functions of the library that create the buffer themselves"""
    p = ck.p
    for it in p.fns():
        if it["name"] != "decoder_to_vec":
            continue
        def f():
            tot = ("sym", "total bytes", (0, MAX))
            def hook(E, st, fr, name, fi, fargs, args, site):
                if name == "ImageDecoder::total_bytes":
                    return [Out(st, "ret", tot)]
                if name == "mem::size_of":
                    return [Out(st, "ret", ("sym", "size_of", (1, 8)))]
            E = absint.Engine(p, hook=hook, no_inline=lambda fi, n: n == "ImageDecoder::read_image")
            outs = E.run(it, [("sym", "decoder")])
            ck.saw(E)
            where = "%s (%s)" % (it["path"], p.loc_of_item(it))
            n = 0
            for o in outs:
                for e in o.st.eff:
                    if e[1] == "ImageDecoder::read_image":
                        al = [x for x in o.st.eff if x[1] == "vec::from_elem"]
                        for x in al:
                            for t in (0, 8, 24, 4096):
                                for s in (1, 2, 4):
                                    g = T.evalt(E.strip(o.st, x[2][1]), {tot: t, ("sym", "size_of", (1, 8)): s})
                                    if g is None:
                                        return ck.und("own-call", it["path"], "allocation of %s" % T.show(x[2][1]))
                                    n += 1
                                    if g * s != t:
                                        return ck.bad("own-call", it["path"], "%s allocates %d elements of %d bytes for %d bytes" % (where, g, s, t))
            ck.judge("own-call", it["path"], True if n else None, "%s: allocation not found" % where, "%d cases" % n)
        ck.each("own-call", it["path"], f)
