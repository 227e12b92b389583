"""C20: looking at a stream to identify its format leaves it where it was - a position is followed through every
stream operation of every path."""
from vlib import absint, terms as T, tables as tb

STILL = {"Seek::stream_position", "BufRead::fill_buf", "Read::by_ref", "Seek::stream_len", "Write::flush", "BufRead::has_data_left"}
MOVES = {"Read::read", "Read::read_exact", "Read::read_to_end", "Read::read_to_string", "Read::take", "Read::bytes", "Read::chain", "io::copy",
         "BufRead::consume", "BufRead::read_until", "BufRead::read_line", "BufRead::lines", "BufRead::split", "BufRead::skip_until", "Read::read_vectored"}


def run(ck):
    ck.rule("guess", "every method of the reader that hands it back leaves its stream at the position where it was", 6)
    ck.rule("nested", "after looking at the first bytes of an icon the stream is put back to the start of the entry before the nested decoder gets it", 2)
    p = ck.p
    R = tb.find_adt(p, "ImageReader")
    if R is None:
        return
    fields = [f["n"] for f in p.adts[R]["variants"][0]["f"]]
    k = reader_field(p, R)
    for it in sorted(p.fns(), key=lambda x: x["path"]):
        if it["kind"] != "fn" or "impl_self" not in it or "impl_trait" in it or not it.get("exported"):
            continue
        t = p.ty(it["impl_self"])
        if t[0] != "adt" or t[1] != R or not it.get("sig"):
            continue
        ins, out = [p.ty(x) for x in it["sig"][:-1]], p.ty(it["sig"][-1])
        if not ins:
            continue
        byref = ins[0][0] == "ref" and ins[0][1] == t and ins[0][2]
        byval = ins[0] == t and mentions(out, R)
        wraps = ins[0][0] == "param" and mentions(out, R) and has(out, ins[0])
        if byref or byval or wraps:
            ck.each("guess", it["name"], guess, ck, p, it, R, k, byref, byval)
    icons(ck, p)


def reader_field(p, R):
    for i, f in enumerate(p.adts[R]["variants"][0]["f"]):
        if p.ty(f["ty"])[0] == "param":
            return i
    raise KeyError("stream of ImageReader")


def mentions(t, adt):
    if isinstance(t, tuple):
        return bool(t) and t[0] == "adt" and t[1] == adt or any(mentions(x, adt) for x in t)
    return False


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


START = ("sym", "stream")


class Pos:
    """position of a stream value: ('at', term) relative to nothing, ('start',) + deltas, or ('moved', by what)"""

    def __init__(self, E, st):
        self.E, self.st = E, st

    def of(self, t, depth=0):
        t = self.peel(t)
        if t == START:
            return ("start", 0)
        if t[0] == "post" and depth < 60:
            call = t[1]
            prev = lambda: self.of(t[2] if len(t) > 2 else call[2][0], depth + 1)
            nm = call[1]
            if nm in STILL:
                return prev()
            if nm in ("Seek::seek", "Seek::rewind", "Seek::seek_relative"):
                if nm == "Seek::rewind":
                    return ("at", T.c(0))
                a = self.peel(call[2][1])
                if nm == "Seek::seek_relative":
                    return self.rel(prev(), a)
                if a[0] == "agg" and a[1].endswith("SeekFrom"):
                    v = [x["n"] for x in self.E.p.adts[a[1]]["variants"]][a[2]] if a[1] in self.E.p.adts else ("Start", "End", "Current")[a[2]]
                    if v == "Start":
                        return self.value(a[3][0], depth + 1)
                    if v == "Current":
                        return self.rel(prev(), self.peel(a[3][0]))
                    return ("end", T.show(a[3][0])[:60])
                return ("unknown", T.show(a)[:80])
            if nm == "Read::read_exact":
                n = self.length(call)
                q = prev()
                if n is not None and q[0] == "start":
                    return ("start", q[1] + n)
                return ("moved", nm)
            if nm in MOVES or nm.startswith("ReadBytesExt::"):
                return ("moved", nm, prev())
            return ("unknown", nm)
        return ("unknown", T.show(t)[:80])

    def length(self, call):
        b = self.peel(call[2][1]) if len(call[2]) > 1 else None
        while b is not None and b[0] in ("rf", "post", "unsize"):
            b = self.peel(b[2] if b[0] == "post" else b[1])
        if b is not None and b[0] == "agg" and b[1] == "array":
            return len(b[3])
        if b is not None and b[0] == "sliceref" and b[3][0] == "c":
            return b[3][1]
        return None

    def rel(self, q, d):
        if d[0] == "c" and q[0] == "start":
            return ("start", q[1] + d[1])
        if d[0] == "c" and d[1] == 0:
            return q
        if q[0] == "moved" and d[0] == "c":
            return ("moved", "%s and a step of %d bytes" % (q[1], d[1]))
        if q[0] == "moved" and len(q) > 2:
            # back by exactly what was read
            n = d
            neg = False
            while True:
                n = self.peel(n)
                if n[0] == "op" and n[1] in ("Neg", "neg"):
                    neg, n = not neg, n[2]
                elif n[0] in ("proj", "fld", "field", "vf", "pr"):
                    n = n[1]
                else:
                    break
            if neg and n[0] == "call" and n[1] in ("io::copy", "Read::read", "Read::read_to_end") and T.contains(n, START):
                return q[2]
        return ("unknown", "relative seek")

    def peel(self, t):
        while True:
            if t[0] in ("rf", "box", "deref") and len(t) == 2:
                t = t[1]
            elif t[0] == "cast":
                t = t[3]
            else:
                return t

    def value(self, t, depth):
        """a position held in a variable"""
        t = self.peel(t)
        u = t
        while u[0] in ("proj", "fld", "field", "vf", "pr"):
            u = u[1]
        u = self.peel(u)
        if u[0] == "call" and u[1] == "Seek::stream_position":
            return self.of(u[2][0], depth + 1)
        if u[0] == "call" and u[1] == "Seek::seek":
            return self.of(("post", u, u[2][0]), depth + 1)
        return ("at", t)


def guess(ck, p, it, R, k, byref, byval):
    E = absint.Engine(p, no_inline=lambda fi, n: n.endswith("guess_format_impl"))
    st = absint.State()
    vals = []
    for i, f in enumerate(p.adts[R]["variants"][0]["f"]):
        vals.append(START if i == k else ("sym", f["n"]))
    obj = ("agg", R, 0, tuple(vals))
    args = [("sym", "arg%d" % i) for i in range(it["body"]["argc"])]
    if byref:
        args[0] = tb.by_ref(st, obj)
        st.mem[("arg", "self")] = obj
        args[0] = ("ref", ("arg", "self"), (), True)
    elif byval:
        args[0] = obj
    else:
        args[0] = START
    outs = E.run(it, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    n = 0
    for o in outs:
        if o.kind != "ret":
            if o.kind != "panic":
                ck.und("guess", it["name"], "%s: a path ends in %s" % (where, o.kind))
            continue
        v = E.deep(o.st, o.val)
        if byref:
            v = E.deep(o.st, o.st.mem[("arg", "self")])
            if failing(E, o.st, o.val):
                continue
        inner = stream_in(v, R, k)
        if inner is None:
            continue          # an error is returned, without the reader
        n += 1
        q = Pos(E, o.st).of(inner)
        if q == ("start", 0):
            continue
        if q[0] == "unknown":
            ck.und("guess", it["name"], "%s: the stream is passed to %s" % (where, q[1]))
            return
        how = {"moved": "wherever %s left it", "at": "at position %s, not where it was", "end": "%s from its end", "start": "moved by %s bytes"}[q[0]]
        ck.bad("guess", it["name"], "%s: hands the reader back with its stream %s" % (
            where, how % (q[1] if isinstance(q[1], (str, int)) else T.show(q[1])[:80],)))
        return
    if n:
        ck.ok("guess", it["name"], "%d paths" % n)
    else:
        ck.und("guess", it["name"], "%s: no path hands the reader back" % where)


def failing(E, st, v):
    v = E.strip(st, v)
    return v[0] == "agg" and v[1].endswith("result::Result") and v[2] == 1


def stream_in(v, R, k):
    if not isinstance(v, tuple):
        return None
    if v and v[0] == "agg":
        if v[1] == R:
            return v[3][k]
        for x in v[3]:
            r = stream_in(x, R, k)
            if r is not None:
                return r
    return None


def icons(ck, p):
    for it in p.fns():
        if it["kind"] != "fn" or "codecs::ico" not in it["path"] or not it.get("sig"):
            continue
        out = p.ty(it["sig"][-1])
        if not mentions_suffix(out, "InnerDecoder"):
            continue
        if not any(p.ty(x)[0] == "param" for x in it["sig"][:-1]):
            continue
        ck.each("nested", it["name"], icon, ck, p, it)


def mentions_suffix(t, s):
    if isinstance(t, tuple):
        return bool(t) and t[0] == "adt" and t[1].endswith(s) or any(mentions_suffix(x, s) for x in t)
    return False


def icon(ck, p, it):
    made = []

    def stop(fi, n):
        return n.split("::")[0] in ("PngDecoder", "BmpDecoder")
    E = absint.Engine(p, no_inline=stop)
    st = absint.State()
    args, entry = [], None
    for i, x in enumerate(it["sig"][:-1]):
        t = p.ty(x)
        if t[0] == "param":
            args.append(START)
        elif t[0] == "ref" and t[1][0] == "adt" and t[1][1] in p.adts:
            flds = [f["n"] for f in p.adts[t[1][1]]["variants"][0]["f"]]
            args.append(tb.by_ref(st, ("agg", t[1][1], 0, tuple(("sym", f) for f in flds)), "entry"))
            entry = flds
        elif t[0] == "adt" and t[1] in p.adts:
            flds = [f["n"] for f in p.adts[t[1]]["variants"][0]["f"]]
            args.append(("agg", t[1], 0, tuple(("sym", f) for f in flds)))
            entry = flds
        else:
            args.append(("sym", "arg%d" % i))
    outs = E.run(it, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    done = {}
    for o in outs:
        for e in o.st.eff:
            if e[1].split("::")[0] in ("PngDecoder", "BmpDecoder") and e[2]:
                a = None
                for x in e[3][2] if e[3] and e[3][0] == "call" else e[2]:
                    a = x
                    break
                q = Pos(E, o.st).of(a)
                done.setdefault(e[1], []).append(q)
    for nm, qs in sorted(done.items()):
        bad = [q for q in qs if not (q[0] == "at" and "image_offset" in T.show(q[1]))]
        if not bad:
            ck.ok("nested", nm, "stream at the entry's offset on %d paths" % len(qs))
        elif any(q[0] == "unknown" for q in bad):
            ck.und("nested", nm, "%s: %s" % (where, bad[0]))
        else:
            ck.bad("nested", nm, "%s: %s gets the stream %s instead of at the start of the entry" % (where, nm, " ".join(str(x) for x in bad[0])[:120]))
