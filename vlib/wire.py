"""The bytes a function writes.

Byte buffers (Vec<u8> made in the function, or handed to it) and the destination of an encoder are opaque streams; what is appended
to them is recorded as events.  A summary (vlib.trace) evaluated for given input values yields the exact sequence of bytes."""
from . import absint, models, trace, terms as T
from .absint import Out, Undecided

UNIT = ("agg", "tuple", 0, ())
c = T.c
APPEND = {"extend_from_slice", "extend", "push", "clear", "truncate", "append", "resize"}
INTS = {"write_u8": 1, "write_i8": 1, "write_u16": 2, "write_i16": 2, "write_u32": 4, "write_i32": 4, "write_u64": 8, "write_i64": 8}


class Wire(trace.Tracer):
    """streams: values ("stream", name)"""

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        m = name.split("::")[-1]
        if name in ("Vec::new", "Vec::with_capacity", "String::new") or m == "default" and name.startswith("Vec::"):
            self.uid += 1
            n = "vec%d" % self.uid
            st.eff = st.eff + (("ev", "make", n, c(0), c(0)),)
            return [Out(st, "ret", ("stream", n))]
        if name in ("Iterator::any", "Iterator::all") and len(args) == 2:
            r = self.quantifier(st, fr, m, args, site)
            if r is not None:
                return r
        if name.startswith("Argument::new_") and len(args) == 1:
            return [Out(st, "ret", ("fmtarg", m[4:], args[0], fargs[-1] if fargs else None))]
        if name == "Arguments::new" and len(args) == 2:
            t, a = self.lit(st, args[0]), self.strip(st, args[1])
            if t is not None and a[0] == "agg" and a[1] in ("array", "tuple"):
                return [Out(st, "ret", ("fmtargs", t, a[3]))]
        if name in ("Arguments::from_str", "Arguments::new_const") and len(args) == 1:
            t = self.lit(st, args[0])
            if t is not None:
                return [Out(st, "ret", ("fmtargs", None, (t,)))]
        if m == "write_fmt" and len(args) == 2 and args[1][0] == "fmtargs":
            r = self.formatted(st, fr, fargs, args[0], args[1], site)
            if r is not None:
                return r
        if m in ("from", "to_vec", "to_owned", "into") and len(args) == 1 and self.is_bytes(fi, fargs, name):
            try:
                v = self.payload(st, args[0])
            except Undecided:
                v = None
            if v is not None:
                self.uid += 1
                n = "vec%d" % self.uid
                self.fixed = self.fixed | {n}
                st.eff = st.eff + (("ev", "make", n, c(0), c(0)), ("ev", "w", n, c(0), c(0), v), ("ev", "data", n, c(0), c(0)))
                return [Out(st, "ret", ("stream", n))]
        if m == "swap" and len(args) == 3 and args[0][0] == "sliceref":
            n = self.stream(st, args[0][1])
            if n is not None:
                st.eff = st.eff + (("ev", "swap", n, T.add(args[0][2], args[1]), T.add(args[0][2], args[2]), args[0][2], args[0][3]),)
                return [Out(st, "ret", UNIT)]
        if args:
            n = self.stream(st, args[0])
            if n is not None:
                r = self.on_dest(st, n, name, m, fargs, args)
                if r is not None:
                    return r
        return super().on_call(E, st, fr, name, fi, fargs, args, site)

    def quantifier(self, st, fr, m, args, site):
        """any / all over a slice with a test that has no effects: decided when the summary is evaluated"""
        it = self.strip(st, args[0])
        if it[0] != "it" or it[1] != "slice":
            return None
        n = models.it_count(self, st, it)
        self.uid += 1
        k = ("ind", (fr.it["path"], "quantifier", fr.site, fr.depth, self.uid), site[1])
        t = [None] * 8
        outs, e0, f0 = [], st.eff, st.facts
        for s, v in models.it_elem(self, st.fork(), fr, it, k, site[1], t) or ():
            outs += self.call_value(s, fr, args[1], [v], site[1], t)
        if not outs or any(o.kind != "ret" or o.st.eff[:len(e0)] != e0 or any(e[0] == "ev" for e in o.st.eff[len(e0):]) for o in outs):
            return None
        x = ("sym", "quant.%d" % self.uid, (0, 1))
        cases = tuple((tuple(f for f in o.st.facts if f not in f0), o.val) for o in outs)
        st.eff = st.eff + (("ev", "quant", m, n, k, x, cases),)
        return [Out(st, "ret", x)]

    def lit(self, st, v):
        """the bytes of a constant"""
        v = self.strip(st, v)
        if v[0] == "s" and isinstance(v[1], str):
            return v[1].encode()
        if v[0] == "agg" and v[1] == "array" and all(x[0] == "c" for x in v[3]):
            return bytes(x[1] for x in v[3])
        return None

    def pieces(self, f):
        """what a format string consists of: bytes, and the arguments between them (formatted without options)"""
        if f[1] is None:
            return [f[2][0]]
        t, out, i, k = f[1], [], 0, 0
        while i < len(t) and t[i]:
            if t[i] < 128:
                out.append(t[i + 1:i + 1 + t[i]])
                i += 1 + t[i]
            elif t[i] == 128:
                n = t[i + 1] + 256 * t[i + 2]
                out.append(t[i + 3:i + 3 + n])
                i += 3 + n
            elif t[i] == 192:
                out.append(f[2][k])
                k += 1
                i += 1
            elif t[i] == 200:
                k = t[i + 1] + 256 * t[i + 2]
                out.append(f[2][k])
                k += 1
                i += 3
            else:
                return None
        return out

    def item(self, ty):
        """what iterating over a slice yields"""
        if ty and ty[0] == "proj" and ty[1:3] == ("std::iter::Iterator", "Item") and ty[3][0][0] == "adt":
            a = ty[3][0]
            if a[1] == "std::slice::Iter":
                return a[2][0]
            if a[1] in ("std::iter::Copied", "std::iter::Cloned"):
                return self.item(("proj", ty[1], ty[2], (a[2][0],)))
            if a[1] == "std::iter::Map" and a[2][1][0] == "closure":
                it = self.p.items.get(a[2][1][1])
                if it is not None and "body" in it:
                    return self.p.ty(it["body"]["locals"][0][0])
        return ty

    def formatted(self, st, fr, fargs, dest, f, site):
        ps = self.pieces(f)
        if ps is None:
            return None
        n = self.stream(st, dest)
        good = ("agg", absint.RESULT, 0, (UNIT,))
        states = [st]
        for i, x in enumerate(ps):
            nxt = []
            for s in states:
                if isinstance(x, bytes):
                    val = ("agg", "array", 0, tuple(c(b) for b in x))
                else:
                    v, ty = self.strip(s, x[2]), x[3]
                    ty = self.item(ty)
                    while ty and ty[0] == "ref":
                        ty = ty[1]
                    if x[1] != "display" or not ty:
                        return None
                    if ty[0] == "prim" and ty[1][:1] in "iu":
                        val = ("decimal", v)
                    elif ty == ("prim", "str"):
                        val = self.payload(s, v)
                    elif n is not None and ty[0] == "adt":
                        r = self.p.find_impl("std::fmt::Display", (ty,))
                        if not r:
                            return None
                        it = self.p.items.get(r[0]["_items"]["fmt"]["key"])
                        for o in self.exec_body(s, it, it["body"], r[1], [x[2], ("rf", ("stream", n))], fr.depth + 1, (fr.site, (site[1], i))):
                            if o.kind != "ret" or o.val[:3] != good[:3]:
                                return None
                            nxt.append(o.st)
                        continue
                    else:
                        return None
                if n is not None:
                    self.put(s, n, val)
                    nxt.append(s)
                    continue
                # a writer of this crate: it is given each piece
                r = self.p.find_impl("std::io::Write", fargs[:1])
                it = self.p.items.get(r[0]["_items"]["write"]["key"]) if r else None
                if it is None:
                    return None
                self.uid += 1
                k = "vec%d" % self.uid
                self.fixed = self.fixed | {k}
                s.eff = s.eff + (("ev", "make", k, c(0), c(0)), ("ev", "w", k, c(0), c(0), val), ("ev", "data", k, c(0), c(0)))
                ln = ("len", ("stream", k))
                for o in self.exec_body(s, it, it["body"], r[1], [dest, ("rf", ("stream", k))], fr.depth + 1, (fr.site, (site[1], i))):
                    if o.kind != "ret":
                        return None
                    if o.val[:3] == good[:3] and o.val[3] != (ln,):
                        raise Undecided("a writer that takes a piece in parts")
                    if o.val[:3] == good[:3]:
                        nxt.append(o.st)
                    else:
                        o.st.eff = o.st.eff + (("ev", "nofail", k, c(0), c(0)),)
                        nxt.append(o.st)
            states = nxt
        return [Out(s, "ret", good) for s in states]

    def on_drop(self, st, fr, t):
        """a value of this crate that holds a buffer may write it when it is dropped: followed only where the buffer is empty then"""
        ty = self.p.ty(t[4]) if isinstance(t[4], int) else t[4]
        if ty[0] == "adt" and self.p.adts.get(ty[1], {}).get("local", True) and self.p.find_impl("std::ops::Drop", (ty,)):
            cell, pr = self.place(st, fr, t[1])
            for n in self.streams_in(self.read(st, cell, pr)):
                st.eff = st.eff + (("ev", "dropped", n, c(0), c(0)),)

    def streams_in(self, v):
        if v[0] == "stream":
            return [v[1]]
        return [n for x in v[3] for n in self.streams_in(x)] if v[0] == "agg" else []

    def is_bytes(self, fi, fargs, name):
        u8, t = ("prim", "u8"), fargs[0] if fargs else None
        if name in ("From::from", "Into::into"):
            t = fargs[0 if name == "From::from" else -1]
            return t[0] == "adt" and t[1] == "std::vec::Vec" and t[2][:1] == (u8,)
        return name.split("::")[0] in ("slice", "ToOwned") and t in (u8, ("slice", u8))

    def len_of_ref(self, st, a):
        n = self.stream(st, a) if a[0] in ("ref", "rf") else None
        if n in self.fixed:
            return ("len", ("stream", n))
        if n is not None:
            self.uid += 1
            x = ("sym", "len.%d" % self.uid, (0, 2**63 - 1))
            st.eff = st.eff + (("ev", "len", n, c(0), c(0), x),)
            return x
        return super().len_of_ref(st, a)

    def enter_loop(self, st, fr, h):
        """a reference to a stream keeps its identity through a loop"""
        rec = super().enter_loop(st, fr, h)
        same = {}
        for (cell, pr), (ph, v) in rec.items():
            if v[0] in ("ref", "rf") and self.stream(st, v) is not None:
                same[(cell, pr)] = v
        for (cell, pr), v in same.items():
            self.write(st, cell, pr, v)
        self.same = dict(self.same)
        self.same[(fr.it["path"], h, fr.site, fr.depth)] = same
        return rec

    same = {}

    def back_edge(self, st, fr, h, rec):
        for (cell, pr), v in self.same.get((fr.it["path"], h, fr.site, fr.depth), {}).items():
            if self.stream(st, self.read(st, cell, pr)) != self.stream(st, v):
                raise Undecided("a loop exchanges destinations")
        return super().back_edge(st, fr, h, rec)

    def stream(self, st, v):
        for _ in range(8):
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            elif v[0] in ("rf", "deref", "clone"):
                v = v[1]
            elif v[0] == "sliceref" and v[2] == c(0):
                v = v[1]
            else:
                break
        return v[1] if v[0] == "stream" else None

    def length(self, v):
        if v[0] == "stream" and v[1] in self.fixed:
            return ("len", v)
        return super().length(v)

    fixed = frozenset()     # streams that are copies of data and keep their length

    def put(self, st, n, val):
        if n in self.fixed:
            raise Undecided("a copy of data grows")
        st.eff = st.eff + (("ev", "w", n, c(0), c(0), val),)

    def on_dest(self, st, n, name, m, fargs, args):
        if m in ("by_ref", "as_mut", "as_ref", "borrow_mut", "as_slice", "deref", "deref_mut", "into_iter", "iter", "get_mut", "as_mut_slice"):
            return [Out(st, "ret", ("rf", ("stream", n)))]
        if m in ("reserve", "shrink_to_fit", "reserve_exact"):
            return [Out(st, "ret", UNIT)]
        if m in ("len", "is_empty") and n in self.fixed:
            x = ("len", ("stream", n))
            return [Out(st, "ret", x if m == "len" else T.eq(x, c(0)))]
        if m in ("len", "is_empty"):
            self.uid += 1
            x = ("sym", "len.%d" % self.uid, (0, 2**63 - 1))
            st.eff = st.eff + (("ev", "len", n, c(0), c(0), x),)
            return [Out(st, "ret", x if m == "len" else T.eq(x, c(0)))]
        if m == "drain" and args[1][0] == "agg" and args[1][1].endswith("::RangeTo") and n not in self.fixed:
            st.eff = st.eff + (("ev", "cut", n, args[1][3][0], c(0)),)
            return [Out(st, "ret", ("call", "drained", (), 0))]
        if m in ("write_str",):
            self.put(st, n, self.payload(st, args[1]))
            return [Out(st, "ret", trace.ok_(UNIT))]
        if m == "flush":
            return [Out(st, "ret", trace.ok_(UNIT))]
        if m == "clear":
            if n in self.fixed:
                raise Undecided("a copy of data is emptied")
            st.eff = st.eff + (("ev", "make", n, c(0), c(0)),)
            return [Out(st, "ret", UNIT)]
        if m == "push":
            self.put(st, n, ("agg", "array", 0, (args[1],)))
            return [Out(st, "ret", UNIT)]
        if m in ("extend_from_slice", "extend", "append"):
            self.put(st, n, self.payload(st, args[1]))
            if m == "append":
                return None
            return [Out(st, "ret", UNIT)]
        if m in ("write_all", "write"):
            v = self.payload(st, args[1])
            self.put(st, n, v)
            if m == "write":
                return [Out(st, "ret", trace.ok_(self.len_of_ref(st, args[1])))]
            return [Out(st, "ret", trace.ok_(UNIT))]
        if m in INTS:
            w = INTS[m]
            end = "BE" if w == 1 else "LE" if "LittleEndian" in repr(fargs[1:]) else "BE" if "BigEndian" in repr(fargs[1:]) else None
            if end is None:
                return None
            self.put(st, n, ("bytesof", end, w, args[1]))
            return [Out(st, "ret", trace.ok_(UNIT))]
        return None

    def payload(self, st, v):
        n = self.stream(st, v)
        if n is not None:
            return ("stream", n)
        if v[0] == "sliceref":
            return ("sliceref", self.payload(st, v[1]), v[2], v[3])
        if v[0] == "ref":
            x = self.read(st, v[1], v[2])
            return self.payload(st, x) if x[0] in ("ref", "sliceref", "rf", "box") else self.deep(st, x)
        return self.deep(st, v)


class Rope:
    """a byte sequence in which a piece of a blob is one item ("run", tag, start, length)"""

    def __init__(self, items=()):
        self.items = []
        self.n = 0
        for x in items:
            self.add(x)

    def add(self, x):
        if isinstance(x, tuple) and x[0] == "run":
            if not x[3]:
                return
            l = self.items[-1] if self.items else None
            if isinstance(l, tuple) and l[0] == "run" and l[1] == x[1] and l[2] + l[3] == x[2]:
                self.items[-1] = ("run", x[1], l[2], l[3] + x[3])
            else:
                self.items.append(x)
            self.n += x[3]
        else:
            self.items.append(x)
            self.n += 1

    def extend(self, r):
        for x in r.items:
            self.add(x)

    def __len__(self):
        return self.n

    def cut(self, a, b):
        """items a..b"""
        out, at = Rope(), 0
        for x in self.items:
            k = x[3] if isinstance(x, tuple) and x[0] == "run" else 1
            lo, hi = max(a, at), min(b, at + k)
            if lo < hi:
                out.add(("run", x[1], x[2] + lo - at, hi - lo) if isinstance(x, tuple) and x[0] == "run" else x)
            at += k
            if at >= b:
                break
        return out

    def reader(self):
        return Reader(self)


class Reader:
    def __init__(self, rope):
        self.items = list(reversed(rope.items))
        self.left = rope.n

    def take(self, n):
        """the next n bytes as a Rope"""
        out = Rope()
        n = min(n, self.left)
        self.left -= n
        while n:
            x = self.items.pop()
            if isinstance(x, tuple) and x[0] == "run":
                k = min(n, x[3])
                out.add(("run", x[1], x[2], k))
                if k < x[3]:
                    self.items.append(("run", x[1], x[2] + k, x[3] - k))
                n -= k
            else:
                out.add(x)
                n -= 1
        return out

    def num(self, n, end="BE"):
        """an n-byte number, None if it is cut short or its bytes are not known"""
        r = self.take(n)
        if r.n != n or any(not isinstance(x, int) for x in r.items):
            return None
        return int.from_bytes(bytes(r.items), "big" if end == "BE" else "little")


class Emit(trace.Run):
    """evaluates a Wire summary: self.buf[name] is the content of a stream (a Rope); unknown bytes are terms"""

    def __init__(self, summary, env, blobs=None, limit=400000):
        """blobs: {term of a byte slice: (tag, length)}: its i-th byte is reported as (tag, i)"""
        super().__init__(summary, env, {}, limit)
        self.buf = {}
        self.blobs = blobs or {}

    def event(self, e):
        if e[0] == "ev" and e[1] == "make":
            self.buf[e[2]] = Rope()
            return
        if e[0] == "ev" and e[1] == "len":
            self.env[e[5]] = len(self.buf.setdefault(e[2], Rope()))
            return
        if e[0] == "ev" and e[1] == "w":
            self.buf.setdefault(e[2], Rope()).extend(self.blob(e[5]))
            return
        if e[0] == "ev" and e[1] == "quant":
            self.env[e[5]] = self.quant(e[2], self.ev(e[3]), e[4], e[6])
            return
        if e[0] == "ev" and e[1] == "cut":
            k = self.ev(e[3])
            if k is None:
                raise Undecided("length of a removed part")
            b = self.buf.setdefault(e[2], Rope())
            if k > len(b):
                self.fault = ("removes %d of %d bytes" % (k, len(b)),)
                return
            self.buf[e[2]] = b.cut(k, len(b))
            return
        if e[0] == "ev" and e[1] == "nofail":
            raise Undecided("a writer of this crate fails")
        if e[0] == "ev" and e[1] == "dropped":
            if len(self.buf.get(e[2], Rope())):
                raise Undecided("a buffer is dropped while it holds data")
            return
        if e[0] == "ev" and e[1] == "data":
            self.data(e[2])
            return
        if e[0] == "ev" and e[1] == "swap":
            i, j, lo, n = (self.ev(x) for x in e[3:7])
            b = self.env.get(("stream", e[2]))
            if b is None or None in (i, j, lo, n):
                raise Undecided("a swap in unknown data")
            if not (0 <= lo <= min(i, j) and max(i, j) < lo + n <= len(b)):
                self.fault = ("swap outside the slice", i - lo, j - lo, n)
                return
            b = list(b)
            b[i], b[j] = b[j], b[i]
            self.buf[e[2]] = Rope(b)
            self.data(e[2])
            return
        return super().event(e)

    def quant(self, kind, n, k, cases):
        if n is None:
            raise Undecided("length of a scanned slice")
        try:
            for i in range(n):
                self.env[k] = i
                vs = {self.ev(v) for f, v in cases if self.feasible(f) is not False}
                if len(vs) != 1 or None in vs:
                    raise Undecided("a test the analysis does not follow")
                if bool(vs.pop()) == (kind == "any"):
                    return int(kind == "any")
        finally:
            self.env.pop(k, None)
        return int(kind == "all")

    def data(self, n):
        items = self.buf[n].items
        if all(isinstance(x, int) for x in items):
            self.env[("stream", n)] = tuple(items)
        self.env[("len", ("stream", n))] = len(self.buf[n])

    def blob(self, v):
        if v[0] == "stream":
            return Rope(self.buf.get(v[1], Rope()).items)
        if v[0] in ("rf", "clone", "deref", "copied", "owned") and len(v) > 1 and isinstance(v[1], tuple):
            return self.blob(v[1])
        if v in self.blobs:
            tag, n = self.blobs[v]
            return Rope([("run", tag, 0, n)])
        k = self.env.get(v)
        if isinstance(k, tuple) and all(isinstance(x, int) for x in k):
            return Rope(k)
        if v[0] == "agg" and v[1] == "array":
            return Rope(self.byte(x) for x in v[3])
        if v[0] == "decimal":
            x = self.ev(v[1])
            if x is None:
                raise Undecided("digits of %s" % T.show(v[1])[:100])
            return Rope(b"%d" % x)
        if v[0] == "bytesof":
            x = self.ev(v[3])
            if x is None:
                return Rope(("?", v[3], i) for i in range(v[2]))
            return Rope((x % 256 ** v[2]).to_bytes(v[2], "big" if v[1] == "BE" else "little"))
        if v[0] == "call" and v[1].split("::")[-1] in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            w = int(v[1].split("::")[0][1:]) // 8
            return self.blob(("bytesof", "BE" if v[1].endswith("be_bytes") else "LE", w, v[2][0]))
        if v[0] == "sliceref":
            a, n = self.ev(v[2]), self.ev(v[3])
            if a is None or n is None:
                raise Undecided("bounds of a written slice: %s" % T.show(v)[:120])
            full = self.blob(v[1])
            if a < 0 or n < 0 or a + n > len(full):
                self.fault = ("slice %d..%d of %d" % (a, a + n, len(full)),)
                return Rope()
            return full.cut(a, a + n)
        if v[0] == "s" and isinstance(v[1], str):
            return Rope(v[1].encode())
        x = self.ev(v)
        if isinstance(x, tuple) and all(isinstance(b, int) and 0 <= b < 256 for b in x):
            return Rope(x)
        raise Undecided("bytes of %s" % T.show(v)[:160])

    def ev(self, t):
        if t[0] == "agg" and t[1] in self.S.E.p.adts and self.S.E.p.adts[t[1]]["kind"] == "enum":
            return self.variant(t)
        return super().ev(t)

    def variant(self, t):
        """the value of an enum: Option by its content, a variant without fields by its index"""
        if t[1] == "std::option::Option":
            if t[2] == 0:
                return ("None",)
            x = self.ev(t[3][0])
            return None if x is None else ("Some", x)
        return ("enum", t[2]) if not t[3] else None

    def byte(self, x):
        y = self.ev(x)
        return y if y is not None else ("?", x, 0)
