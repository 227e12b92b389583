"""Loop-nest summaries of functions that move pixels.

The function is interpreted abstractly with images as opaque objects whose accessors are recorded as events.  Every loop body is
analysed once, for a generic iteration; the recorded segments (events between loop heads) form a summary of the function: a tree of
loops with symbolic bounds, loop-carried symbols with their update terms, and pixel accesses with index terms.  `Summary.run`
evaluates such a summary for given image sizes and yields which source pixel every destination pixel received."""
from . import absint, terms as T
from .absint import Out, Undecided

UNIT = ("agg", "tuple", 0, ())
c = T.c


def ok_(v):
    return ("agg", absint.RESULT, 0, (v,))


class Tracer(absint.Engine):
    trace = True

    def __init__(self, *a, extra_hook=None, **kw):
        kw.setdefault("max_paths", 4000)
        kw.setdefault("max_steps", 200000)
        super().__init__(*a, **kw)
        self.traces = []
        self.dims = {}
        self.nimg = 0
        self.hook = self.on_call
        self.extra_hook = extra_hook
        self.kept = {}
        self.imgcells = ()
        self.loop_st = None

    # --- loops
    def iter_like(self, v):
        return super().iter_like(v) or v[0] in ("img", "stream") or v[0] == "ref" and v[1] in self.imgcells \
            or v[0] == "clo" and self.stateless(v)

    def stateless(self, v):
        """a closure that changes nothing but images"""
        return self.loop_st is not None and all(x[0] in ("c", "s", "img") or x[0] == "ref" and (not x[3] or self.img_of(self.loop_st, x)) for x in v[3])

    def split_in_loop(self, st, v):
        ad = self.p.adts.get(v[1]) if v[0] == "agg" else None
        return (v[0] == "agg" and (v[1] == "tuple" or ad is not None and ad["kind"] == "struct")
                and any(x[0] in ("img", "stream") or self.split_in_loop(st, x) or x[0] == "ref" and self.img_of(st, x) for x in v[3]))

    def mark(self, st, *m):
        st.eff = st.eff + (("mark",) + m,)

    def enter_loop(self, st, fr, h):
        # images keep their identity through a loop; their contents are followed by the events
        self.imgcells = {c for c, v in st.mem.items() if v[0] in ("img", "stream")}
        self.loop_st = st
        rec = super().enter_loop(st, fr, h)
        lid = (fr.it["path"], h, fr.site, fr.depth)
        self.kept[lid] = {c: v for c, v in st.mem.items() if v[0] in ('img', 'stream')}
        self.mark(st, "head", lid, tuple((ph, v) for ph, v in rec.values()))
        return rec

    def back_edge(self, st, fr, h, rec):
        super().back_edge(st, fr, h, rec)
        lid = (fr.it["path"], h, fr.site, fr.depth)
        if any(st.mem.get(c) != v for c, v in self.kept[lid].items()):
            raise Undecided("a loop exchanges images")
        up = []
        for (cell, pr), (ph, v) in rec.items():
            up.append((ph, self.read(st, cell, pr)))
        self.traces.append((st.eff + (("mark", "back", lid, tuple(up)),), st.facts, None))

    def body_done(self, st, k):
        self.traces.append((st.eff + (("mark", "back", k, ()),), st.facts, None))

    # --- images
    def img_of(self, st, v):
        for _ in range(8):
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            elif v[0] == "rf":
                v = v[1]
            elif v[0] == "box":
                v = self.read(st, v[1][1], v[1][2])
            else:
                break
        return v[1] if v[0] == "img" else None

    def image(self, name, w=None, h=None):
        """an image object; its size is symbolic unless given"""
        self.dims[name] = (w if w is not None else ("sym", name + ".w", (0, 2**32 - 1)),
                           h if h is not None else ("sym", name + ".h", (0, 2**32 - 1)))
        return ("img", name)

    def proj(self, v, e, st=None):
        if v[0] == "img" and e[0] == "f" and e[1] is None and v[1] in self.dims:
            f = self.buffer_fields().get(e[2])
            if f in ("width", "height"):
                return self.dims[v[1]][f == "height"]
        return super().proj(v, e, st)

    def buffer_fields(self):
        """{index: name} of ImageBuffer's fields: a field of an image is read only where the image is an ImageBuffer"""
        if not hasattr(self, "_bf"):
            adt = next((a for n, a in self.p.adts.items() if n.split("::")[-1] == "ImageBuffer"), None)
            self._bf = {i: f["n"] for i, f in enumerate(adt["variants"][0]["f"])} if adt else {}
        return self._bf

    shapes = {}         # {image: (pixel type, channels)} where the pixel type is known

    def shaped(self, v):
        sh = self.shapes.get(v[1])
        if sh is None:
            return v
        a = ("fld", v, None, 0)
        return ("agg", sh[0], 0, (("agg", "array", 0, tuple(("idx", a, c(i)) for i in range(sh[1]))),))

    def on_call(self, E, st, fr, name, fi, fargs, args, site):
        if self.extra_hook:
            r = self.extra_hook(E, st, fr, name, fi, fargs, args, site)
            if r is not None:
                return r
        m = name.split("::")[-1]
        if name in ("ImageBuffer::new",) and len(args) == 2:
            self.nimg += 1
            n = "new%d" % self.nimg
            img = self.image(n, args[0], args[1])
            st.eff = st.eff + (("ev", "new", n, args[0], args[1], site),)
            return [Out(st, "ret", img)]
        if not args:
            return None
        r = self.on_stream(st, name, m, fargs, args)
        if r is not None:
            return r
        if m in ITERS or name == "ImageBuffer::pixels":
            n = self.img_of(st, args[0])
            if n is not None:
                return [Out(st, "ret", ("it", "img", n, "owned" if m == "pixels" and name != "ImageBuffer::pixels" else m))]
        if m in METHODS:
            n = self.img_of(st, args[0])
            if n is None:
                return None
            if m in ("dimensions",):
                return [Out(st, "ret", ("agg", "tuple", 0, self.dims[n]))]
            if m == "width":
                return [Out(st, "ret", self.dims[n][0])]
            if m == "height":
                return [Out(st, "ret", self.dims[n][1])]
            if m in ("get_pixel", "unsafe_get_pixel"):
                self.uid += 1
                v = ("px", n, args[1], args[2], self.uid)
                st.eff = st.eff + (("ev", "get", n, args[1], args[2], v, site),)
                if fi.get("trait"):
                    return [Out(st, "ret", self.shaped(v))]
                cell = ("pxv", self.uid)
                st.mem[cell] = self.shaped(v)
                return [Out(st, "ret", ("ref", cell, (), False))]
            if m in ("put_pixel", "unsafe_put_pixel"):
                st.eff = st.eff + (("ev", "put", n, args[1], args[2], self.val(st, args[3]), site),)
                return [Out(st, "ret", UNIT)]
            if m == "blend_pixel":
                st.eff = st.eff + (("ev", "blend", n, args[1], args[2], self.val(st, args[3]), site),)
                return [Out(st, "ret", UNIT)]
            if m in ("get_pixel_mut",):
                self.uid += 1
                v = ("px", n, args[1], args[2], self.uid)
                st.eff = st.eff + (("ev", "get", n, args[1], args[2], v, site),)
                cell = ("pxm", n, args[1], args[2], self.uid)
                st.mem[cell] = self.shaped(v)
                return [Out(st, "ret", ("ref", cell, (), True))]
        return None

    # --- byte streams: a value ("stream", name) whose contents and position exist only when a summary is evaluated
    def on_stream(self, st, name, m, fargs, args):
        if m not in STREAM:
            return None
        if name == "Cursor::new":
            v = self.strip(st, args[0])
            return [Out(st, "ret", ("stream", v[1]))] if v[0] == "bytes" else None
        v = self.strip(st, args[0])
        if v[0] != "stream":
            return None
        n = v[1]
        self.uid += 1
        if m == "set_position":
            st.eff = st.eff + (("ev", "pos", n, args[1], c(0)),)
            return [Out(st, "ret", UNIT)]
        if m in ("position", "stream_position"):
            x = ("sym", "pos.%d" % self.uid, (0, 2**64 - 1))
            st.eff = st.eff + (("ev", "tell", n, c(0), c(0), x),)
            return [Out(st, "ret", x if m == "position" else ok_(x))]
        if m == "seek":
            f = self.strip(st, args[1])
            if f[0] != "agg" or f[2] not in (0, 2):
                return None
            x = ("sym", "pos.%d" % self.uid, (0, 2**64 - 1))
            st.eff = st.eff + (("ev", "pos" if f[2] == 0 else "move", n, f[3][0], c(0)), ("ev", "tell", n, c(0), c(0), x))
            return [Out(st, "ret", ok_(x))]
        if m == "read_exact":
            cell, pr = self.target(args[1])
            ln = self.len_of_ref(st, args[1])
            if ln[0] != "c" or ln[1] > 64:
                return None
            xs = tuple(("sym", "byte.%d.%d" % (self.uid, i), (0, 255)) for i in range(ln[1]))
            val, width, end = ("agg", "array", 0, xs), 1, "BE"
        elif m in ("read_u8", "read_u16", "read_u32", "read_u64"):
            width = int(m[6:]) // 8
            end = "BE" if width == 1 else "LE" if "LittleEndian" in repr(fargs[1:]) else "BE"
            xs = (("sym", "rd.%d" % self.uid, (0, 256 ** width - 1)),)
            val = xs[0]
        else:
            return None
        good = ("sym", "rdok.%d" % self.uid, (0, 1))
        st.eff = st.eff + (("ev", "rd", n, c(width), c(0), xs, end, good),)
        s2 = st.fork()
        st.facts = st.facts + ((T.eq(good, c(1)), True),)
        s2.facts = s2.facts + ((T.eq(good, c(1)), False),)
        if m == "read_exact":
            self.write(st, cell, pr, val)
            val = UNIT
        return [Out(st, "ret", ok_(val)), Out(s2, "ret", ("agg", absint.RESULT, 1, (("sym", "ioerr"),)))]

    def it_img_count(self, it):
        w, h = self.dims[it[2]]
        if it[3] in ("rows", "rows_mut", "enumerate_rows", "enumerate_rows_mut"):
            return h
        return w if it[3] == "row" else T.mul(w, h)

    def it_img_elem(self, st, it, k):
        n, kind = it[2], it[3]
        w, h = self.dims[n]
        if kind in ("rows", "rows_mut"):
            return ("it", "img", n, "row", kind[4:], k)
        if kind in ("enumerate_rows", "enumerate_rows_mut"):
            return ("agg", "tuple", 0, (k, ("it", "img", n, "row", "enum" + kind[14:], k)))
        if kind == "row":
            x, y, kind = k, it[5], {"": "pixels", "_mut": "pixels_mut", "enum": "enumerate_pixels", "enum_mut": "enumerate_pixels_mut"}[it[4]]
        else:
            x, y = T.binop("Rem", k, w, "u32"), T.binop("Div", k, w, "u32")
        self.uid += 1
        v = ("px", n, x, y, self.uid)
        st.eff = st.eff + (("ev", "get", n, x, y, v, None),)
        v = self.shaped(v)
        if kind == "owned":
            return ("agg", "tuple", 0, (x, y, v))
        mut = kind.endswith("_mut")
        cell = ("pxm", n, x, y, self.uid) if mut else ("pxv", self.uid)
        st.mem[cell] = v
        r = ("ref", cell, (), mut)
        return ("agg", "tuple", 0, (x, y, r)) if kind.startswith("enum") else r

    def val(self, st, v):
        return self.deep(st, self.strip(st, v))

    def write(self, st, cell, pr, val):
        super().write(st, cell, pr, val)
        if cell[0] == "pxm":
            st.eff = st.eff + (("ev", "put", cell[1], cell[2], cell[3], self.val(st, st.mem[cell]), None),)


STREAM = {"new", "set_position", "position", "stream_position", "seek", "read_exact", "read_u8", "read_u16", "read_u32", "read_u64"}
ITERS = {"pixels", "pixels_mut", "enumerate_pixels", "enumerate_pixels_mut", "rows", "rows_mut", "enumerate_rows", "enumerate_rows_mut"}
METHODS = {"dimensions", "width", "height", "get_pixel", "unsafe_get_pixel", "put_pixel", "unsafe_put_pixel", "blend_pixel", "get_pixel_mut"}


class Summary:
    def __init__(self, eng, outs):
        self.E = eng
        self.traces = []
        for eff, facts, _ in eng.traces:
            self.traces.append((self.split(eff), facts, None))
        for o in outs:
            self.traces.append((self.split(o.st.eff), o.st.facts, o))
        self.ltraces = None

    @staticmethod
    def split(eff):
        """[events, mark, events, mark, ..., events]"""
        r, cur = [], []
        for e in eff:
            if e[0] == "mark":
                r.append(tuple(cur))
                r.append(e)
                cur = []
            else:
                cur.append(e)
        r.append(tuple(cur))
        return r


class Run:
    """evaluation of a summary at a point"""

    def __init__(self, summary, env, images, limit=200000):
        """env: values of the symbols; images: {name: {(x, y): value}} initial contents"""
        self.S = summary
        self.env = dict(env)
        self.img = {n: dict(c) for n, c in images.items()}
        self.size = {}
        self.fault = None
        self.out = None
        self.steps = 0
        self.limit = limit
        for n, (w, h) in summary.E.dims.items():
            if n in images:
                self.size[n] = (self.ev(w), self.ev(h))

    def ev(self, t):
        return T.evalt(t, self.env)

    def go(self):
        self.exec([t for t in self.S.traces], 0)
        return self

    def feasible(self, facts):
        from . import spec
        f, u = spec.feasible(facts, self.env)
        return f

    def exec(self, traces, pos):
        """traces: those sharing the prefix up to position pos (an event segment); returns the final trace taken"""
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Undecided("simulation budget")
            # values read in this segment may decide the facts of the segment's branches: execute the longest common part first
            traces = self.segment(traces, pos)
            if self.fault:
                return None
            nxt = {}
            for t in traces:
                m = t[0][pos + 1] if pos + 1 < len(t[0]) else None
                key = None if m is None else (m[1], m[2])
                nxt.setdefault(key, []).append(t)
            ends = nxt.pop(None, [])
            if ends:
                if nxt or len(ends) > 1 and len({repr(t[2].kind) + repr(t[2].val) for t in ends}) > 1:
                    raise Undecided("control depends on values the analysis does not follow")
                self.out = ends[0][2]
                return ends[0]
            kinds = {k[0] for k in nxt}
            if kinds == {"back"}:
                if len(nxt) > 1:
                    raise Undecided("ambiguous loop end")
                ts = next(iter(nxt.values()))
                ups = {repr(t[0][pos + 1][3]) for t in ts}
                if len(ups) > 1:
                    raise Undecided("ambiguous loop update")
                return ts[0]
            if kinds == {"head"}:
                if len(nxt) > 1:
                    raise Undecided("ambiguous control flow")
                (k, lid), ts = next(iter(nxt.items()))
                for ph, v in ts[0][0][pos + 1][3]:
                    x = self.ev(v)
                    if x is None:
                        self.env.pop(ph, None)
                        self.opaque(ph, v)
                    else:
                        self.env[ph] = x
                n = 0
                base = set(self.env) | {ph for ph, v in ts[0][0][pos + 1][3]}
                while True:
                    self.steps += 1
                    if self.steps > self.limit:
                        raise Undecided("simulation budget")
                    self.iter = n
                    e = self.exec_from(ts, pos + 2, lid, n)
                    if self.fault or e is None:
                        return None
                    last = e[0][-2] if len(e[0]) > 1 and e[0][-1] == () else None
                    if last is not None and last[1] == "back" and last[2] == lid:
                        new = {}
                        for ph, v in last[3]:
                            new[ph] = (self.ev(v), v)
                        for ph, (x, v) in new.items():
                            if x is None:
                                self.env.pop(ph, None)
                                self.opaque(ph, v)
                            else:
                                self.env[ph] = x
                        for q in [q for q in self.env if q not in base]:
                            del self.env[q]
                        n += 1
                        continue
                    return e
            if kinds <= {"iter", "exh"}:
                # a counted loop: the iterator decides
                ks = {k[1] for k in nxt}
                if len(ks) > 1:
                    raise Undecided("several iterators stepped at one point")
                k = ks.pop()
                cnt = None
                for t in nxt.get(("iter", k), []):
                    cnt = self.ev(t[0][pos + 1][3])
                if cnt is None:
                    if ("iter", k) in nxt:
                        n = nxt[("iter", k)][0][0][pos + 1][3]
                        if n[0] == "op" and n[1] == "ChunkCount" and self.ev(n[3]) == 0:
                            self.fault = ("pieces of length 0",)
                            return None
                        raise Undecided("iteration count %s" % T.show(nxt[("iter", k)][0][0][pos + 1][3])[:120])
                    cnt = 0
                i = self.count.get(k, 0)
                if k[1][1] == "for_each":
                    for i in range(cnt):
                        self.env[k] = i
                        self.exec(nxt[("iter", k)], pos + 2)
                        if self.fault:
                            return None
                    self.env.pop(k, None)
                    traces = nxt.get(("exh", k), [])
                elif i < cnt:
                    self.env[k] = i
                    self.count[k] = i + 1
                    traces = nxt[("iter", k)]
                else:
                    self.env.pop(k, None)
                    traces = nxt.get(("exh", k), [])
                if not traces:
                    raise Undecided("no continuation after a loop")
                pos += 2
                continue
            raise Undecided("ambiguous control flow: %s" % sorted(kinds))

    count = None

    def exec_from(self, ts, pos, lid, n):
        if n == 0:
            if self.count is None:
                self.count = {}
            for k in [k for k in self.count if k[1] == lid]:
                del self.count[k]
        return self.exec(ts, pos)

    def opaque(self, ph, v):
        """a loop-carried value that is not a number: remember what it stands for"""
        self.vals[ph] = self.value(v)

    vals = None

    def value(self, v):
        """the pixel (or other value) a term stands for"""
        if self.vals is None:
            self.vals = {}
        if v in self.vals:
            return self.vals[v]
        x = self.ev(v)
        if x is not None:
            return x
        if v[0] in ("clone", "copy", "deref", "rf") and len(v) > 1 and isinstance(v[1], tuple):
            return self.value(v[1])
        if v[0] == "px":
            return ("unread", v)
        return self.subst(v)

    def subst(self, v):
        if v in self.vals:
            return self.vals[v]
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            if v[0] in ("poly", "sym", "c", "ind", "phi", "op"):
                x = self.ev(v)
                if x is not None:
                    return ("c", x)
            if v[0] == "call":
                return ("call", v[1], tuple(self.subst(a) for a in v[2])) + ((v[3],) if len(v) > 3 and not isinstance(v[3], int) else ())
            if v[0] == "agg":
                return ("agg", v[1], v[2], tuple(self.subst(a) for a in v[3]))
            return tuple(self.subst(a) if isinstance(a, tuple) else a for a in v)
        if isinstance(v, tuple):
            return tuple(self.subst(a) if isinstance(a, tuple) else a for a in v)
        return v

    def segment(self, traces, pos):
        """execute the events of the segment at pos, dropping traces whose facts do not hold"""
        if self.vals is None:
            self.vals = {}
        if self.count is None:
            self.count = {}
        i = 0
        live = [t for t in traces if self.feasible(t[1]) is not False]
        if not live:
            raise Undecided("no feasible continuation")
        while True:
            evs = {}
            for t in live:
                seg = t[0][pos]
                evs.setdefault(seg[i] if i < len(seg) else None, []).append(t)
            if len(evs) > 1:
                raise Undecided("accesses depend on values the analysis does not follow")
            e = next(iter(evs))
            if e is None:
                return live
            self.event(e)
            if self.fault:
                return live
            live = [t for t in live if self.feasible(t[1]) is not False]
            if not live:
                raise Undecided("no feasible continuation")
            i += 1

    def event(self, e):
        if e[0] != "ev":
            return self.other(e)
        k, n = e[1], e[2]
        if k in ("rd", "pos", "move", "tell"):
            return self.stream(k, n, e)
        x, y = self.ev(e[3]), self.ev(e[4])
        if x is None or y is None:
            raise Undecided("coordinate %s, %s" % (T.show(e[3])[:80], T.show(e[4])[:80]))
        if k == "new":
            self.size[n] = (x, y)
            self.img[n] = {(a, b): "zero" for a in range(x) for b in range(y)} if x * y < 10000 else {}
            return
        w, h = self.size[n]
        if not (0 <= x < w and 0 <= y < h):
            self.fault = ("access outside the image", n, x, y, (w, h))
            return
        if k == "get":
            self.vals[e[5]] = v = self.img[n].get((x, y))
            self.env.pop(e[5], None)
            if isinstance(v, tuple) and not (v and isinstance(v[0], str)):
                self.env[e[5]] = v          # a pixel with known channel values
        elif k == "put":
            self.img[n][(x, y)] = self.value(e[5])
        elif k == "blend":
            self.img[n][(x, y)] = ("blend", self.img[n].get((x, y)), self.value(e[5]))

    bytes = None        # {stream: bytes}
    at = None           # {stream: position}

    def stream(self, k, n, e):
        b = self.bytes[n]
        if self.at is None:
            self.at = {}
        p = self.at.get(n, 0)
        if k in ("pos", "move"):
            x = self.ev(e[3])
            if x is None:
                raise Undecided("stream position %s" % T.show(e[3])[:80])
            self.at[n] = x if k == "pos" else p + x
        elif k == "tell":
            self.env[e[5]] = p
        else:
            w, end = e[3][1], e[6]
            need = w * len(e[5])
            ok = p + need <= len(b)
            self.env[e[7]] = 1 if ok else 0
            for i, x in enumerate(e[5]):
                self.env[x] = int.from_bytes(b[p + i * w:p + i * w + w], "little" if end == "LE" else "big") if ok else 0
            self.at[n] = p + need if ok else len(b)

    def other(self, e):
        if e[0] != "call":
            return
        for a in e[2]:
            d = repr(a)
            if "'img'" in d and e[1] not in HARMLESS:
                raise Undecided("image handed to %s" % e[1])


HARMLESS = set()
