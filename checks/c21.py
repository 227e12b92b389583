"""C21: multi-byte numbers use the byte order of their format; samples handed over are in native order."""
import re
from vlib import absint, graph, terms as T, tables as tb
from vlib.absint import Out
from vlib.errflow import is_failure
from . import c08, encoders as N, limits as L

EXT = re.compile(r"^(ReadBytesExt|WriteBytesExt|ByteOrder)::(read|write|from_slice)_([uif](?:16|24|32|48|64|128|nt|nt128|int)\w*)$")
NUM = re.compile(r"^([uif](?:16|32|64|128|size))::(?:(to|from)_(be|le|ne)_bytes|(swap_bytes|to_be|to_le|from_be|from_le))$")

# byte order on the file side, by codec
FILE = {"bmp": "L", "ico": "L", "tga": "L", "dds": "L", "farbfeld": "B", "png": "B", "pnm": "B", "jpeg": "B", "dxt": "L"}
# codecs whose samples stay bytes or are converted by third-party code: only native conversions occur
HOST = ("avif", "tiff", "openexr", "hdr", "webp", "qoi", "gif")


def conv(p, name, fargs):
    """(direction, order) of a conversion call; order is 'L', 'B', 'N', ('param', ..) or None"""
    m = EXT.match(name)
    if m:
        d = "write" if m.group(2) == "write" else "read"
        i = 0 if m.group(1) == "ByteOrder" else 1
        if len(fargs) <= i:
            return d, None
        t = fargs[i]
        if t[0] == "param":
            return d, t
        s = p.tystr(t).split("::")[-1]
        return d, {"LittleEndian": "L", "BigEndian": "B"}.get(s)
    m = NUM.match(name)
    if m:
        if m.group(4):
            return "swap", m.group(4)
        return ("read" if m.group(2) == "from" else "write"), {"be": "B", "le": "L", "ne": "N"}[m.group(3)]
    return None


class Ctx:
    def __init__(self, p):
        self.p, self.g = p, graph.load(p)
        self.callers = {}
        for k, ss in self.g.sites.items():
            for s in ss:
                for it in self.g.targets(s.fi, s.fargs):
                    self.callers.setdefault(it["key"], []).append(s)
        for k, us in self.g.uses.items():
            for fi in us:
                self.callers.setdefault(fi["key"], []).append((k, fi))
        for k, cs in self.g.clos.items():
            for c in cs:
                self.callers.setdefault(c, []).append((k, None))

    def calls_of(self, key):
        """[(item, type arguments or None for a closure)]"""
        out = []
        for s in self.callers.get(key, ()):
            if isinstance(s, tuple):
                it = self.p.items[s[0]]
                out.append((it, tuple(self.p.arg(a) for a in s[1]["args"]) if s[1] and "args" in s[1] else None))
            else:
                out.append((s.item, s.fargs))
        return out

    def orders(self, it, o, d=0):
        """[(order, item)]: what a type parameter stands for at the calls"""
        if not (isinstance(o, tuple) and o[0] == "param"):
            return [(o, it)]
        out = []
        if d < 5:
            for c, fa in self.calls_of(it["key"]):
                if c["key"] == it["key"]:
                    continue
                if fa is None:
                    out += self.orders(c, o, d + 1)
                elif o[1] < len(fa):
                    t = fa[o[1]]
                    s = p_str(self.p, t)
                    out += self.orders(c, t, d + 1) if t[0] == "param" else [({"LittleEndian": "L", "BigEndian": "B"}.get(s), c)]
        return out or [(None, it)]

    def places(self, it, d=0, seen=None):
        """{(codec, role)} the function works for"""
        seen = seen if seen is not None else set()
        if it["key"] in seen or d > 6:
            return set()
        seen.add(it["key"])
        m = re.search(r"codecs::(\w+)", it["path"])
        cod = m.group(1) if m else "metadata" if "metadata::" in it["path"] else None
        low = it["path"]
        role = "enc" if re.search(r"[Ee]ncod", low) else "dec" if re.search(r"[Dd]ecod|Reader|from_reader|::read_", low) else \
            "enc" if re.search(r"::write_", low) else None
        if cod and role or cod == "metadata":
            return {(cod, role)}
        up = set()
        for c, fa in self.calls_of(it["key"]):
            up |= self.places(c, d + 1, seen)
        if cod:
            return {(cod, r) for k, r in up if k == cod} or {(cod, None)}
        return up


def p_str(p, t):
    return p.tystr(t).split("::")[-1]


def flow(E, st):
    """[(dir, order, value term, name, site)] conversions on a path"""
    out = []
    for x in st.eff:
        if x[0] == "call":
            cv = conv(E.p, x[1], x[5] or ())
            if cv:
                out.append((cv[0], cv[1], x))
    return out


def run(ck):
    p = ck.p
    ck.rule("order", "every conversion between bytes and numbers of two or more bytes uses the format's byte order on the file side and the native order on the caller's side", 60)
    ck.rule("samples", "16-bit samples are converted between file and native order, 8-bit samples are left alone", 20)
    ck.rule("value", "a number converted from one order and stored again is the number that was read", 4)
    ck.rule("assembled", "numbers assembled from single bytes use the format's order", 3)
    ck.rule("exif", "EXIF data is read little-endian exactly after the II signature and big-endian exactly after MM", 2)
    cx = Ctx(p)
    order(ck, cx)
    png(ck)
    ck.each("value", "value", values, ck)
    assembled(ck)
    ck.each("exif", "from_exif_chunk", exif, ck)


def order(ck, cx):
    p = ck.p
    idx = {}
    for k, ss in cx.g.sites.items():
        for s in ss:
            cv = conv(p, s.name, s.fargs)
            if cv is None:
                continue
            ck.stats["call_sites"] += 1
            ck.saw_fn(k)
            d, o = cv
            for oo, ctx in cx.orders(s.item, o):
                pl = cx.places(ctx)
                base = "%s in %s" % (s.name, s.item["path"])
                n = idx[base] = idx.get(base, 0) + 1
                inst = "%s #%d" % (base, n)
                where = "%s at %s" % (s.name, p.loc(s.t[6]))
                if oo is None or not pl:
                    ck.und("order", inst, "%s: byte order or format not determined" % where)
                    continue
                for cod, role in sorted(pl, key=str):
                    one(ck, inst, where, s, d, oo, cod, role)


def one(ck, inst, where, s, d, o, cod, role):
    if cod == "metadata":
        return ck.judge("order", inst, None if o not in ("L", "B") else True, where)
    f = FILE.get(cod)
    name = {"L": "little-endian", "B": "big-endian", "N": "native"}
    if d == "swap":
        return ck.und("order", inst, "%s: byte swap not understood" % where)
    if f == "L":
        return ck.judge("order", inst, o == "L", "%s uses %s order, %s files are little-endian" % (where, name[o], cod))
    if f == "B":
        if role is None:
            return ck.und("order", inst, "%s: direction not determined" % where)
        byteorder = EXT.match(s.name) is not None
        stream = byteorder and not s.name.startswith("ByteOrder")
        # little-endian and native coincide in the type alias NativeEndian
        native = o == "N" or byteorder and o == "L"
        file_side = (d == "read") == (role == "dec")
        if file_side or stream:
            if role == "dec" and d == "read" and cod == "pnm" and native and not stream:
                return ck.ok("order", inst, "judged by rule value")
            return ck.judge("order", inst, o == "B", "%s uses %s order for the file, %s files are big-endian" % (where, name[o], cod))
        return ck.judge("order", inst, native, "%s uses %s order for samples in memory" % (where, name[o]))
    if cod in HOST:
        native = o == "N" or EXT.match(s.name) is not None and o == "L"
        return ck.judge("order", inst, native, "%s uses %s order for samples in memory" % (where, name[o]))
    ck.und("order", inst, "%s: no byte order known for %s" % (where, cod))


def pairs(E, sts):
    """set of (order read, order written) of sample conversions on these paths"""
    out = set()
    for st in sts:
        for d, o, x in flow(E, st):
            if EXT.match(x[1]) and not x[1].startswith("ByteOrder") or x[1].startswith("u32"):
                continue
            out.add((d, "L" if o == "N" else o))
    return out


def png(ck):
    p = ck.p
    X, cols = N.colours(p)
    want16 = {"dec": {("read", "B"), ("write", "L")}, "enc": {("read", "L"), ("write", "B")}}
    for e in N.entries(p):
        nm = e.name.split("::")[0]
        if nm not in ("PngEncoder", "FarbfeldEncoder"):
            continue
        for cv, cn, bits in cols:
            if not re.match(r"^(L|La|Rgb|Rgba)(8|16)$", cn) or nm == "FarbfeldEncoder" and cn != "Rgba16":
                continue
            pl = len(p.adts[X]["variants"][cv]["f"])
            ck.each("samples", "%s(%s)" % (e.name, cn), enc, ck, e, nm, X, cv, cn, bits, pl, want16)
    C = tb.find_adt(p, "ColorType")
    names = [v["n"] for v in p.adts[C]["variants"]]
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] != "ImageDecoder":
            continue
        nm = p.tystr(im["_self"]).split("<")[0].split("::")[-1]
        if nm != "PngDecoder":
            continue
        it = p.items[im["_items"]["read_image"]["key"]]
        for cv, cn in enumerate(names):
            if re.match(r"^(L|La|Rgb|Rgba)(8|16)$", cn):
                ck.each("samples", "%s(%s)" % (nm, cn), dec, ck, im, it, C, cv, cn, want16)
    ck.each("samples", "FarbfeldDecoder", reached, ck, "FarbfeldDecoder", want16["dec"])
    for t, cn in (("U8", "8"), ("U16", "16")):
        for im in p.impls:
            if im.get("trait", "").endswith("pnm::decoder::Sample") and p.tystr(im["_self"]).split("::")[-1] == t:
                it = p.items[im["_items"]["from_bytes"]["key"]]
                ck.each("samples", "pnm %s" % t, plain, ck, it, cn, want16["dec"])


def enc(ck, e, nm, X, cv, cn, bits, pl, want16):
    E, outs, takes, unit = c08.run_ok(ck, e, cv, X, pl)
    ok = [o.st for o in outs if o.kind == "ret" and is_failure(E, o.st, o.val) is not True and c08.live(o, bits)[0]]
    sts = ok + [b for b in E.bodies]
    if not ok:
        return ck.und("samples", "%s(%s)" % (e.name, cn), "no path to success")
    verdict(ck, "%s(%s)" % (e.name, cn), e.it, E, ok, sts, cn, want16["enc"])


def verdict(ck, inst, it, E, ok, sts, cn, want):
    got = pairs(E, sts)
    where = "%s (%s)" % (it["path"], ck.p.loc_of_item(it))
    if cn.endswith("16"):
        if not got:
            return ck.judge("samples", inst, False, "%s: 16-bit samples are passed on without conversion between native and file order" % where)
        return ck.judge("samples", inst, got == want, "%s: conversions are %s, expected %s" % (where, sorted(got), sorted(want)))
    return ck.judge("samples", inst, not got, "%s: 8-bit samples are byte-swapped in pairs: %s" % (where, sorted(got)))


def dec(ck, im, it, C, cv, cn, want16):
    p = ck.p

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name == "ImageDecoder::color_type" and fargs and p.tystr(fargs[0]) == p.tystr(im["_self"]):
            return [Out(st, "ret", ("agg", C, cv, ()))]
        return None
    E = BodyEngine(p, hook=hook, max_steps=200000)
    outs = E.run(it, [("sym", "decoder"), ("sym", "buf")])
    ck.saw(E)
    ok = [o.st for o in outs if o.kind == "ret" and is_failure(E, o.st, o.val) is not True]
    if not ok:
        return ck.und("samples", "PngDecoder(%s)" % cn, "no path to success")
    verdict(ck, "PngDecoder(%s)" % cn, it, E, ok, ok + E.bodies, cn, want16["dec"])


def reached(ck, nm, want):
    """conversions of 16-bit numbers in what the decoder's read_image can call within its codec"""
    p = ck.p
    g = graph.load(p)
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] == "ImageDecoder" and nm == p.tystr(im["_self"]).split("<")[0].split("::")[-1]:
            it = p.items[im["_items"]["read_image"]["key"]]
            break
    else:
        return ck.und("samples", nm, "decoder not found")
    got, byhand = set(), False
    roots = [it["key"]] + [x["_items"]["read"]["key"] for x in p.impls
                           if x.get("trait", "").endswith("io::Read") and "farbfeld" in p.tystr(x["_self"]).lower() and "read" in x["_items"]]
    for k in g.closure_of(roots):
        if "codecs::farbfeld" not in p.items[k]["path"] or "Encoder" in p.items[k]["path"]:
            continue
        ck.saw_fn(k)
        for s in g.sites.get(k, ()):
            cv = conv(p, s.name, s.fargs)
            if cv and "u32" not in s.name:
                got.add((cv[0], "L" if cv[1] == "N" else cv[1]))
            byhand = byhand or s.name.split("::")[-1] in ("swap", "reverse", "rotate_left", "rotate_right", "swap_bytes", "swap_with_slice")
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    ck.judge("samples", nm, None if byhand and not got else got == want, "%s: samples are converted as %s, expected %s" % (where, sorted(got), sorted(want)))


class BodyEngine(absint.Engine):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.bodies = []

    def on_back_edge(self, st, fr, h):
        self.bodies.append(st)


def plain(ck, it, cn, want):
    E = BodyEngine(ck.p, max_steps=100000)
    outs = E.run(it, [("sym", "a%d" % i) for i in range(it["body"]["argc"])])
    ck.saw(E)
    ok = [o.st for o in outs if o.kind == "ret"]
    verdict(ck, "pnm U%s" % cn, it, E, ok, ok + E.bodies, cn, want)


def values(ck):
    """in every function that reads a 16-bit sample in memory and writes one: unmodified means file to native,
    modified means native to native"""
    p = ck.p
    g = graph.load(p)
    for k, ss in g.sites.items():
        it = p.items[k]
        m = re.search(r"codecs::(\w+)", it["path"])
        if not m or FILE.get(m.group(1)) != "B":
            continue
        cs = [(s, conv(p, s.name, s.fargs)) for s in ss]
        cs = [(s, c) for s, c in cs if c and not s.name.startswith(("ReadBytesExt", "WriteBytesExt"))]
        rd = [x for x in cs if x[1][0] == "read"]
        wr = [x for x in cs if x[1][0] == "write"]
        if not rd or not wr or "param" in str([c for s, c in cs]):
            continue
        E = BodyEngine(p, max_steps=100000)
        try:
            outs = E.run(it, [("sym", "a%d" % i) for i in range(it["body"]["argc"])])
        except absint.Undecided as e:
            ck.und("value", it["path"], str(e))
            continue
        ck.saw(E)
        seen = set()
        for st in [o.st for o in outs] + E.bodies:
            reads = {}
            for d, o, x in flow(E, st):
                o = "L" if o == "N" else o
                if d == "read":
                    reads[x[3]] = o
                elif d == "write":
                    val = E.strip(st, x[2][1] if x[1].startswith("ByteOrder") else x[2][0])
                    src = [r for r in reads if T.contains(val, r)]
                    if not src:
                        continue
                    ro = reads[src[0]]
                    inst = "%s: %s %s" % (it["path"], x[1], "stored unchanged" if val == src[0] else "modified")
                    if inst in seen:
                        continue
                    seen.add(inst)
                    where = "%s (%s)" % (x[1], x[4][2])
                    if val == src[0]:
                        ck.judge("value", inst, ro != o, "%s: the sample read is written back in the order it was read in" % where)
                    else:
                        ck.judge("value", inst, ro == "L" and o == "L", "%s: arithmetic on a sample that is not in native order (%s to %s)" % (where, ro, o))


def assembled(ck):
    p = ck.p
    its = [x for x in p.fns() if x["path"].endswith("dxt::decode_dxt_colors")]
    if its:
        ck.each("assembled", "dxt endpoints", dxt, ck, its[0])
    else:
        ck.und("assembled", "dxt endpoints", "function not found")
    g = graph.load(p)
    # shift-in accumulation: over ascending bytes it is big-endian, over descending ones little-endian
    for it in p.fns():
        m = re.search(r"codecs::(bmp|ico|tga|dds|dxt|farbfeld|png|pnm|jpeg)\b", it["path"])
        if not m:
            continue
        want = FILE[m.group(1)]
        sh = shifts(it)
        if not sh:
            continue
        if it["kind"] == "closure":
            ck.each("assembled", it["path"], fold, ck, g, it, want)
        else:
            ck.each("assembled", it["path"], loop, ck, it, want)


def shifts(it):
    for b in it["body"]["blocks"]:
        for s in b.get("s", ()):
            if s[0] == "=" and "Shl" in str(s[2])[:40] or s[0] == "=" and s[2] and s[2][0] in ("bin", "binop") and "Shl" in str(s[2]):
                return True
    return False


LEN = 8


def dxt(ck, it):
    p = ck.p
    E = absint.Engine(p, no_inline=lambda fi, n: n.endswith("enc565_decode"), max_steps=100000)
    src = ("sym", "src")
    outs = E.run(it, [src, ("sym", "dest"), ("sym", "is_dxt1")])
    ck.saw(E)
    got = set()
    for o in outs:
        k = 0
        for x in o.st.eff:
            if x[0] == "call" and x[1].endswith("enc565_decode"):
                t = E.deep(o.st, x[2][0])
                env = {s: 0x10 + s[2][1] * 0x11 for s in T.subterms(t) if s and s[0] == "idx" and T.isc(s[2])}
                got.add((k, T.evalt(t, env)))
                k += 1
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    want = {(0, 0x2110), (1, 0x4332)}
    if not got or any(v is None for _, v in got):
        return ck.und("assembled", "dxt endpoints", "%s: colour endpoints not found" % where)
    ck.judge("assembled", "dxt endpoints", got == want, "%s: colour endpoints of bytes 10 21 32 43.. decode as %s, little-endian is 2110 and 4332" % (
        where, sorted(hex(v) for _, v in got)))


def fold(ck, g, it, want):
    """|acc, b| acc << 8 | b, given to Iterator::fold"""
    p = ck.p
    if it["body"]["argc"] != 3:
        return
    E = absint.Engine(p)
    st = absint.State()
    outs = E.run(it, [("sym", "env"), ("sym", "acc"), ("ref", ("arg", "b"), (), False)], st=mem(st))
    vs = [E.strip(o.st, o.val) for o in outs if o.kind == "ret"]
    env = {("sym", "acc"): 0x500, ("sym", "byte"): 0xA7}
    r = {T.evalt(v, env) for v in vs}
    if r != {0x500A7}:
        return
    par = p.items.get(it.get("parent"))
    for s in g.sites.get(par["key"], ()) if par else ():
        if s.name in ("Iterator::fold", "DoubleEndedIterator::rfold") and it["path"].split("::")[-1] in str([p.tystr(a) for a in s.fargs]) + it["path"].split("::")[-1] * (len(list_closures(g, par)) == 1):
            ty = p.tystr(s.fargs[0])
            rev = (ty.count("Rev<") % 2 == 1) != (s.name != "Iterator::fold")
            ck.judge("assembled", it["path"], ("L" if rev else "B") == want, "%s at %s: bytes are combined in %s order" % (
                par["path"], p.loc(s.t[6]), "little-endian" if rev else "big-endian"))


def list_closures(g, par):
    return g.clos.get(par["key"], [])


def mem(st):
    st.mem[("arg", "b")] = ("sym", "byte")
    return st


def loop(ck, it, want):
    p = ck.p
    E = BodyEngine(p, max_steps=60000, max_paths=400)
    try:
        E.run(it, [("sym", "a%d" % i) for i in range(it["body"]["argc"])])
    except absint.Undecided as e:
        return
    for ph, v in E.phis.items():
        for back in v["back"]:
            el = list({s for s in T.subterms(back) if s and s[0] == "idx"})
            if len(el) != 1 or not T.contains(back, ph) or "Shl" not in T.show(back):
                continue
            sub = set() if T.isc(el[0][2]) else set(T.subterms(el[0][2]))
            ind = [s for s in sub if s and s[0] == "ind"]
            ln = [s for s in sub if s and s[0] == "len"]
            if len(ind) != 1:
                continue
            env = {ph: 0x500, ind[0]: 2}
            env.update({s: LEN for s in ln})
            pos = T.evalt(el[0][2], env)
            env[el[0]] = 0xA7
            r = T.evalt(back, env)
            if pos not in (2, LEN - 3) or r not in (0x500A7, 0xA70500):
                continue
            got = "B" if (pos == 2) == (r == 0x500A7) else "L"
            ck.saw(E)
            ck.judge("assembled", it["path"], got == want, "%s (%s): bytes are combined in %s order, the format's is %s" % (
                it["path"], p.loc_of_item(it), "big-endian" if got == "B" else "little-endian", "little-endian" if want == "L" else "big-endian"))


def exif(ck):
    p = ck.p
    its = [x for x in p.fns() if x["path"].endswith("Orientation::from_exif_chunk")]
    if not its:
        return ck.und("exif", "from_exif_chunk", "function not found")
    it = its[0]
    E = BodyEngine(p, max_steps=200000)
    outs = E.run(it, [("sym", "chunk")])
    ck.saw(E)
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    seen = {}
    for st in [o.st for o in outs] + E.bodies:
        os = {o for d, o, x in flow(E, st)}
        for sig, bs in (("II", (0x49, 0x49, 42, 0)), ("MM", (0x4d, 0x4d, 0, 42)), ("mixed", (0x49, 0x4d, 42, 0)), ("none", (1, 2, 3, 4))):
            if all(fits(f, bs) for f in st.facts):
                seen.setdefault(sig, set()).update(os)
    for sig, want in (("II", {"L"}), ("MM", {"B"})):
        got = seen.get(sig, set())
        ck.judge("exif", sig, (got == want) if any(seen.values()) else None, "%s: after %s numbers are read in orders %s" % (where, sig, sorted(map(str, got))))
    for sig in ("mixed", "none"):
        ck.judge("exif", sig, not seen.get(sig), "%s: numbers are read after a signature that is neither II nor MM" % where)


def fits(f, bs):
    t, v = f
    x = None
    if t[0] == "idx" and T.isc(t[2]) and "read_exact" in T.show(t):
        k = T.evalt(t[2], {})
        if k is not None and k < 4:
            x = bs[k]
            return x not in v[1] if isinstance(v, tuple) and v[0] == "not" else x == v
    el = [s for s in T.subterms(t) if s and s[0] == "idx" and T.isc(s[2]) and "read_exact" in T.show(s)]
    if el:
        r = T.evalt(t, {s: bs[T.evalt(s[2], {})] for s in el if T.evalt(s[2], {}) < 4})
        if r is not None:
            return r not in v[1] if isinstance(v, tuple) and v[0] == "not" else r == v
    return True
