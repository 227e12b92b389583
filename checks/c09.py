"""C09: names and signatures identify exactly their documented format."""
from vlib import absint, terms as T, tables as tb

# documented identification table (docs of ImageFormat / module docs of the codecs)
EXT = {"avif": "Avif", "jpg": "Jpeg", "jpeg": "Jpeg", "jfif": "Jpeg", "png": "Png", "apng": "Png", "gif": "Gif",
       "webp": "WebP", "tif": "Tiff", "tiff": "Tiff", "tga": "Tga", "dds": "Dds", "bmp": "Bmp", "ico": "Ico",
       "hdr": "Hdr", "exr": "OpenExr", "pbm": "Pnm", "pam": "Pnm", "ppm": "Pnm", "pgm": "Pnm", "ff": "Farbfeld",
       "qoi": "Qoi", "pcx": "Pcx"}
MIME = {"image/avif": "Avif", "image/jpeg": "Jpeg", "image/png": "Png", "image/gif": "Gif", "image/webp": "WebP",
        "image/tiff": "Tiff", "image/x-targa": "Tga", "image/x-tga": "Tga", "image/vnd-ms.dds": "Dds",
        "image/bmp": "Bmp", "image/x-icon": "Ico", "image/vnd.microsoft.icon": "Ico", "image/vnd.radiance": "Hdr",
        "image/x-exr": "OpenExr", "image/x-portable-bitmap": "Pnm", "image/x-portable-graymap": "Pnm",
        "image/x-portable-pixmap": "Pnm", "image/x-portable-anymap": "Pnm", "image/x-qoi": "Qoi",
        "image/vnd.zbrush.pcx": "Pcx", "image/x-pcx": "Pcx"}
# signature of each file format, from the format specifications: fixed bytes and free positions (None)
def S(s):
    return [ord(ch) for ch in s]
N = None
SIG = [
    (S("\x89PNG\r\n\x1a\n"), "Png"), ([0xff, 0xd8, 0xff], "Jpeg"), (S("GIF89a"), "Gif"), (S("GIF87a"), "Gif"),
    (S("RIFF") + [N] * 4 + S("WEBP"), "WebP"), (S("MM\0*"), "Tiff"), (S("II*\0"), "Tiff"), (S("DDS "), "Dds"),
    (S("BM"), "Bmp"), ([0, 0, 1, 0], "Ico"), (S("#?RADIANCE"), "Hdr"), ([0, 0, 0, N] + S("ftypavif"), "Avif"),
    ([0x76, 0x2f, 0x31, 0x01], "OpenExr"), (S("qoif"), "Qoi"), (S("farbfeld"), "Farbfeld"),
] + [(S("P%d" % k), "Pnm") for k in range(1, 8)] + [([0x0a, v], "Pcx") for v in (0, 2, 3, 4, 5)]
# first bytes that belong to no supported signature: must stay unidentified
FOREIGN = [S("\x7fELF\x02\x01\x01\0"), S("%PDF-1.7"), S("PK\x03\x04\x14\0"), S("RIFF\0\0\0\0WAVEfmt "), S("\0\0\0\x18ftypmp42"),
           S("P8\n1 1\n"), S("GIF88a"), [0x0a, 8, 0, 0], S("8BPS\0\1"), [0] * 16, [0xff] * 2 + [0] * 14, S("MM*\0"), S("hello, world")]


def lit_paths(ck, E, outs, rid, unwrap):
    """Collect literal -> result over every path; compared expression(s)."""
    m, subj = {}, set()
    for o in outs:
        if o.kind != "ret":
            return None, subj, "path ends in %s" % o.kind
        val = E.strip(o.st, o.val)
        if val[0] != "agg":
            return None, subj, "result not a constant variant"
        lits = []
        for t, b in o.st.facts:
            if t[0] == "op" and t[1] == "Eq":
                a, b2 = t[2], t[3]
                if a[0] == "s" or b2[0] == "s":
                    l, s = (a, b2) if a[0] == "s" else (b2, a)
                    subj.add(s)
                    if b:
                        lits.append(l[1])
        pv = tb.plain(E, o.st, val)
        fmt = unwrap(pv)
        if fmt and len(lits) != 1:
            return None, subj, "a format is returned on a path not selected by exactly one string"
        for l in lits:
            m.setdefault(l, fmt)
    return m, subj, None


def under(t):
    """call chain applied to the input: outermost first"""
    out = []
    while True:
        if t[0] == "call" and t[2]:
            out.append(t[1].split("::")[-1])
            t = t[2][0]
        elif t[0] in ("rf", "deref"):
            t = t[1]
        elif t[0] == "fld":
            t = t[1]
        else:
            return out, t


def strings(ck, F, fn, table, unwrap, rid, lower):
    p = ck.p
    it = tb.method(p, F, fn)
    if it is None:
        return None
    E = absint.Engine(p)
    outs = E.run(it, [("sym", "x")])
    E.npaths = len(outs)
    ck.saw(E)
    m, subj, why = lit_paths(ck, E, outs, rid, unwrap)
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    if m is None:
        ck.und(rid, fn, why)
        return None
    for s, f in table.items():
        got = m.get(s)
        ck.judge(rid, "%s:%s" % (fn, s), got == f, "%s: \"%s\" yields %s, documented %s" % (where, s, got, f), f)
    for s, f in m.items():
        if s not in table:
            own = {v for k, v in table.items()}
            # an extra alias is fine unless it is spelled so that it can never match
            ck.judge(rid, "%s:%s" % (fn, s), not (lower and s != s.lower()),
                     "%s: compared string \"%s\" can never equal an ASCII-lowercased input" % (where, s))
    if lower:
        good = True
        for s in subj:
            ops, base = under(s)
            good = good and "to_ascii_lowercase" in ops
            if base != ("sym", "x"):
                good = None if good else good
        if not subj:
            good = None
        ck.judge("case", fn, good, "%s: extension compared without ASCII lower-casing: %s" % (where, [T.show(s) for s in subj]))
    return m


def val_bytes(v):
    while "ref" in v:
        v = v["ref"]
    if "str" in v:
        return [ord(x) for x in v["str"]]
    return [x["v"] for x in v["arr"]]


def fits(rows, hdr, ftab):
    """set of formats the scan can return for headers described by hdr (None = any byte), in table order"""
    for sig, mask, f in rows:
        mk = (mask + [0xff] * len(sig))[:len(sig)] if mask else [0xff] * len(sig)
        if len(hdr) < len(sig):
            # longer signature: matches some continuation of hdr?
            head = [(b, s, m) for b, s, m in zip(hdr, sig, mk)]
            poss = all(b is None or (b & m) == s for b, s, m in head)
            if poss:
                yield "maybe", f
            continue
        sure = all((m == 0 and s == 0) or (b is not None and (b & m) == s) for b, s, m in zip(hdr, sig, mk))
        poss = all((b is None and (s & ~m) == 0) or (b is not None and (b & m) == s) for b, s, m in zip(hdr, sig, mk))
        if sure:
            yield "sure", f
            return
        if poss:
            yield "maybe", f


def magic(ck, F):
    p = ck.p
    its = [x for x in p.items.values() if x["kind"] == "fn" and x["name"] == "guess_format" and "impl_self" not in x]
    if len(its) != 1:
        return
    it = its[0]
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    E = absint.Engine(p)
    outs = E.run(it, [("sym", "buf")])
    E.npaths = len(outs)
    ck.saw(E)
    names = [v["n"] for v in p.adts[F]["variants"]]
    arrs, shapes, lone = set(), [], []
    for o in outs:
        v = E.strip(o.st, o.val)
        if o.kind != "ret" or v[0] != "agg":
            ck.und("scan", "guess_format", "unrecognised result %s" % T.show(v))
            return
        if v[2] == 1:
            continue        # Err
        f = E.strip(o.st, v[3][0])
        if f[0] == "agg" and f[1] == F:
            lone.append((o, names[f[2]]))
            continue
        if f[0] == "fld" and f[1][0] == "idx" and f[1][1][0] == "agg" and f[1][1][1] == "array":
            arrs.add(f[1][1])
            shapes.append((o, f[1], f[3]))
        else:
            ck.und("scan", "guess_format", "format not taken from a signature table: %s" % T.show(f))
            return
    if len(arrs) != 1 or lone:
        ck.und("scan", "guess_format", "%d signature tables, %d direct results" % (len(arrs), len(lone)))
        return
    arr = arrs.pop()
    st = absint.State()
    rows = []
    fidx = shapes[0][2]
    sidx = [k for k in range(3) if k != fidx]
    for r in arr[3]:
        r = E.strip(st, r)
        vals = [tb.plain(E, st, x) for x in r[3]]
        if len(vals) != 3 or not isinstance(vals[fidx], str) or None in vals:
            ck.und("scan", "guess_format", "signature row not constant")
            return
        b = [[ord(q) for q in x] if isinstance(x, str) else x for x in (vals[sidx[0]], vals[sidx[1]])]
        rows.append((b[0], b[1], vals[fidx]))
    ck.ok("scan", "table", "%d rows" % len(rows))
    # the match condition of every returning path
    for o, row, _ in shapes:
        sig, mask = ("fld", row, None, sidx[0]), ("fld", row, None, sidx[1])
        prefix = masked = lenok = False
        maskempty = None
        notes = []
        for t, b in o.st.facts:
            if t[0] == "call" and t[1] == "slice::starts_with" and b:
                a0, a1 = E.strip(o.st, t[2][0]), E.strip(o.st, t[2][1])
                prefix = prefix or (T.contains(a0, ("sym", "buf")) and T.contains(a1, row) and a1[0] == "fld" and a1[3] == sidx[0])
            elif t[0] == "call" and t[1] == "Iterator::all" and b:
                masked = masked_ok(ck, E, o, t, row, sidx)
            elif t[0] == "op" and t[1] == "Lt" and not b and t[2][0] == "len" and t[3][0] == "len":
                lenok = lenok or (T.contains(t[2], ("sym", "buf")) and T.contains(t[3], sig))
            elif t[0] == "op" and t[1] == "Eq" and T.contains(t, row):
                maskempty = b
        if prefix:
            # a prefix test is the signature's meaning only where no byte is masked
            good = maskempty is True
            ck.judge("scan", "prefix-match", good, "%s: prefix comparison used on rows with a mask" % where)
        elif masked:
            ck.judge("scan", "masked-match", masked == 1 and lenok,
                     "%s: masked comparison %s" % (where, "does not require the header to be as long as the signature" if masked == 1 else
                                                   "is not byte & mask == signature byte over the whole signature"))
        elif masked is None:
            ck.und("scan", "masked-match", "unrecognised comparison")
        else:
            ck.und("scan", "match", "unrecognised match condition")
    # table semantics against the documented signatures
    for h, f in SIG:
        res = list(fits(rows, h, names))
        got = {x for _, x in res}
        good = res and res[-1][0] == "sure" and got == {f}
        lab = "".join("." if b is None else (chr(b) if 32 < b < 127 else "\\x%02x" % b) for b in h)
        ck.judge("magic", "%s:%s" % (f, lab), bool(good),
                 "%s: a file starting with the %s signature %s is identified as %s" % (where, f, lab, sorted(got) or "nothing"))
    for h in FOREIGN:
        res = [f for k, f in fits(rows, h, names) if k == "sure"]
        lab = "".join(chr(b) if 32 < b < 127 else "\\x%02x" % b for b in h)
        ck.judge("foreign", lab, not res, "%s: a file starting with %s (no supported format) is identified as %s" % (where, lab, res))


def masked_ok(ck, E, o, t, row, sidx):
    """Iterator::all(zip of buf/signature/mask in lockstep, |b, s, m| b & m == s)"""
    itv, clo = t[2][0], t[2][1]
    while itv[0] in ("rf", "ref", "deref"):
        itv = itv[1] if itv[0] != "ref" else E.strip(o.st, E.read_ref(o.st, itv)) if hasattr(E, "read_ref") else itv[1]
    leaves = []

    def shape(x):
        if x[0] == "it" and x[1] == "zip":
            return ("zip", shape(x[2]), shape(x[3]))
        if x[0] == "it" and x[1] == "slice":
            s = x[2]
            if T.contains(s, ("sym", "buf")) and not T.contains(s, row):
                return "buf"
            for k, n in ((0, "sig"), (1, "mask")):
                q = s
                while q[0] in ("rf", "deref"):
                    q = q[1]
                if q[0] == "fld" and q[1] == row and q[3] == sidx[k]:
                    return n
            return "?"
        if x[0] == "it" and x[1] == "chain":
            a = shape(x[2])
            if a == "mask" and x[3][0] == "call" and x[3][1] == "iter::repeat":
                rv = x[3][2][0]
                while rv[0] in ("rf", "cv"):
                    rv = rv[1]
                return "mask" if rv == T.c(255) else "badfill"
            return "?"
        return "?"
    sh = shape(itv)

    def tup(x):
        if isinstance(x, tuple):
            return ("agg", "tuple", 0, (tup(x[1]), tup(x[2])))
        leaves.append(x)
        return ("rf", ("sym", x))
    if "?" in str(sh) or clo[0] != "clo":
        return None
    arg = tup(sh)
    if "badfill" in leaves:
        return 2
    if set(leaves) != {"buf", "sig", "mask"}:
        return 2 if set(leaves) <= {"buf", "sig", "mask"} else None
    body = E.p.by_path.get(clo[1].split("::", 1)[1]) or [x for x in E.p.items.values() if x["path"] == clo[1].split("::", 1)[1]]
    if isinstance(body, list):
        body = body[0] if body else None
    if body is None:
        return None
    E2 = absint.Engine(E.p)
    st = absint.State()

    def mk(x):
        return ("agg", "tuple", 0, (mk(x[1]), mk(x[2]))) if isinstance(x, tuple) else tb.by_ref(st, ("sym", x), x)
    try:
        outs = E2.run(body, [clo, mk(sh)], st=st)
    except absint.Undecided:
        return None
    ck.saw(E2)
    if len(outs) != 1 or outs[0].kind != "ret":
        return None
    r = E2.strip(outs[0].st, outs[0].val)
    # equality of bitwise expressions is decided bit by bit; signature bits under a 0 mask bit are 0 in the table
    for buf in (0, 1):
        for sig, mask in ((0, 0), (0, 1), (1, 1)):
            got = bit(r, {"buf": buf, "sig": sig, "mask": mask})
            if got is None:
                return None
            if got != int((buf & mask) == sig):
                return 2
    return 1


def bit(t, env):
    if t[0] == "sym":
        return env.get(t[1])
    if t[0] == "c":
        return {0: 0, 255: 1}.get(t[1])
    if t[0] == "not":
        v = bit(t[1], env)
        return None if v is None else 1 - v
    if t[0] == "op" and t[1] in ("BitAnd", "BitOr", "BitXor", "Eq"):
        v = [bit(x, env) for x in t[2:4]]
        if None in v:
            return None
        return {"BitAnd": v[0] & v[1], "BitOr": v[0] | v[1], "BitXor": v[0] ^ v[1], "Eq": int(v[0] == v[1])}[t[1]]
    return None


def run(ck):
    p = ck.p
    ck.rule("ext", "every documented file extension selects its format (all paths of the extension and path classifiers)", 30)
    ck.rule("mime", "every documented MIME type selects its format", 15)
    ck.rule("case", "the compared extension went through ASCII lower-casing", 1)
    ck.rule("listed", "each format's own listed extensions and its MIME type select it again, and no two formats list the same one", 20)
    ck.rule("magic", "the signature table, scanned in order, identifies every documented signature as exactly its format", 20)
    ck.rule("foreign", "no signature-table row accepts these foreign headers", 8)
    ck.rule("scan", "the identification function is a first-match scan over the signature table with a prefix / masked comparison", 2)
    F = tb.find_adt(p, "ImageFormat")
    if F is None:
        return
    opt = lambda v: v[1] if isinstance(v, tuple) and v[0] in ("Some", "Ok") else None
    ext = strings(ck, F, "from_extension", EXT, opt, "ext", True)
    strings(ck, F, "from_path", EXT, opt, "ext", True)
    mime = strings(ck, F, "from_mime_type", MIME, opt, "mime", False)
    seen = {}
    for i, v in enumerate(p.adts[F]["variants"]):
        it = tb.method(p, F, "extensions_str")
        if it:
            E, outs = tb.eval_variant(ck, it, F, i)
            vals = [tb.plain(E, o.st, o.val) for o in outs]
            if len(vals) != 1 or not isinstance(vals[0], list) or None in vals[0]:
                ck.und("listed", "ext " + v["n"], "not constant")
            else:
                for s in vals[0]:
                    g = ext.get(s) if ext is not None else EXT.get(s)
                    ck.judge("listed", "ext %s:%s" % (v["n"], s), g == v["n"],
                             "%s lists extension \"%s\" which selects %s (%s)" % (v["n"], s, g, p.loc_of_item(it)))
                ck.judge("listed", "ext-set " + v["n"], bool(vals[0]), "%s lists no extension" % v["n"])
        it = tb.method(p, F, "to_mime_type")
        if it:
            E, outs = tb.eval_variant(ck, it, F, i)
            vals = [tb.plain(E, o.st, o.val) for o in outs]
            if len(vals) != 1 or not isinstance(vals[0], str):
                ck.und("listed", "mime " + v["n"], "not constant")
            elif vals[0] == "application/octet-stream":
                ck.judge("listed", "mime " + v["n"], v["n"] == "Farbfeld", "%s has no registered MIME type" % v["n"])
            else:
                g = mime.get(vals[0]) if mime is not None else MIME.get(vals[0])
                ck.judge("listed", "mime " + v["n"], g == v["n"], "%s declares MIME type %s, which selects %s (%s)" % (v["n"], vals[0], g, p.loc_of_item(it)))
    magic(ck, F)
