"""Shared by the encoder properties: the encoders' entry points, run symbolically per colour type."""
from vlib import absint, terms as T, tables as tb
from vlib.absint import Out
from vlib.errflow import is_failure
from . import limits as L
from .c11 import facts as layout

BUF = ("sym", "buf")
LEN = ("len", ("deref", BUF))
W, H = ("sym", "w", L.U32), ("sym", "h", L.U32)
UNK = ("sym", "unknown bits", (0, 255))
U8REF = ("ref", ("slice", ("prim", "u8")))


class Entry:
    def __init__(self, name, it, adt, wparams, via):
        self.name, self.it, self.adt, self.wparams, self.via = name, it, adt, wparams, via


def is_u8s(t):
    return t[0] == "ref" and t[1][0] == "slice" and t[1][1] == ("prim", "u8")


def entries(p):
    """write_image of every encoder, and their public methods that take pixels and dimensions"""
    out = []
    adts = {}
    for im in p.impls:
        if im.get("trait", "").split("::")[-1] == "ImageEncoder" and im["_self"][0] == "adt":
            e = im["_items"].get("write_image")
            it = p.items.get(e["key"]) if e else None
            s = im["_self"]
            nm = s[1].split("::")[-1]
            wp = tuple(a for a in s[2] if a[0] == "param")
            adts[s[1]] = wp
            if it is not None and "body" in it:
                out.append(Entry(nm + "::write_image", it, s[1], wp, "trait"))
    for it in p.fns():
        b = it["body"]
        if it["kind"] == "closure" or b["argc"] < 4 or "write_image" == it["name"] and any(e.it is it for e in out):
            continue
        if not it.get("pubvis"):
            continue
        tys = [p.ty(b["locals"][k + 1][0]) for k in range(b["argc"])]
        s = tys[0][1] if tys[0][0] == "ref" else tys[0]
        if s[0] != "adt" or not s[1].split("::")[-1].endswith("Encoder"):
            continue
        ds = [t for t in tys[1:] if t in (("prim", "u32"), ("prim", "usize"))]
        sl = [t for t in tys[1:] if t[0] == "ref" and t[1][0] == "slice"]
        if len(ds) == 2 and len(sl) == 1:
            out.append(Entry("%s::%s" % (s[1].split("::")[-1], it["name"]), it, s[1], tuple(a for a in s[2] if a[0] == "param"), "inherent"))
    return out


def has_param(t, ps, d=0):
    if not isinstance(t, tuple) or d > 12:
        return False
    if t in ps or t and t[0] == "dyn" and "Write" in str(t):
        return True
    return any(has_param(x, ps, d + 1) for x in t if isinstance(x, tuple))


class EncEngine(absint.Engine):
    """notes the first call that can write to the encoder's destination"""
    wparams = ()
    stop = True
    judge = None
    wrap_on = (W, H)

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        if self.writes(fr, t):
            for o in outs:
                o.st.eff = o.st.eff + (("write", name, tuple(args), o.val, (fr.it["path"], bb, self.p.loc(t[6])), fargs),)
        return outs

    def writes(self, fr, t):
        """a call that is given the destination and can fail"""
        if not t[3]:
            return False
        r = self.place_ty(fr, t[3])
        if r[0] != "adt" or r[1] != absint.RESULT:
            return False
        return any(has_param(self.op_ty(fr, a), self.wparams) for a in t[2])

    def block(self, st, fr, bb):
        r = super().block(st, fr, bb)
        if not self.stop:
            return r
        out = []
        for x in r:
            s = x.st if isinstance(x, Out) else x[0]
            if any(e[0] == "write" for e in s.eff) and (not isinstance(x, Out) or x.kind != "panic"):
                out.append(Out(s, "write"))
            else:
                out.append(x)
        return out


def colours(p):
    """[(variant index, name, bits per pixel or None)] of ExtendedColorType"""
    X = tb.find_adt(p, "ExtendedColorType")
    out = []
    for i, v in enumerate(p.adts[X]["variants"]):
        f = layout(v["n"])
        out.append((i, v["n"], f[1] * f[2] if f else None))
    return X, out


def setup(p, e, cv, X, npayload):
    """initial state and arguments of an entry point for one colour variant -> (st, args, takes_colour, unit)"""
    b = e.it["body"]
    st = absint.State()
    args = []
    dims = [W, H]
    takes = False
    unit = "bytes"
    for k in range(b["argc"]):
        t = p.ty(b["locals"][k + 1][0])
        if k == 0:
            if t[0] == "ref":
                st.mem[("arg", "self")] = ("sym", "enc")
                args.append(("ref", ("arg", "self"), (), True))
            else:
                args.append(("sym", "enc"))
        elif t[0] == "ref" and t[1][0] == "slice":
            args.append(BUF)
            if t[1][1] != ("prim", "u8"):
                unit = "pixels"
        elif t in (("prim", "u32"), ("prim", "usize")) and dims:
            args.append(dims.pop(0))
        elif t[0] == "adt" and t[1] == X:
            takes = True
            args.append(("agg", X, cv, (UNK,) if npayload else ()))
        else:
            args.append(("sym", "arg%d" % k))
    return st, args, takes, unit


def hook(E, st, fr, name, fi, fargs, args, site):
    # the gif crate's frame constructors assert the exact pixel count (third-party contract)
    if name.startswith("Frame::from_") and len(args) >= 3:
        ln = E.len_of_ref(st, args[2])
        n = {"rgb": 3, "rgba": 4}.get(name.split("_")[1])
        if n:
            w, h = args[0], args[1]
            s = st.fork()
            if E.assume(s, T.eq(ln, T.mul(T.mul(w, h), T.c(n))), True):
                return [Out(s, "ret", ("call", name, tuple(args)))]
            return []
    return None


def run(ck, e, cv, X, npayload, stop=True, **kw):
    E = EncEngine(ck.p, hook=kw.pop("hook", hook), max_paths=kw.pop("max_paths", 6000), max_steps=kw.pop("max_steps", 120000), **kw)
    E.wparams, E.stop = e.wparams, stop
    st, args, takes, unit = setup(ck.p, e, cv, X, npayload)
    outs = E.run(e.it, args, st=st)
    E.npaths = len(outs)
    ck.saw(E)
    return E, outs, takes, unit


def need(bits, w, h):
    return -(-bits * w // 8) * h
