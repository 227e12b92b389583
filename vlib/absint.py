"""Path-sensitive abstract interpreter over MIR: value provenance (gated value numbering), context
sensitive through crate-local calls, each loop body analysed once from an arbitrary iteration
(modified state replaced by loop symbols, recognised iterators by a generic element).  No solver, no
concrete execution: facts are a set of syntactic term truths used only to prune contradictory branches.
"""
import copy
import re
from .prog import cfg_of
from . import terms as T
from .terms import c, TRUE, FALSE, UNIT, INT_TYPES


class Undecided(Exception):
    pass


class Unbounded(Exception):
    pass


class Out:
    __slots__ = ("st", "kind", "val", "why")

    def __init__(self, st, kind, val=None, why=None):
        self.st, self.kind, self.val, self.why = st, kind, val, why

    def __repr__(self):
        return "Out(%s,%s,%s)" % (self.kind, T.show(self.val) if self.val else None, self.why)


class State:
    __slots__ = ("mem", "known", "excl", "eff", "facts")

    def __init__(self):
        self.mem, self.known, self.excl, self.eff, self.facts = {}, {}, {}, (), ()

    def fork(self):
        s = State()
        s.mem, s.known, s.excl, s.eff, s.facts = dict(self.mem), dict(self.known), dict(self.excl), self.eff, self.facts
        return s


OPTION, RESULT, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"


def agg(k, v, *f):
    return ("agg", k, v, tuple(f))


def some(v):
    return agg(OPTION, 1, v)


NONE = agg(OPTION, 0)


def ok(v):
    return agg(RESULT, 0, v)


def err(v):
    return agg(RESULT, 1, v)


def tup(*f):
    return agg("tuple", 0, *f)


_gen = re.compile(r"::<[^<>]*>")


def strip_generics(p):
    while True:
        q = _gen.sub("", p)
        if q == p:
            break
        p = q
    return p


_canon = {}


def canon(prog, fi):
    """Canonical short name of a callee: Trait::method, Type::method or module::function."""
    k = (fi["key"], fi.get("trait"), fi.get("impl_self"))
    r = _canon.get(k)
    if r is not None:
        return r
    n = fi["name"]
    if fi.get("ctor"):
        r = "ctor"
    elif "trait" in fi:
        r = fi["trait"].split("::")[-1] + "::" + n
    elif "impl_self" in fi:
        t = prog.ty(fi["impl_self"])
        if t[0] == "adt":
            h = t[1].split("::")[-1]
        elif t[0] == "prim":
            h = t[1]
        elif t[0] == "slice":
            h = "slice"
        elif t[0] == "array":
            h = "array"
        else:
            h = t[0]
        r = h + "::" + n
    else:
        seg = re.sub(r"<.*?>", "", strip_generics(fi["path"])).split("::")
        r = "::".join(seg[-2:])
    _canon[k] = r
    return r


class Frame:
    __slots__ = ("it", "body", "subst", "fid", "cfg", "depth", "site")


class Engine:
    wrap_on = True
    trace = False       # trace.Tracer: record loop structure and pixel accesses
    def __init__(self, prog, hook=None, max_depth=14, max_steps=60000, max_paths=4000, no_inline=None,
                 models=None, unroll=0):
        self.p = prog
        self.hook = hook                # hook(engine, st, frame, name, fi, args, argtys, site) -> None | list[Out]
        self.no_inline = no_inline or (lambda fi, name: False)
        self.max_depth, self.max_steps, self.max_paths = max_depth, max_steps, max_paths
        self.steps = 0
        self.fid = 0
        self.uid = 0
        self.inds = {}                  # generic iteration index -> count term / iterator
        self.phis = {}                  # phi symbol -> {"init":[...], "back":[...]}
        self.fns_seen = set()
        self.calls_seen = 0
        self.unroll = unroll            # follow loops of known length up to this many steps
        self.nounroll = set()
        self.notes = []
        from . import models as M
        self.models = M.MODELS
        self.extra = models or {}

    # ------------------------------------------------------------------ utilities
    def fresh(self, name):
        self.uid += 1
        return ("sym", "%s#%d" % (name, self.uid))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget")

    def sub(self, fr, ti):
        return self.p.subst(self.p.ty(ti), fr.subst)

    # ------------------------------------------------------------------ memory
    def load_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        if cell[0] == "obj":
            b = cell[1]
            if b[0] == "s":
                return b
            return ("deref", b)
        if cell[0] == "cv":
            return cell[1]
        if cell[0] == "sl":
            v = cell[1]
            cl, pr = self.target(v[1])
            return ("slice", self.read(st, cl, pr), v[2], v[3])
        return ("uninit", cell)

    def proj(self, v, e, st=None):
        k = e[0]
        if k == "f":
            variant, i = e[1], e[2]
            if v[0] == "agg":
                if i < len(v[3]):
                    return v[3][i]
                return ("fld", v, variant, i)
            if v[0] == "box":
                return v
            if v[0] == "clo":
                return v[3][i] if i < len(v[3]) else ("fld", v, variant, i)
            if v[0] == "uninit":
                return ("uninit", (v[1], i))
            if v[0] == "over":
                for (pe, pv) in v[2]:
                    if pe == e:
                        return pv
                return self.proj(v[1], e)
            return ("fld", v, variant, i)
        if k == "i":
            return self.index(v, e[1])
        if k == "ci":
            off, fe, minlen = e[1], e[2], e[3]
            if v[0] == "agg" and v[1] == "array":
                return v[3][-off if fe else off]
            if fe:
                ln = self.length(v)
                return self.index(v, T.sub(ln, c(off)))
            return self.index(v, c(off))
        if k == "ss":
            a, b, fe = e[1], e[2], e[3]
            if v[0] == "agg" and v[1] == "array":
                return agg("array", 0, *(v[3][a:len(v[3]) - b] if fe else v[3][a:b]))
            ln = self.length(v)
            return ("slice", v, c(a), T.sub(ln, c(a + b)) if fe else c(b - a))
        return ("proj", v, e)

    def index(self, v, i):
        if v[0] == "agg" and v[1] == "array" and i[0] == "c" and 0 <= i[1] < len(v[3]):
            return v[3][i[1]]
        if v[0] == "agg" and v[1] == "array" and len(v[3]) == 1:
            return v[3][0]      # the only index that is in bounds
        if v[0] == "slice":
            return self.index(v[1], T.add(v[2], i))
        if v[0] == "upd":
            if v[2] == i:
                return v[3]
            d = T.sub(v[2], i)
            if T.isc(d) and d[1] != 0:
                return self.index(v[1], i)
        if v[0] == "repeat":
            return v[1]
        return ("idx", v, i)

    def length(self, v):
        if v[0] == "agg" and v[1] == "array":
            return c(len(v[3]))
        if v[0] == "slice":
            return v[3]
        if v[0] == "upd":
            return self.length(v[1])
        if v[0] == "repeat":
            return v[2]
        if v[0] == "s":
            return c(len(v[1].encode()))
        if v[0] == "arrty":
            return c(v[2])
        return ("len", v)

    def read(self, st, cell, pr):
        v = self.load_cell(st, cell)
        for e in pr:
            v = self.proj(v, e)
        return v

    def write(self, st, cell, pr, val):
        if cell[0] == "sl" and cell not in st.mem:
            v = cell[1]
            cl, bp = self.target(v[1])
            if pr and pr[0][0] in ("i", "ci"):
                e = pr[0]
                i = e[1] if e[0] == "i" else (c(e[1]) if not e[2] else T.sub(v[3], c(e[1])))
                return self.write(st, cl, bp + (("i", T.add(v[2], i)),) + tuple(pr[1:]), val)
            old = self.read(st, cl, bp)
            return self.write(st, cl, bp, ("upds", old, v[2], v[3], val))
        if not pr:
            st.mem[cell] = val
            return
        st.mem[cell] = self.upd(self.load_cell(st, cell), pr, val)

    def upd(self, v, pr, val):
        if not pr:
            return val
        e = pr[0]
        if e[0] == "f":
            i = e[2]
            if v[0] == "agg":
                f = list(v[3])
                while len(f) <= i:
                    f.append(("uninit", (len(f),)))
                f[i] = self.upd(f[i], pr[1:], val)
                return ("agg", v[1], v[2], tuple(f))
            cur = self.proj(v, e)
            nv = self.upd(cur, pr[1:], val)
            base, ov = (v[1], v[2]) if v[0] == "over" else (v, ())
            ov = tuple(x for x in ov if x[0] != e) + ((e, nv),)
            return ("over", base, tuple(sorted(ov, key=T.skey)))
        if e[0] in ("i", "ci"):
            i = e[1] if e[0] == "i" else (c(e[1]) if not e[2] else T.sub(self.length(v), c(e[1])))
            if v[0] == "agg" and v[1] == "array" and i[0] == "c" and 0 <= i[1] < len(v[3]):
                f = list(v[3])
                f[i[1]] = self.upd(f[i[1]], pr[1:], val)
                return ("agg", "array", 0, tuple(f))
            nv = self.upd(self.index(v, i), pr[1:], val)
            if v[0] == "slice":
                return ("slice", self.upd(v[1], (("i", T.add(v[2], i)),), nv), v[2], v[3])
            if v[0] == "upd" and v[2] == i:
                return ("upd", v[1], i, nv)
            return ("upd", v, i, nv)
        return ("updp", v, e, val)

    def place(self, st, fr, pl, ty=False):
        """-> (cell, proj)"""
        cell, pr = (fr.fid, pl[0]), ()
        variant = None
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, cell, pr)
                cell, pr = self.target(v)
                variant = None
            elif e[0] == "f":
                pr = pr + (("f", variant, e[1]),)
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                pr = pr + (("i", self.read(st, (fr.fid, e[1]), ())),)
            elif e[0] == "ci":
                pr = pr + (("ci", e[1], e[2], e[3]),)
            elif e[0] == "ss":
                pr = pr + (("ss", e[1], e[2], e[3]),)
            else:
                pr = pr + (("o",),)
        return cell, pr

    def target(self, v):
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] == "box":
            return v[1][1], v[1][2]
        if v[0] == "sliceref":
            # reference to a subslice of an object
            return ("sl", v), ()
        return ("obj", v), ()

    def place_ty(self, fr, pl):
        t = self.sub(fr, fr.body["locals"][pl[0]][0])
        for e in pl[1:]:
            if e == "*":
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else ("other", "?"))
            elif e[0] == "f":
                t = self.sub(fr, e[2])
            elif e[0] in ("i", "ci"):
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
        return t

    def op_ty(self, fr, op):
        if op[0] in ("c", "m"):
            return self.place_ty(fr, op[1])
        if op[0] == "k":
            return self.sub(fr, op[1]["ty"])
        return ("other", "?")

    # ------------------------------------------------------------------ constants
    def cval(self, j):
        if "v" in j:
            return c(j["v"])
        if "str" in j:
            return ("s", j["str"])
        if "f" in j:
            return ("f", j["f"])
        if "ref" in j:
            return ("ref", ("cv", self.cval(j["ref"])), (), False)
        if "arr" in j:
            return agg("array", 0, *[self.cval(x) for x in j["arr"]])
        if "tup" in j:
            return tup(*[self.cval(x) for x in j["tup"]])
        if "adt" in j:
            return ("agg", j["adt"], j["var"], tuple(self.cval(x) for x in j["fs"]))
        if "fn" in j:
            return self.fnval(j["fn"], {})
        if "zst" in j:
            return UNIT
        if "static" in j:
            it = self.p.items.get(j["static"])
            if it and "val" in it and not it.get("mutable"):
                return ("ref", ("cv", self.cval(it["val"])), (), False)
            return ("static", j["static"])
        return self.fresh("const")

    def fnval(self, fi, s):
        args = tuple(self.p.subst(self.p.arg(a), s) for a in fi["args"])
        self.p.__dict__.setdefault("fninfo", {})[fi["key"]] = fi
        return ("fn", fi["key"], args)

    def const(self, st, fr, k):
        if "fn" in k:
            return self.fnval(k["fn"], fr.subst)
        if "val" in k and "opaque" not in k["val"]:
            t = self.p.ty(k["ty"])
            if t[0] == "closure":
                return ("clo", t[1], tuple(self.p.subst(a, fr.subst) for a in t[2]), ())
            return self.cval(k["val"])
        if "promoted" in k:
            it = self.p.items.get(k["of"])
            body = it["promoted"][k["promoted"]]
            outs = self.exec_body(st, it, body, fr.subst, [], fr.depth + 1, "promoted%d" % k["promoted"])
            outs = [o for o in outs if o.kind == "ret"]
            if len(outs) == 1:
                st.mem.update(outs[0].st.mem)
                return outs[0].val
            return self.fresh("promoted")
        if "tyc" in k:
            n = k["tyc"]["const"]
            if isinstance(n, int):
                return c(n)
            v = fr.subst.get(("c", n)) if fr.subst else None
            if v is not None and isinstance(v[1], int):
                return c(v[1])
            return ("cst", "param", n)
        if "trait" in k:
            args = tuple(self.p.subst(self.p.arg(a), fr.subst) for a in k["args"])
            r = self.p.find_impl(k["trait"], args)
            if r:
                im, s = r
                it = im["_items"].get(k["item"])
                if it:
                    ci = self.p.items.get(it["key"])
                    if ci is not None:
                        if "val" in ci and "opaque" not in ci["val"]:
                            return self.cval(ci["val"])
                        outs = self.exec_body(st, ci, ci["body"], s, [], fr.depth + 1, "const")
                        outs = [o for o in outs if o.kind == "ret"]
                        if len(outs) == 1:
                            st.mem.update(outs[0].st.mem)
                            return outs[0].val
            return ("cst", k["trait"].split("::")[-1] + "::" + k["item"], self.p.tystr(args[0]))
        if "cdef" in k:
            ci = self.p.items.get(k["cdef"])
            if ci is not None and "val" in ci and "opaque" not in str(ci["val"])[:20]:
                return self.cval(ci["val"])
            if ci is not None and "body" in ci:
                args = tuple(self.p.subst(self.p.arg(a), fr.subst) for a in k["args"])
                s = self.bind_generics(ci, args)
                outs = self.exec_body(st, ci, ci["body"], s, [], fr.depth + 1, "const")
                outs = [o for o in outs if o.kind == "ret"]
                if len(outs) == 1:
                    st.mem.update(outs[0].st.mem)
                    return outs[0].val
            return ("cst", k["cpath"], tuple(self.p.tystr(self.p.subst(self.p.arg(a), fr.subst)) for a in k["args"]))
        t = self.sub(fr, k["ty"])
        if t[0] == "tuple" and not t[1]:
            return UNIT
        if t[0] == "closure":
            return ("clo", t[1], t[2], ())
        return ("zst", self.p.tystr(t))

    def bind_generics(self, it, args):
        s = {}
        gens = it.get("generics", [])
        for (idx, name, kind), a in zip(gens, args):
            if kind == "const":
                s[("c", name)] = a
                s[idx] = a
            else:
                s[idx] = a
        return s

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            cell, pr = self.place(st, fr, o[1])
            return self.read(st, cell, pr)
        if o[0] == "k":
            return self.const(st, fr, o[1])
        return FALSE

    def prim(self, t):
        return t[1] if t[0] == "prim" else None

    def adt_discr(self, t):
        if t[0] == "adt":
            a = self.p.adts.get(t[1])
            if a and a["kind"] == "enum":
                return t[1]
        return None

    def discr_of(self, st, v, adt):
        if v[0] == "agg" and v[1] == adt:
            return c(self.p.adts[adt]["variants"][v[2]]["d"])
        if v[0] == "agg" and v[1] != "tuple":
            a = self.p.adts.get(v[1])
            if a:
                return c(a["variants"][v[2]]["d"])
        return ("discr", v, adt)

    def rvalue(self, st, fr, r, dst_ty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "raw"):
            cell, pr = self.place(st, fr, r[1])
            if cell[0] == "sl":
                if not pr:
                    return cell[1]
            if cell[0] == "obj" and not pr:
                # reborrow of an opaque pointer is the pointer itself
                return cell[1]
            if pr and pr[-1][0] == "ss":
                return self.subslice_ref(st, cell, pr, r[2])
            return ("ref", cell, pr, bool(r[2]))
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            op = r[1]
            if op.endswith("WithOverflow"):
                o = op[:-len("WithOverflow")]
                v = T.binop(o, a, b, self.prim(ty))
                if T.isc(v):
                    lo, hi = INT_TYPES[self.prim(ty)]
                    return tup(v, c(not (lo <= v[1] <= hi)))
                if self.wrap_on and o in ("Add", "Sub", "Mul") and (any(len(x) > 2 and x[0] == "sym" for x in T.subterms(v)) if self.wrap_on is True else any(T.contains(v, x) for x in self.wrap_on)):
                    # without overflow checks the result wraps: keep that visible for these operands
                    r, (lo, hi) = self.rng(v), INT_TYPES[self.prim(ty)]
                    if r is None or r[0] < lo or r[1] > hi:
                        v = ("wrap", o, self.prim(ty), a, b)
                    return tup(v, ("ovf", o, self.prim(ty), v))
                return tup(v, ("ovf", o, self.prim(ty), v))
            if ty[0] in ("prim",):
                return T.binop(op, a, b, ty[1])
            return T.binop(op, a, b, "ptr" if op not in ("Eq", "Ne") else None)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                ty = self.op_ty(fr, r[2])
                if ty == ("prim", "bool"):
                    return T.not_(a)
                if T.isc(a) and self.prim(ty) in INT_TYPES:
                    lo, hi = INT_TYPES[self.prim(ty)]
                    return c(hi - a[1]) if lo == 0 else c(~a[1])
                return ("op", "BitNot", a)
            if r[1] == "Neg":
                ty = self.op_ty(fr, r[2])
                if self.prim(ty) in INT_TYPES:
                    return T.neg(a)
                return ("op", "fNeg", a)
            if r[1] == "PtrMetadata":
                return self.len_of_ref(st, a)
            return ("op", r[1], a)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            to = self.sub(fr, r[3])
            ck = r[1]
            if ck == "IntToInt":
                frm = self.op_ty(fr, r[2])
                if frm[0] == "prim" and to[0] == "prim" and to[1] in INT_TYPES:
                    if T.isc(a):
                        return T.cast_int(a, frm[1], to[1])
                    if frm[1] in ("bool", "char"):
                        return ("cast", to[1], frm[1], a)
                    return T.cast_int(a, frm[1], to[1])
                if frm[0] == "adt":
                    return ("cast", self.p.tystr(to), self.p.tystr(frm), a)
                return ("cast", self.p.tystr(to), self.p.tystr(frm), a)
            if ck.startswith("PointerCoercion"):
                if "ClosureFnPointer" in ck or "ReifyFnPointer" in ck or "Unsize" in ck or "MutToConst" in ck:
                    return a
                return a
            if ck in ("PtrToPtr",):
                return a
            if ck in ("Transmute", "BoxDerefTransmute") and a[0] == "box":
                return a
            if ck in ("Transmute", "BoxDerefTransmute") and a[0] == "fld" and a[1][0] == "fld":
                return a[1][1]
            frm = self.op_ty(fr, r[2])
            if a[0] == "f" and to[0] == "prim" and ck == "FloatToFloat":
                return a
            if T.isc(a) and ck == "IntToFloat":
                return ("f", repr(float(a[1])))
            return ("cast", self.p.tystr(to), self.p.tystr(frm), a)
        if k == "discr":
            cell, pr = self.place(st, fr, r[1])
            v = self.read(st, cell, pr)
            t = self.place_ty(fr, r[1])
            adt = t[1] if t[0] == "adt" else "?"
            return self.discr_of(st, v, adt)
        if k == "agg":
            kd = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            if kd[0] == "tuple":
                return ("agg", "tuple", 0, ops)
            if kd[0] == "array":
                return ("agg", "array", 0, ops)
            if kd[0] == "adt":
                return ("agg", kd[1], kd[2], ops)
            if kd[0] == "closure":
                return ("clo", kd[1], tuple(self.p.subst(self.p.arg(a), fr.subst) for a in kd[2]), ops)
            if kd[0] == "rawptr":
                return ops[0]
            return ("agg", "other", 0, ops)
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]["const"]
            if isinstance(n, int) and n <= 16:
                return ("agg", "array", 0, (v,) * n)
            return ("repeat", v, c(n) if isinstance(n, int) else ("cst", "param", n))
        if k == "tls":
            return ("static", r[1])
        return self.fresh("rv")

    def subslice_ref(self, st, cell, pr, mut):
        base = ("ref", cell, pr[:-1], bool(mut))
        if cell[0] == "obj" and len(pr) == 1:
            base = cell[1]
        e = pr[-1]
        ln = self.len_of_ref(st, base)
        if e[3]:
            return self.mk_sliceref(base, c(e[1]), T.sub(ln, c(e[1] + e[2])))
        return self.mk_sliceref(base, c(e[1]), c(e[2] - e[1]))

    def mk_sliceref(self, base, start, ln):
        if base[0] == "sliceref":
            return ("sliceref", base[1], T.add(base[2], start), ln)
        return ("sliceref", base, start, ln)

    def len_of_ref(self, st, a):
        if a[0] == "sliceref":
            return a[3]
        if a[0] == "ref":
            return self.length(self.read(st, a[1], a[2]))
        if a[0] == "s":
            return c(len(a[1].encode()))
        if a[0] == "box":
            return self.len_of_ref(st, a[1])
        return ("len", ("deref", a))

    # ------------------------------------------------------------------ facts
    def truth(self, st, t):
        """True / False / None"""
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "not":
            r = self.truth(st, t[1])
            return None if r is None else not r
        v = st.known.get(t)
        if v is not None:
            return bool(v)
        if t[0] == "op" and t[1] == "Eq":
            a, b = t[2], t[3]
            if a in st.known and b[0] == "c":
                return st.known[a] == b[1]
            if b in st.known and a[0] == "c":
                return st.known[b] == a[1]
            if b[0] == "c" and b[1] in st.excl.get(a, ()):
                return False
            if a[0] == "c" and a[1] in st.excl.get(b, ()):
                return False
            if st.known.get(("op", "Lt", a, b)) or st.known.get(("op", "Lt", b, a)):
                return False
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
                return False
        if t[0] == "op" and t[1] == "Lt":
            a, b = t[2], t[3]
            if st.known.get(("op", "Lt", b, a)):
                return False
            ea = ("op", "Eq") + tuple(sorted((a, b), key=T.skey))
            if st.known.get(ea):
                return False
            va = st.known.get(a) if a[0] != "c" else a[1]
            vb = st.known.get(b) if b[0] != "c" else b[1]
            if isinstance(va, int) and isinstance(vb, int):
                return va < vb
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb:
                if ra[1] < rb[0]:
                    return True
                if ra[0] >= rb[1]:
                    return False
            # unsigned zero
        if t[0] == "op" and t[1] == "BitAnd" and len(t) == 4:
            a, b = self.truth_b(st, t[2]), self.truth_b(st, t[3])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if t[0] == "op" and t[1] == "BitOr" and len(t) == 4:
            a, b = self.truth_b(st, t[2]), self.truth_b(st, t[3])
            if a or b:
                return True
            if a is False and b is False:
                return False
        return None

    def rng(self, t):
        """interval of a term known from its form alone"""
        if t[0] == "c" and isinstance(t[1], int):
            return (t[1], t[1])
        if t[0] == "sym" and len(t) > 2:
            return t[2]
        if t[0] == "poly":
            # all atoms unsigned -> lower bound
            lo = 0
            hi = 0
            for m, k in t[1]:
                r = [self.rng(a) for a in m]
                if any(x is None or x[0] < 0 for x in r):
                    return None
                l = h = 1
                for x in r:
                    l *= x[0]
                    h *= x[1]
                if k < 0:
                    l, h = h, l
                lo += k * l
                hi += k * h
            return (lo, hi)
        if t[0] == "cast" and t[2] in INT_TYPES and t[1] in INT_TYPES:
            return INT_TYPES[t[1]]
        if t[0] == "len":
            return (0, 2**63 - 1)
        if t[0] in ("ind",):
            return (0, 2**63 - 1)
        return None

    def truth_b(self, st, t):
        if t[0] in ("c", "not", "op"):
            return self.truth(st, t)
        v = st.known.get(t)
        return None if v is None else bool(v)

    def assume(self, st, t, val):
        """record fact; returns False if contradictory"""
        cur = self.truth(st, t)
        if cur is not None:
            return cur == val
        if t[0] == "not":
            return self.assume(st, t[1], not val)
        st.known[t] = val
        st.facts = st.facts + ((t, val),)
        if t[0] == "op" and t[1] == "BitAnd" and val and self.boolish(t):
            return self.assume(st, t[2], True) and self.assume(st, t[3], True)
        if t[0] == "op" and t[1] == "BitOr" and not val and self.boolish(t):
            return self.assume(st, t[2], False) and self.assume(st, t[3], False)
        if t[0] == "op" and t[1] == "Eq":
            a, b = t[2], t[3]
            if b[0] == "c":
                a, b = b, a
            if a[0] == "c":
                if val:
                    st.known.setdefault(b, a[1])
                else:
                    st.excl[b] = st.excl.get(b, frozenset()) | {a[1]}
        return True

    def boolish(self, t):
        return True

    def variants_of(self, adt):
        return self.p.adts[adt]["variants"]

    def split_enum(self, st, v, adt):
        """Fork on the variant of v. -> [(state, variant index, fields getter)]"""
        if v[0] == "agg" and (v[1] == adt or v[1] in self.p.adts):
            return [(st, v[2], v)]
        vs = self.variants_of(adt)
        d = ("discr", v, adt)
        if d in st.known:
            for i, x in enumerate(vs):
                if x["d"] == st.known[d]:
                    return [(st, i, v)]
        ex = st.excl.get(d, frozenset())
        out = []
        cand = [(i, x) for i, x in enumerate(vs) if x["d"] not in ex]
        for i, x in cand:
            s = st.fork() if len(cand) > 1 else st
            s.known[d] = x["d"]
            s.facts = s.facts + ((d, x["d"]),)
            out.append((s, i, v))
        return out

    def field(self, v, variant, i):
        return self.proj(v, ("f", variant, i))

    # ------------------------------------------------------------------ execution
    def run(self, it, args, subst=None, st=None):
        """Analyse item from the given abstract arguments. -> list[Out]"""
        st = st or State()
        self.steps = 0
        if not self.unroll:
            return self.exec_body(st, it, it["body"], subst or {}, args, 0, "entry")
        # loops are followed step by step where the number of steps is known; a loop where it is not is abstracted
        keep = {k: copy.copy(v) for k, v in self.__dict__.items() if k not in ("p", "nounroll")}
        while True:
            try:
                return self.exec_body(st.fork(), it, it["body"], subst or {}, args, 0, "entry")
            except Unbounded as e:
                if e.args[0] in self.nounroll:
                    raise Undecided("loop bound")
                self.nounroll.add(e.args[0])
                self.__dict__.update({k: copy.copy(v) for k, v in keep.items()})

    def unrolled(self, fr, h):
        return self.unroll and (fr.it["key"], h) not in self.nounroll

    def no_bound(self, fr, h):
        raise Unbounded((fr.it["key"], h))

    def exec_body(self, st, it, body, subst, args, depth, site):
        if depth > self.max_depth:
            raise Undecided("inline depth")
        self.fns_seen.add(it["key"])
        fr = Frame()
        fr.it, fr.body, fr.subst, fr.depth, fr.site = it, body, subst, depth, site
        self.fid += 1
        fr.fid = self.fid
        fr.cfg = cfg_of(it["key"], body)
        st = st.fork()
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        work = [(st, 0, {})]
        outs = []
        while work:
            st, bb, seen = work.pop()
            # loop header handling
            if bb in fr.cfg.loops and self.unrolled(fr, bb):
                seen = dict(seen)
                seen[bb] = seen.get(bb, 0) + 1
                if seen[bb] > self.unroll:
                    self.no_bound(fr, bb)
            elif bb in fr.cfg.loops:
                if bb in seen:
                    self.back_edge(st, fr, bb, seen[bb])
                    continue
                seen = dict(seen)
                seen[bb] = self.enter_loop(st, fr, bb)
            for r in self.block(st, fr, bb):
                if isinstance(r, Out):
                    outs.append(r)
                    if len(outs) > self.max_paths:
                        raise Undecided("path budget")
                else:
                    s2, nb = r
                    sn = seen
                    # leaving loops: forget headers we are no longer inside of
                    drop = [h for h in seen if nb not in fr.cfg.loops[h]]
                    if drop:
                        sn = {h: v for h, v in seen.items() if h not in drop}
                    work.append((s2, nb, sn))
                    if len(work) > self.max_paths:
                        raise Undecided("path budget")
        return outs

    def loop_writes(self, fr, h):
        k = ("lw", id(fr.body), h)
        r = self.p.__dict__.setdefault("_lw", {}).get(k)
        if r is not None:
            return r
        places = []
        for b in sorted(fr.cfg.loops[h]):
            bl = fr.body["blocks"][b]
            for s in bl["s"]:
                if s[0] == "=":
                    places.append(s[1])
                    if s[2][0] in ("ref", "raw") and s[2][2]:
                        places.append(s[2][1])
                elif s[0] == "sd":
                    places.append(s[1])
            t = bl["t"]
            if t[0] == "call":
                places.append(t[3])
        # keep unique
        seen, out = set(), []
        for p in places:
            q = repr(p)
            if q not in seen:
                seen.add(q)
                out.append(p)
        self.p._lw[k] = out
        return out

    def enter_loop(self, st, fr, h):
        """Abstract every place written in the loop to a loop symbol; iterators stay structural."""
        rec = {}
        lid = (fr.it["path"], h, fr.site, fr.depth)
        targets = []
        for pl in self.loop_writes(fr, h):
            ok_ = True
            # only places whose path is resolvable before the loop
            base = (fr.fid, pl[0])
            if base not in st.mem and len(pl) > 1 and "*" in pl:
                continue
            if base not in st.mem:
                continue
            cell, pr = base, ()
            variant = None
            for e in pl[1:]:
                if e == "*":
                    v = self.read(st, cell, pr)
                    if v[0] == "uninit":
                        ok_ = False
                        break
                    cell, pr = self.target(v)
                elif e[0] == "f":
                    pr = pr + (("f", variant, e[1]),)
                    variant = None
                elif e[0] == "d":
                    variant = e[1]
                else:
                    break       # element write: abstract the whole array
            if ok_:
                targets.append((cell, pr))
        for cell, pr in targets:
            if (cell, pr) in rec:
                continue
            if cell[0] == "sl":
                continue
            try:
                v = self.read(st, cell, pr)
            except Undecided:
                continue
            if self.split_in_loop(st, v):
                targets.extend((cell, pr + (("f", None, i),)) for i in range(len(v[3])))
                continue
            if v[0] == "uninit":
                continue
            if self.iter_like(v):
                continue
            ph = ("phi", lid, cell if cell[0] != fr.fid else cell[1], pr)
            rec[(cell, pr)] = (ph, v)
            p = self.phis.setdefault(ph, {"init": [], "back": [], "excl": []})
            if v not in p["init"]:
                p["init"].append(v)
        # write shorter projections last so that whole-cell phis win
        for (cell, pr), (ph, v) in sorted(rec.items(), key=lambda x: -len(x[0][1])):
            self.write(st, cell, pr, ph)
        return rec

    def back_edge(self, st, fr, h, rec):
        for (cell, pr), (ph, v) in rec.items():
            try:
                nv = self.read(st, cell, pr)
            except Exception:
                continue
            p = self.phis[ph]
            if nv not in p["back"]:
                p["back"].append(nv)
        self.on_back_edge(st, fr, h)

    def on_back_edge(self, st, fr, h):
        pass

    def split_in_loop(self, st, v):
        """abstract the fields of this value one by one"""
        return False

    def iter_like(self, v):
        return v[0] == "it" or (v[0] == "agg" and v[1] in ("std::ops::Range", "std::ops::RangeInclusive"))

    def block(self, st, fr, bb):
        self.tick()
        bl = fr.body["blocks"][bb]
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                cell, pr = self.place(st, fr, s[1])
                self.store(st, fr, cell, pr, v, s)
            elif s[0] == "sd":
                cell, pr = self.place(st, fr, s[1])
                t = self.place_ty(fr, s[1])
                v = self.read(st, cell, pr)
                self.write(st, cell, pr, ("agg", t[1] if t[0] == "adt" else "?", s[2], v[3] if v[0] == "agg" else ()))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "ret":
            return [Out(st, "ret", self.read(st, (fr.fid, 0), ()))]
        if k in ("unreach", "resume", "abort"):
            return []
        if k == "drop":
            self.on_drop(st, fr, t)
            return [(st, t[2])]
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if v[0] == "c":
                if bool(v[1]) == t[2]:
                    return [(st, t[4])]
                return [Out(st, "panic", None, ("assert", t[3][0], self.p.loc(t[6]), fr.it["path"]))]
            r = []
            if t[3][0] == "overflow" or v[0] in ("ovf",) or (v[0] == "not" and v[1][0] == "ovf"):
                self.on_overflow(st, fr, v, t)
                return [(st, t[4])]
            s2 = st.fork()
            if self.assume(s2, v, not t[2]):
                r.append(Out(s2, "panic", None, ("assert", t[3][0], self.p.loc(t[6]), fr.it["path"])))
            if self.assume(st, v, t[2]):
                r.append((st, t[4]))
            return r
        if k == "sw":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call_term(st, fr, bb, t)
        raise Undecided("terminator " + k)

    def store(self, st, fr, cell, pr, v, s):
        self.write(st, cell, pr, v)

    def on_drop(self, st, fr, t):
        pass

    def on_overflow(self, st, fr, v, t):
        pass

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = self.p.ty(t[4])
        isbool = ty == ("prim", "bool")
        if v[0] == "c":
            val = int(v[1])
            if ty[0] == "prim" and INT_TYPES.get(ty[1], (0,))[0] < 0:
                val &= 2**T.BITS[ty[1]] - 1
            for x, tgt in t[2]:
                if x == val:
                    return [(st, tgt)]
            return [(st, t[3])]
        if isbool:
            out = []
            for x, tgt in t[2]:
                s2 = st.fork()
                if self.assume(s2, v, bool(x)):
                    out.append((s2, tgt))
            s2 = st.fork()
            want = not bool(t[2][0][0]) if len(t[2]) == 1 else True
            if len(t[2]) == 1 and self.assume(s2, v, want):
                out.append((s2, t[3]))
            return out
        kv = st.known.get(v)
        if kv is not None and not isinstance(kv, bool):
            for x, tgt in t[2]:
                if x == kv:
                    return [(st, tgt)]
            return [(st, t[3])]
        out = []
        ex = st.excl.get(v, frozenset())
        r = self.rng(v)
        domain = None
        if v[0] == "discr" and v[2] in self.p.adts:
            domain = {x["d"] for x in self.p.adts[v[2]]["variants"]}
        vals = []
        for x, tgt in t[2]:
            vals.append(x)
            if x in ex or (domain is not None and x not in domain) or (r and not r[0] <= x <= r[1]):
                continue
            if v[0] != "discr":
                e = T.eq(v, c(x))
                tr = self.truth(st, e)
                if tr is False:
                    continue
            s2 = st.fork()
            s2.known[v] = x
            s2.facts = s2.facts + ((v, x),)
            out.append((s2, tgt))
        rest = None if domain is None else domain - set(vals) - ex
        if rest is None or rest:
            if fr.body["blocks"][t[3]]["t"][0] != "unreach":
                s2 = st.fork()
                s2.excl[v] = ex | frozenset(vals)
                s2.facts = s2.facts + ((v, ("not", tuple(vals))),)
                if rest is not None and len(rest) == 1:
                    s2.known[v] = next(iter(rest))
                out.append((s2, t[3]))
        return out

    # ------------------------------------------------------------------ calls
    def call_term(self, st, fr, bb, t):
        fop, aops, dst, tgt = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fr, a) for a in aops]
        if fop[0] == "k":
            fi = fop[1].get("fn")
            if fi is None:
                fv = self.const(st, fr, fop[1])
                outs = self.call_value(st, fr, fv, args, bb, t)
            else:
                fargs = tuple(self.p.subst(self.p.arg(a), fr.subst) for a in fi["args"])
                outs = self.call(st, fr, fi, fargs, args, bb, t)
        else:
            fv = self.operand(st, fr, fop)
            outs = self.call_value(st, fr, fv, args, bb, t)
        res = []
        for o in outs:
            if o.kind == "ret":
                if tgt is None:
                    res.append(Out(o.st, "panic", None, ("diverge", "", self.p.loc(t[6]), fr.it["path"])))
                    continue
                cell, pr = self.place(o.st, fr, dst)
                self.store(o.st, fr, cell, pr, o.val, None)
                res.append((o.st, tgt))
            else:
                res.append(o)
        return res

    def call_value(self, st, fr, fv, args, bb, t):
        """Call a function value with already-spread arguments."""
        n = 0
        while fv[0] == "ref" and n < 4:
            fv = self.read(st, fv[1], fv[2])
            n += 1
        if fv[0] == "box":
            fv = self.read(st, fv[1][1], fv[1][2])
        if fv[0] == "clo":
            it = self.p.items.get(fv[1])
            if it is None or "body" not in it:
                return self.opaque(st, fr, "closure", args, bb, t)
            root = self.p.items.get(it.get("root"))
            s = self.bind_generics(it, fv[2])
            selfty = self.p.ty(it["body"]["locals"][1][0])
            a0 = fv
            if selfty[0] == "ref":
                # closure state lives in a cell; captured mutations are visible through upvar refs
                self.uid += 1
                cell = ("clo", self.uid)
                st = st.fork()
                st.mem[cell] = fv
                a0 = ("ref", cell, (), True)
            return self.exec_body(st, it, it["body"], s, [a0] + list(args), fr.depth + 1, (fr.site, bb))
        if fv[0] == "fn":
            fi = self.p.fninfo.get(fv[1])
            return self.call(st, fr, fi, fv[2], args, bb, t)
        return self.opaque(st, fr, "indirect", [fv] + list(args), bb, t)

    def resolve(self, fi, fargs):
        """-> (item, subst, self-type-args) of a local body to inline, or None"""
        if "trait" in fi:
            r = self.p.find_impl(fi["trait"], fargs[:self.trait_arity(fi)])
            if r:
                im, s = r
                it = im["_items"].get(fi["name"])
                if it:
                    body = self.p.items.get(it["key"])
                    if body is not None and "body" in body:
                        s2 = dict(s)
                        # method-level generics follow the trait's own
                        own = fargs[self.trait_arity(fi):]
                        gens = body.get("generics", [])
                        ng = len(gens) - len(own)
                        for (idx, name, kind), a in zip(gens[ng:], own):
                            s2[idx] = a
                            if kind == "const":
                                s2[("c", name)] = a
                        return body, s2
                    return None
                # default
                d = self.p.trait_items.get(fi["trait"], {}).get(fi["name"])
                if d and d["default"]:
                    body = self.p.items.get(d["key"])
                    if body is not None and "body" in body:
                        return body, self.bind_generics(body, fargs)
                return None
            if fi.get("res_local"):
                pass
            # generic self: a provided method of a local trait may be analysed with opaque Self
            if fi["local"] and fargs and fargs[0][0] in ("param", "proj", "dyn"):
                d = self.p.trait_items.get(fi["trait"], {}).get(fi["name"])
                if d and d["default"] and self.inline_defaults(fi):
                    body = self.p.items.get(d["key"])
                    if body is not None and "body" in body:
                        return body, self.bind_generics(body, fargs)
            return None
        it = self.p.items.get(fi["key"])
        if it is not None and "body" in it and it["kind"] == "fn":
            return it, self.bind_generics(it, fargs)
        return None

    def inline_defaults(self, fi):
        return False

    def trait_arity(self, fi):
        tr = fi["trait"]
        k = ("ta", tr)
        d = self.p.__dict__.setdefault("_ta", {})
        if k in d:
            return d[k]
        n = None
        for im in self.p.impls_of_trait.get(tr, ()):
            n = len(im["_targs"])
            break
        if n is None:
            n = 1
        d[k] = n
        return n

    def call(self, st, fr, fi, fargs, args, bb, t):
        self.calls_seen += 1
        name = canon(self.p, fi)
        if fi.get("ctor"):
            adt = fi["adt"]
            vi = self.p.variant_index(adt, fi["variant"])
            return [Out(st, "ret", ("agg", adt, vi or 0, tuple(args)))]
        site = (fr.it["path"], bb, self.p.loc(t[6]))
        if self.hook:
            r = self.hook(self, st, fr, name, fi, fargs, args, site)
            if r is not None:
                return r
        m = self.extra.get(name) or self.models.get(name)
        if m is not None:
            r = m(self, st, fr, fi, fargs, args, bb, t)
            if r is not None:
                return [x if isinstance(x, Out) else Out(st, "ret", x) for x in r]
        if t[4] is None:
            return [Out(st, "panic", None, ("call", name, self.p.loc(t[6]), fr.it["path"]))]
        if not self.no_inline(fi, name):
            r = self.resolve(fi, fargs)
            if r is not None:
                body, s = r
                if fr.depth < self.max_depth and not self.recursive(fr, body):
                    return self.exec_body(st, body, body["body"], s, args, fr.depth + 1, (fr.site, bb))
        # calling a closure/function object
        if name in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            sp = args[1][3] if args[1][0] == "agg" else None
            if sp is not None:
                return self.call_value(st, fr, args[0], list(sp), bb, t)
        return self.opaque(st, fr, name, args, bb, t, fi, fargs)

    def recursive(self, fr, body):
        return fr.it["key"] == body["key"]

    PURE = re.compile(r"^(slice|str|Vec|String|Option|Result|[ui](8|16|32|64|128|size)|f32|f64|char|bool|cmp|mem)::|"
                      r"^(Clone|PartialEq|PartialOrd|Ord|Into|From|TryFrom|TryInto|AsRef|ToPrimitive|NumCast|Zero|Bounded|AsPrimitive|"
                      r"Add|Sub|Mul|Div|Rem|BitAnd|BitOr|Shr|Shl|Neg|Not|ToString|ToOwned|Default)::")

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        st = st.fork()
        muts = []
        for i, a in enumerate(args):
            self.collect_muts(st, a, muts, 0)
        pure = bool(self.PURE.match(name)) and not muts
        if name in ("Default::default", "Zero::zero", "Bounded::max_value", "Bounded::min_value", "mem::size_of") \
                or (pure and not args):
            vis = (name, tuple(self.p.tystr(a) for a in fargs))
            v = ("call", name, vis)
            return [Out(st, "ret", v)]
        vargs = tuple(self.deep(st, a) for a in args)
        if pure:
            v = ("call", name, vargs)
            if name in ("Into::into", "From::from", "TryFrom::try_from", "TryInto::try_into", "NumCast::from",
                        "AsPrimitive::as_"):
                v = ("call", name, vargs, tuple(self.p.tystr(a) for a in fargs))
        else:
            self.uid += 1
            v = ("call", name, vargs, self.uid)
        st.eff = st.eff + (("call", name, tuple(args), v, (fr.it["path"], bb, self.p.loc(t[6])), fargs),)
        for (cell, pr) in muts:
            old = self.read(st, cell, pr)
            self.write(st, cell, pr, ("post", v, self.shallow(old)))
        return [Out(st, "ret", v)]

    def shallow(self, v):
        return v if len(T.skey(v)) < 400 else ("big",)

    def deep(self, st, v, d=0):
        """Replace references by the values they point to, for value numbering of pure calls."""
        if d > 5:
            return v
        if v[0] == "ref":
            if v[1][0] == "obj" and not v[2] and v[1] not in st.mem:
                return ("rf", ("deref", v[1][1]))
            x = self.read(st, v[1], v[2])
            return ("rf", self.deep(st, x, d + 1))
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        return v

    def collect_muts(self, st, v, out, d):
        if d > 6 or not isinstance(v, tuple):
            return
        if v[0] == "ref":
            if v[3]:
                out.append((v[1], v[2]))
            x = self.read(st, v[1], v[2])
            self.collect_muts(st, x, out, d + 1)
        elif v[0] in ("agg",):
            for x in v[3]:
                self.collect_muts(st, x, out, d + 1)
        elif v[0] == "clo":
            for x in v[3]:
                self.collect_muts(st, x, out, d + 1)
        elif v[0] == "sliceref":
            self.collect_muts(st, v[1], out, d + 1)

    def strip(self, st, v):
        """Value behind any number of references."""
        n = 0
        while n < 6:
            n += 1
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            elif v[0] == "box":
                v = self.read(st, v[1][1], v[1][2])
            elif v[0] == "rf":
                v = v[1]
            elif v[0] == "deref" and v[1][0] == "s":
                v = v[1]
            else:
                break
        return v
