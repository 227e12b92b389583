"""C02: a short read or write is never taken for a complete one."""
import re
from vlib import absint, errflow, graph, terms as T, tables as tb
from . import c01
from vlib.absint import RESULT, NONE
from vlib.errflow import is_failure, err_facts
from vlib.terms import c

RAW = re.compile(r"^(Read::read|Read::read_vectored|Read::read_buf|Write::write|Write::write_vectored|BufRead::read_until|BufRead::read_line|BufRead::skip_until)$")
BULK = re.compile(r"^(io::copy|Read::read_to_end|Read::read_to_string)$")


def limited(ty, d=0):
    """reads through a Take adaptor: a known number of bytes is wanted"""
    if d > 6:
        return False
    if ty[0] == "ref":
        return limited(ty[1], d + 1)
    return ty[0] == "adt" and (ty[1].endswith("io::Take") or any(limited(a, d + 1) for a in ty[2]))


class XferEngine(absint.Engine):
    def __init__(self, p, inline=(), **kw):
        super().__init__(p, no_inline=lambda fi, n: fi["key"] not in self.inl, **kw)
        self.inl = set(inline)
        self.xfers = {}          # value -> record
        self.back = []

    def opaque(self, st, fr, name, args, bb, t, fi=None, fargs=()):
        raw, bulk = RAW.match(name), BULK.match(name) and fargs and limited(fargs[0])
        rec = None
        if raw or bulk:
            want = None
            if raw and len(args) > 1:
                want = self.len_of_ref(st, args[-1]) if args[-1][0] in ("ref", "sliceref") else ("len", ("deref", args[-1]))
            if bulk:
                for x in T.subterms(self.deep(st, args[0])):
                    if isinstance(x, tuple) and x and x[0] == "call" and x[1] == "Read::take":
                        want = x[2][1]
            rec = [name, (fr.it["path"], bb, self.p.loc(t[6])), want, bool(raw), args]
        outs = super().opaque(st, fr, name, args, bb, t, fi, fargs)
        if rec:
            for o in outs:
                if o.kind == "ret":
                    self.xfers[o.val] = rec
        return outs

    def on_back_edge(self, st, fr, h):
        self.back.append((st, h, fr.it["path"]))


def contains_any(t, xs):
    return any(T.contains(t, x) for x in xs)


def posts(E, st, v):
    """terms standing for the buffer after the transfer"""
    out = set()
    for cell, val in st.mem.items():
        for x in T.subterms(val):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "post" and x[1] == v:
                out.add(x)
    for t, _ in st.facts:
        for x in T.subterms(t):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "post" and x[1] == v:
                out.add(x)
    return out


def count(v):
    return ("fld", v, 0, 0)


def enough(E, st, v, rec):
    """the path established that the whole amount was transferred"""
    name, site, want, raw, args = rec
    n = count(v)
    cands = [n] + [("len", x) for x in posts(E, st, v)] + ([] if raw else [("len", ("post", v, o)) for o in ()])
    if want is not None:
        for x in cands:
            if E.truth(st, T.eq(x, want)) is True or E.truth(st, T.lt(x, want)) is False:
                return True
            # lengths already present in the buffer before the call
            for t, b in st.facts:
                if t[0] == "op" and t[1] in ("Eq", "Lt") and T.contains(t, x):
                    a, d = t[2], t[3]
                    o = d if a == x else a if d == x else None
                    if o is None:
                        continue
                    if t[1] == "Eq" and b is True and o[0] != "c":
                        return True
                    if t[1] == "Lt" and o[0] != "c" and ((a == x and b is False) or (d == x and b is True)):
                        return True
        if want == c(1):
            z = E.truth(st, T.eq(n, c(0)))
            if z is None and st.known.get(n) is not None:
                z = st.known.get(n) == 0
            if z is None and 0 in st.excl.get(n, ()):
                z = False
            if z is not None:
                return True
    return False


def sliced(E, o, v):
    """only the transferred part of the buffer is used"""
    n = count(v)
    for e in o.st.eff:
        for a in e[2]:
            for x in T.subterms(E.deep(o.st, a)):
                if isinstance(x, tuple) and x and x[0] in ("sliceref", "slice") and len(x) == 4 and T.contains(x[3], n):
                    return True
                if isinstance(x, tuple) and x and x[0] == "agg" and str(x[1]).startswith("std::ops::Range") and T.contains(x, n):
                    return True
    return T.contains(o.val, n)


def judge(p, E, outs):
    """-> {value: problem or None or 'defer'}"""
    res = {}
    for v, rec in E.xfers.items():
        n = count(v)
        name, site, want, raw, args = rec
        # accumulation through a loop
        looped = [st for st, h, pth in E.back if any(e[3] == v for e in st.eff) and err_facts(st).get(v, 0) == 0]
        verdict = "ok"
        if looped:
            accs = set()
            for ph, d in E.phis.items():
                for b in d["back"]:
                    if raw and b[0] in ("poly", "fld") and T.contains(b, n) and (b == n or T.sub(b, ph) == n):
                        accs.add(ph)
                    if raw and b[0] != "phi" and T.contains(b, n) and T.contains(b, ph):
                        accs.add(ph)
                    if not raw and b[0] == "post" and b[1] == v and T.contains(b[2], ph):
                        accs.add(ph)
            okk = all(enough(E, st, v, rec) for st in looped)
            if not okk:
                if not accs:
                    verdict = "the amount transferred in one turn of the loop is not accounted for"
                else:
                    for o in outs:
                        if o.kind != "ret" or is_failure(E, o.st, o.val) is True:
                            continue
                        if any(e[3] == v for e in o.st.eff):
                            continue
                        good = False
                        for t, b in o.st.facts:
                            if t[0] != "op" or t[1] not in ("Lt", "Eq"):
                                continue
                            a, d = t[2], t[3]
                            la, ld = contains_any(a, accs), contains_any(d, accs)
                            if t[1] == "Eq" and b is True and la != ld and c(0) not in (a, d):
                                good = True
                            if t[1] == "Lt" and la and not ld and b is False and d != c(0):
                                good = True
                            if t[1] == "Lt" and ld and not la and b is True and a[0] != "c":
                                good = True
                        if not good and o.st.facts:
                            verdict = "the loop may end before the requested amount was transferred"
        for o in outs:
            if o.kind != "ret" or not any(e[3] == v for e in o.st.eff):
                continue
            if is_failure(E, o.st, o.val) is True:
                continue
            if err_facts(o.st).get(v) == 1:
                continue
            if o.val == v or T.contains(o.val, n):
                if raw or E.p is None or T.contains(o.val, n):
                    continue
            if enough(E, o.st, v, rec):
                continue
            if not raw and sliced(E, o, v):
                continue
            if not raw and any(T.contains(E.deep(o.st, o.val), x) for x in posts(E, o.st, v)):
                verdict = "defer" if verdict == "ok" else verdict
                continue
            verdict = "success although fewer bytes than wanted may have been transferred"
        res[v] = verdict
    return res


def run(ck):
    p = ck.p
    g = graph.load(p)
    ck.rule("counts", "the byte count of every raw or bounded transfer (read, write, copy and read-to-end through a limit) is returned, compared with the "
            "amount wanted, or accumulated until that amount is reached, on every path to success", 8)
    ck.rule("exhausted", "reading a sample from a textual raster whose input has ended is an error", 3)
    ck.rule("reported", "a transfer that fails because the data ended or could not be stored is reported by every function it passes through", 120)
    ck.assumptions += ["read_exact and write_all transfer everything or fail (std contract)",
                       "transfers made inside third-party codec crates are outside"]
    rev = {}
    for k in g.sites:
        for x in g.succ(k):
            rev.setdefault(x, set()).add(k)

    def sites_of(k):
        for s in g.sites.get(k, ()):
            if s.fi and (RAW.match(s.name) or (BULK.match(s.name) and s.fargs and limited(s.fargs[0]))):
                if not g.targets(s.fi, s.fargs):
                    yield s

    def visit(root, inline, depth):
        it = p.items[root]
        inst = "%s%s" % (it["path"], "" if not depth else " (through %s)" % "/".join(p.items[x]["path"].split("::")[-1] for x in inline))
        def one():
            E = XferEngine(p, inline=inline)
            args = [("sym", "arg%d" % k) for k in range(it["body"]["argc"])]
            outs = E.run(it, args)
            E.npaths = len(outs)
            ck.saw(E)
            if not E.xfers:
                ck.und("counts", inst, "transfer not reached")
                return
            r = judge(p, E, outs)
            bad = {}
            for v, x in r.items():
                rec = E.xfers[v]
                bad.setdefault((rec[0], rec[1]), []).append(x)
            for (name, site), xs in bad.items():
                i2 = "%s:%s" % (inst, name)
                prob = [x for x in xs if x not in ("ok", "defer")]
                if prob:
                    ck.bad("counts", i2, "%s (%s): %s: %s" % (it["path"], site[2], name, prob[0]))
                elif "defer" in xs:
                    callers = [k for k in rev.get(root, ()) if "body" in p.items[k]]
                    if depth >= 3 or not callers:
                        ck.und("counts", i2, "the partially filled buffer is returned")
                    for k in callers:
                        visit(k, inline + (root,), depth + 1)
                else:
                    ck.ok("counts", i2)
        ck.each("counts", inst, one)

    for k in list(g.sites):
        if any(True for _ in sites_of(k)):
            visit(k, (), 0)
    # every other bulk transfer without a limit: listed for the floor only
    for k, ss in g.sites.items():
        for s in ss:
            if s.fi and BULK.match(s.name) and not (s.fargs and limited(s.fargs[0])) and not g.targets(s.fi, s.fargs):
                ck.ok("counts", "%s:%s (to the end of the stream)" % (s.item["path"], s.name))
    ascii_rule(ck)
    car = errflow.Carrier(p)
    c01.consumed(ck, "reported", car, c01.IoFns(p, car))


class EofEngine(absint.Engine):
    """the reader is at its end; loops are entered once, with their initial state"""

    def enter_loop(self, st, fr, h):
        return {}

    def back_edge(self, st, fr, h, rec):
        self.backs.append((fr.it["path"], h))


def ascii_rule(ck):
    p = ck.p

    def hook(E, st, fr, name, fi, fargs, args, site):
        if name in ("Iterator::next", "DoubleEndedIterator::next_back") and args:
            v = E.strip(st, args[0])
            if any(isinstance(x, tuple) and x and x[0] == "call" and x[1] == "Read::bytes" for x in T.subterms(v)):
                E.eofs += 1
                return [absint.Out(st, "ret", NONE)]
        if RAW.match(name) or name == "Read::read_to_end":
            E.eofs += 1
            return [absint.Out(st, "ret", absint.ok(c(0)))]
        if name == "Read::read_exact" or name.startswith("ReadBytesExt::"):
            E.eofs += 1
            return [absint.Out(st, "ret", absint.err(("sym", "eof")))]
        return None

    for im, it in tb.trait_method(p, "Sample", lambda t: True, "from_ascii"):
        inst = it["path"]
        def one():
            E = EofEngine(p, hook=hook)
            E.backs, E.eofs = [], 0
            outs = E.run(it, [("sym", "reader"), ("sym", "out")])
            E.npaths = len(outs)
            ck.saw(E)
            if not outs or all(o.kind != "ret" for o in outs):
                ck.ok("exhausted", inst, "diverges")
                return
            # a turn of the loop over the output was completed although the input had ended
            turns = [b for b in E.backs if b[0] == it["path"]]
            if not E.eofs:
                ck.und("exhausted", inst, "no recognised read")
            elif turns:
                ck.bad("exhausted", inst, "%s (%s): a sample is produced although the input has ended" % (it["path"], p.loc_of_item(it)))
            else:
                ck.ok("exhausted", inst)
        ck.each("exhausted", inst, one)
