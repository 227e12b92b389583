"""C29: an encoder that can be used again starts each image afresh.

A typestate analysis over the MIR of every encoding method that borrows its encoder: each field is unchanged, back at the value the
constructors give it, or left dirty.  A field that can be dirty after a successful call and can be read by the next one before being
written carries something of one image into the next."""
from vlib import terms as T

UNCHANGED, RESET, DIRTY = "unchanged", "reset", "dirty"
# what a set_ method stores is the caller's wish for the images to come; an animation encoder's state is the animation
SKIP_ENCODERS = ("GifEncoder",)
CLEARS = ("clear", "take")
EMPTY = "empty"
READS = ("len", "is_empty", "clone", "as_ref", "deref", "iter", "as_slice", "borrow", "get", "to_vec", "fmt", "index", "eq", "cmp")


def run(ck):
    ck.rule("fresh", "nothing of an image remains in the encoder that the next image would see", 5)
    p = ck.p
    coders = set()
    for im in p.impls_of_trait.get("image::ImageEncoder", []):
        if im["_self"][0] == "adt":
            coders.add(im["_self"][1])
    for k, a in p.adts.items():
        if a.get("local") and k.endswith("Encoder"):
            coders.add(k)
    A = Analysis(p)
    for it in p.fns():
        if not it.get("pubvis") or it["kind"] == "closure" or it["body"]["argc"] < 2:
            continue
        s = p.ty(it["body"]["locals"][1][0])
        if not (s[0] == "ref" and s[2] and s[1][0] == "adt" and s[1][1] in coders):
            continue
        if s[1][1].split("::")[-1] in SKIP_ENCODERS or not encodes(p, it):
            continue
        ck.each("fresh", it["path"], judge, ck, p, A, it, s[1][1])


def encodes(p, it):
    """a method that writes an image: returns a Result and is given pixels"""
    b = it["body"]
    r = p.ty(b["locals"][0][0])
    return r[0] == "adt" and r[1].endswith("Result") and it["path"].split("::")[-1].startswith(("encode", "write"))


def judge(ck, p, A, it, own):
    ck.saw_fn(it["key"])
    S = A.summary(it, 1)
    where = "%s (%s)" % (it["path"], p.loc_of_item(it))
    lose = A.configured(own)
    bad = [f for f, r in S["out"].items() if (DIRTY in r or RESET in r and f in lose) and f in S["live"]]
    for k in S["fns"]:
        ck.saw_fn(k)
    if bad:
        ck.bad("fresh", it["path"], "%s: %s keeps what the previous image left there (%s): the next image is written differently" % (
            where, " and ".join(sorted(A.name(own, f) for f in bad)), "last changed at %s" % S["at"].get(bad[0], "?")))
    else:
        ck.ok("fresh", it["path"], "%d fields, %d functions" % (len(S["out"]), len(S["fns"])))


class Analysis:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.initial = {}
        for it in p.fns():
            for b in it["body"]["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                        d = s[2][1][1]
                        for i, op in enumerate(s[2][2]):
                            self.initial.setdefault((d, i), set()).add(repr(op[1].get("val")) if op[0] == "k" else self.made(it["body"], op))

    def made(self, b, op):
        """EMPTY if the operand is an empty collection or None"""
        if len(op[1]) > 1:
            return None
        defs = [s[2] for k in b["blocks"] for s in k["s"] if s[0] == "=" and s[1] == op[1]]
        calls = [k["t"] for k in b["blocks"] if k["t"][0] == "call" and k["t"][3] == op[1]]
        if len(defs) == 1 and not calls and defs[0][0] == "agg" and defs[0][1][0] == "adt" and defs[0][1][1].endswith("Option") and not defs[0][2]:
            return EMPTY
        if len(calls) == 1 and not defs and calls[0][1][0] == "k":
            fi = calls[0][1][1].get("fn") or {}
            t = self.p.ty(b["locals"][op[1][0]][0])
            if fi.get("name") in ("new", "with_capacity", "default") and t[0] == "adt" and not self.p.adts.get(t[1], {}).get("local"):
                return EMPTY
        return None

    def configured(self, own):
        """the fields a set_ method stores the caller's wishes in"""
        r = set()
        for it in self.p.fns():
            n = it["path"].split("::")[-1]
            if n.startswith("set_") and it["body"]["argc"] >= 2:
                t = self.p.ty(it["body"]["locals"][1][0])
                if t[0] == "ref" and t[2] and t[1][0] == "adt" and t[1][1] == own:
                    r |= {f for f, x in self.summary(it, 1)["out"].items() if x - {UNCHANGED}}
        return r

    def leaves(self, adt, pre=()):
        out = []
        a = self.p.adts[adt]
        for i, f in enumerate(a["variants"][0]["f"]):
            t = self.p.ty(f["ty"])
            if t[0] == "adt" and t[1] in self.p.adts and self.p.adts[t[1]].get("local") and self.p.adts[t[1]]["kind"] == "struct" and len(pre) < 4:
                out += self.leaves(t[1], pre + (i,))
            elif t[0] in ("param", "other") or t[0] == "ref" and t[1][0] in ("param", "dyn"):
                continue            # the destination
            else:
                out.append((pre + (i,), adt_of(adt), i, t))
        return out

    def name(self, adt, path):
        out = []
        for i in path:
            f = self.p.adts[adt]["variants"][0]["f"][i]
            out.append(f["n"])
            t = self.p.ty(f["ty"])
            adt = t[1] if t[0] == "adt" else adt
        return ".".join(out)

    def summary(self, it, local):
        """of a function given a mutable reference to a struct in its argument `local`"""
        k = (it["key"], local)
        if k in self.memo:
            return self.memo[k] or {"out": {}, "live": set(), "at": {}, "fns": set()}
        self.memo[k] = None
        t = self.p.ty(it["body"]["locals"][local][0])
        root = t[1][1] if t[0] == "ref" and t[1][0] == "adt" else None
        r = self.flow(it, {local: ()}, root) if root in self.p.adts and self.p.adts[root]["kind"] == "struct" else {
            "out": {}, "live": set(), "at": {}, "fns": {it["key"]}}
        self.memo[k] = r
        return r

    def flow(self, it, alias, root):
        p, b = self.p, it["body"]
        lv = {x[0]: x for x in self.leaves(root)}
        alias = dict(alias)         # local -> path of the struct it points to
        while True:                 # reborrows and copies
            n = len(alias)
            for blk in b["blocks"]:
                for s in blk["s"]:
                    if s[0] == "=" and len(s[1]) == 1:
                        q = None
                        if s[2][0] == "ref":
                            q = self.path(alias, s[2][1])
                        elif s[2][0] in ("use", "cast"):
                            op = s[2][1] if s[2][0] == "use" else s[2][2]
                            if op[0] in ("c", "m") and len(op[1]) == 1 and op[1][0] in alias:
                                q = alias[op[1][0]]
                        if q is not None and s[1][0] not in alias:
                            alias[s[1][0]] = q
            if len(alias) == n:
                break
        start = {f: frozenset([UNCHANGED]) for f in lv}
        live, at, fns = set(), {}, {it["key"]}
        state = {0: {"any": start}}
        work = [0]
        out = None

        def read(q, st):
            for f in under(q, lv):
                if UNCHANGED in st[f]:
                    live.add(f)

        def write(q, st, what, loc):
            for f in under(q, lv):
                st[f] = frozenset([what]) if f[:len(q)] == q else st[f] | frozenset([what])
                if what == DIRTY:
                    at[f] = loc

        def operands(x, st):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                    q = self.path(alias, x[1])
                    if q is not None and x[1] != [x[1][0]]:
                        read(q, st)
                    return
                for y in x:
                    operands(y, st)

        while work:
            i = work.pop()
            blk = b["blocks"][i]
            for tag, st0 in list(state[i].items()):
                st, tg = dict(st0), tag
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    if s[2][0] == "ref":
                        if not s[2][2]:
                            q = self.path(alias, s[2][1])
                            if q is not None and len(s[2][1]) > 2:
                                read(q, st)
                    else:
                        operands(s[2], st)
                    q = self.path(alias, s[1]) if len(s[1]) > 1 else None
                    if q is not None:
                        w = DIRTY
                        if q in lv and s[2][0] == "use" and s[2][1][0] == "k" and self.initial.get((lv[q][1], lv[q][2])) == {repr(s[2][1][1].get("val"))}:
                            w = RESET
                        write(q, st, w, p.loc(s[-1]))
                    if s[1] == [0]:
                        tg = "any"
                        if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("Result"):
                            tg = "err" if s[2][1][2] == 1 else "ok"
                t = blk["t"]
                if t[0] == "call":
                    operands(t[2], st)
                    fi = t[1][1].get("fn") if t[1][0] == "k" else None
                    self.call(it, fi, t, alias, lv, st, read, write, fns, at, live)
                    if t[3] == [0]:
                        tg = "err" if fi and fi.get("name") == "from_residual" else "any"
                elif t[0] == "sw":
                    operands(t[1], st)
                if t[0] == "ret":
                    if tg != "err":
                        out = st if out is None else {f: out[f] | st[f] for f in lv}
                    continue
                for j in succ(t):
                    d = state.setdefault(j, {})
                    old = d.get(tg)
                    new = st if old is None else {f: old[f] | st[f] for f in lv}
                    if new != old:
                        d[tg] = new
                        if j not in work:
                            work.append(j)
        return {"out": out or {}, "live": live, "at": at, "fns": fns}

    def path(self, alias, pl):
        """path of the place in the struct, None if it is not part of it"""
        if pl[0] not in alias:
            return None
        q = alias[pl[0]]
        rest = pl[1:]
        if rest and rest[0] == "*":
            rest = rest[1:]
        elif rest:
            return None
        out = []
        for e in rest:
            if isinstance(e, list) and e[0] == "f":
                out.append(e[1])
            else:
                break
        return q + tuple(out)

    def call(self, it, fi, t, alias, lv, st, read, write, fns, at, live):
        p = self.p
        loc = p.loc(t[6])
        for k, op in enumerate(t[2]):
            if op[0] not in ("c", "m") or op[1][0] not in alias or len(op[1]) > 1:
                continue
            q = alias[op[1][0]]
            ty = p.ty(it["body"]["locals"][op[1][0]][0])
            if not (ty[0] == "ref" and ty[2]):
                read(q, st)
                continue
            g = p.items.get((fi or {}).get("res") or "") or p.items.get((fi or {}).get("key") or "")
            if g is not None and "body" in g and g["body"]["argc"] > k:
                tt = p.ty(g["body"]["locals"][k + 1][0])
                S = self.summary(g, k + 1)
                fns |= S["fns"]
                if tt[0] == "ref" and tt[1][0] == "adt" and S["out"]:
                    for f, r in S["out"].items():
                        ff = q + f
                        if f in S["live"]:
                            read(ff, st)
                        if ff in st:
                            st[ff] = frozenset().union(*[st[ff] if x == UNCHANGED else {x} for x in r])
                            if DIRTY in r:
                                at[ff] = S["at"].get(f, loc)
                    continue
                if tt[0] == "ref" and tt[1][0] == "adt" and tt[1][1] in p.adts and p.adts[tt[1][1]].get("local"):
                    continue        # has nothing but the destination, or never returns
            nm = (fi or {}).get("name", "")
            if nm in READS:
                read(q, st)
            elif nm in CLEARS:
                if nm == "take":
                    read(q, st)
                empty = all(self.initial.get((lv[f][1], lv[f][2])) == {EMPTY} for f in under(q, lv))
                write(q, st, RESET if empty else DIRTY, loc)
            else:
                read(q, st)
                write(q, st, DIRTY, loc)


def under(q, lv):
    return [f for f in lv if f[:len(q)] == q or q[:len(f)] == f]


def adt_of(a):
    return a


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "sw":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []
