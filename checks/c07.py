"""C07: every encoder refuses a pixel buffer of the wrong length before it writes anything."""
from vlib import terms as T
from vlib.errflow import is_failure
from . import encoders as N
from . import limits as L


def run(ck):
    p = ck.p
    ck.rule("length", "no write to the destination and no success is reachable unless the pixel buffer is exactly as long as width, height "
            "and colour type require", 150)
    ck.assumptions += ["the gif crate's Frame constructors panic on a wrong pixel count"]
    X, cols = N.colours(p)
    for e in N.entries(p):
        for cv, cn, bits in cols:
            pl = len(p.adts[X]["variants"][cv]["f"])
            inst = "%s(%s)" % (e.name, cn)
            if ck.each("length", inst, one, ck, e, X, cv, cn, bits, pl, inst) == "nocolour":
                break


def one(ck, e, X, cv, cn, bits, pl, inst):
    p = ck.p
    E, outs, takes, unit = N.run(ck, e, cv, X, pl)
    where = "%s (%s)" % (e.it["path"], p.loc_of_item(e.it))
    if not takes:
        # the encoder's only colour type
        bits = 8 if unit == "pixels" else {"FarbfeldEncoder": 64}.get(e.name.split("::")[0])
        inst = e.name
        if bits is None:
            ck.und("length", inst, "no colour argument")
            return "nocolour"
    n = 0
    und = None
    for o in outs:
        if o.kind == "panic":
            continue
        if o.kind == "ret" and is_failure(E, o.st, o.val) is True:
            continue
        wr = [x for x in o.st.eff if x[0] == "write"]
        r, t = judge(o, bits)
        if r is None:
            und = "%s: length condition not determined: %s" % (where, t)
        elif r is False:
            what = "%s at %s" % (wr[0][1], wr[0][4][2]) if wr else "success"
            ck.bad("length", inst, "%s: %s is reached with %s, %s" % (where, what, t, cn if takes else "the only colour type"))
            return "nocolour" if not takes else None
        else:
            n += 1
    if und:
        ck.und("length", inst, und)
    else:
        ck.ok("length", inst, "%d writing paths" % n if n else "refused before writing")
    return "nocolour" if not takes else None


def judge(o, bits):
    und = None
    ub = [0, 1, 7, 24] if bits is None else [bits]
    for b in ub:
        for w in (0, 1, 3, 8, 256, 70000, 2**32 - 1):
            for h in (0, 1, 5, 2**32 - 1):
                tot = N.need(b, w, h)
                for l in sorted({0, 1, tot - 1, tot + 1, tot * 2, tot // 2, tot + max(1, b // 8), tot + -(-b * w // 8), tot + max(1, b // 8) * w}):
                    if l == tot or l < 0 or l > 2**63:
                        continue
                    env = {N.W: w, N.H: h, N.LEN: l, N.UNK: b}
                    f, u = L.feasible(o, env)
                    if f is False:
                        continue
                    if any(L.mentions(t, [N.LEN]) for t in u):
                        und = [T.show(t)[:160] for t in u if L.mentions(t, [N.LEN])][0]
                        continue
                    return False, "a buffer of length %d for %dx%d (%d needed)" % (l, w, h, tot)
    return (None, und) if und else (True, "")
