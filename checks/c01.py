"""C01: no I/O failure is swallowed anywhere in the crate."""
import re
from vlib import absint, errflow, graph, terms as T

# External callees whose error is not an I/O failure: they convert or inspect data already in memory.
MEM_ONLY = re.compile(r"^(Value::into_\w+|AvifContext::\w+|str::parse|String::from_utf8|str::from_utf8|"
                      r"TryInto::try_into|TryFrom::try_from|NumCast::from)$")
# Error values that cannot be returned: (function, callee, why).
EXCEPT = [
    (r"^<.* as std::ops::Drop>::drop$", r"", "a destructor has no way to report; C03 requires the explicit flush or finish before it"),
]
DROPPING = ("flatten", "take_while", "skip_while", "filter", "filter_map", "flat_map", "map_while", "skip", "step_by", "nth",
            "last", "count", "min", "max")


def in_memory(ty):
    """reading from or writing to such a value is not I/O"""
    while ty[0] == "ref":
        ty = ty[1]
    if ty[0] in ("slice", "array"):
        return True
    if ty[0] == "adt" and ty[1] in ("std::io::Cursor", "std::vec::Vec"):
        return True
    return False


def has_result(car, ty):
    if ty[0] == "adt":
        return car.result(ty) or any(has_result(car, a) for a in ty[2])
    if ty[0] == "tuple":
        xs = ty[1] if ty[1:] and ty[1] and isinstance(ty[1][0], tuple) else ty[1:]
        return any(has_result(car, a) for a in xs if a)
    return ty[0] == "param"


class IoFns:
    """local functions whose error can stem from an I/O operation (transitively)"""

    def __init__(self, p, car):
        self.p, self.car = p, car
        g = self.g = graph.load(p)
        direct = set()
        for k, sites in g.sites.items():
            for s in sites:
                if self.external_io(s):
                    direct.add(k)
                    break
        rev = {}
        for k in g.sites:
            for x in g.succ(k):
                rev.setdefault(x, set()).add(k)
        work = list(direct)
        self.io = set(direct)
        while work:
            x = work.pop()
            for y in rev.get(x, ()):
                if y not in self.io:
                    self.io.add(y)
                    work.append(y)

    def external_io(self, s):
        if s.fi is None:
            return True
        if self.g.targets(s.fi, s.fargs):
            return False
        if MEM_ONLY.match(s.name):
            return False
        if s.name.split("::")[0] in ("Result", "Option", "Try", "FromResidual", "Iterator", "IntoIterator"):
            return False
        ty = self.p.ty(s.item["body"]["locals"][s.t[3][0]][0]) if len(s.t[3]) == 1 else None
        if ty is None or not self.car(ty) or not has_result(self.car, ty):
            return False
        if s.fargs and in_memory(s.fargs[0]) and s.name.split("::")[0] in ("Read", "Write", "ReadBytesExt", "WriteBytesExt", "Seek", "BufRead"):
            return False
        return True

    def callee_is_io(self, fi, fargs):
        ts = self.g.targets(fi, fargs)
        if ts:
            return any(t["key"] in self.io for t in ts)
        return None


def run(ck):
    p = ck.p
    ck.rule("consumed", "every result that can carry an I/O error is, on every path on which it is an error, reported to the caller "
            "(or is a retried Interrupted); none is dropped unexamined", 120)
    ck.rule("iterators", "iterators over I/O results are not thinned out by adaptors that drop failed items", 0)
    ck.assumptions += ["errors swallowed inside third-party codec crates are outside", "a destructor cannot report errors",
                       "handing an error to a call other than an observer (kind, fmt, Result/Option combinators) is treated as reporting it",
                       "reads from in-memory slices and cursors are not I/O"]
    car = errflow.Carrier(p)
    io = IoFns(p, car)
    consumed(ck, "consumed", car, io)
    iterators(ck, car, io)


def consumed(ck, rid, car, io, only=None):
    p = ck.p
    ck.stats["call_sites"] += sum(len(v) for v in io.g.sites.values())
    total = 0
    for it in p.fns():
        body = it["body"]
        if it.get("derived") or (only is not None and not only(it)):
            continue
        has = any(b["t"][0] == "call" and car(p.ty(body["locals"][b["t"][3][0]][0])) for b in body["blocks"])
        if not has and it["kind"] == "closure":
            has = any(car(p.ty(body["locals"][k + 1][0])) for k in range(1, body["argc"]))
        if not has:
            continue
        def one():
            nonlocal total
            try:
                probs, n, E = errflow.analyse(p, it, car, ck, max_paths=6000, max_steps=150000)
            except absint.Undecided as e:
                probs, n, E = coarse(p, it, car)
            total += n
            keep = []
            for q in probs:
                if q[1].startswith("parameter ") and q[0] != "predicate" and combinator_closure(io, it):
                    continue            # analysed in place, with the call that produced the result
                if q[0] == "predicate":
                    keep += predicate(p, io, it, q)
                    continue
                fi = q[4] if len(q) > 4 else None
                if fi is not None:
                    r = io.callee_is_io(*fi)
                    if r is False:
                        continue
                    if r is None and MEM_ONLY.match(q[1]):
                        continue
                    if r is None and fi[1] and in_memory(fi[1][0]) and q[1].split("::")[0] in ("Read", "Write", "ReadBytesExt", "WriteBytesExt", "Seek"):
                        continue
                if any(re.search(a, it["path"]) and re.search(b, q[1]) for a, b, _ in EXCEPT):
                    continue
                keep.append(q)
            for q in keep:
                ck.bad(rid, "%s:%s" % (it["path"], q[1]),
                       "%s (%s): the error of %s (%s) is %s" % (it["path"], p.loc_of_item(it), q[1], q[2][2],
                       {"lost": "observed but success is returned", "ignored": "never examined", "retried": "observed and the operation is retried for any kind of error",
                        "predicate": "dropped by the iterator adaptor"}[q[0]]))
            if not keep:
                ck.ok(rid, it["path"], n)
        ck.each(rid, it["path"], one)
    ck.stats["obligations_in_functions"] = total


def iterators(ck, car, io):
    p = ck.p
    # adaptors given a function item, or flatten, over I/O results
    for k, sites in io.g.sites.items():
        for s in sites:
            if s.fi and s.fi["name"] in DROPPING and s.fargs and (s.name.startswith("Iterator::") or "Iterator" in s.name):
                if errflow.item_carries(p, car, s.fargs[0]):
                    clo = [a for a in s.fargs[1:] if a[0] == "closure"]
                    if clo and s.fi["name"] in ("filter", "take_while", "skip_while", "filter_map", "map_while", "flat_map"):
                        continue        # the closure itself is judged under "consumed"
                    ck.bad("iterators", "%s:%s" % (s.item["path"], s.name),
                           "%s (%s): %s silently drops failed reads" % (s.item["path"], p.loc(s.t[6]), s.name))
                else:
                    ck.ok("iterators", "%s:%s:%d" % (s.item["path"], s.name, s.bb))


def coarse(p, it, car):
    """Fallback for functions with too many paths: flow-insensitive - every carrying call result must reach a `?`,
    a match whose error arm returns, or the return place. Only unused results are reported."""
    body = it["body"]
    used = set()
    def mark(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] in ("cp", "mv") :
                pl = x[1]
                used.add(pl[0] if isinstance(pl, (list, tuple)) else pl)
            for y in x:
                mark(y)
    n = 0
    cand = []
    for bb, b in enumerate(body["blocks"]):
        for s in b.get("s", ()):
            mark(s)
        t = b["t"]
        if t[0] == "call":
            mark(t[2])
            if len(t[3]) == 1 and car.result(p.ty(body["locals"][t[3][0]][0])):
                n += 1
                cand.append((bb, t))
        else:
            mark(t)
    probs = []
    for bb, t in cand:
        if t[3][0] != 0 and t[3][0] not in used:
            nm = absint.canon(p, t[1][1]["fn"]) if t[1][0] == "k" and t[1][1].get("fn") else "call"
            probs.append(("ignored", nm, (it["path"], bb, p.loc(t[6]))))
    return probs, n, None


def consumers(io, it):
    names = set()
    for s in io.g.sites.get(it.get("parent") or it.get("root"), ()):
        if any(a[0] == "closure" and a[1] == it["key"] for a in s.fargs):
            names.add(s.name)
    return names


def combinator_closure(io, it):
    n = consumers(io, it)
    return bool(n) and all(x.split("::")[0] in ("Option", "Result") for x in n)


def predicate(p, io, it, q):
    """closure over an I/O result that answers a bool on failure: which adaptor consumes the answer?"""
    val = q[3]
    names = {n.split("::")[-1] for n in consumers(io, it)}
    keepv = {"filter": 1, "take_while": 1, "skip_while": 0, "any": None, "all": None, "find": None, "position": None}
    for n in names:
        want = keepv.get(n)
        if want is None or val != ("c", want) and val != ("c", bool(want)):
            return [("predicate", n, q[2])]
    return []
